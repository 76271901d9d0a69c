from lib import *
import contextlib
import copy
import io
from discretehelpers.set_part import SetPart
from discretehelpers.set_part.methods.block_labels.ex import LabelContradictionError
from discretehelpers.a import inventory_partition
from setmodel import Model, random_history, run_model, domain_elements
from o_c10 import run_real, views


def label_views(p, m, elements, what):
    eq({tuple(k): v for k, v in p.block_labels.items()}, m.labelled(), what + ' labels')
    for e in elements:
        lab = m.label_of(e)
        eq(p.get_label_from_element(e), lab, what + f' get_label_from_element({e})')
        eq(p.get_label_from_block(m.block_of(e)), lab, what + f' get_label_from_block({e})')
        if lab is not None:
            eq(p.get_block_from_label(lab), m.block_of(e), what + f' get_block_from_label({lab})')
            eq(p.get_block_from_element(e), m.block_of(e), what + f' get_block_from_element({e})')
    for lab in ('red', 'green', 'blue', 0, 7, (1, 2)):
        if lab not in m.labels:
            eq(p.get_block_from_label(lab), None, what + ' unused label')
    eq(len(set(p.block_labels.values())), len(p.block_labels), what + ' one to one')


def histories(rng, tier):
    for _ in range(700 * (6 if tier == 'thorough' else 1)):
        yield random_history(rng, labels=True, length=rng.randrange(1, 12))
    for _ in range(40):
        yield random_history(rng, labels=True, length=30)


@oracle('C11', histories)
def labels_follow_the_history(domain, blocks, ops):
    p = SetPart([list(b) for b in blocks], domain=domain)
    m = Model(domain, blocks)
    elements = domain_elements(domain)
    for k, op in enumerate(ops):
        if domain in ('N', 'Z') and op[0].startswith('label'):
            # singletons outside the shown range of an infinite domain may be rejected
            e = op[1] if op[0] == 'label element' else (op[1] or [0])[0]
            if m.inside(e) and [e] == m.block_of(e) and [e] not in p.blocks_with_singletons():
                trial = copy.deepcopy(m)
                verdict = run_model(trial, op)
                if not raises(lambda: run_real(p, op), ValueError):
                    assert not verdict, f'step {k} {op} accepted'
                    m = trial
                label_views(p, m, elements, f'after step {k} {op}')
                continue
        verdict = run_model(m, op)
        if verdict == 'contradiction':
            assert raises(lambda: run_real(p, op), LabelContradictionError), f'step {k} {op}: no LabelContradictionError'
        elif verdict:
            assert raises(lambda: run_real(p, op)), f'step {k} {op} accepted'
        else:
            run_real(p, op)
        label_views(p, m, elements, f'after step {k} {op}')
        views(p, m, elements, f'after step {k} {op}')


def vectors(rng, tier):
    for n in range(5):
        for v in itertools.product('abc'[:3], repeat=n):
            yield list(v),
    for _ in range(100):
        yield [rng.choice([1, 2, 'x', 'y', 0, (3, 4)]) for _ in range(rng.randrange(12))],


@oracle('C11', vectors)
def inventory(values):
    p = inventory_partition(list(values))
    t = inventory_partition(tuple(values))
    d = inventory_partition(dict(enumerate(values)))
    s = inventory_partition({10 * i - 7: v for i, v in enumerate(values)})
    groups = {}
    for i, v in enumerate(values):
        groups.setdefault(v, []).append(i)
    for what, q, f in (('list', p, lambda i: i), ('tuple', t, lambda i: i), ('dict', d, lambda i: i), ('other keys', s, lambda i: 10 * i - 7)):
        eq([list(b) for b in q.blocks], sorted([f(i) for i in g] for g in groups.values() if len(g) > 1), what + ' blocks')
        eq({tuple(k): v for k, v in q.block_labels.items()}, {tuple(f(i) for i in g): v for v, g in groups.items()}, what + ' labels')
        eq(q.domain, {f(i) for i in range(len(values))}, what + ' domain')
        for i, v in enumerate(values):
            eq(q.get_label_from_element(f(i)), v, what + ' label of an element')
            eq(q.get_block_from_label(v), [f(k) for k in groups[v]], what + ' block of a label')
    assert raises(lambda: inventory_partition('abc')) and raises(lambda: inventory_partition(5))
