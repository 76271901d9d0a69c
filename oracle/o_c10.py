from lib import *
import contextlib
import io
from discretehelpers.set_part import SetPart
from setmodel import Model, Reject, random_history, run_model, domain_elements


def run_real(p, op):
    with contextlib.redirect_stdout(io.StringIO()):
        if op[0] == 'pair':
            p.merge_pair(op[1], op[2])
        elif op[0] == 'many':
            p.merge_many(op[1])
        elif op[0] == 'refine':
            p.refine_block(*op[1:])
        elif op[0] == 'label element':
            p.add_label_to_element(op[1], op[2])
        elif op[0] == 'label block':
            p.add_label_to_block(op[1], op[2])


def views(p, m, elements, what):
    eq([list(b) for b in p.blocks], m.blocks(), what + ' blocks')
    for a in elements:
        eq(list(p.element_to_block(a)), m.block_of(a), what + f' element_to_block({a})')
        for b in elements:
            if a != b:
                eq(bool(p.pair_in_same_block(a, b)), m.same(a, b), what + f' pair_in_same_block({a}, {b})')
        k = p.non_singleton_to_block_index_or_none(a)
        if len(m.block_of(a)) > 1:
            eq(list(p.blocks[k]), m.block_of(a), what + ' block index')
        else:
            eq(k, None, what + ' block index of a singleton')
    non = {e for b in m.blocks() for e in b}
    eq(set(p.non_singletons), non, what + ' non_singletons')
    eq({e: m.blocks().index(m.block_of(e)) for e in non}, dict(p.non_singleton_to_block_index), what + ' index')
    eq(set(p.pairs), {(a, b) for bl in m.blocks() for i, b in enumerate(bl) for a in bl[:i]}, what + ' pairs')
    eq(bool(p.trivial), not non, what + ' trivial')
    if m.domain == 'N':
        eq(p.length, max(non) + 1 if non else 0, what + ' length')
        v = 0
        for bl in m.blocks():
            for i, b in enumerate(bl):
                for a in bl[:i]:
                    v += 1 << b * (b - 1) // 2 + a
        eq(p.intval, v, what + ' intval')
        singles = [[e] for e in range(p.length) if e not in non]
        eq(p.blocks_with_singletons(), sorted(m.blocks() + singles), what + ' blocks_with_singletons')
        n = p.length + 3
        eq(p.blocks_with_singletons(n), sorted(m.blocks() + [[e] for e in range(n) if e not in non]), what + ' blocks_with_singletons(length)')
        if p.length:
            assert raises(lambda: p.blocks_with_singletons(p.length - 1)), what
        assert raises(lambda: p.singletons), what
    elif m.domain == 'Z':
        lo, hi = (min(non), max(non) + 1) if non else (0, 0)
        eq(p.blocks_with_singletons(), sorted(m.blocks() + [[e] for e in range(lo, hi) if e not in non]), what + ' blocks_with_singletons')
        eq(p.blocks_with_singletons(range_pair=(lo - 2, hi + 2)), sorted(m.blocks() + [[e] for e in range(lo - 2, hi + 2) if e not in non]), what + ' range')
        if non:
            assert raises(lambda: p.blocks_with_singletons(range_pair=(lo + 1, hi))) and raises(lambda: p.blocks_with_singletons(range_pair=(lo, hi - 1))), what
    else:
        singles = {e for e in elements if e not in non}
        eq(set(p.singletons), singles, what + ' singletons')
        eq(p.blocks_with_singletons(), sorted(m.blocks() + [[e] for e in singles]), what + ' blocks_with_singletons')
    if m.domain not in ('N', 'Z') or True:
        eq(p.canonical_blocks_with_singletons, p.blocks_with_singletons(), what + ' canonical blocks')
    eq(p.blocks_with_singletons(elements=set(elements) | non), sorted(m.blocks() + [[e] for e in elements if e not in non]), what + ' elements')
    fresh = SetPart([b[::-1] for b in m.blocks()][::-1], domain=m.domain)
    assert p == fresh and fresh == p and not p != fresh, what + ' equality'
    if len(elements) > 2:
        k, l = elements[0], elements[1]
        other = SetPart([list(b) for b in m.blocks()], domain=m.domain)
        if not m.same(k, l):
            other.merge_pair(k, l)
            assert other != p and not other == p, what + ' inequality'


def histories(rng, tier):
    for _ in range(500 * (6 if tier == 'thorough' else 1)):
        yield random_history(rng)
    for _ in range(40):
        yield random_history(rng, length=20)


@oracle('C10', histories)
def closure_of_the_history(domain, blocks, ops):
    p = SetPart([list(b) for b in blocks], domain=domain)
    m = Model(domain, blocks)
    elements = domain_elements(domain)
    views(p, m, elements, 'constructed')
    for k, op in enumerate(ops):
        verdict = run_model(m, op)
        if verdict:
            assert raises(lambda: run_real(p, op), ValueError, TypeError), f'step {k} {op} accepted'
        else:
            run_real(p, op)
        views(p, m, elements, f'after step {k} {op}')


@oracle('C10', lambda rng, t: [(bl, d) for d in ('N', 'Z', list(range(5)), (0, 1, 2, 3, 4)) for bl in (
    [[0, 1], [1, 2]], [[0, 1, 2], [2, 3]], [[0, 1, 1]], [[3, 4], [4, 0], [1, 2]], [[0, 1], [0, 2], [3, 0]])])
def overlapping_blocks_are_rejected(blocks, domain):
    assert raises(lambda: SetPart(blocks, domain=domain), ValueError), 'accepted'


@oracle('C10', lambda rng, t: [([[0, -1]], 'N'), ([[0, 1], [2, -5]], 'N'), ([['a', 'b']], 'Z'), ([[0, 5]], list(range(5))), ([[0, 1], [7]], range(5)), ([[1, 2, 9]], {1, 2, 3}),
                               ([[0, 1.5]], 'Z'), ([[0, 0.5]], 'N')])
def elements_outside_are_rejected(blocks, domain):
    assert raises(lambda: SetPart(blocks, domain=domain), ValueError), 'constructor accepted'
    p = SetPart([], domain=domain)
    for b in blocks:
        if len(b) > 1 and any(not p.element_in_domain(e) for e in b):
            assert raises(lambda: p.merge_pair(b[0], b[-1]), ValueError), 'merge_pair accepted'
            assert raises(lambda: p.merge_many(b), ValueError), 'merge_many accepted'
            assert raises(lambda: p.merge_pair(b[-1], b[0]), ValueError), 'merge_pair accepted'


@oracle('C10', lambda rng, t: [(bl,) for n in range(6) for bl in set_partitions(n)])
def every_small_partition(blocks):
    """constructed at once, by merging pairs, and by merging many: always the same partition"""
    n = sum(map(len, blocks))
    m = Model('N', blocks)
    rng = random.Random(repr(blocks))
    a = SetPart([list(b) for b in blocks])
    b = SetPart()
    c = SetPart()
    pairs = [(x, y) for bl in blocks for x in bl for y in bl if x != y]
    rng.shuffle(pairs)
    for x, y in pairs:
        b.merge_pair(x, y)
    for bl in blocks:
        c.merge_many(rng.sample(bl, len(bl)))
    d = SetPart([list(range(n))])
    if n > 1:
        d.refine_block([list(bl) for bl in blocks])
        views(d, m, list(range(n)), 'refined')
    for what, p in (('constructed', a), ('pairs', b), ('many', c)):
        views(p, m, list(range(n)), what)
    assert raises(lambda: SetPart([[0, 1]], domain='abc')) and raises(lambda: SetPart([[0, 1]], domain=7))
    assert raises(lambda: SetPart([[0, 1]]) == SetPart([[0, 1]], 'Z'))
