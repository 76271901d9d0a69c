from lib import *
from discretehelpers.set_part_comp import SetPartComp
from discretehelpers.set_part import SetPart


class Parity:
    """elements with a sign relative to a root: equal if same root and sign, complementary if same root and other sign"""
    def __init__(self):
        self.groups = []  # dicts element -> sign

    def group(self, e):
        for g in self.groups:
            if e in g:
                return g
        g = {e: 0}
        self.groups.append(g)
        return g

    def relation(self, a, b):
        ga = self.group(a)
        if b not in ga:
            return None
        return ga[a] ^ ga[b]

    def add(self, a, b, sign):
        r = self.relation(a, b)
        if r is not None:
            return r == sign
        ga, gb = self.group(a), self.group(b)
        flip = ga[a] ^ gb[b] ^ sign
        self.groups = [g for g in self.groups if g is not gb]
        for e, s in gb.items():
            ga[e] = s ^ flip
        return True

    def sides(self):
        for g in self.groups:
            yield sorted(e for e in g if g[e] == 0), sorted(e for e in g if g[e] == 1)


def views(p, m, elements, what):
    for a in elements:
        for b in elements:
            r = m.relation(a, b)
            eq(bool(p.are_equal(a, b)), r == 0, what + f' are_equal({a}, {b})')
            eq(bool(p.are_comp(a, b)), r == 1, what + f' are_comp({a}, {b})')
        block = sorted(b for b in elements if m.relation(a, b) == 0)
        comp = sorted(b for b in elements if m.relation(a, b) == 1)
        eq(list(p.get_block(a)), block, what + f' get_block({a})')
        eq(p.get_repr(a), block[0], what + f' get_repr({a})')
        eq(p.get_comp(a), comp[0] if comp else None, what + f' get_comp({a})')
    eq({tuple(x) for x in p.all_complement_pairs()}, {(a, b) for a in elements for b in elements if a < b and m.relation(a, b) == 1}, what + ' all_complement_pairs')
    rp = p.related_part()
    related = sorted(sorted(x + y) for x, y in m.sides() if len(x) + len(y) > 1)
    eq([list(b) for b in rp.blocks], related, what + ' related_part')
    eq(p.number_of_related_blocks(), len(related), what + ' number_of_related_blocks')
    eq(list(p.affected_elements()), sorted(e for b in related for e in b), what + ' affected_elements')
    eq(p.number_of_affected_elements(), sum(map(len, related)), what + ' number_of_affected_elements')
    if related:
        eq(p.length(), max(e for b in related for e in b) + 1, what + ' length')
    eq({tuple(x) for x in p.comp_pairs}, {tuple(sorted((x[0], y[0]))) for x, y in m.sides() if x and y}, what + ' comp_pairs')
    eq([list(b) for b in p.equal_part.blocks], sorted(s for xy in m.sides() for s in xy if len(s) > 1), what + ' equal_part')


def holds(m, n):
    for x, y in m.sides():
        bits = {n >> e & 1 for e in x}
        other = {n >> e & 1 for e in y}
        if len(bits) > 1 or len(other) > 1 or bits & other:
            return False
    return True


def histories(rng, tier):
    def steps(k, n):
        return [[rng.choice(['equal', 'equal', 'comp', 'comp', 'comp']), rng.randrange(n), rng.randrange(n)] for _ in range(k)]
    for k in range(1, 4):
        for ops in itertools.product([(o, a, b) for o in ('equal', 'comp') for a in range(3) for b in range(3)], repeat=k):
            if k < 3 or rng.random() < 0.05:
                yield [list(o) for o in ops],
    for _ in range(400 * (6 if tier == 'thorough' else 1)):
        n = rng.randrange(2, 9)
        yield steps(rng.randrange(1, 14), n),
    for _ in range(30):
        yield steps(40, 20),


@oracle('C13', histories)
def closed_and_consistent(ops):
    p, m = SetPartComp(), Parity()
    elements = sorted({x for o in ops for x in o[1:]} | {0, 1})
    for k, (o, a, b) in enumerate(ops):
        ok = m.add(a, b, 0 if o == 'equal' else 1)
        f = (lambda: p.set_equal(a, b)) if o == 'equal' else (lambda: p.set_comp(a, b))
        if ok:
            f()
        else:
            assert raises(f, ValueError), f'step {k} {o} {a} {b} accepted'
        views(p, m, elements, f'after step {k} {o} {a} {b}')
    again = SetPartComp([list(b) for b in p.equal_part.blocks], {tuple(x) for x in p.comp_pairs})
    views(again, m, elements, 'built from its parts')
    assert again == p
    top = max(elements) + 1
    rng = random.Random(repr(ops))
    numbers = range(2 ** top) if top <= 5 else [rng.getrandbits(top + 1) for _ in range(40)]
    for n in numbers:
        eq(bool(p.int_matches(n)), holds(m, n), f'int_matches({n})')
    # a matching number, built from the model
    n = 0
    for x, y in m.sides():
        side = x if rng.random() < 0.5 else y
        for e in side:
            n |= 1 << e
    assert p.int_matches(n), f'int_matches({n})'
    if top <= 9:
        f = p.boolf()
        for n in numbers:
            k = sum((n >> a & 1) << i for i, a in enumerate(f.atomvals))
            v = bool(f.root) if not f.atomvals else bool(f.root[k])
            eq(v, holds(m, n), f'boolf at {n}')


@oracle('C13', lambda r, t: [([[0, 1]], [(0, 1)]), ([[0, 1], [2, 3]], [(1, 0), (2, 4)]), ([[2, 5, 7]], [(7, 2)])])
def contradicting_arguments(blocks, pairs):
    assert raises(lambda: SetPartComp(blocks, pairs), ValueError)
    assert raises(lambda: SetPartComp(comp_pairs=pairs), ValueError)


def negative(rng, tier):
    for _ in range(150):
        yield [[rng.choice(['equal', 'comp']), rng.randrange(-4, 5), rng.randrange(-4, 5)] for _ in range(rng.randrange(1, 9))],


@oracle('C13', negative)
def integers(ops):
    p, m = SetPartComp(), Parity()
    elements = sorted({x for o in ops for x in o[1:]} | {0, 1})
    for k, (o, a, b) in enumerate(ops):
        ok = m.add(a, b, 0 if o == 'equal' else 1)
        f = (lambda: p.set_equal(a, b)) if o == 'equal' else (lambda: p.set_comp(a, b))
        if ok:
            f()
        else:
            assert raises(f, ValueError), f'step {k} {o} {a} {b} accepted'
        views(p, m, elements, f'after step {k} {o} {a} {b}')
