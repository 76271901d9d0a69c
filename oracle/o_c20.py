import numpy as np
from collections import defaultdict
from boolmodel import *
from o_c17 import weight, walsh
from discretehelpers.a import *
from discretehelpers.a import (make_atompattern_gen, make_atompattern, make_atompatterns, atompattern_to_signed_index, make_linear_binv,
                               make_linear_boolf, arity_to_walsh_matrix, walsh_function_to_index, linear_to_walsh_and_oddness,
                               linear_to_leader_and_quadrant, sierpinski, int_to_sierpinski_row, vector_zip_apart, vector_zip_together,
                               sort_together, sorted_colex, hypercube_edges, powerset, key_tuples, inventory_dict, inventory_partition,
                               sort_rows_together, sort_cols_together, repeat_sequence)
from lib import oracle, eq, raises


def arities(rng, tier):
    for n in range(1, 9):
        for a in range(n):
            for s in (a, ~a):
                yield s, n
    for n in (10, 12):
        for a in range(0, n, 3):
            yield a, n
            yield ~a, n


@oracle('C20', arities)
def patterns(atom, n):
    a = max(atom, ~atom)
    want = [(k >> a & 1) ^ (atom < 0) for k in range(1 << n)]
    eq([int(v) for v in make_atompattern_gen(atom, n)], want, f'make_atompattern_gen({atom}, {n})')
    eq([int(v) for v in make_atompattern_gen(atom, n, negate=True)], [1 - v for v in want], f'make_atompattern_gen({atom}, {n}, negate)')
    p = make_atompattern(atom, n)
    assert isinstance(p, Binv)
    eq(bits(p), want, f'make_atompattern({atom}, {n})')
    eq(bits(make_atompattern(atom, n, True)), [1 - v for v in want], f'make_atompattern({atom}, {n}, True)')
    got = atompattern_to_signed_index(p)
    eq((got[0], bool(got[1])), (a, atom < 0), f'atompattern_to_signed_index of {atom}, {n}')
    eq((lambda x: (x[0], bool(x[1])))(atompattern_to_signed_index(want)), (a, atom < 0), 'atompattern_to_signed_index of a list')
    eq([bits(x) for x in make_atompatterns(n)], [[k >> i & 1 for k in range(1 << n)] for i in range(n)], f'make_atompatterns({n})')
    if n < 7:
        rng = random.Random(f'{atom}{n}')
        atoms = [rng.choice([x, ~x]) for x in rng.sample(range(n), n)]
        want = [[(k >> max(x, ~x) & 1) ^ (x < 0) for k in range(1 << n)] for x in atoms]
        eq([bits(x) for x in make_atompatterns(atoms)], want, f'make_atompatterns({atoms})')
        eq([bits(x) for x in make_atompatterns(tuple(atoms))], want, f'make_atompatterns({tuple(atoms)})')
    assert raises(lambda: make_atompattern(n, n)) and raises(lambda: make_atompattern(~n, n))
    assert raises(lambda: atompattern_to_signed_index([0, 1, 1, 0]))


def linear(rng, tier):
    for n in range(1, 7):
        for w in range(1 << n):
            yield w, n
    for n in (7, 8, 10):
        for w in [0, 1, (1 << n) - 1, 1 << n - 1] + [rng.randrange(1 << n) for _ in range(6 if n < 10 else 1)]:
            yield w, n


def leader_of(w):
    return sum(1 for k in range(w) if weight(k) % 2 == weight(w) % 2)


@oracle('C20', linear)
def linear_functions(w, n):
    table = [weight(k & w) % 2 for k in range(1 << n)]
    g = fn_of(table)
    other = fn_of([1 - v for v in table])
    for parity, want in ((0, table), (1, [1 - v for v in table])):
        b = make_linear_binv(w, n, parity)
        assert isinstance(b, Binv)
        eq(bits(b), want, f'make_linear_binv({w}, {n}, {parity})')
        same(make_linear_boolf(w, parity), g if not parity else other, f'make_linear_boolf({w}, {parity})')
        quadrant = parity + 2 * (weight(w) % 2 ^ parity)
        leader = leader_of(w)
        eq(bits(make_linear_binv(arity=n, leader=leader, quadrant=quadrant)), want, f'make_linear_binv(arity={n}, leader={leader}, quadrant={quadrant})')
        same(make_linear_boolf(leader=leader, quadrant=quadrant), g if not parity else other, f'make_linear_boolf(leader={leader}, quadrant={quadrant})')
        for trust in (False, True):
            for arg in (b, want, tuple(want), ''.join(map(str, want))):
                eq(tuple(linear_to_walsh_and_oddness(arg, trust=trust)), (w, parity), f'linear_to_walsh_and_oddness of {w}, {n}, {parity}, trust={trust}')
                eq(tuple(linear_to_leader_and_quadrant(arg, trust=trust)), (leader, quadrant), f'linear_to_leader_and_quadrant of {w}, {n}, {parity}, trust={trust}')
        eq(tuple(linear_to_walsh_and_oddness(make_linear_boolf(w, parity))), (w, parity), f'linear_to_walsh_and_oddness of the Boolf {w}, {parity}')
        eq(tuple(linear_to_leader_and_quadrant(make_linear_boolf(w, parity))), (leader, quadrant), f'linear_to_leader_and_quadrant of the Boolf {w}, {parity}')
    eq(bits(make_linear_binv(w, n)), table, f'make_linear_binv({w}, {n})')
    for trust in (False, True):
        eq(walsh_function_to_index(table, trust=trust), w, f'walsh_function_to_index of {w}, {n}, trust={trust}')
        eq(walsh_function_to_index(Binv(table), trust=trust), w, f'walsh_function_to_index of Binv {w}, {n}, trust={trust}')
    assert raises(lambda: make_linear_binv(1 << n, n)), f'make_linear_binv({1 << n}, {n}) accepted'
    if n < 2:
        return
    rng = random.Random(f'{w}{n}')
    for _ in range(4):    # one or some places changed: not linear for length 4 and more
        bad = list(table)
        for k in rng.sample(range(1 << n), rng.choice([1, 1, 3])):
            bad[k] ^= 1
        if bad[0] == 0 and any(bad != [weight(k & v) % 2 for k in range(1 << n)] for v in [sum(bad[1 << i] << i for i in range(n))]):
            assert raises(lambda: walsh_function_to_index(bad)), f'walsh_function_to_index({bad}) accepted'
        v = sum((bad[1 << i] ^ bad[0]) << i for i in range(n))
        if bad != [(weight(k & v) + bad[0]) % 2 for k in range(1 << n)]:
            assert raises(lambda: linear_to_walsh_and_oddness(bad)), f'linear_to_walsh_and_oddness({bad}) accepted'
            assert raises(lambda: linear_to_leader_and_quadrant(bad)), f'linear_to_leader_and_quadrant({bad}) accepted'


def all_vectors(rng, tier):
    for n in (1, 2, 3):
        for v in itertools.product([0, 1], repeat=1 << n):
            yield list(v),
    for _ in range(60):
        n = rng.randrange(2, 6)
        yield [rng.randrange(2) for _ in range(1 << n)],
    for length in (3, 5, 6, 7, 9, 12):
        yield [rng.randrange(2) for _ in range(length)],
        yield [0] * length,


@oracle('C20', all_vectors)
def recognition(v):
    n = (len(v) - 1).bit_length()
    power = len(v) == 1 << n
    w = sum((v[1 << i] ^ v[0]) << i for i in range(n)) if power else 0
    is_linear = power and v == [(weight(k & w) + v[0]) % 2 for k in range(len(v))]
    if is_linear:
        eq(tuple(linear_to_walsh_and_oddness(v)), (w, v[0]), f'linear_to_walsh_and_oddness({v})')
    else:
        assert raises(lambda: linear_to_walsh_and_oddness(v)), f'linear_to_walsh_and_oddness({v}) accepted'
        assert raises(lambda: linear_to_leader_and_quadrant(v)), f'linear_to_leader_and_quadrant({v}) accepted'
    if is_linear and not v[0]:
        eq(walsh_function_to_index(v), w, f'walsh_function_to_index({v})')
    else:
        assert raises(lambda: walsh_function_to_index(v)), f'walsh_function_to_index({v}) accepted'


def degrees(rng, tier):
    for n in range(0, 7 if tier != 'thorough' else 9):
        yield n,


@oracle('C20', degrees)
def matrices(n):
    size = 1 << n
    want = [[weight(i & j) % 2 for j in range(size)] for i in range(size)]
    eq(arity_to_walsh_matrix(n).tolist(), want, f'arity_to_walsh_matrix({n})')
    eq(arity_to_walsh_matrix(n, negate=True).tolist(), [[1 - v for v in r] for r in want], f'arity_to_walsh_matrix({n}, negate)')
    edges = sorted((a, a | 1 << i) for a in range(size) for i in range(n) if not a >> i & 1)
    eq([tuple(e) for e in hypercube_edges(n)], edges, f'hypercube_edges({n})')
    if n:
        base = [[int(i & j == i) for j in range(size)] for i in range(size)]
        wants = {'tr': base, 'tl': [r[::-1] for r in base], 'br': base[::-1], 'bl': [r[::-1] for r in base[::-1]]}
        for o, want in wants.items():
            eq(sierpinski(o, degree=n).tolist(), want, f'sierpinski({o!r}, degree={n})')
            eq(sierpinski(o, size=size).tolist(), want, f'sierpinski({o!r}, size={size})')
    assert raises(lambda: sierpinski('xx', degree=2)) and raises(lambda: sierpinski('tl', degree=0)) and raises(lambda: sierpinski('tl', size=3))
    eq(sorted(powerset(range(n))), sorted(tuple(i for i in range(n) if k >> i & 1) for k in range(size)), f'powerset({n})')
    lengths = [len(s) for s in powerset(range(n))]
    eq(lengths, sorted(lengths), 'powerset by size')


def naturals_small(rng, tier):
    for k in range(260):
        yield k,
    for _ in range(40):
        yield sum(1 << e for e in rng.sample(range(90), rng.randrange(1, 8))),


@oracle('C20', naturals_small)
def rows(k):
    places = [i for i in range(k.bit_length()) if k >> i & 1]
    want = [spread(j, places) for j in range(1 << len(places))]
    eq([int(v) for v in int_to_sierpinski_row(k)], want, f'int_to_sierpinski_row({k})')
    eq([int(v) for v in int_to_sierpinski_row(intval=k)], want, f'int_to_sierpinski_row(intval={k})')
    eq([int(v) for v in int_to_sierpinski_row(exposet=places)], want, f'int_to_sierpinski_row(exposet={places})')


def zips(rng, tier):
    for n in range(0, 5):
        for pattern in itertools.product(range(3), repeat=n):
            yield list(pattern), rng.randrange(1 << 20)
    for _ in range(150):
        n = rng.randrange(5, 30)
        top = rng.choice([1, 2, 3, 6])
        yield [rng.randrange(top) for _ in range(n)], rng.randrange(1 << 20)


@oracle('C20', zips)
def zipping(pattern, seed):
    rng = random.Random(seed)
    v = [rng.randrange(-9, 9) for _ in pattern]
    parts = [[x for x, p in zip(v, pattern) if p == i] for i in range(max(pattern, default=-1) + 1)]
    what = f'vector_zip_apart({v}, {pattern})'
    eq([list(x) for x in vector_zip_apart(v, pattern)], parts, what)
    eq([list(x) for x in vector_zip_apart(tuple(v), tuple(pattern))], parts, what + ' of tuples')
    eq(list(vector_zip_together(parts, pattern)), v, f'vector_zip_together({parts}, {pattern})')
    eq(list(vector_zip_together([tuple(x) for x in parts], tuple(pattern))), v, f'vector_zip_together of tuples')
    eq(parts, [[x for x, p in zip(v, pattern) if p == i] for i in range(max(pattern, default=-1) + 1)], 'arguments changed')
    if pattern:
        b = Binv([x % 2 for x in v])
        got = vector_zip_apart(b, pattern)
        eq([bits(x) for x in got], [[x % 2 for x in p] for p in parts], what + ' of a Binv')
        assert raises(lambda: vector_zip_apart(v + [0], pattern)), 'unequal lengths'
        assert raises(lambda: vector_zip_apart(v, [-1] + pattern[1:])), 'negative entry'
        assert raises(lambda: vector_zip_together(parts, pattern + [0])), 'unequal lengths'
        if max(pattern) < 2:
            eq([bits(x) for x in vector_zip_apart(b, Binv(pattern))], [[x % 2 for x in p] for p in parts], what + ' with a Binv as pattern')
            eq([list(x) for x in vector_zip_apart(v, Binv(pattern))], parts, what + ' with a Binv as pattern')
            eq(list(vector_zip_together(parts, Binv(pattern))), v, 'vector_zip_together with a Binv')


def lists(rng, tier):
    for n in range(0, 4):
        for v in itertools.product(range(3), repeat=n):
            yield list(v), rng.randrange(1 << 20)
    for _ in range(150):
        yield [rng.randrange(-6, 7) for _ in range(rng.randrange(0, 12))], rng.randrange(1 << 20)


@oracle('C20', lists)
def sorting(v, seed):
    rng = random.Random(seed)
    n = len(v)
    w = [rng.randrange(20) for _ in v]
    x = [chr(97 + rng.randrange(26)) for _ in v]
    order = sorted(range(n), key=lambda i: (v[i], w[i], x[i]))
    eq([list(y) for y in sort_together(v, w, x)], [[y[i] for i in order] for y in (v, w, x)], f'sort_together({v}, {w}, {x})')
    eq([list(y) for y in sort_together(v)], [sorted(v)], f'sort_together({v})')
    assert raises(lambda: sort_together(v, w + [1])), 'sort_together of unequal lengths'
    t = [tuple(rng.randrange(3) for _ in range(3)) for _ in v]
    eq(sorted_colex(t), sorted(t, key=lambda y: tuple(reversed(y))), f'sorted_colex({t})')
    t = [tuple(rng.randrange(3) for _ in range(rng.randrange(4))) for _ in v]
    eq(sorted_colex(t), sorted(t, key=lambda y: y[::-1]), f'sorted_colex({t})')
    s = sorted(set(v))
    eq(sorted(tuple(sorted(y)) for y in powerset(s)), sorted(y for k in range(len(s) + 1) for y in itertools.combinations(s, k)), f'powerset({s})')
    counts = {y: v.count(y) for y in sorted(set(v))}
    got = inventory_dict(v)
    eq(got, counts, f'inventory_dict({v})')
    eq(list(got), list(counts), f'keys of inventory_dict({v})')
    d = {chr(97 + i): y for i, y in enumerate(v)}
    eq(inventory_dict(d), counts, f'inventory_dict({d})')
    dd = defaultdict(int, d)
    eq(inventory_dict(dd), counts, f'inventory_dict of a defaultdict {d}')
    part = inventory_partition(v)
    eq({l: list(b) for b, l in part.block_labels.items()}, {y: [i for i in range(n) if v[i] == y] for y in set(v)}, f'inventory_partition({v})')
    part = inventory_partition(d)
    eq({l: list(b) for b, l in part.block_labels.items()}, {y: sorted(k for k in d if d[k] == y) for y in set(v)}, f'inventory_partition({d})')
    assert raises(lambda: inventory_dict(3))
    if n:
        m = np.array([[rng.randrange(3) for _ in range(4)] for _ in v])
        m2 = np.array([[rng.randrange(3)] for _ in v])
        order = sorted(range(n), key=lambda i: (m[i].tolist(), m2[i].tolist()))
        a, b = sort_rows_together(m, m2)
        eq((a.tolist(), b.tolist()), ([m[i].tolist() for i in order], [m2[i].tolist() for i in order]), f'sort_rows_together({m.tolist()}, {m2.tolist()})')
        a, b = sort_cols_together(m.T, m2.T)
        eq((a.T.tolist(), b.T.tolist()), ([m[i].tolist() for i in order], [m2[i].tolist() for i in order]), 'sort_cols_together')
        order = sorted(range(n), key=lambda i: m[i].tolist()[::-1])
        eq(sort_cols_together(m.T, small_on_top=True)[0].T.tolist(), [m[i].tolist() for i in order], 'sort_cols_together(small_on_top)')


def containers(rng, tier):
    def make(depth):
        r = rng.random()
        if depth == 0 or r < 0.3:
            return rng.choice([0, 'a', 3, (1, 2), [], {}])
        if r < 0.65:
            return [make(depth - 1) for _ in range(rng.randrange(0, 4))]
        return {rng.choice('xyzuv'): make(depth - 1) for _ in range(rng.randrange(0, 4))}
    yield [],
    yield {},
    for _ in range(200):
        c = make(4)
        if isinstance(c, (list, dict)):
            yield c,


@oracle('C20', containers)
def keys(c):
    def paths(x):
        items = list(enumerate(x)) if isinstance(x, list) else list(x.items())
        for k, y in items:
            if isinstance(y, (list, dict)) and y:
                for p in paths(y):
                    yield (k,) + p
            else:
                yield k,
    eq(list(key_tuples(c)), list(paths(c)), f'key_tuples({c})')
    assert raises(lambda: key_tuples('a')) and raises(lambda: key_tuples(3))
