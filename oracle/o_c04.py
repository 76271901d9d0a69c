from lib import *
from discretehelpers.perm import Perm


def image(mapping, perilen, i):
    """what the notation says about one number"""
    if perilen is None:
        return mapping.get(i, i)
    return i - i % perilen + mapping.get(i % perilen, i % perilen)


def minimal_period(mapping, perilen):
    seq = [mapping.get(i, i) for i in range(perilen)]
    for d in range(1, perilen + 1):
        if perilen % d == 0 and all(seq[i] < d for i in range(d)) and all(seq[i] == seq[i % d] + i - i % d for i in range(perilen)):
            return d


def describe(p, mapping, perilen, what):
    """all views of p against the map i -> image(mapping, perilen, i)"""
    moved = {k: v for k, v in mapping.items() if k != v}
    if not moved:
        perilen = None
    size = max(moved) + 1 if moved else 0
    per = minimal_period(mapping, perilen) if perilen is not None else None
    top = 3 * perilen + 5 if perilen else size + 10
    f = [image(mapping, perilen, i) for i in range(top)]
    eq([p[i] for i in range(top)], f, what + ' []')
    for i in (10 ** 6, 10 ** 20 + 1, 2 ** 70 + 3):
        eq(p[i], image(mapping, perilen, i), what + ' [] of a large number')
    if perilen is None:
        eq(p.perilen, None, what + ' perilen')
        eq(p.length, size, what + ' length')
        expect = moved
    else:
        eq(p.perilen, per, what + ' perilen')
        eq(p.length, per, what + ' length')
        expect = {k: v for k, v in moved.items() if k < per}
    eq(dict(p.mapping), expect, what + ' mapping')
    eq(set(p.moved), set(expect), what + ' moved')
    eq(bool(p.neutral), not moved, what + ' neutral')
    n = p.length
    eq(p.sequence(), f[:n], what + ' sequence')
    if perilen is None:
        for k in (0, 1, 7):
            eq(p.sequence(n + k), [image(mapping, perilen, i) for i in range(n + k)], what + ' sequence(length)')
        if n:
            assert raises(lambda: p.sequence(n - 1), ValueError), what + ' short sequence accepted'
    else:
        for k in (1, 2, 3):
            eq(p.sequence(n * k), [image(mapping, perilen, i) for i in range(n * k)], what + ' sequence(length)')
        assert raises(lambda: p.sequence(n + 1), ValueError) or n == 1, what + ' sequence of a length that is no multiple accepted'
    for s in (slice(None, None), slice(None, 5), slice(1, 9), slice(0, 12, 3), slice(2, None), slice(6, 1, -2), slice(1, 1)):
        r = range(0 if s.start is None else s.start, n if s.stop is None else s.stop, 1 if s.step is None else s.step)
        eq(p[s], [image(mapping, perilen, i) for i in r], what + f' {s}')
    for m in {n, n + 3} if perilen is None else {n, 2 * n}:
        out = p.apply_on_vector(list(range(100, 100 + m)))
        t = p.apply_on_vector(tuple(range(100, 100 + m)))
        want = [None] * m
        for i in range(m):
            want[image(mapping, perilen, i)] = 100 + i
        eq(out, want, what + ' apply_on_vector')
        eq(t, tuple(want), what + ' apply_on_vector of a tuple')


def cycles_of(mapping):
    seen, out = set(), []
    for k in sorted(mapping):
        if k not in seen and mapping[k] != k:
            c, j = [], k
            while j not in seen:
                seen.add(j)
                c.append(j)
                j = mapping[j]
            out.append(c)
    return out


def same(ps):
    for a, x in ps.items():
        for b, y in ps.items():
            assert x == y, f'{a} differs from {b}'
            assert not x != y, f'{a} differs from {b}'
            eq(hash(x), hash(y), f'hash of {a} and {b}')


def sequences(rng, tier):
    for p in perms_small(5):
        yield list(p),
    for _ in range(60 * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(6, 40)
        p = rand_perm(rng, n)
        if rng.random() < 0.5:
            p = list(range(n))
            for _ in range(rng.randrange(1, 4)):
                i, j = rng.randrange(n), rng.randrange(n)
                p[i], p[j] = p[j], p[i]
        yield p,


@oracle('C04', sequences)
def finite_notations_agree(seq):
    rng = random.Random(repr(seq))
    mapping = dict(enumerate(seq))
    cyc = cycles_of(mapping)
    turned = [c[k:] + c[:k] for c in cyc for k in [rng.randrange(len(c))]]
    rng.shuffle(turned)
    ones = [[i] for i in mapping if mapping[i] == i][:2]
    keys = list(mapping)
    rng.shuffle(keys)
    ps = {'list': Perm(list(seq)), 'tuple': Perm(tuple(seq)), 'longer list': Perm(list(seq) + [len(seq), len(seq) + 1]),
          'cycles': Perm(cyc), 'turned cycles': Perm(turned), 'cycles with singletons': Perm(ones[:1] + turned + ones[1:]),
          'dict': Perm({k: mapping[k] for k in keys}), 'dict without fixed': Perm({k: v for k, v in mapping.items() if k != v}),
          'copy of mapping': Perm(Perm(list(seq)).mapping)}
    for what, p in ps.items():
        describe(p, mapping, None, what)
    same(ps)
    assert (ps['list'] == Perm()) == (not cyc)


@oracle('C04', lambda r, t: ((a[0], r.choice([0, 1, 2])) for a in sequences(r, t)))
def different_maps_differ(seq, how):
    p = Perm(list(seq))
    n = len(seq)
    rng = random.Random(repr(seq))
    for _ in range(6):
        other = list(seq) + [n, n + 1]
        i, j = rng.sample(range(n + 2), 2)
        other[i], other[j] = other[j], other[i]
        q = Perm(other)
        assert p != q and not p == q, (seq, other)


def periodic(rng, tier):
    for n in range(2, 5):
        for p in itertools.permutations(range(n)):
            for k in (0, 1, 2):
                yield list(p), n + k, 1
            yield list(p), n, 2
            yield list(p), n, 3
    for _ in range(150 * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(2, 10)
        p = rand_perm(rng, n)
        if rng.random() < 0.5:
            p = list(range(n))
            i, j = rng.sample(range(n), 2)
            p[i], p[j] = p[j], p[i]
        yield p, n + rng.choice([0, 0, 1, 2, 5]), rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 12, 15, 25, 30])


@oracle('C04', periodic)
def periodic_notations_agree(seq, block, times):
    """the block of a permutation repeated several times"""
    rng = random.Random(repr((seq, block, times)))
    base = dict(enumerate(seq))
    for i in range(len(seq), block):
        base[i] = i
    per = block * times
    mapping = {i: i - i % block + base[i % block] for i in range(per)}
    cyc = cycles_of(mapping)
    turned = [c[k:] + c[:k] for c in cyc for k in [rng.randrange(len(c))]]
    rng.shuffle(turned)
    keys = list(mapping)
    rng.shuffle(keys)
    ps = {'list': Perm([mapping[i] for i in range(per)], perilen=per), 'tuple': Perm(tuple(mapping[i] for i in range(per)), per),
          'cycles': Perm(turned, perilen=per), 'dict': Perm({k: mapping[k] for k in keys}, perilen=per),
          'short dict': Perm({k: mapping[k] for k in keys if k != mapping[k]}, perilen=per),
          'one block': Perm(list(seq), perilen=block)}
    m = max([k for k in mapping if mapping[k] != k], default=0)
    ps['short list'] = Perm([mapping[i] for i in range(m + 1)], perilen=per)
    for what, p in ps.items():
        describe(p, mapping, per, what)
    same(ps)
    if cyc:
        d = minimal_period(mapping, per)
        p = ps['list']
        eq(p.cycles_dynamic(d * 2), cycles_of({i: i - i % d + mapping[i % d] for i in range(2 * d)}), 'cycles_dynamic')
        eq(p.cycles_dynamic(), cycles_of({i: mapping[i] for i in range(d)}), 'cycles_dynamic')
        # nearly periodic: change one block only
        if times > 1:
            other = dict(mapping)
            i, j = rng.sample(range(per), 2)
            other[i], other[j] = other[j], other[i]
            q = Perm(other, perilen=per)
            describe(q, other, per, 'changed block')
            assert q != p
        for small in {1, m, max(0, m - 1)}:
            if small <= m or small < 2:
                assert raises(lambda: Perm([mapping[i] for i in range(m + 1)], perilen=small), ValueError), 'too small perilen accepted'
        assert raises(lambda: Perm(cyc, perilen=-per)), 'negative perilen accepted'
        assert raises(lambda: Perm(cyc, perilen=per + 0.5)), 'broken perilen accepted'
        assert raises(lambda: Perm(cyc).cycles_dynamic(per)), 'cycles_dynamic of a finite Perm'


def wrong(rng, tier):
    for a in ([1], [0, 0], [0, 2], [1, 1, 0], [1, 2, 3], [0, -1], [-1, 0], [2, 0, 2], [0, 1, 3, 2, 2], [0, 1, 2, 4], [5, 4, 3, 2, 1],
              [[0, 1], [0, 2]], [[0, 1], [1, 2]], [[0, 1, 2], [3, 4], [4, 5]], [[0, 0]], [[0, 1, 0]], [[1, 2, 3, 2]], [[-1, 2]], [[0, 1], [5, -3]],
              [[0, 'a']], [[0, 1], 2], [[0, 0.5]], {0: 1}, {0: 1, 1: 1}, {0: 1, 1: 2}, {0: 1, 1: 2, 2: 1}, {-1: 0, 0: -1}, {3: -3, -3: 3}, {5: 4, 4: 3, 3: 3},
              {0: 1, 1: 0, 2: 3}, 'ab', 7, {1, 0}, ['a', 'b'], [None], [0.5, 1]):
        yield a,
    for _ in range(100):
        n = rng.randrange(2, 12)
        p = rand_perm(rng, n)
        p[rng.randrange(n)] = rng.randrange(-1, n + 2)
        if sorted(p) != list(range(n)):
            yield p,
            yield dict(enumerate(p)),
        c = rand_perm(rng, n)
        k = rng.randrange(1, n)
        a, b = c[:k], c[k:]
        b.insert(rng.randrange(len(b) + 1), rng.choice(a))
        yield [a, b],


@oracle('C04', wrong)
def wrong_arguments_are_rejected(arg):
    assert raises(lambda: Perm(arg), ValueError, TypeError), f'{arg} accepted as {Perm(arg).mapping}'
    assert raises(lambda: Perm(arg, perilen=60), ValueError, TypeError), f'{arg} accepted with a period'


@oracle('C04', lambda r, t: [(a,) for a in ([], (), {}, [[]], [[3]], [0], [0, 1, 2], {4: 4}, None, [[5], [6]])])
def neutral_arguments(arg):
    for p in (Perm(arg), Perm(arg, perilen=12)):
        describe(p, {}, None, 'neutral')
        assert p == Perm() and hash(p) == hash(Perm())
