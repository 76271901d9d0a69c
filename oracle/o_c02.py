from lib import *
from discretehelpers.binv import Binv


def pairs(rng, tier):
    for n in range(5):
        for a in itertools.product([0, 1], repeat=n):
            for b in itertools.product([0, 1], repeat=n):
                yield list(a), list(b)
    for _ in range(150 * (5 if tier == 'thorough' else 1)):
        n = rng.choice([5, 6, 8, 15, 16, 17, 20, 31, 33, 50])
        a = [rng.randrange(2) for _ in range(n)]
        b = list(a)
        for _ in range(rng.choice([0, 1, 2, n])):
            b[rng.randrange(n)] ^= 1
        yield a, b
        h = [0] * n
        for k in rng.sample(range(n), n // 2):
            h[k] = 1
        yield h, [1 - v for v in h]
        yield h, a
        yield a, [x & y for x, y in zip(a, [rng.randrange(2) for _ in range(n)])]


@oracle('C02', pairs)
def pointwise(a, b):
    x, y = Binv(a), Binv(b)
    x.intval, x.exposet, y.string, y.weight  # fill caches
    n = len(a)
    A, B = [bool(v) for v in a], [bool(v) for v in b]
    eq((x & y).vector, [p and q for p, q in zip(A, B)], '&')
    eq((x | y).vector, [p or q for p, q in zip(A, B)], '|')
    eq((x ^ y).vector, [p != q for p, q in zip(A, B)], '^')
    eq((~x).vector, [not p for p in A], '~')
    eq((x + y).vector, A + B, '+')
    for r in (x & y, x | y, x ^ y):
        eq(r.intval, sum(1 << i for i, v in enumerate(r.vector) if v), 'intval of result')
    eq((x & y).intval, x.intval & y.intval, '& intval')
    eq((x | y).exposet, x.exposet | y.exposet, '| exposet')
    eq(bool(x.bitwise_smaller(y)), A != B and all(q or not p for p, q in zip(A, B)), 'bitwise_smaller')
    eq(bool(y.bitwise_smaller(x)), A != B and all(p or not q for p, q in zip(A, B)), 'bitwise_smaller')
    eq(bool(x == y), A == B, '==')
    eq(bool(x != y), A != B, '!=')
    if A == B:
        eq(hash(x), hash(y), 'hash')
    elif n:
        assert hash(x) == hash(Binv(list(a)))
    # equal vectors reached by different routes are equal, print alike and hash alike
    for what, r in (('&', x & y), ('|', x | y), ('^', x ^ y), ('~', ~x), ('complement', x.complement), ('reverse', x.reverse),
                    ('+', x + y), ('copy', Binv(x)), ('~~', ~~x), ('| of &', (x | y) & x), ('^^', x ^ y ^ y)) + \
            tuple(('flip', x.flip_bit(k)) for k in range(0, n, 3)):
        bits = [bool(v) for v in r.vector]
        fresh = [Binv(list(bits)), Binv(''.join('1' if v else '0' for v in bits)), Binv(exposet={i for i, v in enumerate(bits) if v}, length=len(bits)),
                 Binv(intval=sum(1 << i for i, v in enumerate(bits) if v), length=len(bits))]
        for fr in fresh:
            assert r == fr and fr == r and not r != fr, what + ': not equal'
            eq(hash(r), hash(fr), what + ': hash of equal vectors')
            eq(len({r, fr}), 1, what + ': set of equal vectors')
            eq((r.string, r.weight, r.exposet, r.intval, r.length), (fr.string, fr.weight, fr.exposet, fr.intval, fr.length), what)
    for k in range(n):
        f = x.flip_bit(k)
        eq(f.vector, A[:k] + [not A[k]] + A[k + 1:], 'flip_bit')
        eq(f.intval, x.intval ^ (1 << k), 'flip_bit intval')
    assert raises(lambda: x.flip_bit(n)), 'flip_bit out of range'
    eq((x.vector, y.vector), (A, B), 'operands changed')
    eq((x.intval, y.weight), (sum(1 << i for i, v in enumerate(A) if v), sum(B)), 'operands changed')
    for (p, q, P, Q) in ((x, y, A, B), (y, x, B, A)):
        eq((bool(p < q), bool(p <= q), bool(p > q), bool(p >= q)), (P < Q, P <= Q, P > Q, P >= Q), 'order')


def uneven(rng, tier):
    for m in range(4):
        for n in range(4):
            for a in itertools.product([0, 1], repeat=m):
                for b in itertools.product([0, 1], repeat=n):
                    yield list(a), list(b)
    for _ in range(100):
        yield [rng.randrange(2) for _ in range(rng.randrange(30))], [rng.randrange(2) for _ in range(rng.randrange(30))]


@oracle('C02', uneven)
def order_of_different_lengths(a, b):
    x, y = Binv(a), Binv(b)
    P, Q = [bool(v) for v in a], [bool(v) for v in b]
    eq((x < y, x <= y, x > y, x >= y, x == y), (P < Q, P <= Q, P > Q, P >= Q, P == Q), 'order')
    eq((x + y).vector, P + Q, '+')
    s = {x, y}
    eq(len(s), 1 if P == Q else 2, 'set of both')
    eq(sorted([x, y, x])[0].vector, min(P, Q), 'sorted')
