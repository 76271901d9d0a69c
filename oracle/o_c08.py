from lib import *
from discretehelpers.sig_perm import SigPerm
from discretehelpers.perm import Perm
from o_c07 import signed, natural, trim, vertex_perm


def at(seq, x):
    """image of a signed number"""
    i = natural(x)
    y = seq[i] if i < len(seq) else i
    return ~y if x < 0 else y


def act(seq, vec):
    """entry at place i moves to place |s_i|, negated when s_i is negative"""
    out = list(vec)
    for i, s in enumerate(seq):
        out[natural(s)] = ~vec[i] if s < 0 else vec[i]
    return out


def act_number(seq, n):
    out = n >> len(seq) << len(seq)
    for i, s in enumerate(seq):
        bit = n >> i & 1
        if s < 0:
            bit ^= 1
        out |= bit << natural(s)
    return out


def state(s):
    return list(s.sequence()), s.length, s.binv.vector, dict(s.perm.mapping)


def two(rng, tier):
    small = [a[0] for a in signed(random.Random(0), 'quick') if len(a[0]) <= 3]
    for a in small:
        for b in rng.sample(small, 12):
            yield a, b
    for _ in range(200 * (5 if tier == 'thorough' else 1)):
        out = []
        for _ in range(2):
            n = rng.randrange(0, 9)
            p = rand_perm(rng, n)
            out.append([~x if rng.random() < 0.5 else x for x in p])
        yield tuple(out)
    for _ in range(30):
        n = rng.randrange(10, 40)
        yield [~x if rng.random() < 0.5 else x for x in rand_perm(rng, n)], [~x if rng.random() < 0.5 else x for x in rand_perm(rng, n - 3)]


@oracle('C08', two)
def compose(a, b):
    A, B = SigPerm(sequence=a), SigPerm(sequence=b)
    before = state(A), state(B)
    n = max(len(a), len(b))
    P = A * B
    want = [at(a, at(b, i)) for i in range(n)]
    eq(P.sequence(n), want, 'a * b')
    eq(P.sequence(), trim(want), 'a * b')
    assert P == SigPerm(sequence=want) and hash(P) == hash(SigPerm(sequence=want))
    for X, x in ((A, a), (B, b), (P, want)):
        inv = [None] * len(x)
        for i, s in enumerate(x):
            inv[natural(s)] = ~i if s < 0 else i
        I = X.inverse
        eq(I.sequence(), trim(inv), 'inverse')
        assert X * I == SigPerm(sequence=[]) and I * X == SigPerm(sequence=[]), 'inverse is not two-sided'
        assert (X * I).neutral and (I * X).neutral
        assert I.inverse == X
        E = SigPerm(sequence=[])
        assert E * X == X == X * E
    assert P.inverse == B.inverse * A.inverse
    assert (A * B) * A == A * (B * A), 'associative'
    rng = random.Random(repr((a, b)))
    for extra in (0, 2):
        v = [rng.randrange(-50, 50) for _ in range(n + extra)]
        va = list(v)
        eq(A.apply_on_vector(v), act(a, v), 'apply_on_vector')
        eq(v, va, 'vector changed')
        eq(B.apply_on_vector(v), act(b, v), 'apply_on_vector')
        eq(P.apply_on_vector(v), act(a, act(b, v)), 'apply_on_vector of the product')
        eq(A.apply_on_vector(B.apply_on_vector(v)), P.apply_on_vector(v), 'group action')
        eq(A.inverse.apply_on_vector(A.apply_on_vector(v)), v, 'inverse undoes')
        eq(A.apply_on_vector(tuple(v)), tuple(act(a, v)), 'apply_on_vector of a tuple')
    if A.length:
        assert raises(lambda: A.apply_on_vector(list(range(A.length - 1))))
    for k in list(range(min(2 ** n, 16))) + [rng.getrandbits(n + 1) for _ in range(5)] + [rng.getrandbits(n + 40) for _ in range(3)] + [2 ** 70, 2 ** 64 - 1]:
        eq(int(A.apply_on_natural_number(k)), act_number(a, k), f'apply_on_natural_number {k}')
        eq(int(P.apply_on_natural_number(k)), act_number(a, act_number(b, k)), f'product on {k}')
        eq(int(A.apply_on_natural_number(B.apply_on_natural_number(k))), int(P.apply_on_natural_number(k)), f'group action on {k}')
        eq(int(A.inverse.apply_on_natural_number(A.apply_on_natural_number(k))), k, f'inverse undoes {k}')
    if n <= 5:
        s = A.schoute_perm
        for k in range(2 ** (len(a) + 1)):
            eq(s[k], int(A.apply_on_natural_number(k)), 'vertex permutation')
        m = max(A.length, B.length)
        if not A.neutral and not B.neutral:
            ss = A.schoute_perm * B.schoute_perm
            eq([ss[k] for k in range(2 ** m)], vertex_perm([at(a, at(b, i)) for i in range(m)]), 'product of vertex permutations')
    eq((state(A), state(B)), before, 'operands changed')


@oracle('C08', lambda r, t: ((list(p), r.randrange(2 ** 8)) for p in perms_small(5)))
def unsigned(seq, k):
    """the vertex permutation of a plain Perm moves the bits in the same way"""
    p = Perm(list(seq))
    s = p.schoute_perm
    n = p.length
    eq([s[i] for i in range(2 ** (n + 1))], vertex_perm(list(range(n + 1)) if p.neutral else [p[i] for i in range(n + 1)]), 'schoute_perm of a Perm')
    S = SigPerm(sequence=list(seq))
    eq([S.schoute_perm[i] for i in range(64)], [s[i] for i in range(64)], 'same for SigPerm')
    eq(int(S.apply_on_natural_number(k)), s[k], 'apply_on_natural_number')
