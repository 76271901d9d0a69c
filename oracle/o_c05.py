from lib import *
from discretehelpers.perm import Perm
from math import lcm


def im(seq, per, i):
    if per is None:
        return seq[i] if i < len(seq) else i
    k = i % per
    return i - k + (seq[k] if k < len(seq) else k)


def snap(p):
    return dict(p.mapping), set(p.moved), p.perilen, p.length, p.neutral


def agrees(p, f, top, what):
    eq([p[i] for i in range(top)], [f(i) for i in range(top)], what)
    for i in (10 ** 9 + 7, 2 ** 65 + 5):
        eq(p[i], f(i), what)
    if p.perilen is None:
        eq(dict(p.mapping), {i: f(i) for i in range(top) if f(i) != i}, what + ' mapping')
    else:
        eq(dict(p.mapping), {i: f(i) for i in range(p.perilen) if f(i) != i}, what + ' mapping')
        assert p.perilen < 2 or not any(p.perilen % d == 0 and all(f(i) < d for i in range(d)) and all(f(i) == f(i % d) + i - i % d for i in range(p.perilen))
                                        for d in range(1, p.perilen)), what + ' period is not the smallest one'
    eq(set(p.moved), set(p.mapping), what + ' moved')


def seqs(rng, tier):
    small = [list(p) for p in perms_small(4)]
    for a in small:
        for b in small:
            if rng.random() < 0.4:
                yield a, None, b, None
    for _ in range(150 * (5 if tier == 'thorough' else 1)):
        yield rand_perm(rng, rng.randrange(1, 30)), None, rand_perm(rng, rng.randrange(1, 30)), None
    for n in (2, 3, 4):
        for m in (2, 3, 4, 6):
            for a in itertools.permutations(range(n)):
                if rng.random() < 0.5:
                    yield list(a), n, rand_perm(rng, m), m
                    yield list(a), n + 1, rand_perm(rng, m), m
    for _ in range(150 * (5 if tier == 'thorough' else 1)):
        n, m = rng.randrange(2, 13), rng.randrange(2, 13)
        yield rand_perm(rng, n), n + rng.choice([0, 1, 3]), rand_perm(rng, m), m + rng.choice([0, 2])


@oracle('C05', seqs)
def composition(a, pa, b, pb):
    A, B = Perm(a, pa), Perm(b, pb)
    A.cycles, B.inverse
    sa, sb = snap(A), snap(B)
    top = 2 * lcm(pa, pb) + 3 if pa else max(len(a), len(b)) + 5
    ab = A * B
    agrees(ab, lambda i: im(a, pa, im(b, pb, i)), top, 'a*b')
    agrees(B * A, lambda i: im(b, pb, im(a, pa, i)), top, 'b*a')
    eq((snap(A), snap(B)), (sa, sb), 'operands changed')
    for X in (A, B, ab):
        inv = X.inverse
        agrees(X * inv, lambda i: i, top, 'x * inverse')
        agrees(inv * X, lambda i: i, top, 'inverse * x')
        assert X * inv == Perm() and inv * X == Perm() and hash(inv * X) == hash(Perm()), 'inverse'
        assert X * Perm() == X and Perm() * X == X, 'neutral'
        eq([inv[X[i]] for i in range(top)], list(range(top)), 'inverse')
        eq([X[inv[i]] for i in range(top)], list(range(top)), 'inverse')
        assert inv.inverse == X
    assert ab.inverse == B.inverse * A.inverse
    C = A * A * B
    assert (A * B) * C == A * (B * C), 'associative'
    assert hash((A * B) * C) == hash(A * (B * C)), 'associative hash'
    assert str((A * B) * C) == str(A * (B * C)), 'associative str'
    eq((snap(A), snap(B)), (sa, sb), 'operands changed')
    # finite with periodic
    if not A.neutral and not B.neutral and pa is None:
        P = Perm(b, len(b) + 2)
        assert raises(lambda: A * P, ValueError) and raises(lambda: P * A, ValueError), 'mixed product accepted'
    if pa is None:
        P = Perm(b, len(b) + 2)
        assert Perm() * P == P and P * Perm() == P
    assert raises(lambda: A * 3) and raises(lambda: A * None) and raises(lambda: A * list(a))


def exps(rng, tier):
    small = [list(p) for p in perms_small(4)]
    for a in small:
        yield a, None, rng.randrange(-12, 13)
    for a in ([1, 2, 0, 4, 3], [1, 0], [0], [], [2, 0, 1], [1, 2, 3, 4, 5, 6, 0]):
        for e in range(-15, 16):
            yield a, None, e
            if len(a) > 1:
                yield a, len(a) + 1, e
    for _ in range(120):
        a = rand_perm(rng, rng.randrange(2, 12))
        yield a, rng.choice([None, len(a), len(a) + 1]), rng.randrange(-60, 61)


@oracle('C05', exps)
def powers(a, pa, e):
    A = Perm(a, pa)
    s = snap(A)
    R = A ** e
    top = 3 * (pa or len(a)) + 3
    inv = {}
    for i in range(top + 30):
        inv[im(a, pa, i)] = i

    def f(i):
        for _ in range(abs(e)):
            i = im(a, pa, i) if e > 0 else inv[i]
        return i
    eq([R[i] for i in range(top)], [f(i) for i in range(top)], f'power {e}')
    assert R * A == A * R == A ** (e + 1), 'next power'
    assert (A ** -e) * R == Perm(), 'inverse power'
    eq(snap(A), s, 'operand changed')
    assert raises(lambda: A ** 0 != Perm()) or A ** 0 == Perm()
