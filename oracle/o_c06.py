from lib import *
from math import factorial, lcm
from discretehelpers.perm import Perm
from discretehelpers.set_part import SetPart
from discretehelpers.a import int_to_perm, int_to_factoradic, rev_colex_perms
from discretehelpers.perm.a import (left_inversion_count, right_inversion_count, inversion_vector, right_inversion_count_to_permutation,
                                    left_inversion_count_to_permutation, inversion_set_to_count, inversion_set_to_permutation)
from o_c04 import cycles_of


def sequences(rng, tier):
    for p in perms_small(5):
        yield list(p),
    for _ in range(80 * (5 if tier == 'thorough' else 1)):
        yield rand_perm(rng, rng.randrange(6, 36)),
    for _ in range(30):
        n = rng.randrange(5, 30)
        p = list(range(n))
        for _ in range(rng.randrange(1, 4)):
            i, j = rng.sample(range(n), 2)
            p[i], p[j] = p[j], p[i]
        yield p,


def power_is_identity(seq, e):
    """by repeated squaring"""
    def mul(a, b):
        return [a[b[i]] for i in range(len(a))]
    r, s = list(range(len(seq))), list(seq)
    while e:
        if e & 1:
            r = mul(r, s)
        s = mul(s, s)
        e >>= 1
    return r == list(range(len(seq)))


def common(p, mapping, n, what):
    cyc = cycles_of(mapping)
    eq([list(c) for c in p.cycles], cyc, what + ' cycles')
    eq(sum(len(c) for c in p.cycles), len(p.moved), what)
    eq(set().union(*map(set, p.cycles)) if cyc else set(), set(p.moved), what + ' cycles cover the moved elements')
    o = int(p.order)
    assert o >= 1, what + f' order {o}'
    eq(o, lcm(*[len(c) for c in cyc]) if cyc else 1, what + ' order')
    seq = [mapping.get(i, i) for i in range(n)]
    assert power_is_identity(seq, o), what + ' order'
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23):
        if o % q == 0:
            assert not power_is_identity(seq, o // q), what + ' order is not the least'
    inv = {(a, b) for b in range(n) for a in range(b) if seq[a] > seq[b]}
    eq(set(p.inversion_set), inv, what + ' inversion set')
    eq(p.parity, len(inv) % 2, what + ' parity')
    eq(p.parity, sum(len(c) - 1 for c in cyc) % 2, what + ' parity')
    part = p.cycle_partition
    assert isinstance(part, SetPart)
    eq([list(b) for b in part.blocks], sorted(sorted(c) for c in cyc), what + ' cycle partition')
    assert part == SetPart([list(c) for c in cyc])


@oracle('C06', sequences)
def cycles_order_inversions(seq):
    p = Perm(list(seq))
    m = dict(enumerate(seq))
    n = len(seq)
    while n and seq[n - 1] == n - 1:
        n -= 1
    common(p, m, n, 'finite')
    common(p.inverse, {v: k for k, v in m.items()}, n, 'inverse')
    if n > 1:
        for extra in (0, 1, 4):
            per = n + extra
            q = Perm(list(seq[:n]), perilen=per)
            mm = dict(q.mapping)
            if q.perilen == per:
                mm = {k: m[k] for k in range(n) if m[k] != k}
            common(q, mm, q.perilen, 'periodic')


def lex_rank(seq):
    n, r = len(seq), 0
    for i in range(n):
        r += sum(1 for j in range(i + 1, n) if seq[j] < seq[i]) * factorial(n - 1 - i)
    return r


def rev_colex_rank(seq):
    """number of permutations that come earlier: compare from the last place, larger entries first"""
    n, r = len(seq), 0
    for i in range(n - 1, -1, -1):
        r += sum(1 for j in range(i) if seq[j] > seq[i]) * factorial(i)
    return r


@oracle('C06', sequences)
def ranks(seq):
    p = Perm(list(seq))
    n = p.length
    short = [seq[i] for i in range(n)]
    eq(int(p.left_rank), rev_colex_rank(short), 'left rank')
    eq(int(p.right_rank), lex_rank(short), 'right rank')
    if n <= 6:
        every = list(itertools.permutations(range(n)))
        eq(sorted(every, key=lambda q: tuple(-x for x in q[::-1]))[p.left_rank], tuple(short), 'left rank in the list of all')
        eq(every[p.right_rank], tuple(short), 'right rank in the list of all')
    q = int_to_perm(int(p.left_rank))
    assert q == p and isinstance(q, Perm), 'int_to_perm of the left rank'


@oracle('C06', one(lambda r, t: naturals(r, t, small=800, many=100, bits=200)))
def int_to_perm_is_inverse(n):
    p = int_to_perm(n)
    eq(int(p.left_rank), n, 'left rank')
    seq = p.sequence()
    eq(sorted(seq), list(range(len(seq))), 'sequence')
    eq(rev_colex_rank(seq), n, 'rank of the sequence')
    digits = int_to_factoradic(n)
    eq(sum(d * factorial(i) for i, d in enumerate(digits)), n, 'factoradic')


@oracle('C06', lambda r, t: [(k,) for k in range(7)])
def rev_colex_list(n):
    got = [tuple(p) for p in rev_colex_perms(n)]
    eq(got, sorted(itertools.permutations(range(n)), key=lambda q: tuple(-x for x in q[::-1])), 'reverse colexicographic order')
    for i, p in enumerate(got):
        eq(int(Perm(list(p)).left_rank), i, 'rank in that order')


@oracle('C06', lambda r, t: [(-1,), (-7,), (0.5,)])
def not_natural(n):
    assert raises(lambda: int_to_perm(n))


@oracle('C06', sequences)
def inversion_vectors(seq):
    n = len(seq)
    left = [sum(1 for j in range(i) if seq[j] > seq[i]) for i in range(n)]
    right = [sum(1 for j in range(i + 1, n) if seq[j] < seq[i]) for i in range(n)]
    vec = [None] * n
    for i in range(n):
        vec[seq[i]] = left[i]
    eq(list(left_inversion_count(seq)), left, 'left inversion count')
    eq(list(right_inversion_count(seq)), right, 'right inversion count')
    eq(list(inversion_vector(seq)), vec, 'inversion vector')
    eq(list(left_inversion_count_to_permutation(left)), list(seq), 'from left count')
    eq(list(right_inversion_count_to_permutation(right)), list(seq), 'from right count')
    eq(list(left_inversion_count_to_permutation(tuple(left))), list(seq), 'from left count')
    pairs = {(a, b) for b in range(n) for a in range(b) if seq[a] > seq[b]}
    m = n
    while m and left[m - 1] == 0:
        m -= 1
    eq(list(inversion_set_to_count(pairs)), left[:m], 'left count from the inversion set')
    k = max([b for _, b in pairs], default=-1) + 1
    eq(list(inversion_set_to_count(pairs, variant_left=False)), right[:k], 'right count from the inversion set')
    got = list(inversion_set_to_permutation(pairs))
    eq(got, list(seq[:len(got)]), 'from the inversion set')
    eq(list(seq[len(got):]), list(range(len(got), n)), 'from the inversion set')
    eq(list(inversion_set_to_permutation(Perm(list(seq)).inversion_set)), got, 'from the inversion set of the Perm')


def primes_cycles(rng, tier):
    for c in ([2, 3, 5, 7], [4, 6, 9], [2] * 5, [11, 13, 17], [3, 3, 9], [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53], [64, 81, 25, 49]):
        yield c,


@oracle('C06', primes_cycles)
def order_of_long_cycles(lengths):
    cyc, k = [], 0
    for c in lengths:
        cyc.append(list(range(k, k + c)))
        k += c
    for p in (Perm(cyc), Perm(cyc, perilen=k + 1)):
        eq(int(p.order), lcm(*lengths), 'order')
        eq([list(c) for c in p.cycles], cyc, 'cycles')
