from lib import *
import numpy as np
from discretehelpers.sig_perm import SigPerm
from discretehelpers.sig_perm.a import matrix_to_sequence, sequence_to_matrix, schoute_to_finite_inverse
from discretehelpers.perm import Perm
from discretehelpers.binv import Binv
from o_c06 import rev_colex_rank


def natural(x):
    return ~x if x < 0 else x


def trim(seq):
    seq = list(seq)
    while seq and seq[-1] == len(seq) - 1:
        seq.pop()
    return seq


def vertex_perm(seq):
    """image of every cube vertex: bit i moves to place |s_i|, flipped when s_i is negative"""
    out = []
    for x in range(2 ** len(seq)):
        y = 0
        for i, s in enumerate(seq):
            bit = x >> i & 1
            if s < 0:
                bit ^= 1
            y |= bit << natural(s)
        out.append(y)
    return out


def matrix_of(seq):
    n = len(seq)
    m = [[0] * n for _ in range(n)]
    for c, s in enumerate(seq):
        m[natural(s)][c] = -1 if s < 0 else 1
    return m


def signed(rng, tier):
    for n in range(4):
        for p in itertools.permutations(range(n)):
            for s in itertools.product([0, 1], repeat=n):
                yield [~x if y else x for x, y in zip(p, s)],
    for _ in range(150 * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(4, 7)
        q = rng.choice([0.1, 0.5, 0.9])
        p = rand_perm(rng, n) if rng.random() < 0.7 else list(range(n))
        yield [~x if rng.random() < q else x for x in p],
    for _ in range(40 * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(7, 40)
        yield [~x if rng.random() < 0.5 else x for x in rand_perm(rng, n)],


def readback(s, seq, what):
    short = trim(seq)
    n = len(short)
    perm = [natural(x) for x in short]
    eq(s.sequence(), short, what + ' sequence')
    eq([s[i] for i in range(n)], short, what + ' []')
    eq(s.length, n, what + ' length')
    eq(s.sequence(n + 3), short + [n, n + 1, n + 2], what + ' longer sequence')
    if n:
        assert raises(lambda: s.sequence(n - 1)) and raises(lambda: s.matrix(n - 1)), what + ' too short accepted'
    eq(np.array(s.matrix()).tolist(), matrix_of(short), what + ' matrix')
    eq(np.array(s.matrix(n + 2)).tolist(), matrix_of(short + [n, n + 1]), what + ' longer matrix')
    val = sum(1 << natural(x) for x in short if x < 0)
    key = sum(1 << i for i, x in enumerate(short) if x < 0)
    m = len(trim(perm))
    rank = rev_colex_rank(perm[:m])
    eq(int(s.valneg_index), val, what + ' valneg_index')
    eq(int(s.keyneg_index), key, what + ' keyneg_index')
    eq(int(s.perm_index), rank, what + ' perm_index')
    eq(tuple(map(int, s.pair)), (val, rank), what + ' pair')
    eq(s.perm, Perm(perm), what + ' perm')
    eq(s.binv.intval, val, what + ' binv')
    eq(s.binv.length, n, what + ' binv length')
    eq((bool(s.unsigned), bool(s.unmoved), bool(s.neutral)), (val == 0, m == 0, n == 0), what + ' flags')
    text = '[' + ', '.join(('~' if x < 0 else '') + str(natural(x)) for x in short) + ']'
    eq(s.sequence_string(), text, what + ' string')
    eq(s.sequence_string(round_parentheses=True), '(' + text[1:-1] + ')', what + ' string')
    eq(str(s), f'SigPerm(sequence={text})', what + ' str')


@oracle('C07', signed)
def all_descriptions_agree(seq):
    short = trim(seq)
    n, N = len(short), len(seq)
    perm = [natural(x) for x in seq]
    vals = {natural(x) for x in seq if x < 0}
    keys = {i for i, x in enumerate(seq) if x < 0}
    val, key = sum(1 << v for v in vals), sum(1 << k for k in keys)
    m = len(trim(perm))
    made = {'sequence': SigPerm(sequence=list(seq)), 'tuple': SigPerm(sequence=tuple(seq)), 'short sequence': SigPerm(sequence=short),
            'long sequence': SigPerm(sequence=list(seq) + [N, N + 1])}
    for p_what, p in (('Perm', Perm(perm)), ('list', list(perm)), ('tuple', tuple(perm)), ('long list', perm + [N, N + 1])):
        for v_what, v in (('set', vals), ('list', [int(i in vals) for i in range(N)]), ('tuple', tuple(int(i in vals) for i in range(N))),
                          ('long list', [int(i in vals) for i in range(N + 2)]),
                          ('Binv', Binv([int(i in vals) for i in range(N)])), ('long Binv', Binv([int(i in vals) for i in range(N + 3)]))):
            made[f'valneg {v_what} perm {p_what}'] = SigPerm(valneg=v, perm=p)
        for v_what, v in (('set', keys), ('list', [int(i in keys) for i in range(N)]), ('tuple', tuple(int(i in keys) for i in range(N))),
                          ('Binv', Binv([int(i in keys) for i in range(N)])), ('long Binv', Binv([int(i in keys) for i in range(N + 3)]))):
            made[f'keyneg {v_what} perm {p_what}'] = SigPerm(keyneg=v, perm=p)
        made[f'valneg_index perm {p_what}'] = SigPerm(valneg_index=val, perm=p)
        made[f'keyneg_index perm {p_what}'] = SigPerm(keyneg_index=key, perm=p)
    rank = rev_colex_rank(perm[:m])
    made['pair'] = SigPerm(pair=(val, rank))
    made['indices'] = SigPerm(valneg_index=val, perm_index=rank)
    made['keyneg_index perm_index'] = SigPerm(keyneg_index=key, perm_index=rank)
    for what, mat in (('matrix', matrix_of(seq)), ('long matrix', matrix_of(list(seq) + [N]))):
        if mat:
            made[what] = SigPerm(matrix=np.array(mat))
            made['list ' + what] = SigPerm(matrix=mat)
    if N <= 6:
        v = vertex_perm(seq)
        made['vertex perm'] = SigPerm(schoute_perm=Perm(v, perilen=len(v)))
        made['vertex list'] = SigPerm(schoute_perm=v)
        w = vertex_perm(short)
        made['short vertex list'] = SigPerm(schoute_perm=w)
    ref = made['sequence']
    for what, s in made.items():
        readback(s, seq, what)
        assert s == ref and ref == s and not s != ref, what + ' is not equal'
        eq(hash(s), hash(ref), what + ' hash')
    if N <= 6:
        for s in (ref, made['pair']):
            p = s.schoute_perm
            eq([p[i] for i in range(2 ** (n + 1))], vertex_perm(short + [n]), 'schoute_perm')
    assert ref == Perm(perm) if val == 0 else ref != Perm(perm)
    # another signed permutation is different
    rng = random.Random(repr(seq))
    for _ in range(5):
        other = list(seq) + [N]
        i = rng.randrange(N + 1)
        if rng.random() < 0.5 or N == 0:
            other[i] = ~other[i]
        else:
            j = (i + 1) % (N + 1)
            other[i], other[j] = other[j], other[i]
        assert SigPerm(sequence=other) != ref, other


@oracle('C07', signed)
def matrix_conversions(seq):
    if not seq:
        return
    m = matrix_of(seq)
    t = [list(r) for r in zip(*m)]
    eq(np.array(sequence_to_matrix(seq)).tolist(), m, 'sequence_to_matrix')
    eq(np.array(sequence_to_matrix(seq, inverse=True)).tolist(), t, 'sequence_to_matrix inverse')
    eq(list(matrix_to_sequence(m)), list(seq), 'matrix_to_sequence')
    eq(list(matrix_to_sequence(np.array(m))), list(seq), 'matrix_to_sequence')
    eq(list(matrix_to_sequence(t, inverse=True)), list(seq), 'matrix_to_sequence inverse')
    if len(seq) <= 6:
        inv = [None] * len(seq)
        for i, s in enumerate(seq):
            inv[natural(s)] = ~i if s < 0 else i
        v = vertex_perm(seq)
        got = list(schoute_to_finite_inverse(v))
        eq(trim(got), trim(inv), 'schoute_to_finite_inverse')


def wrong(rng, tier):
    for s in ([0, 0], [0, ~0], [1], [~1], [2, 0], [0, ~2], [1, 1, 0], [3, 2, 1]):
        yield s,


@oracle('C07', wrong)
def wrong_sequences_are_rejected(seq):
    assert raises(lambda: SigPerm(sequence=seq))
    assert raises(lambda: SigPerm())
    assert raises(lambda: SigPerm(perm=[1, 0]))
    assert raises(lambda: SigPerm(valneg={1}))
    assert raises(lambda: SigPerm(perm=[natural(x) for x in seq], valneg=[0]))
