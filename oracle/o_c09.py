from lib import *
import numpy as np
from discretehelpers.walsh_perm import WalshPerm
from discretehelpers.walsh_perm.a import matrix_to_vector, vector_to_matrix, shrink_matrix, perm_to_matrix
from discretehelpers.perm import Perm
from discretehelpers.perm.ex import IsNeutralFail


def rank2(cols):
    """rank over the two-element field of the numbers in cols"""
    basis = []
    for c in cols:
        for b in basis:
            c = min(c, c ^ b)
        if c:
            basis.append(c)
    return len(basis)


def columns(rows):
    n = len(rows)
    return [sum(rows[r][c] << r for r in range(n)) for c in range(n)]


def rowints(rows):
    return [sum(x << c for c, x in enumerate(r)) for r in rows]


def apply_(cols, x):
    y = x >> len(cols) << len(cols)
    for i, c in enumerate(cols):
        if x >> i & 1:
            y ^= c
    return y


def to_rows(cols):
    n = len(cols)
    return [[cols[c] >> r & 1 for c in range(n)] for r in range(n)]


def inverse_cols(cols):
    n = len(cols)
    inv = {}
    a = [(cols[i], 1 << i) for i in range(n)]
    for bit in range(n):
        k = next(k for k in range(bit, n) if a[k][0] >> bit & 1)
        a[bit], a[k] = a[k], a[bit]
        for j in range(n):
            if j != bit and a[j][0] >> bit & 1:
                a[j] = (a[j][0] ^ a[bit][0], a[j][1] ^ a[bit][1])
    for bit in range(n):
        inv[bit] = a[bit][1]
    return [inv[b] for b in range(n)]


def short(cols):
    """without the trailing identity part"""
    cols = list(cols)
    while cols and cols[-1] == 1 << len(cols) - 1 and not any(c >> len(cols) - 1 & 1 for c in cols[:-1]):
        cols.pop()
    return cols


def random_invertible(rng, n):
    while True:
        cols = [rng.randrange(1, 2 ** n) for _ in range(n)]
        if rank2(cols) == n:
            return cols


def matrices(rng, tier):
    for n in range(1, 4):
        for cols in itertools.product(range(1, 2 ** n), repeat=n):
            if rank2(cols) == n:
                yield list(cols),
    for _ in range(60 * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(3, 6)
        c = random_invertible(rng, n)
        yield c,
        yield c + [1 << n],
    for n in (6, 7, 8):
        for _ in range({6: 25, 7: 12, 8: 6}[n]):
            yield random_invertible(rng, n),
    for n in (4, 6, 8):
        yield [1 << i for i in rand_perm(rng, n)],


def same_matrix(m, rows, what):
    eq([[int(x) for x in r] for r in np.array(m).tolist()], rows, what)


def check(w, cols, what):
    """everything about w against the invertible matrix with these columns"""
    s = short(cols)
    d = len(s)
    eq(w.degree, d, what + ' degree')
    eq(bool(w.neutral), d == 0, what + ' neutral')
    for k in (d, d + 1, d + 3):
        full = s + [1 << i for i in range(d, k)]
        eq(tuple(map(int, w.vector(k))), tuple(full), what + f' vector({k})')
        same_matrix(w.matrix(k), to_rows(full), what + f' matrix({k})')
        eq(tuple(map(int, w.transpose_vector(k))), tuple(rowints(to_rows(full))), what + f' transpose_vector({k})')
    eq(tuple(map(int, w.vector())), tuple(s), what + ' vector()')
    eq(tuple(map(int, w.transpose_vector())), tuple(rowints(to_rows(s))), what + ' transpose_vector()')
    same_matrix(w.matrix(), to_rows(s), what + ' matrix()')
    if d:
        assert raises(lambda: w.vector(d - 1)) and raises(lambda: w.matrix(d - 1)) and raises(lambda: w.transpose_vector(d - 1)), what
    size = 2 ** d
    eq([int(w[x]) for x in range(2 * size)], [apply_(s, x) for x in range(2 * size)], what + ' []')
    for i in range(d + 3):
        eq(int(w[1 << i]), (s[i] if i < d else 1 << i), what + ' [power of two]')
    if d:
        eq(w.perilen, size, what + ' perilen')
        eq([int(x) for x in w.sequence()], [apply_(s, x) for x in range(size)], what + ' sequence')
        eq({int(k): int(v) for k, v in w.mapping.items()}, {x: apply_(s, x) for x in range(size) if apply_(s, x) != x}, what + ' mapping')
    eq([int(x) for x in w.sequence(degree=d + 1)], [apply_(s, x) for x in range(2 * size)], what + ' sequence(degree)')


@oracle('C09', matrices)
def descriptions_agree(cols):
    rows = to_rows(cols)
    n = len(cols)
    seq = [apply_(cols, x) for x in range(2 ** n)]
    made = {'vector': WalshPerm(vector=list(cols)), 'tuple': WalshPerm(vector=tuple(cols)), 'plain': WalshPerm(list(cols)), 'matrix': WalshPerm(matrix=np.array(rows)),
            'list of rows': WalshPerm(matrix=rows), 'bool matrix': WalshPerm(matrix=np.array(rows, dtype=bool)), 'sequence': WalshPerm(perm=seq), 'perm': WalshPerm(perm=Perm(seq, perilen=len(seq))),
            'longer vector': WalshPerm(vector=list(cols) + [1 << n, 2 << n]),
            'longer matrix': WalshPerm(matrix=np.array(to_rows(list(cols) + [1 << n]))), 'trusted vector': WalshPerm(vector=list(cols), trust=True),
            'trusted sequence': WalshPerm(perm=seq, trust=True)}
    if n < 6:
        made['longer sequence'] = WalshPerm(perm=[apply_(cols, x) for x in range(2 ** (n + 1))])
    ref = made['vector']
    for what, w in made.items():
        check(w, cols, what)
        assert w == ref and ref == w and not w != ref, what + ' is not equal'
    rng = random.Random(repr(cols))
    for _ in range(20):
        x, y = rng.randrange(2 ** n), rng.randrange(2 ** (n + 1))
        eq(int(ref[x ^ y]), int(ref[x]) ^ int(ref[y]), 'linear')
    if short(cols):
        assert ref == Perm(seq, perilen=len(seq)) and Perm(seq, perilen=len(seq)) == ref, 'equal to the Perm'
    if n > 1:
        other = list(cols)
        k = rng.randrange(n)
        other[k] ^= cols[k - 1]
        assert WalshPerm(other) != ref, 'different maps are equal'
        # helpers
        same_matrix(vector_to_matrix(list(cols)), rows, 'vector_to_matrix')
        eq([int(v) for v in matrix_to_vector(np.array(rows))], list(cols), 'matrix_to_vector')
        eq([int(v) for v in matrix_to_vector(np.array(rows), by_row=True)], rowints(rows), 'matrix_to_vector by_row')
        same_matrix(perm_to_matrix(seq), rows, 'perm_to_matrix')
        if short(cols):
            m, d = shrink_matrix(np.array(rows))
            same_matrix(m, to_rows(short(cols)), 'shrink_matrix')
            eq(d, len(short(cols)), 'shrink_matrix')
        else:
            assert raises(lambda: shrink_matrix(np.array(rows)), IsNeutralFail)


def pairs(rng, tier):
    small = [list(c) for n in (1, 2, 3) for c in itertools.product(range(1, 2 ** n), repeat=n) if rank2(c) == n]
    for a in small:
        if rng.random() < 0.4:
            yield a, rng.choice(small)
    for _ in range(60 * (5 if tier == 'thorough' else 1)):
        yield random_invertible(rng, rng.randrange(1, 6)), random_invertible(rng, rng.randrange(1, 6))
    for _ in range(8):
        yield random_invertible(rng, 7), random_invertible(rng, rng.randrange(2, 8))


@oracle('C09', pairs)
def algebra(a, b):
    A, B = WalshPerm(vector=a), WalshPerm(vector=b)
    n = max(len(a), len(b))
    fa, fb = a + [1 << i for i in range(len(a), n)], b + [1 << i for i in range(len(b), n)]
    prod = [apply_(fa, c) for c in fb]
    P = A * B
    check(P, prod, 'product')
    ia = inverse_cols(a)
    check(A.inverse, ia, 'inverse')
    check(P.inverse, inverse_cols(prod), 'inverse of the product')
    check(A * A.inverse, [1], 'a * inverse')
    check(A.inverse * A, [1], 'inverse * a')
    check(A.transpose, rowints(to_rows(a)), 'transpose')
    check(A.transpose.transpose, a, 'transpose twice')
    check(P.transpose, rowints(to_rows(prod)), 'transpose of the product')
    assert P.transpose == B.transpose * A.transpose
    c = [1 << i for i in range(len(a))]
    inv = list(c)
    for e in range(6):
        check(A ** e, c, f'power {e}')
        check(A ** -e, inv, f'power -{e}')
        c = [apply_(a, x) for x in c]
        inv = [apply_(ia, x) for x in inv]
    check(A, a, 'operand')
    check(B, b, 'operand')
    if not A.neutral and len(a) < 5:
        p = Perm([apply_(a, x) for x in range(2 ** len(a))], perilen=2 ** len(a))
        eq([list(x) for x in A.cycles], [list(x) for x in p.cycles], 'cycles')
        eq(int(A.order), int(p.order), 'order')


def singular(rng, tier):
    for n in range(1, 4):
        for cols in itertools.product(range(2 ** n), repeat=n):
            if rank2(cols) < n and (n < 3 or rng.random() < 0.5):
                yield list(cols),
    for _ in range(40):
        n = rng.randrange(3, 6)
        c = random_invertible(rng, n)
        i, j = rng.sample(range(n), 2)
        c[i] = rng.choice([0, c[j], c[j] ^ c[(i + 1) % n] if (i + 1) % n not in (i,) else 0])
        if rank2(c) < n:
            yield c,
            yield c + [1 << n],


@oracle('C09', singular)
def singular_matrices_are_rejected(cols):
    rows = to_rows(cols)
    n = len(cols)
    assert raises(lambda: WalshPerm(vector=list(cols)), ValueError, TypeError), 'vector accepted'
    assert raises(lambda: WalshPerm(matrix=np.array(rows)), ValueError, TypeError), 'matrix accepted'
    seq = [apply_(cols, x) for x in range(2 ** n)]
    assert raises(lambda: WalshPerm(perm=seq), ValueError, TypeError), 'sequence accepted'


def nonlinear(rng, tier):
    for p in itertools.permutations(range(4)):
        yield list(p),
    for p in perms_small(3):
        yield list(p),
    for _ in range(60):
        n = rng.choice([4, 8, 16])
        yield rand_perm(rng, n),
    for _ in range(120):
        n = rng.randrange(2, 6)
        c = random_invertible(rng, n)
        seq = [apply_(c, x) for x in range(2 ** n)]
        k = rng.choice(['xor', 'swap', 'swap', 'permute bits'])
        if k == 'xor':
            z = rng.randrange(1, 2 ** n)
            seq = [s ^ z for s in seq]
        else:
            for _ in range(rng.choice([1, 1, 2])):
                i, j = rng.sample(range(2 ** n), 2)
                seq[i], seq[j] = seq[j], seq[i]
        yield seq,
    for s in ([1, 0], [0, 1, 2], [0, 0], [0, 1, 1, 0], [0, 1, 3, 2, 4, 5, 7, 6, 8]):
        yield s,


@oracle('C09', nonlinear)
def nonlinear_permutations_are_rejected(seq):
    n = len(seq)
    linear = n and n & n - 1 == 0 and seq[0] == 0 and sorted(seq) == list(range(n)) and \
        all(seq[x ^ y] == seq[x] ^ seq[y] for x in range(n) for y in range(n))
    if linear:
        check(WalshPerm(perm=list(seq)), [seq[1 << i] for i in range(n.bit_length() - 1)], 'perm')
    elif n:
        assert raises(lambda: WalshPerm(perm=list(seq)), ValueError, TypeError), 'accepted'
        if sorted(seq) == list(range(n)) and n > 1 and seq != sorted(seq) and not Perm(list(seq)).neutral:
            assert raises(lambda: WalshPerm(perm=Perm(list(seq), perilen=n)), ValueError, TypeError), 'accepted as Perm'


@oracle('C09', lambda r, t: [(0,)])
def neutral(_):
    for w in (WalshPerm(), WalshPerm([]), WalshPerm([1]), WalshPerm([1, 2, 4]), WalshPerm(matrix=np.eye(3, dtype=int)), WalshPerm(perm=[0]), WalshPerm(perm=[0, 1]),
              WalshPerm(perm=list(range(8))), WalshPerm(perm=Perm())):
        check(w, [], 'neutral')
        assert w == WalshPerm() and w == Perm()
    assert raises(lambda: WalshPerm(vector=[1], matrix=np.eye(2)))
    assert raises(lambda: WalshPerm(vector=[1, 4])) and raises(lambda: WalshPerm(matrix=np.array([[1, 0, 0], [0, 1, 0]])))
    assert raises(lambda: WalshPerm(matrix=np.array([[1, 2], [0, 1]]))) and raises(lambda: WalshPerm(matrix=np.array([[1, 0], [-1, 1]])))
