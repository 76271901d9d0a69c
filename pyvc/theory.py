"""Background theory (powers of two, binary digits, finite sums) and the calls to z3 / cvc5.

`pow2`, `bit`, `psum` and `dval` are defined by the equations marked DEF.  Every other axiom is marked LEM and is a
consequence of the definitions; `theory_obligations()` gives the induction steps that show this, and they are discharged
with the other obligations on every run.
"""
import ast
import itertools
import time
import z3

I = z3.IntSort()
B = z3.BoolSort()
AI = z3.ArraySort(I, I)
AB = z3.ArraySort(I, B)

pow2 = z3.Function('pow2', I, I)
bit = z3.Function('bit', I, I, B)          # digit i of the natural number n
psum = z3.Function('psum', AI, I, I)       # a[0] + ... + a[n-1]
dval = z3.Function('dval', AB, I, I)       # number with binary digits a[0], ..., a[n-1]
band = z3.Function('band', I, I, I)
bor = z3.Function('bor', I, I, I)
bxor = z3.Function('bxor', I, I, I)
binlen = z3.Function('binlen', I, I)
wgt = z3.Function('wgt', I, I)             # number of binary ones
bdiff = z3.Function('bdiff', I, I, I)
gcd = z3.Function('gcd', I, I, I)
fact = z3.Function('fact', I, I)
pow10 = z3.Function('pow10', I, I)
declen = z3.Function('declen', I, I)       # number of decimal digits of a positive number

psdiff = z3.Function('psdiff', AI, AI, I, I)    # a place before k where two lists differ, if any
asc = z3.Function('asc', AI, I, B)          # a[0] < ... < a[n-1]
ascw = z3.Function('ascw', AI, I, I)        # a place where this fails, if any
cnt = z3.Function('cnt', AI, I, I, I)       # number of places j < k with a[j] == v
gath = z3.Function('gath', AI, I, I, I)     # the digits a[0], ..., a[n-1] of a number, as digits 0, ..., n-1
sprd = z3.Function('sprd', AI, I, I, I)     # the digits 0, ..., n-1 of a number, as digits a[0], ..., a[n-1]
sprdw = z3.Function('sprdw', AI, I, I, I)   # the place of a number in a, if any
below = z3.Function('below', AB, I, I)      # number of natural elements of a set below x
iterp = z3.Function('iterp', AI, AB, I, I, I)  # x moved k times by the map that is a on a set and keeps the other numbers
parb = z3.Function('parb', I, I, I, B)       # parity of the number of places before n where both numbers have a one
belw = z3.Function('belw', AB, AB, AB, I, I)
delb = z3.Function('delb', I, I, I)         # a number without its digit p
insb = z3.Function('insb', I, I, B, I)      # a number with a digit inserted at place p
patw = z3.Function('patw', AI, I, I, I)
cntw = z3.Function('cntw', AI, I, I)        # a place before n that holds neither 0 nor 1, if any
alike = z3.Function('alike', AI, I, AI, I, B)   # the same list
alkw = z3.Function('alkw', AI, I, AI, I, I)     # a place before n of the first list whose entry is not in the second, if any
idtw = z3.Function('idtw', AI, I, I)        # a place before n that does not hold itself, if any
sgat = z3.Function('sgat', AI, I, I, I)     # the number made of the digits of k at the given places, negated where the place is ~p
dvaw = z3.Function('dvaw', AB, AB, I, I)    # a place before n where two lists of digits differ, if any
samw = z3.Function('samw', AI, AI, I, I)    # a place before n where two lists differ, if any
zerw = z3.Function('zerw', AI, I, I)        # a place before n that does not hold 0, if any
onew = z3.Function('onew', AI, I, I)        # a place before n that does not hold 1, if any
parw = z3.Function('parw', AI, I, I, I)     # a number below 2**(n-1) such that the entries of the numbers with digit p inserted differ, if any
AAI = z3.ArraySort(I, AI)
setcol = z3.Function('setcol', AAI, I, AI, AAI)  # matrix with one column replaced
dotv = z3.Function('dotv', AAI, AAI, I, I, I, I)  # sum of the first n products of row i of a matrix with column j of another
smul = z3.Function('smul', I, I, I)         # product
dotw = z3.Function('dotw', AAI, AAI, I, I, I, I)  # a place before n where the product is not 0, if any
dotx = z3.Function('dotx', AAI, AAI, I, I, I, I)  # another one, if any

_i, _j, _k, _n, _m, _a, _b = z3.Ints('t_i t_j t_k t_n t_m t_a t_b')
_A = z3.Const('t_A', AI)
_B = z3.Const('t_B', AB)
_B2, _B3 = z3.Const('t_B2', AB), z3.Const('t_B3', AB)
_v = z3.Int('t_v')
_p = z3.Int('t_p')
_c = z3.Bool('t_c')
_A2 = z3.Const('t_A2', AI)
_M = z3.Const('t_M', AAI)


_alive = []


def MP(*terms):
    """a trigger of several terms; the binding does not keep the terms alive itself"""
    _alive.append(terms)
    return z3.MultiPattern(*terms)


def FA(vs, body, pats=None):
    if pats:
        return z3.ForAll(vs, body, patterns=pats)
    return z3.ForAll(vs, body)


def If1(b):
    return z3.If(b, z3.IntVal(1), z3.IntVal(0))




def sdig(k, p):
    """digit p of k, negated where the place is written ~p"""
    return z3.If(p >= 0, bit(k, p), z3.Not(bit(k, -p - 1)))


_M, _M2 = z3.Const('t_M', AAI), z3.Const('t_M2', AAI)


def _at(w):
    return w(_M, _M2, _n, _i, _j)


def _nonzero(w):
    return z3.And(0 <= _at(w), _at(w) < _n, _M[_i][_at(w)] != 0, _M2[_at(w)][_j] != 0)


AXIOMS = {
    'setcol': [
        ('DEF', FA([_M, _k, _A, _i, _j], z3.Select(z3.Select(setcol(_M, _k, _A), _i), _j) == z3.If(_j == _k, z3.Select(_A, _i), z3.Select(z3.Select(_M, _i), _j)),
                   [z3.Select(z3.Select(setcol(_M, _k, _A), _i), _j)])),
    ],
    'asc': [
        ('DEF', FA([_A, _n], z3.Or(asc(_A, _n), z3.And(0 <= ascw(_A, _n), ascw(_A, _n) < _n - 1,
                                                     z3.Select(_A, ascw(_A, _n)) >= z3.Select(_A, ascw(_A, _n) + 1))), [asc(_A, _n)])),
        ('LEM', FA([_A, _n, _i, _j], z3.Implies(z3.And(asc(_A, _n), 0 <= _i, _i <= _j, _j < _n), z3.Select(_A, _j) - z3.Select(_A, _i) >= _j - _i),
                   [MP(asc(_A, _n), z3.Select(_A, _i), z3.Select(_A, _j))])),
    ],
    'alike': [
        ('DEF', FA([_A, _n, _A2, _m], alike(_A, _n, _A2, _m) == z3.And(_n == _m, FA([_i], z3.Implies(z3.And(0 <= _i, _i < _n), z3.Select(_A, _i) == z3.Select(_A2, _i)),
                                                                                    [z3.Select(_A, _i), z3.Select(_A2, _i)])), [alike(_A, _n, _A2, _m)])),
        ('LEM', FA([_A, _n, _A2, _m], z3.Or(_n < 0, _m < 0, z3.Not(asc(_A, _n)), z3.Not(asc(_A2, _m)), alike(_A, _n, _A2, _m),
                                            z3.And(0 <= alkw(_A, _n, _A2, _m), alkw(_A, _n, _A2, _m) < _n,
                                                   FA([_j], z3.Implies(z3.And(0 <= _j, _j < _m), z3.Select(_A2, _j) != z3.Select(_A, alkw(_A, _n, _A2, _m))), [z3.Select(_A2, _j)])),
                                            z3.And(0 <= alkw(_A2, _m, _A, _n), alkw(_A2, _m, _A, _n) < _m,
                                                   FA([_j], z3.Implies(z3.And(0 <= _j, _j < _n), z3.Select(_A, _j) != z3.Select(_A2, alkw(_A2, _m, _A, _n))), [z3.Select(_A, _j)]))),
                   [alike(_A, _n, _A2, _m)])),
    ],
    'cnt': [
        ('DEF', FA([_A, _v], cnt(_A, _v, 0) == 0, [cnt(_A, _v, 0)])),
        ('DEF', FA([_A, _v, _j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), cnt(_A, _v, _k) == cnt(_A, _v, _j) + If1(z3.Select(_A, _j) == _v)),
                   [MP(cnt(_A, _v, _j), cnt(_A, _v, _k))])),
        ('LEM', FA([_A, _v, _k], z3.Implies(_k >= 0, z3.And(cnt(_A, _v, _k) >= 0, cnt(_A, _v, _k) <= _k)), [cnt(_A, _v, _k)])),
        ('LEM', FA([_A, _v, _j, _k], z3.Implies(z3.And(_j >= 0, _j < _k), z3.And(cnt(_A, _v, _j) <= cnt(_A, _v, _k),
                                                z3.Implies(z3.Select(_A, _j) == _v, cnt(_A, _v, _j) < cnt(_A, _v, _k)))),
                   [MP(cnt(_A, _v, _j), cnt(_A, _v, _k))])),
        ('LEM', FA([_A, _n], z3.Or(_n < 0, cnt(_A, 0, _n) + cnt(_A, 1, _n) == _n,
                                   z3.And(0 <= cntw(_A, _n), cntw(_A, _n) < _n, z3.Select(_A, cntw(_A, _n)) != 0, z3.Select(_A, cntw(_A, _n)) != 1)),
                   [MP(cnt(_A, 0, _n), cnt(_A, 1, _n))])),
    ],
    'weigh': [  # a list of zeros and ones, and its sum
        ('LEM', FA([_A, _n], z3.Or(_n < 0, psum(_A, _n) == 0, z3.And(0 <= zerw(_A, _n), zerw(_A, _n) < _n, z3.Select(_A, zerw(_A, _n)) != 0)), [psum(_A, _n)])),
        ('LEM', FA([_A, _n], z3.Or(_n < 0, psum(_A, _n) == _n, z3.And(0 <= onew(_A, _n), onew(_A, _n) < _n, z3.Select(_A, onew(_A, _n)) != 1)), [psum(_A, _n)])),
        ('LEM', FA([_A, _n, _i], z3.Or(_n < 0, z3.And(0 <= cntw(_A, _n), cntw(_A, _n) < _n, z3.Select(_A, cntw(_A, _n)) != 0, z3.Select(_A, cntw(_A, _n)) != 1),
                                       z3.And(0 <= psum(_A, _n), psum(_A, _n) <= _n, z3.Implies(z3.And(0 <= _i, _i < _n), z3.And(z3.Implies(psum(_A, _n) == 0, z3.Select(_A, _i) == 0),
                                              z3.Implies(psum(_A, _n) == _n, z3.Select(_A, _i) == 1))))), [MP(psum(_A, _n), z3.Select(_A, _i))])),
    ],
    'dotv': [
        ('DEF', FA([_M, _M2, _i, _j], dotv(_M, _M2, 0, _i, _j) == 0, [dotv(_M, _M2, 0, _i, _j)])),
        ('DEF', FA([_M, _M2, _k, _n, _i, _j], z3.Implies(z3.And(_k >= 0, _n == _k + 1), dotv(_M, _M2, _n, _i, _j) == dotv(_M, _M2, _k, _i, _j) + smul(_M[_i][_k], _M2[_k][_j])),
                   [MP(dotv(_M, _M2, _k, _i, _j), dotv(_M, _M2, _n, _i, _j))])),
        ('LEM', FA([_M, _M2, _n, _i, _j], z3.Or(_n < 0, dotv(_M, _M2, _n, _i, _j) == 0, _nonzero(dotw)), [dotv(_M, _M2, _n, _i, _j)])),
        ('LEM', FA([_M, _M2, _n, _i, _j], z3.Or(_n < 0, z3.Not(_nonzero(dotw)), dotv(_M, _M2, _n, _i, _j) == smul(_M[_i][_at(dotw)], _M2[_at(dotw)][_j]),
                                                z3.And(_nonzero(dotx), _at(dotx) != _at(dotw))), [dotv(_M, _M2, _n, _i, _j)])),
        ('LEM', FA([_M, _M2, _n, _i, _j, _k], z3.Implies(z3.And(0 <= _k, _k < _n, _M[_i][_k] != 0, _M2[_k][_j] != 0), _nonzero(dotw)), [MP(dotv(_M, _M2, _n, _i, _j), _M[_i][_k], _M2[_k][_j])])),
        ('LEM', FA([_a, _b], z3.And(z3.Implies(_a == 0, smul(_a, _b) == 0), z3.Implies(_b == 0, smul(_a, _b) == 0), z3.Implies(_a == 1, smul(_a, _b) == _b), z3.Implies(_b == 1, smul(_a, _b) == _a),
                                    z3.Implies(_a == -1, smul(_a, _b) == -_b), z3.Implies(_b == -1, smul(_a, _b) == -_a)), [smul(_a, _b)])),
    ],
    'parity': [  # entries that do not depend on a digit come in pairs
        ('LEM', FA([_A, _n, _p], z3.Implies(z3.And(0 <= _p, _p < _n), z3.Or(psum(_A, pow2(_n)) % 2 == 0,
                                 z3.And(0 <= parw(_A, _n, _p), parw(_A, _n, _p) < pow2(_n - 1),
                                        z3.Select(_A, insb(parw(_A, _n, _p), _p, False)) != z3.Select(_A, insb(parw(_A, _n, _p), _p, True))))),
                   [MP(psum(_A, pow2(_n)), pow2(_p))])),
    ],
    'gath': [
        ('DEF', FA([_A, _k], gath(_A, 0, _k) == 0, [gath(_A, 0, _k)])),
        ('DEF', FA([_A, _j, _n, _k], z3.Implies(z3.And(_j >= 0, _n == _j + 1), gath(_A, _n, _k) == gath(_A, _j, _k) + z3.If(bit(_k, z3.Select(_A, _j)), pow2(_j), 0)),
                   [MP(gath(_A, _j, _k), gath(_A, _n, _k))])),
        ('LEM', FA([_A, _n, _k], z3.Implies(_n >= 0, z3.And(gath(_A, _n, _k) >= 0, gath(_A, _n, _k) < pow2(_n))), [gath(_A, _n, _k)])),
        ('LEM', FA([_A, _n, _k, _i], z3.Implies(z3.And(_n >= 0, _i >= 0), bit(gath(_A, _n, _k), _i) == z3.And(_i < _n, bit(_k, z3.Select(_A, _i)))),
                   [bit(gath(_A, _n, _k), _i), MP(gath(_A, _n, _k), z3.Select(_A, _i))])),
        ('LEM', FA([_A, _A2, _n, _k], z3.Or(_n < 0, gath(_A, _n, _k) == gath(_A2, _n, _k),
                                            z3.And(0 <= samw(_A, _A2, _n), samw(_A, _A2, _n) < _n, z3.Select(_A, samw(_A, _A2, _n)) != z3.Select(_A2, samw(_A, _A2, _n)))),
                   [MP(gath(_A, _n, _k), gath(_A2, _n, _k))])),
        ('LEM', FA([_A, _n, _k], z3.Or(_n < 0, _k < 0, _k >= pow2(_n), gath(_A, _n, _k) == _k,
                                       z3.And(0 <= idtw(_A, _n), idtw(_A, _n) < _n, z3.Select(_A, idtw(_A, _n)) != idtw(_A, _n))), [gath(_A, _n, _k)])),
    ],
    'sgat': [
        ('DEF', FA([_A, _k], sgat(_A, 0, _k) == 0, [sgat(_A, 0, _k)])),
        ('DEF', FA([_A, _j, _n, _k], z3.Implies(z3.And(_j >= 0, _n == _j + 1), sgat(_A, _n, _k) == sgat(_A, _j, _k) + z3.If(sdig(_k, z3.Select(_A, _j)), pow2(_j), 0)),
                   [MP(sgat(_A, _j, _k), sgat(_A, _n, _k))])),
        ('LEM', FA([_A, _n, _k], z3.Implies(_n >= 0, z3.And(sgat(_A, _n, _k) >= 0, sgat(_A, _n, _k) < pow2(_n))), [sgat(_A, _n, _k)])),
        ('LEM', FA([_A, _n, _k, _i], z3.Implies(z3.And(_n >= 0, _i >= 0), bit(sgat(_A, _n, _k), _i) == z3.And(_i < _n, sdig(_k, z3.Select(_A, _i)))),
                   [bit(sgat(_A, _n, _k), _i), MP(sgat(_A, _n, _k), z3.Select(_A, _i))])),
        ('LEM', FA([_A, _A2, _n, _k], z3.Or(_n < 0, sgat(_A, _n, _k) == sgat(_A2, _n, _k),
                                            z3.And(0 <= samw(_A, _A2, _n), samw(_A, _A2, _n) < _n, z3.Select(_A, samw(_A, _A2, _n)) != z3.Select(_A2, samw(_A, _A2, _n)))),
                   [MP(sgat(_A, _n, _k), sgat(_A2, _n, _k))])),
    ],
    'sprd': [
        ('DEF', FA([_A, _k], sprd(_A, 0, _k) == 0, [sprd(_A, 0, _k)])),
        ('DEF', FA([_A, _j, _n, _k], z3.Implies(z3.And(_j >= 0, _n == _j + 1), sprd(_A, _n, _k) == sprd(_A, _j, _k) + z3.If(bit(_k, _j), pow2(z3.Select(_A, _j)), 0)),
                   [MP(sprd(_A, _j, _k), sprd(_A, _n, _k))])),
        ('LEM', FA([_A, _n, _k], z3.Implies(z3.And(_n > 0, asc(_A, _n), z3.Select(_A, 0) >= 0),
                                            z3.And(sprd(_A, _n, _k) >= 0, sprd(_A, _n, _k) < pow2(z3.Select(_A, _n - 1) + 1))), [sprd(_A, _n, _k)])),
        ('LEM', FA([_A, _n, _k, _j], z3.Implies(z3.And(0 <= _j, _j < _n, asc(_A, _n), z3.Select(_A, 0) >= 0), bit(sprd(_A, _n, _k), z3.Select(_A, _j)) == bit(_k, _j)),
                   [MP(sprd(_A, _n, _k), z3.Select(_A, _j)), MP(sprd(_A, _n, _k), bit(_k, _j))])),
        ('LEM', FA([_A, _n, _k, _i], z3.Implies(z3.And(_n >= 0, z3.Or(_n == 0, z3.And(asc(_A, _n), z3.Select(_A, 0) >= 0)), _i >= 0, bit(sprd(_A, _n, _k), _i)),
                                                z3.And(0 <= sprdw(_A, _n, _i), sprdw(_A, _n, _i) < _n, z3.Select(_A, sprdw(_A, _n, _i)) == _i)),
                   [bit(sprd(_A, _n, _k), _i)])),
        ('LEM', FA([_A, _n, _k], z3.Implies(z3.And(_n >= 0, z3.Or(_n == 0, z3.And(asc(_A, _n), z3.Select(_A, 0) >= 0)), _k >= 0, _k < pow2(_n)), gath(_A, _n, sprd(_A, _n, _k)) == _k),
                   [sprd(_A, _n, _k)])),
        ('LEM', FA([_A, _A2, _n, _k], z3.Or(_n < 0, sprd(_A, _n, _k) == sprd(_A2, _n, _k),
                                            z3.And(0 <= samw(_A, _A2, _n), samw(_A, _A2, _n) < _n, z3.Select(_A, samw(_A, _A2, _n)) != z3.Select(_A2, samw(_A, _A2, _n)))),
                   [MP(sprd(_A, _n, _k), sprd(_A2, _n, _k))])),
    ],
    'iterp': [
        ('DEF', FA([_A, _B, _k], iterp(_A, _B, 0, _k) == _k, [iterp(_A, _B, 0, _k)])),
        ('DEF', FA([_A, _B, _j, _n, _k, _i], z3.Implies(z3.And(_j >= 0, _n == _j + 1, _i == z3.If(z3.Select(_B, _k), z3.Select(_A, _k), _k)),
                                                     iterp(_A, _B, _n, _k) == iterp(_A, _B, _j, _i)), [MP(iterp(_A, _B, _n, _k), iterp(_A, _B, _j, _i))])),
        ('LEM', FA([_A, _B, _k], iterp(_A, _B, 1, _k) == z3.If(z3.Select(_B, _k), z3.Select(_A, _k), _k), [iterp(_A, _B, 1, _k)])),
        ('LEM', FA([_A, _B, _j, _n, _k], z3.Implies(z3.And(_j >= 0, _n == _j + 1), iterp(_A, _B, _n, _k) ==
                                                    z3.If(z3.Select(_B, iterp(_A, _B, _j, _k)), z3.Select(_A, iterp(_A, _B, _j, _k)), iterp(_A, _B, _j, _k))),
                   [MP(iterp(_A, _B, _n, _k), iterp(_A, _B, _j, _k))])),
    ],
    'parb': [
        ('DEF', FA([_k, _i], z3.Not(parb(_k, _i, 0)), [parb(_k, _i, 0)])),
        ('DEF', FA([_k, _i, _j, _n], z3.Implies(z3.And(_j >= 0, _n == _j + 1), parb(_k, _i, _n) == z3.Xor(parb(_k, _i, _j), z3.And(bit(_k, _j), bit(_i, _j)))),
                   [MP(parb(_k, _i, _n), parb(_k, _i, _j))])),
    ],
    'below': [
        ('DEF', FA([_B], below(_B, 0) == 0, [below(_B, 0)])),
        ('DEF', FA([_B, _j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), below(_B, _k) == below(_B, _j) + If1(z3.Select(_B, _j))),
                   [MP(below(_B, _j), below(_B, _k))])),
        ('LEM', FA([_B, _k], z3.Implies(_k >= 0, z3.And(below(_B, _k) >= 0, below(_B, _k) <= _k)), [below(_B, _k)])),
        ('LEM', FA([_B, _j, _k], z3.Implies(z3.And(_j >= 0, _j < _k), z3.And(below(_B, _j) <= below(_B, _k), z3.Implies(z3.Select(_B, _j), below(_B, _j) < below(_B, _k)))),
                   [MP(below(_B, _j), below(_B, _k))])),
        ('LEM', FA([_B, _B2, _B3, _k], z3.Or(_k < 0, below(_B3, _k) == below(_B, _k) + below(_B2, _k),
                                             z3.And(0 <= belw(_B, _B2, _B3, _k), belw(_B, _B2, _B3, _k) < _k,
                                                    If1(z3.Select(_B3, belw(_B, _B2, _B3, _k))) != If1(z3.Select(_B, belw(_B, _B2, _B3, _k))) + If1(z3.Select(_B2, belw(_B, _B2, _B3, _k))))),
                   [MP(below(_B, _k), below(_B2, _k), below(_B3, _k))])),
    ],
    'delb': [
        ('NOTE', FA([_n, _p], z3.Implies(z3.And(_n >= 0, _p >= 0), delb(_n, _p) == (_n / pow2(_p + 1)) * pow2(_p) + _n % pow2(_p)), [delb(_n, _p)])),
        ('LEM', FA([_n, _p], z3.Implies(z3.And(_n >= 0, _p >= 0), z3.And(delb(_n, _p) >= 0, delb(_n, _p) <= _n)), [delb(_n, _p)])),
        ('LEM', FA([_n, _p, _i], z3.Implies(z3.And(_n >= 0, _p >= 0, _i >= 0), bit(delb(_n, _p), _i) == z3.If(_i < _p, bit(_n, _i), bit(_n, _i + 1))),
                   [bit(delb(_n, _p), _i)])),
        ('LEM', FA([_n, _p, _k], z3.Implies(z3.And(_n >= 0, 0 <= _p, _p <= _k, _n < 2 * pow2(_k)), delb(_n, _p) < pow2(_k)), [MP(delb(_n, _p), pow2(_k))])),
        ('LEM', FA([_A, _v, _n, _p], z3.Implies(z3.And(_n >= 0, _p >= 0, z3.Or(_v == 0, _v == 1), bit(_n, _p) == (_v == 1)),
                                                z3.Or(cnt(_A, _v, _n) == delb(_n, _p),
                                                      z3.And(0 <= patw(_A, _p, _n), patw(_A, _p, _n) < _n, z3.Select(_A, patw(_A, _p, _n)) != If1(bit(patw(_A, _p, _n), _p))))),
                   [MP(cnt(_A, _v, _n), delb(_n, _p))])),
        ('LEM', FA([_n, _p], z3.Implies(z3.And(0 <= _p, _p < _n), delb(pow2(_n), _p) == pow2(_n - 1)), [delb(pow2(_n), _p)])),
        ('LEM', FA([_n, _m, _p], z3.Implies(z3.And(_n >= 0, _m >= 0, _p >= 0, delb(_n, _p) == delb(_m, _p), bit(_n, _p) == bit(_m, _p)), _n == _m),
                   [MP(delb(_n, _p), delb(_m, _p))])),
    ],
    'insb': [
        ('NOTE', FA([_n, _p, _c], z3.Implies(z3.And(_n >= 0, _p >= 0), insb(_n, _p, _c) == (_n / pow2(_p)) * pow2(_p + 1) + z3.If(_c, pow2(_p), 0) + _n % pow2(_p)), [insb(_n, _p, _c)])),
        ('LEM', FA([_n, _p, _c], z3.Implies(z3.And(_n >= 0, _p >= 0), z3.And(insb(_n, _p, _c) >= _n, bit(insb(_n, _p, _c), _p) == _c, delb(insb(_n, _p, _c), _p) == _n)), [insb(_n, _p, _c)])),
        ('LEM', FA([_n, _p, _c, _i], z3.Implies(z3.And(_n >= 0, _p >= 0, _i >= 0), bit(insb(_n, _p, _c), _i) == z3.If(_i < _p, bit(_n, _i), z3.If(_i == _p, _c, bit(_n, _i - 1)))),
                   [bit(insb(_n, _p, _c), _i)])),
        ('LEM', FA([_n, _p, _c, _k], z3.Implies(z3.And(_n >= 0, 0 <= _p, _p <= _k, _n < pow2(_k)), insb(_n, _p, _c) < 2 * pow2(_k)), [MP(insb(_n, _p, _c), pow2(_k))])),
        ('LEM', FA([_n, _p, _c], z3.Implies(z3.And(_n >= 0, _p >= 0), insb(_n, _p, True) == insb(_n, _p, False) + pow2(_p)), [insb(_n, _p, _c)])),
    ],
    'pow2': [
        ('DEF', pow2(0) == 1),
        ('DEF', FA([_j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), pow2(_k) == 2 * pow2(_j)),
                   [MP(pow2(_j), pow2(_k))])),
        ('LEM', FA([_k], z3.Implies(_k >= 0, z3.And(pow2(_k) >= 1, pow2(_k) > _k)), [pow2(_k)])),
        ('LEM', FA([_j, _k], z3.Implies(z3.And(_j >= 0, _j < _k), 2 * pow2(_j) <= pow2(_k)),
                   [MP(pow2(_j), pow2(_k))])),
        ('LEM', FA([_k], z3.Implies(_k >= 1, pow2(_k) % 2 == 0), [pow2(_k)])),
    ],
    'bit': [
        ('DEF', FA([_n], bit(_n, 0) == (_n % 2 == 1), [bit(_n, 0)])),
        ('DEF', FA([_n, _i, _m, _j], z3.Implies(z3.And(_i >= 1, _j == _i - 1, _m == _n / 2), bit(_n, _i) == bit(_m, _j)),
                   [MP(bit(_n, _i), bit(_m, _j))])),
        ('LEM', FA([_i], z3.Implies(_i >= 0, z3.Not(bit(0, _i))), [bit(0, _i)])),
        ('LEM', FA([_n, _i], z3.Implies(z3.And(_n >= 0, _i >= 0, bit(_n, _i)), _n >= pow2(_i)), [bit(_n, _i)])),
        ('LEM', FA([_n, _i, _k], z3.Implies(z3.And(_n >= 0, _k >= 0, _n < pow2(_k), _i >= _k), z3.Not(bit(_n, _i))),
                   [MP(bit(_n, _i), pow2(_k))])),
        ('LEM', FA([_i, _k], z3.Implies(z3.And(_i >= 0, _k >= 0), bit(pow2(_k), _i) == (_i == _k)), [bit(pow2(_k), _i)])),
        ('LEM', FA([_n, _k], z3.Implies(z3.And(_n >= 0, _k >= 0, pow2(_k) <= _n, _n < 2 * pow2(_k)), bit(_n, _k)),
                   [bit(_n, _k)])),
    ],
    'bitdiv': [  # only where something is divided by a number that is not a literal
        ('LEM', FA([_n, _k, _m], z3.Implies(z3.And(_n >= 0, _k >= 0, _m == 2 * pow2(_k)), bit(_n, _k) == (_n % _m >= pow2(_k))),
                   [MP(bit(_n, _k), _n % _m)])),
        ('LEM', FA([_n, _k, _i], z3.Implies(z3.And(_n >= 0, _k >= 0, _i >= 0), bit(_n % pow2(_k), _i) == z3.And(_i < _k, bit(_n, _i))),
                   [bit(_n % pow2(_k), _i)])),
        ('LEM', FA([_n, _k, _i], z3.Implies(z3.And(_n >= 0, _k >= 0, _i >= 0), bit(_n / pow2(_k), _i) == bit(_n, _i + _k)),
                   [bit(_n / pow2(_k), _i)])),
    ],
    'psumext': [  # sums of the same terms are equal
        ('LEM', FA([_A, _A2, _k], z3.Or(_k < 0, psum(_A, _k) == psum(_A2, _k), z3.And(0 <= psdiff(_A, _A2, _k), psdiff(_A, _A2, _k) < _k,
                                        z3.Select(_A, psdiff(_A, _A2, _k)) != z3.Select(_A2, psdiff(_A, _A2, _k)))), [MP(psum(_A, _k), psum(_A2, _k))])),
    ],
    'bdiff': [
        # two different natural numbers differ in some digit
        ('LEM', FA([_a, _b], z3.Implies(z3.And(_a >= 0, _b >= 0, _a != _b),
                                        z3.And(bdiff(_a, _b) >= 0, bit(_a, bdiff(_a, _b)) != bit(_b, bdiff(_a, _b)))),
                   [bdiff(_a, _b)])),
    ],
    'psum': [
        ('DEF', FA([_A], psum(_A, 0) == 0, [psum(_A, 0)])),
        ('DEF', FA([_A, _j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), psum(_A, _k) == psum(_A, _j) + z3.Select(_A, _j)),
                   [MP(psum(_A, _j), psum(_A, _k))])),
    ],
    'dval': [
        ('DEF', FA([_B], dval(_B, 0) == 0, [dval(_B, 0)])),
        ('DEF', FA([_B, _j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1),
                                            dval(_B, _k) == dval(_B, _j) + z3.If(z3.Select(_B, _j), pow2(_j), 0)),
                   [MP(dval(_B, _j), dval(_B, _k))])),
        ('LEM', FA([_B, _k], z3.Implies(_k >= 0, z3.And(dval(_B, _k) >= 0, dval(_B, _k) < pow2(_k))), [dval(_B, _k)])),
        ('LEM', FA([_B, _k, _i], z3.Implies(z3.And(_k >= 0, _i >= 0),
                                            bit(dval(_B, _k), _i) == z3.And(_i < _k, z3.Select(_B, _i))),
                   [bit(dval(_B, _k), _i), MP(dval(_B, _k), z3.Select(_B, _i))])),
        ('LEM', FA([_B, _j, _k, _i], z3.Implies(z3.And(_j >= 0, _j <= _k, dval(_B, _j) == dval(_B, _k), _i >= _j, _i < _k),
                                                z3.Not(z3.Select(_B, _i))),
                   [MP(dval(_B, _j), dval(_B, _k), z3.Select(_B, _i))])),
        ('LEM', FA([_B, _B2, _n], z3.Or(_n < 0, dval(_B, _n) == dval(_B2, _n), z3.And(0 <= dvaw(_B, _B2, _n), dvaw(_B, _B2, _n) < _n,
                                        z3.Select(_B, dvaw(_B, _B2, _n)) != z3.Select(_B2, dvaw(_B, _B2, _n)))), [MP(dval(_B, _n), dval(_B2, _n))])),
    ],
    'band': [
        ('SEM', FA([_a, _b], z3.Implies(z3.And(_a >= 0, _b >= 0), z3.And(band(_a, _b) >= 0, band(_a, _b) <= _a, band(_a, _b) <= _b)), [band(_a, _b)])),
        ('SEM', FA([_a, _b, _i], z3.Implies(z3.And(_a >= 0, _b >= 0, _i >= 0), bit(band(_a, _b), _i) == z3.And(bit(_a, _i), bit(_b, _i))),
                   [bit(band(_a, _b), _i)])),
    ],
    'bor': [
        ('SEM', FA([_a, _b], z3.Implies(z3.And(_a >= 0, _b >= 0), z3.And(bor(_a, _b) >= _a, bor(_a, _b) >= _b)), [bor(_a, _b)])),
        ('SEM', FA([_a, _b, _i], z3.Implies(z3.And(_a >= 0, _b >= 0, _i >= 0), bit(bor(_a, _b), _i) == z3.Or(bit(_a, _i), bit(_b, _i))),
                   [bit(bor(_a, _b), _i)])),
        ('LEM', FA([_a, _b, _k], z3.Implies(z3.And(_a >= 0, _b >= 0, _k >= 0, _a < pow2(_k), _b < pow2(_k)), bor(_a, _b) < pow2(_k)),
                   [MP(bor(_a, _b), pow2(_k))])),
    ],
    'bxor': [
        ('SEM', FA([_a, _b], z3.Implies(z3.And(_a >= 0, _b >= 0), bxor(_a, _b) >= 0), [bxor(_a, _b)])),
        ('SEM', FA([_a, _b, _i], z3.Implies(z3.And(_a >= 0, _b >= 0, _i >= 0), bit(bxor(_a, _b), _i) == z3.Xor(bit(_a, _i), bit(_b, _i))),
                   [bit(bxor(_a, _b), _i)])),
        ('LEM', FA([_a, _b, _k], z3.Implies(z3.And(_a >= 0, _b >= 0, _k >= 0, _a < pow2(_k), _b < pow2(_k)), bxor(_a, _b) < pow2(_k)),
                   [MP(bxor(_a, _b), pow2(_k))])),
    ],
    'binlen': [
        ('DEF', FA([_n], z3.Implies(_n >= 0, z3.And(binlen(_n) >= 0, _n < pow2(binlen(_n)),
                                                    z3.Implies(_n > 0, z3.And(binlen(_n) >= 1, pow2(binlen(_n) - 1) <= _n)))),
                   [binlen(_n)])),
        ('DEF', binlen(0) == 0),
    ],
    'wgt': [
        ('DEF', wgt(0) == 0),
        ('DEF', FA([_n, _m], z3.Implies(z3.And(_n >= 0, _m == _n / 2), wgt(_n) == wgt(_m) + _n % 2),
                   [MP(wgt(_n), wgt(_m))])),
        ('LEM', FA([_n], z3.Implies(_n >= 0, wgt(_n) >= 0), [wgt(_n)])),
    ],
    'fact': [
        ('DEF', fact(0) == 1),
        ('DEF', FA([_j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), fact(_k) == _k * fact(_j)),
                   [MP(fact(_j), fact(_k))])),
        ('LEM', FA([_k], z3.Implies(_k >= 0, fact(_k) >= 1), [fact(_k)])),
    ],
    'pow10': [
        ('DEF', pow10(0) == 1),
        ('DEF', FA([_j, _k], z3.Implies(z3.And(_j >= 0, _k == _j + 1), pow10(_k) == 10 * pow10(_j)),
                   [MP(pow10(_j), pow10(_k))])),
        ('LEM', FA([_k], z3.Implies(_k >= 0, pow10(_k) >= 1), [pow10(_k)])),
        ('LEM', FA([_j, _k], z3.Implies(z3.And(_j >= 0, _j < _k), 10 * pow10(_j) <= pow10(_k)),
                   [MP(pow10(_j), pow10(_k))])),
    ],
    'declen': [
        ('DEF', FA([_n], z3.Implies(_n >= 1, z3.And(declen(_n) >= 1, pow10(declen(_n) - 1) <= _n, _n < pow10(declen(_n)))), [declen(_n)])),
    ],
    'gcd': [
        ('SEM', FA([_a, _b], z3.Implies(z3.And(_a >= 1, _b >= 1), z3.And(gcd(_a, _b) >= 1, _a % gcd(_a, _b) == 0, _b % gcd(_a, _b) == 0)), [gcd(_a, _b)])),
    ],
}
FUNCS = {'dotv': dotv, 'asc': asc, 'alike': alike, 'sgat': sgat, 'cnt': cnt, 'gath': gath, 'sprd': sprd, 'iterp': iterp, 'parb': parb, 'below': below, 'delb': delb, 'insb': insb, 'setcol': setcol, 'pow2': pow2, 'bit': bit, 'psum': psum, 'dval': dval, 'band': band, 'bor': bor, 'bxor': bxor, 'binlen': binlen,
         'wgt': wgt, 'fact': fact, 'gcd': gcd, 'bdiff': bdiff, 'pow10': pow10, 'declen': declen}
NEEDS = {'bit': ['pow2'], 'parb': ['bit', 'pow2'], 'dval': ['pow2', 'bit'], 'band': ['bit', 'pow2'], 'bor': ['bit', 'pow2'], 'bxor': ['bit', 'pow2'],
         'alike': ['asc'], 'binlen': ['pow2'], 'declen': ['pow10'], 'bdiff': ['bit', 'pow2']}


def theory_obligations():
    """(name, premises, goal): every LEM axiom follows by induction from the DEF equations"""
    k, n, i, j = z3.Ints('k n i j')
    D = [a for f in ('pow2',) for t, a in AXIOMS[f] if t == 'DEF']
    out = []
    step2 = pow2(k + 1) == 2 * pow2(k)
    out.append(('pow2 positive and above its argument: start', D, z3.And(pow2(0) >= 1, pow2(0) > 0)))
    out.append(('pow2 positive and above its argument: step', D + [k >= 0, pow2(k) >= 1, pow2(k) > k, step2], z3.And(pow2(k + 1) >= 1, pow2(k + 1) > k + 1)))
    P = D + [AXIOMS['pow2'][2][1]]
    out.append(('pow2 monotone: start', P + [j >= 0, pow2(j + 1) == 2 * pow2(j)], 2 * pow2(j) <= pow2(j + 1)))
    out.append(('pow2 monotone: step', P + [j >= 0, k > j, 2 * pow2(j) <= pow2(k), step2], 2 * pow2(j) <= pow2(k + 1)))
    out.append(('pow2 even: step', P + [k >= 1, pow2(k) == 2 * pow2(k - 1)], pow2(k) % 2 == 0))
    PP = [a for _, a in AXIOMS['pow2']]

    def bs(m, q):  # the two defining equations of `bit` at (m, q + 1)
        return bit(m, q + 1) == bit(m / 2, q)
    d0 = FA([_n], bit(_n, 0) == (_n % 2 == 1), [bit(_n, 0)])
    out.append(('digits of zero: start', [d0], z3.Not(bit(0, 0))))
    out.append(('digits of zero: step', [d0, bs(z3.IntVal(0), i), i >= 0, z3.Not(bit(0, i))], z3.Not(bit(0, i + 1))))
    # a digit i of n gives n >= 2**i, by induction on i for all n
    H = FA([_n], z3.Implies(z3.And(_n >= 0, bit(_n, i)), _n >= pow2(i)), [bit(_n, i)])
    out.append(('digit bounds number: start', PP + [d0, n >= 0, bit(n, 0)], n >= pow2(0)))
    out.append(('digit bounds number: step', PP + [d0, i >= 0, H, n >= 0, bs(n, i), bit(n, i + 1), pow2(i + 1) == 2 * pow2(i)], n >= pow2(i + 1)))
    L4 = AXIOMS['bit'][3][1]
    out.append(('number below a power has no higher digits', PP + [L4, n >= 0, k >= 0, n < pow2(k), i >= k,
                                                                   z3.Implies(k < i, 2 * pow2(k) <= pow2(i)), bit(n, i)], z3.BoolVal(False)))
    # digits of a power of two, induction on i for all k
    H = FA([_k], z3.Implies(_k >= 0, bit(pow2(_k), i) == (i == _k)), [bit(pow2(_k), i)])
    out.append(('digits of a power: start', PP + [d0, k >= 0], bit(pow2(k), 0) == (k == 0)))
    out.append(('digits of a power: step', PP + [d0, i >= 0, H, k >= 0, bs(pow2(k), i), z3.Implies(k >= 1, pow2(k) == 2 * pow2(k - 1)),
                                                 z3.Implies(k >= 1, bit(pow2(k - 1), i) == (i == k - 1)),
                                                 AXIOMS['bit'][2][1]], bit(pow2(k), i + 1) == (i + 1 == k)))
    # leading digit
    H = FA([_n], z3.Implies(z3.And(_n >= 0, pow2(k) <= _n, _n < 2 * pow2(k)), bit(_n, k)), [bit(_n, k)])
    out.append(('leading digit: start', PP + [d0, n >= 0, pow2(0) <= n, n < 2 * pow2(0)], bit(n, 0)))
    out.append(('leading digit: step', PP + [d0, k >= 0, H, n >= 0, step2, pow2(k + 1) <= n, n < 2 * pow2(k + 1), bs(n, k)], bit(n, k + 1)))
    # halving and remainders: with h = n / 2 = q * 2**k + r
    h, qq, r, P2 = z3.Ints('h qq r P2')
    halves = [n >= 0, P2 >= 1, h == n / 2, qq == h / P2, r == h % P2, h == qq * P2 + r, 0 <= r, r < P2, n == 2 * h + n % 2]
    out.append(('halved remainder: sum', halves, n == qq * (2 * P2) + (2 * r + n % 2)))
    out.append(('halved remainder: unique', [P2 >= 1, n == qq * P2 + r, 0 <= r, r < P2], z3.And(n % P2 == r, n / P2 == qq)))
    rem = lambda nn, kk, ii: bit(nn % pow2(kk), ii) == z3.And(ii < kk, bit(nn, ii))
    sh = n % pow2(k + 1) == 2 * ((n / 2) % pow2(k)) + n % 2
    out.append(('digits of a remainder: start', PP + [AXIOMS['bit'][2][1], n >= 0, i >= 0, n % pow2(0) == 0], rem(n, z3.IntVal(0), i)))
    out.append(('digits of a remainder: digit 0', PP + [d0, n >= 0, k >= 0, sh], rem(n, k + 1, z3.IntVal(0))))
    out.append(('digits of a remainder: step', PP + [d0, n >= 0, k >= 0, i >= 0, sh, rem(n / 2, k, i), bs(n, i), bs(n % pow2(k + 1), i)], rem(n, k + 1, i + 1)))
    out.append(('shifted digits: start', [pow2(0) == 1, n >= 0, i >= 0], bit(n / pow2(0), i) == bit(n, i + 0)))
    out.append(('shifted digits: step', [n >= 0, k >= 0, i >= 0, n / pow2(k + 1) == (n / 2) / pow2(k), bit((n / 2) / pow2(k), i) == bit(n / 2, i + k),
                                         bs(n, i + k)], bit(n / pow2(k + 1), i) == bit(n, i + (k + 1))))
    w = z3.Int('w')
    out.append(('digit by remainder', PP + [AXIOMS['bit'][4][1], AXIOMS['bit'][6][1], n >= 0, k >= 0, step2, w == n % pow2(k + 1), 0 <= w, w < pow2(k + 1),
                                            bit(w, k) == bit(n, k), z3.Implies(w < pow2(k), z3.Not(bit(w, k)))], bit(n, k) == (w >= pow2(k))))
    # extensionality, strong induction on a: if all digits agree then equal
    a, b = z3.Ints('a b')
    same = FA([_i], z3.Implies(_i >= 0, bit(a, _i) == bit(b, _i)), [bit(a, _i)])
    IH = FA([_a, _b], z3.Implies(z3.And(_a >= 0, _b >= 0, _a < a, z3.ForAll([_i], z3.Implies(_i >= 0, bit(_a, _i) == bit(_b, _i)))), _a == _b))
    q = z3.Int('q')
    out.append(('digits determine number: halves agree', [q >= 0, bs(a, q), bs(b, q), bit(a, q + 1) == bit(b, q + 1)], bit(a / 2, q) == bit(b / 2, q)))
    out.append(('digits determine number: step', [a > 0, b >= 0, a / 2 == b / 2, bit(a, 0) == bit(b, 0), d0], a == b))
    out.append(('digits determine number: zero', PP + [AXIOMS['bit'][2][1], AXIOMS['bit'][6][1], b > 0,
                                                       FA([_i], z3.Implies(_i >= 0, bit(b, _i) == bit(0, _i)), [bit(b, _i)]),
                                                       k >= 0, pow2(k) <= b, b < 2 * pow2(k), bit(b, k) == bit(0, k)], z3.BoolVal(False)))
    # dval
    Bc = z3.Const('Bc', AB)
    ds = dval(Bc, k + 1) == dval(Bc, k) + z3.If(z3.Select(Bc, k), pow2(k), 0)
    dz = dval(Bc, 0) == 0
    out.append(('digit value bounds: start', PP + [dz], z3.And(dval(Bc, 0) >= 0, dval(Bc, 0) < pow2(0))))
    out.append(('digit value bounds: step', PP + [k >= 0, ds, step2, dval(Bc, k) >= 0, dval(Bc, k) < pow2(k)],
                z3.And(dval(Bc, k + 1) >= 0, dval(Bc, k + 1) < pow2(k + 1))))
    # digits of m + 2**k for m < 2**k (by induction on k for all m), then digits of dval
    m = z3.Int('m')
    add = lambda mm, kk, ii: bit(mm + pow2(kk), ii) == z3.Or(ii == kk, bit(mm, ii))
    out.append(('adding a higher power: digit 0', PP + [d0, k >= 1, m >= 0, m < pow2(k)], add(m, k, z3.IntVal(0))))
    out.append(('adding a higher power: start', PP + [d0, m >= 0, m < pow2(0), i >= 0, AXIOMS['bit'][2][1], bit(pow2(0), i) == (i == 0)], add(m, z3.IntVal(0), i)))
    H = z3.Implies(z3.And(m / 2 >= 0, m / 2 < pow2(k)), add(m / 2, k, i))
    out.append(('adding a higher power: step', PP + [d0, k >= 0, i >= 0, H, m >= 0, m < pow2(k + 1), step2, bs(m, i), bs(m + pow2(k + 1), i),
                                                     (m + pow2(k + 1)) / 2 == m / 2 + pow2(k)], add(m, k + 1, i + 1)))
    out.append(('digits of a digit value: start', [dz, AXIOMS['bit'][2][1], i >= 0], bit(dval(Bc, 0), i) == z3.And(i < 0, z3.Select(Bc, i))))
    out.append(('digits of a digit value: step', PP + [k >= 0, i >= 0, ds, dval(Bc, k) >= 0, dval(Bc, k) < pow2(k),
                                                       bit(dval(Bc, k), i) == z3.And(i < k, z3.Select(Bc, i)),
                                                       add(dval(Bc, k), k, i)], bit(dval(Bc, k + 1), i) == z3.And(i < k + 1, z3.Select(Bc, i))))
    out.append(('equal digit values: no further ones', [AXIOMS['dval'][3][1], 0 <= j, j <= k, dval(Bc, j) == dval(Bc, k), i >= j, i < k,
                                                        bit(dval(Bc, j), i) == bit(dval(Bc, k), i)], z3.Not(z3.Select(Bc, i))))
    out.append(('wgt natural: step', [n >= 0, n > 0, wgt(n) == wgt(n / 2) + n % 2, wgt(n / 2) >= 0], wgt(n) >= 0))
    s10 = pow10(k + 1) == 10 * pow10(k)
    out.append(('pow10 positive: step', [k >= 0, s10, pow10(k) >= 1], pow10(k + 1) >= 1))
    out.append(('pow10 monotone: start', [j >= 0, pow10(j + 1) == 10 * pow10(j)], 10 * pow10(j) <= pow10(j + 1)))
    out.append(('pow10 monotone: step', [j >= 0, k > j, 10 * pow10(j) <= pow10(k), s10, pow10(k) >= 1], 10 * pow10(j) <= pow10(k + 1)))
    out.append(('factorial positive: step', [k >= 0, fact(k + 1) == (k + 1) * fact(k), fact(k) >= 1], fact(k + 1) >= 1))
    # strictly increasing sequences S, T of length n, every T[i] being S[p[i]]: then p[i] == i
    S, T, p = z3.Const('S', AI), z3.Const('T', AI), z3.Const('p', AI)
    up = lambda X: FA([_i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < n), z3.Select(X, _i) < z3.Select(X, _j)), [MP(z3.Select(X, _i), z3.Select(X, _j))])
    among = FA([_i], z3.Implies(z3.And(0 <= _i, _i < n), z3.And(0 <= z3.Select(p, _i), z3.Select(p, _i) < n, z3.Select(T, _i) == z3.Select(S, z3.Select(p, _i)))),
               [z3.Select(p, _i), z3.Select(T, _i)])
    p_ = p
    pk, pl = z3.Select(p, k), z3.Select(p, k + 1)
    out.append(('sorted lists: places increase', [up(S), up(T), among, 0 <= j, j < k, k < n], z3.Select(p, j) < pk))
    out.append(('sorted lists: lower bound, start', [among, 0 < n], z3.Select(p, 0) >= 0))
    out.append(('sorted lists: lower bound, step', [0 <= k, pk >= k, pk < pl], pl >= k + 1))
    out.append(('sorted lists: upper bound, start', [among, 0 < n], z3.Select(p, n - 1) <= n - 1))
    out.append(('sorted lists: upper bound, step', [0 <= k, pl <= k + 1, pk < pl], pk <= k))
    for f in (bor, bxor):
        z, L = z3.Ints('z L')
        out.append((f'{f.name()} below a power', PP + [AXIOMS['bit'][3][1], AXIOMS['bit'][6][1], AXIOMS[f.name()][1][1], a >= 0, b >= 0, k >= 0, a < pow2(k), b < pow2(k),
                                                       z == f(a, b), z >= pow2(k), L >= 0, pow2(L) <= z, z < pow2(L + 1), pow2(L + 1) == 2 * pow2(L),
                                                       bit(z, L), bit(z, L) == bit(f(a, b), L), z3.Implies(L < k, 2 * pow2(L) <= pow2(k)),
                                                       z3.Implies(L > k, 2 * pow2(k) <= pow2(L))], z3.BoolVal(False)))
    X, Y = z3.Const('X', AI), z3.Const('Y', AI)
    out.append(('equal terms, equal sums: start', [psum(X, 0) == 0, psum(Y, 0) == 0], psum(X, 0) == psum(Y, 0)))
    out.append(('equal terms, equal sums: step', [k >= 0, psum(X, k + 1) == psum(X, k) + X[k], psum(Y, k + 1) == psum(Y, k) + Y[k], X[k] == Y[k],
                                                  psum(X, k) == psum(Y, k)], psum(X, k + 1) == psum(Y, k + 1)))
    out.append(('increasing: start', [0 <= i], X[i] - X[i] >= i - i))
    out.append(('increasing: step', [0 <= i, i <= j, j + 1 < n, X[j] - X[i] >= j - i, X[j] < X[j + 1]], X[j + 1] - X[i] >= j + 1 - i))
    # counting
    v, p, q2, P1 = z3.Ints('v p q2 P1')
    c = lambda kk: cnt(X, v, kk)
    cs = c(k + 1) == c(k) + If1(X[k] == v)
    out.append(('occurrences: bounds, step', [k >= 0, cs, c(k) >= 0, c(k) <= k], z3.And(c(k + 1) >= 0, c(k + 1) <= k + 1)))
    out.append(('occurrences: monotone, start', [j >= 0, c(j + 1) == c(j) + If1(X[j] == v)], z3.And(c(j) <= c(j + 1), z3.Implies(X[j] == v, c(j) < c(j + 1)))))
    out.append(('occurrences: monotone, step', [j >= 0, j < k, cs, c(j) <= c(k), z3.Implies(X[j] == v, c(j) < c(k))],
                z3.And(c(j) <= c(k + 1), z3.Implies(X[j] == v, c(j) < c(k + 1)))))
    S1, S2, S3 = (z3.Const(nm, AB) for nm in ('S1', 'S2', 'S3'))
    itA, itB = z3.Const('itA', AI), z3.Const('itB', AB)
    move = lambda x: z3.If(itB[x], itA[x], x)
    it = lambda kk, x: iterp(itA, itB, kk, x)
    out.append(('moving once', [it(1, i) == it(0, move(i)), it(0, move(i)) == move(i)], it(1, i) == move(i)))
    out.append(('moving once more: start', [it(0, i) == i, it(1, i) == it(0, move(i)), it(0, move(i)) == move(i)], it(1, i) == move(it(0, i))))
    out.append(('moving once more: step', [k >= 1, it(k + 1, i) == it(k, move(i)), it(k, i) == it(k - 1, move(i)),
                                           z3.ForAll([j], it(k, j) == move(it(k - 1, j)), patterns=[it(k, j)])], it(k + 1, i) == move(it(k, i))))
    bl = lambda s, kk: below(s, kk)
    bstep = lambda s: bl(s, k + 1) == bl(s, k) + If1(s[k])
    out.append(('below: bounds, step', [k >= 0, bstep(S1), bl(S1, k) >= 0, bl(S1, k) <= k], z3.And(bl(S1, k + 1) >= 0, bl(S1, k + 1) <= k + 1)))
    out.append(('below: monotone, start', [j >= 0, bl(S1, j + 1) == bl(S1, j) + If1(S1[j])], z3.And(bl(S1, j) <= bl(S1, j + 1), z3.Implies(S1[j], bl(S1, j) < bl(S1, j + 1)))))
    out.append(('below: monotone, step', [j >= 0, j < k, bstep(S1), bl(S1, j) <= bl(S1, k), z3.Implies(S1[j], bl(S1, j) < bl(S1, k))],
                z3.And(bl(S1, j) <= bl(S1, k + 1), z3.Implies(S1[j], bl(S1, j) < bl(S1, k + 1)))))
    out.append(('below: additive, start', [bl(S1, 0) == 0, bl(S2, 0) == 0, bl(S3, 0) == 0], bl(S3, 0) == bl(S1, 0) + bl(S2, 0)))
    out.append(('below: additive, step', [k >= 0, bstep(S1), bstep(S2), bstep(S3), bl(S3, k) == bl(S1, k) + bl(S2, k), If1(S3[k]) == If1(S1[k]) + If1(S2[k])],
                bl(S3, k + 1) == bl(S1, k + 1) + bl(S2, k + 1)))
    # the increasing list X of length n enumerates the set S1 of natural numbers: X[j] < x iff j < below(S1, x), by induction on x
    enum = [FA([_j], z3.Implies(z3.And(0 <= _j, _j < n), z3.And(S1[X[_j]], X[_j] >= 0)), [X[_j]]),
            FA([_i, _j], z3.Implies(z3.And(0 <= _i, _i < _j, _j < n), X[_i] < X[_j]), [MP(X[_i], X[_j])])]
    onto = z3.Implies(S1[k], z3.And(0 <= m, m < n, X[m] == k))
    IHb = FA([_j], z3.Implies(z3.And(0 <= _j, _j < n), (X[_j] < k) == (_j < bl(S1, k))), [X[_j]])
    out.append(('enumeration: start', enum + [bl(S1, 0) == 0, 0 <= j, j < n], (X[j] < 0) == (j < bl(S1, 0))))
    # if k is X[m], then m == below(S1, k): X[m] < k fails, X[m-1] < k holds
    out.append(('enumeration: place of an element', enum + [k >= 0, IHb, 0 <= m, m < n, X[m] == k, bl(S1, k) >= 0, z3.Implies(m > 0, X[m - 1] < X[m])], bl(S1, k) == m))
    out.append(('enumeration: step', enum + [k >= 0, IHb, onto, z3.Implies(S1[k], bl(S1, k) == m), bstep(S1), 0 <= j, j < n], (X[j] < k + 1) == (j < bl(S1, k + 1))))
    out.append(('enumeration: total', enum + [k >= 0, IHb, 0 <= n, bl(S1, k) <= n, onto, z3.Implies(S1[k], bl(S1, k) == m), bstep(S1)], bl(S1, k + 1) <= n))
    # gathering and spreading digits
    Bg = z3.Const('Bg', AB)
    out.append(('gathered digits are a digit value: step', [n >= 0, gath(X, n + 1, k) == gath(X, n, k) + z3.If(bit(k, X[n]), pow2(n), 0), Bg[n] == bit(k, X[n]),
                                                           dval(Bg, n + 1) == dval(Bg, n) + z3.If(Bg[n], pow2(n), 0), gath(X, n, k) == dval(Bg, n)], gath(X, n + 1, k) == dval(Bg, n + 1)))
    out.append(('gathered digits', [AXIOMS['dval'][2][1], AXIOMS['dval'][3][1], n >= 0, gath(X, n, k) == dval(Bg, n), i >= 0, Bg[i] == bit(k, X[i]), bit(dval(Bg, n), i) == z3.And(i < n, Bg[i])],
                z3.And(bit(gath(X, n, k), i) == z3.And(i < n, bit(k, X[i])), gath(X, n, k) >= 0, gath(X, n, k) < pow2(n))))
    sp = lambda nn: sprd(X, nn, k)
    ss = sp(n + 1) == sp(n) + z3.If(bit(k, n), pow2(X[n]), 0)
    out.append(('spread digits: bounds, start', PP + [X[0] >= 0, sp(0) == 0, sp(1) == sp(0) + z3.If(bit(k, 0), pow2(X[0]), 0), pow2(X[0] + 1) == 2 * pow2(X[0])], z3.And(sp(1) >= 0, sp(1) < pow2(X[0] + 1))))
    out.append(('spread digits: bounds, step', PP + [n >= 1, X[n - 1] >= 0, X[n - 1] < X[n], ss, sp(n) >= 0, sp(n) < pow2(X[n - 1] + 1), pow2(X[n] + 1) == 2 * pow2(X[n]),
                                                     pow2(X[n - 1] + 1) == 2 * pow2(X[n - 1])], z3.And(sp(n + 1) >= 0, sp(n + 1) < pow2(X[n] + 1))))
    Y0 = X[n]
    lowp = [n >= 0, Y0 >= 0, sp(n) >= 0, sp(n) < pow2(Y0), ss, add(sp(n), Y0, i), i >= 0]   # a higher power is added
    out.append(('spread digits: below the next place', PP + [n >= 1, X[n - 1] >= 0, X[n - 1] < X[n], sp(n) < pow2(X[n - 1] + 1), pow2(X[n - 1] + 1) == 2 * pow2(X[n - 1])], sp(n) < pow2(X[n])))
    out.append(('spread digits: step', lowp, bit(sp(n + 1), i) == z3.Or(z3.And(i == Y0, bit(k, n)), bit(sp(n), i))))
    out.append(('spread digits: no digit at the next place', PP + [AXIOMS['bit'][3][1], Y0 >= 0, sp(n) >= 0, sp(n) < pow2(Y0)], z3.Not(bit(sp(n), Y0))))
    out.append(('spread digits: places, step', [n >= 0, 0 <= j, j <= n, z3.Implies(j < n, bit(sp(n), X[j]) == bit(k, j)), z3.Implies(j < n, X[j] < X[n]),
                                               bit(sp(n + 1), X[j]) == z3.Or(z3.And(X[j] == Y0, bit(k, n)), bit(sp(n), X[j])), z3.Not(bit(sp(n), Y0))], bit(sp(n + 1), X[j]) == bit(k, j)))
    out.append(('spread digits: only those places, step', [n >= 0, bit(sp(n + 1), i), bit(sp(n + 1), i) == z3.Or(z3.And(i == Y0, bit(k, n)), bit(sp(n), i)),
                                                          z3.Implies(bit(sp(n), i), z3.And(0 <= m, m < n, X[m] == i))], z3.Or(i == Y0, z3.And(0 <= m, m < n + 1, X[m] == i))))
    g = gath(X, n, sp(n))
    wd = bdiff(g, k)
    out.append(('gathering what was spread', PP + [AXIOMS['bdiff'][0][1], n >= 0, k >= 0, k < pow2(n), g >= 0, z3.Implies(wd >= 0, bit(g, wd) == z3.And(wd < n, bit(sp(n), X[wd]))),
                                                  z3.Implies(z3.And(0 <= wd, wd < n), bit(sp(n), X[wd]) == bit(k, wd)), z3.Implies(wd >= n, z3.Not(bit(k, wd)))], g == k))
    # digits of q * 2**p + r with r < 2**p, by induction on p for all r
    r2 = z3.Int('r2')
    out.append(('two parts: start', [pow2(0) == 1, r == 0, i >= 0], bit(qq * pow2(0) + r, i) == z3.If(i < 0, bit(r, i), bit(qq, i - 0))))
    out.append(('two parts: digit 0', [d0, p >= 0, P2 == pow2(p), n == qq * (2 * P2) + r, n == 2 * (qq * P2) + r], bit(n, 0) == bit(r, 0)))
    out.append(('two parts: halves', [n == 2 * (qq * P2) + r, r == 2 * r2 + r % 2, r2 == r / 2, q2 == qq * P2], n / 2 == q2 + r2))
    out.append(('two parts: step', [p >= 0, i >= 0, bit(n, i + 1) == bit(n / 2, i), bit(r, i + 1) == bit(r2, i), bit(n / 2, i) == z3.If(i < p, bit(r2, i), bit(qq, i - p))],
                bit(n, i + 1) == z3.If(i + 1 < p + 1, bit(r, i + 1), bit(qq, i + 1 - (p + 1)))))
    hi, lo = z3.Ints('hi lo')
    parts = lambda x, u, w, pp: bit(x, i) == z3.If(i < pp, bit(w, i), bit(u, i - pp))
    out.append(('digit removed', [p >= 0, i >= 0, n >= 0, parts(m, hi, lo, p), bit(lo, i) == z3.And(i < p, bit(n, i)), z3.Implies(i >= p, bit(hi, i - p) == bit(n, i - p + (p + 1)))],
                bit(m, i) == z3.If(i < p, bit(n, i), bit(n, i + 1))))
    # m = hi * 2**(p+1) + (c 2**p + lo), lo < 2**p
    mid = z3.Int('mid')
    cb = z3.Bool('cb')
    out.append(('digit inserted', PP + [AXIOMS['bit'][2][1], AXIOMS['bit'][3][1], p >= 0, i >= 0, n >= 0, lo >= 0, lo < pow2(p), mid == lo + z3.If(cb, pow2(p), 0), z3.Implies(cb, bit(mid, i) == z3.Or(i == p, bit(lo, i))),
                                        z3.Implies(i == p, z3.Not(bit(lo, i))), parts(m, hi, mid, p + 1), bit(lo, i) == z3.And(i < p, bit(n, i)),
                                        z3.Implies(i >= p + 1, bit(hi, i - (p + 1)) == bit(n, i - (p + 1) + p))],
                bit(m, i) == z3.If(i < p, bit(n, i), z3.If(i == p, cb, bit(n, i - 1)))))
    L = z3.Int('L')
    big = lambda x, kk: z3.Implies(x >= pow2(kk), z3.And(L >= kk, bit(x, L)))   # a number has a digit at or above the power it reaches
    out.append(('digit removed: below a power', PP + [AXIOMS['bit'][3][1], n >= 0, 0 <= p, p <= k, n < 2 * pow2(k), step2, big(m, k), bit(m, L) == z3.If(L < p, bit(n, L), bit(n, L + 1)),
                                                      z3.Implies(bit(n, L + 1), n >= pow2(L + 1)), z3.Implies(L >= k, pow2(L + 1) >= pow2(k + 1))], m < pow2(k)))
    out.append(('digit inserted: below a power', PP + [AXIOMS['bit'][3][1], n >= 0, 0 <= p, p <= k, n < pow2(k), step2, big(m, k + 1),
                                                       bit(m, L) == z3.If(L < p, bit(n, L), z3.If(L == p, cb, bit(n, L - 1))),
                                                       z3.Implies(z3.And(L >= 1, bit(n, L - 1)), n >= pow2(L - 1)), z3.Implies(L >= k + 1, pow2(L - 1) >= pow2(k))], m < 2 * pow2(k)))
    out.append(('digit removed: not larger', [n >= 0, P2 >= 1, hi == n / (2 * P2), lo == n % P2, n / P2 >= hi, n == (n / P2) * P2 + lo, (n / P2) * P2 >= hi * P2, m == hi * P2 + lo], z3.And(m >= z3.If(hi * P2 >= 0, 0, hi * P2), m <= n)))
    out.append(('digit inserted: not smaller', [n >= 0, P2 >= 1, hi == n / P2, hi >= 0, lo == n % P2, q2 == hi * P2, q2 >= 0, n == q2 + lo, m == 2 * q2 + z3.If(cb, P2, 0) + lo, lo >= 0], m >= n))
    # digit removed and inserted again; a number is determined by one digit and the others
    out.append(('digit inserted and removed', [bit(q2, i) == z3.If(i < p, bit(m, i), bit(m, i + 1)), p >= 0, i >= 0, bit(m, i) == z3.If(i < p, bit(n, i), z3.If(i == p, cb, bit(n, i - 1))),
                                               bit(m, i + 1) == z3.If(i + 1 < p, bit(n, i + 1), z3.If(i + 1 == p, cb, bit(n, i)))], bit(q2, i) == bit(n, i)))
    out.append(('one digit and the others', [p >= 0, i >= 0, bit(n, p) == bit(m, p), FA([_i], z3.Implies(_i >= 0, z3.If(_i < p, bit(n, _i), bit(n, _i + 1)) == z3.If(_i < p, bit(m, _i), bit(m, _i + 1))), [bit(n, _i)]),
                                             z3.Implies(i < p, z3.If(i < p, bit(n, i), bit(n, i + 1)) == z3.If(i < p, bit(m, i), bit(m, i + 1))),
                                             z3.Implies(i > p, z3.If(i - 1 < p, bit(n, i - 1), bit(n, i)) == z3.If(i - 1 < p, bit(m, i - 1), bit(m, i)))], bit(n, i) == bit(m, i)))
    # numbers below n with digit p equal to v: q = n / 2**(p+1), rem = n % 2**(p+1), as long as the list is the pattern
    rem1, c0, c1 = z3.Ints('rem1 c0 c1')
    QP = z3.Int('QP')                      # q * 2**p
    close = lambda x0, x1, qp, rm: z3.And(x0 == qp + z3.If(rm < P2, rm, P2), x1 == qp + z3.If(rm < P2, 0, rm - P2))
    out.append(('pattern: next number', [n >= 0, P2 >= 1, qq == n / (2 * P2), rem1 == n % (2 * P2), n == qq * (2 * P2) + rem1, 0 <= rem1, rem1 < 2 * P2, rem1 + 1 < 2 * P2,
                                         n + 1 == qq * (2 * P2) + (rem1 + 1)], z3.And((n + 1) / (2 * P2) == qq, (n + 1) % (2 * P2) == rem1 + 1)))
    out.append(('pattern: next number, next block', [n >= 0, P2 >= 1, rem1 == 2 * P2 - 1, h == qq + 1, n == qq * (2 * P2) + rem1, n + 1 == h * (2 * P2)], z3.And((n + 1) / (2 * P2) == h, (n + 1) % (2 * P2) == 0)))
    d1, dn0, dn1 = z3.Bool('d1'), c0 + If1(z3.Not(z3.Bool('d1'))), c1 + If1(z3.Bool('d1'))
    out.append(('pattern: counts, step', [P2 >= 1, 0 <= rem1, rem1 + 1 < 2 * P2, d1 == (rem1 >= P2), close(c0, c1, QP, rem1)], close(dn0, dn1, QP, rem1 + 1)))
    out.append(('pattern: counts, next block', [P2 >= 1, rem1 == 2 * P2 - 1, d1 == (rem1 >= P2), close(c0, c1, QP, rem1)], close(dn0, dn1, QP + P2, 0)))
    out.append(('pattern: counts and removed digit', [P2 >= 1, 0 <= rem1, rem1 < 2 * P2, d1 == (rem1 >= P2), close(c0, c1, QP, rem1), lo == rem1 % P2,
                                                      z3.Implies(rem1 < P2, rem1 % P2 == rem1), z3.Implies(rem1 >= P2, rem1 % P2 == rem1 - P2), m == QP + lo],
                z3.And(z3.Implies(d1, c1 == m), z3.Implies(z3.Not(d1), c0 == m))))
    out.append(('zeros and ones: step', [n >= 0, c0 + c1 == n, dn0 + dn1 == c0 + c1 + 1], z3.And(dn0 + dn1 == n + 1, 0 + 0 == 0)))
    ps = lambda e: psum(X, e)
    X2 = z3.Const('X2', AI)
    r, s = z3.Ints('r s')
    M, M2 = z3.Const('M', AAI), z3.Const('M2', AAI)
    times = [FA([_a, _b], smul(_a, _b) == _a * _b, [smul(_a, _b)])]
    dstep = [n >= 0, dotv(M, M2, n + 1, r, s) == dotv(M, M2, n, r, s) + smul(M[r][n], M2[n][s])] + times
    out.append(('smul: special factors', times, z3.And(smul(0, i) == 0, smul(i, 0) == 0, smul(1, i) == i, smul(i, 1) == i, smul(-1, i) == -i, smul(i, -1) == -i)))
    out.append(('dotv: all products zero, step', dstep + [dotv(M, M2, n, r, s) == 0, z3.Or(M[r][n] == 0, M2[n][s] == 0)], dotv(M, M2, n + 1, r, s) == 0))
    out.append(('dotv: one product, at the end', dstep + [dotv(M, M2, n, r, s) == 0], dotv(M, M2, n + 1, r, s) == smul(M[r][n], M2[n][s])))
    out.append(('dotv: one product, step', dstep + [dotv(M, M2, n, r, s) == smul(M[r][k], M2[k][s]), z3.Or(M[r][n] == 0, M2[n][s] == 0)], dotv(M, M2, n + 1, r, s) == smul(M[r][k], M2[k][s])))
    out.append(('sgat: digits, start', [i >= 0, sgat(X, 0, k) == 0, z3.Not(bit(0, i))], bit(sgat(X, 0, k), i) == z3.And(i < 0, sdig(k, X[i]))))
    sg, sg1 = sgat(X, n, k), sgat(X, n + 1, k)
    out.append(('sgat: bounds, step', [n >= 0, 0 <= sg, sg < pow2(n), sg1 == sg + z3.If(sdig(k, X[n]), pow2(n), 0), pow2(n + 1) == 2 * pow2(n)], z3.And(0 <= sg1, sg1 < pow2(n + 1))))
    out.append(('sgat: digits, step', [n >= 0, i >= 0, 0 <= sg, sg < pow2(n), bit(sg, i) == z3.And(i < n, sdig(k, X[i])), sg1 == sg + z3.If(sdig(k, X[n]), pow2(n), 0),
                                       bit(sg + pow2(n), i) == z3.Or(bit(sg, i), i == n)], bit(sg1, i) == z3.And(i < n + 1, sdig(k, X[i]))))
    out.append(('sgat: equal lists, step', [n >= 0, sgat(X, n, k) == sgat(X2, n, k), X[n] == X2[n]] + [sgat(Y, n + 1, k) == sgat(Y, n, k) + z3.If(sdig(k, Y[n]), pow2(n), 0) for Y in (X, X2)],
                sgat(X, n + 1, k) == sgat(X2, n + 1, k)))
    Bd = z3.Const('Bd', AB)
    out.append(('dval: equal lists, step', [n >= 0, dval(Bc, n) == dval(Bd, n), Bc[n] == Bd[n]] + [dval(Y, n + 1) == dval(Y, n) + z3.If(Y[n], pow2(n), 0) for Y in (Bc, Bd)],
                dval(Bc, n + 1) == dval(Bd, n + 1)))
    out.append(('gath: all atoms', [0 <= k, k < pow2(n), n >= 0, i >= 0, z3.Implies(z3.And(0 <= i, i < n), X[i] == i), bit(gath(X, n, k), i) == z3.And(i < n, bit(k, X[i])),
                                    z3.Implies(i >= n, z3.Not(bit(k, i)))], bit(gath(X, n, k), i) == bit(k, i)))
    out.append(('gath: equal lists, start', [gath(X, 0, k) == 0, gath(X2, 0, k) == 0], gath(X, 0, k) == gath(X2, 0, k)))
    out.append(('gath: equal lists, step', [n >= 0, gath(X, n, k) == gath(X2, n, k), X[n] == X2[n]] + [gath(Y, n + 1, k) == gath(Y, n, k) + z3.If(bit(k, Y[n]), pow2(n), 0) for Y in (X, X2)],
                gath(X, n + 1, k) == gath(X2, n + 1, k)))
    out.append(('sprd: equal lists, start', [sprd(X, 0, k) == 0, sprd(X2, 0, k) == 0], sprd(X, 0, k) == sprd(X2, 0, k)))
    out.append(('sprd: equal lists, step', [n >= 0, sprd(X, n, k) == sprd(X2, n, k), X[n] == X2[n]] + [sprd(Y, n + 1, k) == sprd(Y, n, k) + z3.If(bit(k, n), pow2(Y[n]), 0) for Y in (X, X2)],
                sprd(X, n + 1, k) == sprd(X2, n + 1, k)))
    # sums of zeros and ones: the three lemmas by induction on n
    out.append(('sum of zeros', [n >= 0, ps(n) == 0, X[n] == 0, ps(n + 1) == ps(n) + X[n]], ps(n + 1) == 0))
    out.append(('sum of ones', [n >= 0, ps(n) == n, X[n] == 1, ps(n + 1) == ps(n) + X[n]], ps(n + 1) == n + 1))
    i_ = z3.Int('i_')
    all0 = lambda k: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), X[i_] == 0))
    all1 = lambda k: z3.ForAll([i_], z3.Implies(z3.And(0 <= i_, i_ < k), X[i_] == 1))
    weigh = lambda k: z3.And(0 <= ps(k), ps(k) <= k, z3.Implies(ps(k) == 0, all0(k)), z3.Implies(ps(k) == k, all1(k)))
    out.append(('sum of zeros and ones, start', [ps(z3.IntVal(0)) == 0], weigh(z3.IntVal(0))))
    out.append(('sum of zeros and ones, step', [n >= 0, weigh(n), z3.Or(X[n] == 0, X[n] == 1), ps(n + 1) == ps(n) + X[n]], weigh(n + 1)))
    # entries in pairs: s = q * 2**(p+1), first and second half of a block
    s_, t_ = z3.Ints('s_ t_')
    out.append(('pairs: no digit in the first half', [p >= 0, P2 == pow2(p), P2 >= 1, s_ == (2 * qq) * P2, 0 <= t_, t_ < P2, qq >= 0, bit(s_ + t_, p) == bit(2 * qq, 0), bit(2 * qq, 0) == ((2 * qq) % 2 == 1)], z3.Not(bit(s_ + t_, p))))
    out.append(('pairs: half block, step', [t_ >= 0, ps(s_ + P2 + t_) - ps(s_ + P2) == ps(s_ + t_) - ps(s_), X[s_ + t_] == X[s_ + P2 + t_],
                                            ps(s_ + t_ + 1) == ps(s_ + t_) + X[s_ + t_], ps(s_ + P2 + t_ + 1) == ps(s_ + P2 + t_) + X[s_ + P2 + t_]],
                ps(s_ + P2 + (t_ + 1)) - ps(s_ + P2) == ps(s_ + (t_ + 1)) - ps(s_)))
    out.append(('pairs: block', [ps(s_) % 2 == 0, ps(s_ + P2 + P2) - ps(s_ + P2) == ps(s_ + P2) - ps(s_)], ps(s_ + 2 * P2) % 2 == 0))
    out.append(('pairs: powers are whole blocks, start', [p >= 0, pow2(p + 1) == 2 * pow2(p)], pow2(p + 1) == 1 * (2 * pow2(p))))
    out.append(('pairs: powers are whole blocks, step', [n > p, p >= 0, pow2(n) == qq * (2 * pow2(p)), pow2(n + 1) == 2 * pow2(n)], pow2(n + 1) == (2 * qq) * (2 * pow2(p))))
    out.append(('pairs: without the digit', [P2 >= 1, qq >= 0, k == qq * (2 * P2) + rem1, 0 <= rem1, rem1 < P2, m == qq * P2 + rem1],
                z3.And(m / P2 == qq, m % P2 == rem1, (m / P2) * (2 * P2) + m % P2 == k, (m / P2) * (2 * P2) + P2 + m % P2 == k + P2)))
    out.append(('pairs: without the digit, bound', [P2 >= 1, qq >= 0, h >= 1, k == qq * (2 * P2) + rem1, 0 <= rem1, rem1 < P2, k + P2 < h * (2 * P2), m == qq * P2 + rem1], z3.And(qq < h, z3.Implies(qq + 1 <= h, m < h * P2))))
    X_, Y_ = z3.Ints('X_ Y_')
    out.append(('delb of a power: quotient', [P2 >= 1, qq >= 0, X_ == qq * (2 * P2)], z3.And(X_ / (2 * P2) == qq, X_ % (2 * P2) == 0)))
    out.append(('delb of a power: remainder', [P2 >= 1, qq >= 0, h == 2 * qq, X_ == h * P2], X_ % P2 == 0))
    out.append(('delb of a power', [P2 >= 1, X_ == 2 * (qq * P2), X_ == 2 * Y_, X_ / (2 * P2) == qq, X_ % P2 == 0], qq * P2 + X_ % P2 == Y_))
    out.append(('sorted lists: not shorter', [0 < n, z3.Select(p_, n - 1) >= n - 1, z3.Select(p_, n - 1) < m], n <= m))
    out.append(('sorted lists: equal', [among, 0 <= k, k < n, pk >= k, pk <= k], z3.Select(T, k) == z3.Select(S, k)))
    return out


# ---------------------------------------------------------------------- provers

def collect(formulas):
    """names of theory functions, and ground applications of them"""
    seen = set()
    names = set()
    apps = {}
    stack = list(formulas)
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_app(x):
            nm = x.decl().name()
            if nm in FUNCS:
                names.add(nm)
                if not has_var(x):
                    apps.setdefault(nm, {})[x.get_id()] = x
                elif nm == 'psum':
                    names.add('psumext')
            elif x.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(x.arg(1)):
                names.add('bitdiv')
            stack.extend(x.children())
    return names, {k: list(v.values()) for k, v in apps.items()}


def has_var(e):
    """does e contain a variable bound outside of it?"""
    seen = set()
    stack = [(e, 0)]
    while stack:
        x, depth = stack.pop()
        if (x.get_id(), depth) in seen:
            continue
        seen.add((x.get_id(), depth))
        if z3.is_var(x):
            if z3.get_var_index(x) >= depth:
                return True
            continue
        if z3.is_quantifier(x):
            stack.append((x.body(), depth + x.num_vars()))
            continue
        stack.extend((c, depth) for c in x.children())
    return False


def background(formulas, light=False):
    names, apps = collect(formulas)
    todo = list(names)
    allnames = set()
    while todo:
        x = todo.pop()
        if x in allnames:
            continue
        allnames.add(x)
        todo.extend(NEEDS.get(x, []))
    if 'bit' not in allnames:
        allnames.discard('bitdiv')
    if {'psum', 'pow2', 'insb'} <= names:
        allnames |= {'parity'}
    if {'psum', 'pow2', 'gath'} <= names:
        allnames |= {'weigh'}
    out = [a for nm in sorted(allnames) for t, a in AXIOMS.get(nm, []) if t != 'NOTE' and not (light and nm == 'bit' and t == 'DEF')]
    # seeds: neighbours of ground terms, so that the two-term equations can fire without a matching loop
    seeds = []
    for t in apps.get('pow2', []):
        k = t.arg(0)
        seeds += [z3.Implies(k >= 0, pow2(k + 1) == 2 * pow2(k)), z3.Implies(k >= 1, pow2(k) == 2 * pow2(k - 1))]
    for t in apps.get('pow10', []):
        k = t.arg(0)
        seeds += [z3.Implies(k >= 0, pow10(k + 1) == 10 * pow10(k)), z3.Implies(k >= 1, pow10(k) == 10 * pow10(k - 1))]
    for t in apps.get('fact', []):
        k = t.arg(0)
        seeds += [z3.Implies(k >= 0, fact(k + 1) == (k + 1) * fact(k)), z3.Implies(k >= 1, fact(k) == k * fact(k - 1))]
    for t in apps.get('psum', []):
        a, k = t.arg(0), t.arg(1)
        seeds += [z3.Implies(k >= 0, psum(a, k + 1) == psum(a, k) + z3.Select(a, k)),
                  z3.Implies(k >= 1, psum(a, k) == psum(a, k - 1) + z3.Select(a, k - 1)), psum(a, 0) == 0]
    for t in apps.get('dval', []):
        a, k = t.arg(0), t.arg(1)
        seeds += [z3.Implies(k >= 0, dval(a, k + 1) == dval(a, k) + z3.If(z3.Select(a, k), pow2(k), 0)),
                  z3.Implies(k >= 1, dval(a, k) == dval(a, k - 1) + z3.If(z3.Select(a, k - 1), pow2(k - 1), 0)), dval(a, 0) == 0]
    for nm, f, term in (('cnt', cnt, lambda a, v, k: If1(z3.Select(a, k) == v)),):
        for t in apps.get(nm, []):
            a, v, k = t.children()
            seeds += [z3.Implies(k >= 0, f(a, v, k + 1) == f(a, v, k) + term(a, v, k)), z3.Implies(k >= 1, f(a, v, k) == f(a, v, k - 1) + term(a, v, k - 1)), f(a, v, 0) == 0]
    for nm, f, term in (('gath', gath, lambda a, n, k: z3.If(bit(k, z3.Select(a, n)), pow2(n), 0)), ('sprd', sprd, lambda a, n, k: z3.If(bit(k, n), pow2(z3.Select(a, n)), 0))):
        for t in apps.get(nm, []):
            a, n, k = t.children()
            if not light or nm == 'sprd':
                seeds += [z3.Implies(n >= 0, f(a, n + 1, k) == f(a, n, k) + term(a, n, k)), z3.Implies(n >= 1, f(a, n, k) == f(a, n - 1, k) + term(a, n - 1, k)), f(a, 0, k) == 0]
    for t in apps.get('iterp', []):
        a, b, k, x = t.children()
        y = z3.If(z3.Select(b, t), z3.Select(a, t), t)
        seeds += [z3.Implies(k >= 0, iterp(a, b, k + 1, x) == y), iterp(a, b, 0, x) == x]
    for t in apps.get('below', []):
        a, k = t.children()
        seeds += [z3.Implies(k >= 0, below(a, k + 1) == below(a, k) + If1(z3.Select(a, k))), below(a, 0) == 0]
    # a name for the ground terms, because patterns do not match inside of quantified formulas
    for nm in ('gath', 'sgat', 'sprd', 'delb', 'insb', 'band', 'bor', 'bxor', 'below'):
        seeds += [z3.Int(f'term!{t.get_id()}') == z3.simplify(t) for t in apps.get(nm, [])]
    # numbers with the same digits are equal
    digital = [t for nm in ('gath', 'sgat', 'sprd', 'delb', 'insb') for t in apps.get(nm, [])]
    if digital:
        others = [t for nm in ('band', 'bor', 'bxor', 'dval') for t in apps.get(nm, [])]
        others += [e for f in formulas for e in equated(f)]
        terms = {t.get_id(): t for t in digital}
        extra = {t.get_id(): t for t in others if t.get_id() not in terms}
        pairs = list(itertools.combinations(terms.values(), 2)) + [(t, u) for t in terms.values() for u in extra.values()]
        for a, b in pairs[:40]:
            w = z3.Int(f'dgdiff!{a.get_id()}!{b.get_id()}')
            seeds.append(z3.Or(a == b, a < 0, b < 0, z3.And(w >= 0, bit(a, w) != bit(b, w))))
    for t in apps.get('wgt', []):
        n = t.arg(0)
        seeds += [z3.Implies(n >= 0, wgt(n) == wgt(n / 2) + n % 2)]
    for t in apps.get('bit', []) if not light else []:
        n, i = t.arg(0), t.arg(1)
        seeds += [z3.Implies(i >= 1, bit(n, i) == bit(n / 2, i - 1)), z3.Implies(i >= 0, bit(n, i + 1) == bit(n / 2, i)),
                  bit(n, 0) == (n % 2 == 1)]
        if z3.is_idiv(n) and z3.is_int_value(n.arg(1)) and n.arg(1).as_long() == 2:
            seeds.append(z3.Implies(i >= 0, bit(n, i) == bit(n.arg(0), i + 1)))
    # pairwise equality of sums of equal summands
    ps = apps.get('psum', [])
    if 'psum' in names and len(ps) <= 4:
        more = {t.get_id(): t for t in ps}
        for t in ps:
            u = z3.simplify(psum(t.arg(0), t.arg(1) - 1))
            more.setdefault(u.get_id(), u)
        ps = list(more.values())
    if 'psum' in names and len(ps) <= 8:
        for x in range(len(ps)):
            for y in range(x + 1, len(ps)):
                a, b = ps[x].arg(0), ps[y].arg(0)
                w = z3.Int(f'psdiff_{x}_{y}')
                seeds.append(z3.Implies(ps[x].arg(1) == ps[y].arg(1),
                                        z3.Or(ps[x] == ps[y], z3.And(0 <= w, w < ps[x].arg(1), z3.Select(a, w) != z3.Select(b, w)))))
    ds = apps.get('dval', [])
    if len(ds) <= 8:
        for x in range(len(ds)):
            for y in range(x + 1, len(ds)):
                a, b = ds[x].arg(0), ds[y].arg(0)
                w = z3.Int(f'dvdiff_{x}_{y}')
                seeds.append(z3.Implies(ds[x].arg(1) == ds[y].arg(1),
                                        z3.Or(ds[x] == ds[y], z3.And(0 <= w, w < ds[x].arg(1), z3.Select(a, w) != z3.Select(b, w)))))
    return out + seeds


def equated(f):
    """integer constants that the ground formula f compares with something or uses as an index"""
    out = []
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_eq(x) and x.arg(0).sort() == I:
            out += x.children()
        elif z3.is_select(x) and x.arg(1).sort() == I:
            out.append(x.arg(1))
        stack.extend(x.children())
    return [y for y in out if z3.is_const(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def quick(premises, goal, ms=600):
    """one short attempt, used to prune paths"""
    fs = list(premises) + negated(goal)
    t0 = time.time()
    STATS['z3_calls'] += 1
    s = z3.SimpleSolver()
    s.set('timeout', int(ms))
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    s.add(*background(fs))
    s.add(*fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3'] += time.time() - t0
    return r == z3.unsat


STATS = {'z3': 0.0, 'cvc5': 0.0, 'z3_calls': 0, 'cvc5_calls': 0}


_sk = [0]


def negated(goal):
    """the negated goal with its outer universal quantifiers replaced by constants"""
    return skolemized(z3.Not(goal))


def skolemized(f, consts=None):
    """conjuncts equivalent (for satisfiability) to f, existential quantifiers outside of universal ones replaced by constants"""
    out = []
    stack = [(f, True)]
    while stack:
        x, pos = stack.pop()
        if z3.is_not(x):
            stack.append((x.arg(0), not pos))
        elif pos and z3.is_and(x) or not pos and z3.is_or(x):
            stack.extend((c, pos) for c in reversed(x.children()))
        elif not pos and z3.is_implies(x):
            stack.append((x.arg(1), False))
            stack.append((x.arg(0), True))
        else:
            out.extend(flat(nnf(x, pos, consts)))
    return out


def nnf(x, pos, consts):
    if z3.is_not(x):
        return nnf(x.arg(0), not pos, consts)
    if not has_quantifier(x):
        return x if pos else z3.Not(x)
    if z3.is_and(x) or z3.is_or(x):
        parts = [nnf(c, pos, consts) for c in x.children()]
        return z3.And(*parts) if z3.is_and(x) == pos else z3.Or(*parts)
    if z3.is_implies(x):
        a, b = nnf(x.arg(0), not pos, consts), nnf(x.arg(1), pos, consts)
        return z3.Or(a, b) if pos else z3.And(a, b)
    if z3.is_quantifier(x) and not x.is_lambda() and x.is_exists() == pos:
        _sk[0] += 1
        vs = [z3.Const(f'sk!{_sk[0]}!{k}', x.var_sort(k)) for k in range(x.num_vars())]
        if consts is not None:
            consts.extend(vs)
        return nnf(z3.substitute_vars(x.body(), *reversed(vs)), pos, consts)
    if z3.is_quantifier(x) and not pos and x.is_exists() and not x.num_patterns():
        vs = [z3.Const(f'no!{x.get_id()}!{k}', x.var_sort(k)) for k in range(x.num_vars())]
        KEEP.append(x)
        return z3.ForAll(vs, z3.Not(z3.substitute_vars(x.body(), *reversed(vs))))
    if z3.is_eq(x) and x.arg(0).sort() == B and has_quantifier(x):
        a, b = x.arg(0), x.arg(1)
        if pos:
            return z3.And(z3.Or(nnf(a, False, consts), nnf(b, True, consts)), z3.Or(nnf(a, True, consts), nnf(b, False, consts)))
        return z3.And(z3.Or(nnf(a, True, consts), nnf(b, True, consts)), z3.Or(nnf(a, False, consts), nnf(b, False, consts)))
    return x if pos else z3.Not(x)


def instances(fs, consts, limit=600):
    """universal facts at the given constants"""
    out = []
    for f in fs:
        if not (z3.is_quantifier(f) and f.is_forall()):
            continue
        k = f.num_vars()
        if k > 2:
            continue
        choices = [[c for c in consts if c.sort() == f.var_sort(j)] for j in range(k)]
        n = 1
        for c in choices:
            n *= len(c)
        if n == 0 or n > 40:
            continue
        for vs in itertools.product(*choices):
            g = z3.substitute_vars(f.body(), *reversed(vs))
            out.extend(skolemized(g))
            if len(out) > limit:
                return out
    return out


def unstored(fs):
    """universal facts about a[..i := v..][q] as facts about a[q] and about q = i, so that ground terms with `a` match"""
    out = []
    for f in fs:
        if not (z3.is_quantifier(f) and f.is_forall() and f.num_vars() <= 2):
            out.append(f)
            continue
        sites = []
        seen = set()
        stack = [f.body()]
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if z3.is_select(x) and z3.is_store(x.arg(0)) and x.num_args() == 2 and z3.is_var(x.arg(1)) and not has_var(x.arg(0)):
                sites.append(x)
            stack.extend(x.children())
        if not sites or f.num_patterns():
            out.append(f)
            continue
        vs = [z3.Const(f'us!{f.get_id()}!{k}', f.var_sort(k)) for k in range(f.num_vars())]
        KEEP.append(f)
        body = f.body()
        pairs = []
        for x in sites:
            a, q = x.arg(0), x.arg(1)
            e = None
            chain = []
            while z3.is_store(a):
                chain.append((a.arg(1), a.arg(2)))
                a = a.arg(0)
            e = z3.Select(a, q)
            for i, v in reversed(chain):
                e = z3.If(q == i, v, e)
            pairs.append((x, e))
            k = z3.get_var_index(q)
            for i, v in chain:
                if f.num_vars() == 1:
                    out.extend(skolemized(z3.simplify(z3.substitute_vars(body, i))))
                else:
                    other = vs[f.num_vars() - 1 - (1 - k)]
                    args = [i, other] if k == 0 else [other, i]
                    out.append(z3.ForAll([other], z3.substitute_vars(body, *args)))
        new = z3.substitute(body, *pairs)
        out.append(z3.ForAll(vs, z3.substitute_vars(new, *reversed(vs))))
    return out


DIGITAL = {'gath', 'sgat', 'sprd', 'delb', 'insb', 'bxor', 'band', 'bor', 'dval'}


def symbols(e):
    """names of the constants in e that are not interpreted"""
    r = _symbols.get(e.get_id())
    if r is None:
        seen, stack, out = set(), [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            stack.extend(x.children())
        r = _symbols[e.get_id()] = (frozenset(out), e)
    return r[0]


_symbols = {}


def relevant(premises, goals, depth=2):
    """premises that are about what the goal is about: those that one of their rarest constants ties to it, in `depth` steps"""
    syms = [symbols(p) for p in premises]
    freq = {}
    for ss in syms:
        for x in ss:
            freq[x] = freq.get(x, 0) + 1
    known = set().union(*[symbols(g) for g in goals])
    chosen = set(k for k, ss in enumerate(syms) if not ss)
    for _ in range(depth):
        new = set()
        for k, ss in enumerate(syms):
            if k in chosen:
                continue
            least = min(freq[x] for x in ss)
            if ss <= known or any(x in known and freq[x] <= 1.5 * least for x in ss):
                chosen.add(k)
                new |= ss
        known |= new
    return [p for k, p in enumerate(premises) if k in chosen]


def prove(premises, goal, timeout, want_model=False, use_cvc5=False, raw=False, quick=False):
    """('proved' | 'refuted' | 'unknown', model or None, backend)"""
    fs = unstored(list(premises) + negated(goal))
    bg = [] if raw else background(fs)
    t0 = time.time()

    def run(ms, simple=True, **opts):
        # without preprocessing: it turns defining facts of arrays into lambda terms, inside of which no pattern matches
        STATS['z3_calls'] += 1
        s = z3.SimpleSolver() if simple else z3.Solver()
        s.set('timeout', int(ms))
        for k, v in opts.items():
            s.set(k, v)
        s.add(*bg)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        return r, s

    def cvc5(ms):
        t1 = time.time()
        STATS['cvc5_calls'] += 1
        r = cvc5_check(bg + fs, ms)
        STATS['cvc5'] += time.time() - t1
        return r == 'unsat'

    quantified = any(has_quantifier(f) for f in fs)
    ematch = {'smt.mbqi': False, 'auto_config': False}
    r, s = run(min(timeout, 1500), **ematch)
    if r != z3.unsat and quantified and bg:
        # many obligations need none of the arithmetic facts
        whole, bg = bg, []
        r, s = run(min(timeout, 500), **ematch)
        alls = fs
        if r != z3.unsat:
            fs = [f for f in fs if not nonlinear(f)]
            if len(fs) < len(alls):
                r, s = run(min(timeout, 500), **ematch)
            fs = alls
        bg = whole
        if r != z3.unsat and len(premises) > 20 and not z3.is_false(goal):
            neg = negated(goal)
            for depth in (1, 2):
                few = relevant(list(premises), neg, depth)
                if len(few) < 0.8 * len(premises):
                    fs = unstored(few + neg)
                    for bg in [background(fs)] + ([background(fs, light=True)] if DIGITAL & collect(fs)[0] else []):
                        r, s = run(min(timeout, 1500), **ematch)
                        if r == z3.unsat:
                            break
                if r == z3.unsat:
                    break
            fs, bg = alls, whole
        if r != z3.unsat and DIGITAL & collect(fs)[0]:
            bg = background(fs, light=True)
            r, s = run(min(timeout, 2500), **ematch)
            bg = whole
        if r != z3.unsat:
            r, s = run(min(timeout, 2500), simple=False, **ematch)
    STATS['z3'] += time.time() - t0
    if r == z3.unsat:
        return 'proved', None, 'z3'
    if quantified and use_cvc5 and cvc5(min(timeout, 4000)):
        return 'proved', None, 'cvc5'
    if quick and quantified:
        return 'unknown', None, None
    if quantified:
        consts, more = [], []
        for f in list(premises) + [z3.Not(goal)]:
            more += skolemized(f, consts)
        plain, bgp = fs, bg
        more = unstored(more)
        more += instances(more, consts)
        fs, bg = more, [] if raw else background(more)
        r, s = run(min(timeout, 4000), **{'smt.mbqi': False, 'auto_config': False})
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if use_cvc5 and cvc5(min(timeout, 4000)):
            return 'proved', None, 'cvc5'
        fs, bg = plain, bgp
        gained = []
        for f in premises:
            parts, conclusion = CUTS.get(f.get_id(), (None, None))
            if parts is not None and all(entailed(list(premises) + gained, flat(z3.Not(goal)), p, raw, use_cvc5) for p in parts):
                gained.append(conclusion)
        if gained:
            return prove([f for f in premises if f.get_id() not in CUTS] + gained, goal, timeout, want_model, use_cvc5, raw)
    t0 = time.time()
    try:
        r, s = run(timeout, simple=False)
        if r == z3.unsat:
            return 'proved', None, 'z3'
        if r == z3.sat:
            return 'refuted', s.model(), 'z3'
        if timeout >= 4000:
            for seed in (7, 23):
                r, s = run(timeout / 2, **{'smt.mbqi': False, 'auto_config': False, 'smt.random_seed': seed, 'smt.qi.eager_threshold': 100.0})
                if r == z3.unsat:
                    return 'proved', None, 'z3'
    finally:
        STATS['z3'] += time.time() - t0
    if use_cvc5 and timeout > 4000 and cvc5(timeout):
        return 'proved', None, 'cvc5'
    return 'unknown', None, None


CUTS = {}


def cut(parts, conclusion):
    """an implication whose hypotheses `prove` may establish one by one"""
    f = z3.Implies(z3.And(*parts), conclusion)
    CUTS[f.get_id()] = (parts, conclusion)
    KEEP.append(f)
    return f


KEEP = []


def flat(f):
    """top level conjuncts"""
    if z3.is_and(f):
        return [x for c in f.children() for x in flat(c)]
    if z3.is_not(f) and z3.is_not(f.arg(0)):
        return flat(f.arg(0).arg(0))
    return [f]


def entailed(facts, goal, p, raw, use_cvc5):
    """does `p` follow from the facts and the negated goal?  tried with less and less noise"""
    for noise in ([goal] + goal if len(goal) > 1 else [goal]):
        consts, more = [], []
        light = not isinstance(noise, list)
        for f in facts + ([noise] if light else noise) + [z3.Not(p)]:
            if f.get_id() not in CUTS and not (light and z3.is_quantifier(f) and f.num_vars() > 1 and f is not noise):
                more += skolemized(f, consts)
        more += instances(more, consts)
        bg = [] if raw else background(more)
        s = z3.SimpleSolver()
        s.set('timeout', 2000)
        s.set('smt.mbqi', False)
        s.set('auto_config', False)
        s.add(*bg)
        s.add(*more)
        STATS['z3_calls'] += 1
        try:
            if s.check() == z3.unsat:
                return True
        except z3.Z3Exception:
            pass
        if use_cvc5 and cvc5_check(bg + more, 3000) == 'unsat':
            return True
    return False


def nonlinear(e):
    """does e multiply or divide by something that is not a literal?"""
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_mul(x) and sum(not z3.is_int_value(c) for c in x.children()) > 1:
            return True
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and not z3.is_int_value(x.arg(1)):
            return True
        stack.extend(x.children())
    return False


def has_quantifier(e):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def cvc5_check(fs, timeout):
    import subprocess
    import tempfile
    import os
    s = z3.Solver()
    s.add(*fs)
    text = '(set-logic ALL)\n' + s.to_smt2()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout), '--full-saturate-quant', f.name], capture_output=True, text=True,
                           timeout=timeout / 1000 + 5)
        return p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


# ---------------------------------------------------------------------- specification vocabulary

def model(f):
    f._pyvc_model = True
    return f


@model
def s_pow2(eng, k):
    return pow2(eng.to_int(k))


@model
def s_bit(eng, n, i):
    return bit(eng.to_int(n), eng.to_int(i))


@model
def s_implies(eng, a, b):
    a, b = eng.truth(a), eng.truth(b)
    if isinstance(a, bool):
        return b if a else True
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return z3.Implies(a, b)


@model
def s_iff(eng, a, b):
    a, b = eng.truth(a), eng.truth(b)
    if isinstance(a, bool):
        a = z3.BoolVal(a)
    if isinstance(b, bool):
        b = z3.BoolVal(b)
    return a == b


@model
def s_psum(eng, xs, k=None):
    from .types import INT
    if hasattr(xs, 'concrete'):
        n, arr = eng.sym_list(xs, INT)
        return psum(arr, eng.to_int(n if k is None else k))
    raise TypeError


@model
def s_dval(eng, xs, k=None):
    from .types import BOOL
    n, arr = eng.sym_list(xs, BOOL)
    return dval(arr, eng.to_int(n if k is None else k))


def _un(f):
    @model
    def g(eng, *a):
        return f(*[eng.to_int(x) for x in a])
    return g


@model
def s_asc(eng, xs, k=None):
    from .types import INT
    n, arr = eng.sym_list(xs, INT)
    return asc(arr, eng.to_int(n if k is None else k))


@model
def s_alike(eng, xs, ys):
    from .types import INT
    n, a = eng.sym_list(xs, INT)
    m, b = eng.sym_list(ys, INT)
    return alike(a, eng.to_int(n), b, eng.to_int(m))


@model
def s_use(eng, name, *args):
    """a lemma without code of the repository, proved on its own before this place"""
    from .contracts import REGISTRY
    from .core import Unsupported
    for m in REGISTRY.lemmas:
        if m is eng.verifying:
            break
        if m.name == name and m.ensures:
            env = dict(zip(m.args, args))
            req, ens = ([eng.spec_bool(t, env, m) for t in ts] for ts in (m.requires, m.ensures))
            eng.assume(z3.Implies(z3.And(*req), z3.And(*ens)))
            eng.used_contracts.add(m.id)
            return True
    raise Unsupported(f'no lemma {name} before this place')


@model
def s_cnt(eng, xs, v, k=None):
    from .types import INT
    n, arr = eng.sym_list(xs, INT)
    return cnt(arr, eng.to_int(v), eng.to_int(n if k is None else k))


@model
def s_gath(eng, xs, k, n=None):
    from .types import INT
    m, arr = eng.sym_list(xs, INT)
    return gath(arr, eng.to_int(m if n is None else n), eng.to_int(k))


@model
def s_sgat(eng, xs, k, n=None):
    from .types import INT
    m, arr = eng.sym_list(xs, INT)
    return sgat(arr, eng.to_int(m if n is None else n), eng.to_int(k))


@model
def s_sprd(eng, xs, k, n=None):
    from .types import INT
    m, arr = eng.sym_list(xs, INT)
    return sprd(arr, eng.to_int(m if n is None else n), eng.to_int(k))


@model
def s_below(eng, xs, k):
    from .types import INT
    return below(eng.sym_set(xs, INT), eng.to_int(k))


@model
def s_iterp(eng, d, k, x):
    from .types import INT
    dom, val = eng.sym_dict(d, INT, INT) if d.items is not None else (d.dom, d.val)
    return iterp(val, dom, eng.to_int(k), eng.to_int(x))


@model
def s_parb(eng, w, i, n):
    return parb(eng.to_int(w), eng.to_int(i), eng.to_int(n))


@model
def s_insb(eng, n, p, c):
    c = eng.truth(c)
    return insb(eng.to_int(n), eng.to_int(p), z3.BoolVal(c) if isinstance(c, bool) else c)


def _iterate(d, k, x):
    for _ in range(k):
        x = d.get(x, x)
    return x


SPEC_GLOBALS = {
    'cnt': s_cnt, 'gath': s_gath, 'sgat': s_sgat, 'sprd': s_sprd, 'below': s_below, 'iterp': s_iterp, 'parb': s_parb, 'insb': s_insb, 'delb': _un(delb),
    'use': s_use, 'asc': s_asc, 'alike': s_alike,
    'pow2': s_pow2, 'bit': s_bit, 'implies': s_implies, 'iff': s_iff, 'psum': s_psum, 'dval': s_dval,
    'binlen': _un(binlen), 'wgt': _un(wgt), 'fact': _un(fact), 'gcd_': _un(gcd), 'pow10': _un(pow10), 'declen': _un(declen), 'bdiff': _un(bdiff),
    'band': _un(band), 'bor': _un(bor), 'bxor': _un(bxor), '__builtins__': __builtins__,
}
from .values import VNat  # noqa: E402

SPEC_GLOBALS['NAT'] = VNat()
SPEC_GLOBALS['INTS'] = VNat()
SPEC_GLOBALS['INTS'].all = True
SPEC_FORMS = {}


# ---------------------------------------------------------------------- the same vocabulary for CPython

def rt_pow2(k):
    return 1 << k


def rt_bit(n, i):
    return bool((n >> i) & 1)


class _Nat:
    """bounded stand-in for the natural numbers when a contract is evaluated on real values"""

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def __iter__(self):
        return iter(range(self.lo, self.hi))

    def __contains__(self, x):
        return True


RUNTIME = {
    'cnt': lambda xs, v, k=None: list(xs)[:k].count(v),
    'sgat': lambda xs, k, n=None: sum((((k >> x) & 1) if x >= 0 else 1 - ((k >> ~x) & 1)) << i for i, x in enumerate(list(xs)[:n])),
    'gath': lambda xs, k, n=None: sum(((k >> x) & 1) << i for i, x in enumerate(list(xs)[:n])),
    'sprd': lambda xs, k, n=None: sum(((k >> i) & 1) << x for i, x in enumerate(list(xs)[:n])),
    'below': lambda xs, k: sum(1 for x in xs if 0 <= x < k),
    'iterp': _iterate,
    'parb': lambda w, i, n: bin(w & i & ((1 << n) - 1)).count('1') % 2 == 1,
    'delb': lambda n, p: (n >> (p + 1) << p) + n % (1 << p),
    'insb': lambda n, p, c: (n >> p << (p + 1)) + (bool(c) << p) + n % (1 << p),
    'alike': lambda xs, ys: list(xs) == list(ys),
    'asc': lambda xs, k=None: all(a < b for a, b in zip(list(xs)[:k], list(xs)[:k][1:])),
    'pow2': rt_pow2, 'bit': rt_bit, 'implies': lambda a, b: (not a) or bool(b), 'iff': lambda a, b: bool(a) == bool(b),
    'psum': lambda xs, k=None: sum(list(xs)[:k]) if k is not None else sum(xs),
    'dval': lambda xs, k=None: sum(1 << i for i, x in enumerate(list(xs)[:k] if k is not None else xs) if x),
    'binlen': lambda n: n.bit_length(), 'wgt': lambda n: bin(n).count('1'),
    'fact': lambda n: __import__('math').factorial(n), 'gcd_': lambda a, b: __import__('math').gcd(a, b),
    'bdiff': lambda a, b: ((a ^ b) & -(a ^ b)).bit_length() - 1,
    'band': lambda a, b: a & b, 'bor': lambda a, b: a | b, 'bxor': lambda a, b: a ^ b,
    'pow10': lambda k: 10 ** k, 'declen': lambda n: len(str(n)),
    'NAT': _Nat(0, 40), 'INTS': _Nat(-20, 40),
}
