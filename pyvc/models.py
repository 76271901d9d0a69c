"""Semantics of the Python built-ins that the verified functions use."""
import ast
import builtins
import functools
import itertools
import math
import operator

import z3

from .types import Ty, parse, INT, BOOL, SHAPES
from .values import *
from . import theory
from .theory import pow2, bit, band, bor, bxor, psum, dval

_MODELS = {}
_NAMES = {}


def register(*fs):
    def deco(m):
        for f in fs:
            _MODELS[_key(f)] = m
            _NAMES[_key(f)] = getattr(f, '__name__', str(f))
        return m
    return deco


def _key(f):
    try:
        hash(f)
        return f
    except TypeError:
        return id(f)


def lookup(f):
    try:
        return _MODELS.get(f)
    except TypeError:
        return None


def name_of(f):
    return _NAMES.get(_key(f), str(f))


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def is_boolish(v):
    return isinstance(v, bool) or is_sym_bool(v)


# ---------------------------------------------------------------------- operators

def as_vlist(eng, v):
    if isinstance(v, VList):
        return v
    if isinstance(v, tuple):
        return VList(items=list(v), kind='tup')
    if isinstance(v, str):
        return eng.str_to_vlist(v)
    raise Unsupported(f'{v!r} as sequence')


def is_nd(v):
    return isinstance(v, VMat) or getattr(v, 'nd', False)


def binop(eng, op, a, b):
    if is_nd(a) or is_nd(b):
        raise Unsupported('arithmetic of arrays')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.FloorDiv: operator.floordiv,
                    ast.Mod: operator.mod, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.RShift: operator.rshift,
                    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.Div: operator.truediv}[op](a, b)
        except (ZeroDivisionError, ValueError) as e:
            eng.raise_py(type(e))
    if eng.is_intlike(a) and eng.is_intlike(b):
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor) and is_boolish(a) and is_boolish(b):
            a, b = zb(a), zb(b)
            return {ast.BitAnd: z3.And, ast.BitOr: z3.Or, ast.BitXor: z3.Xor}[op](a, b)
        x, y = eng.to_int(a), eng.to_int(b)
        if op is ast.Add:
            return x + y
        if op is ast.Sub:
            return x - y
        if op is ast.Mult:
            return x * y
        if op in (ast.FloorDiv, ast.Mod):
            if not eng.spec:
                if eng.decide(y == 0, pruned=True):
                    eng.raise_py(ZeroDivisionError)
                if not eng.decide(y > 0, pruned=True):
                    raise Unsupported('division by a negative number')
            return x / y if op is ast.FloorDiv else x % y
        if op is ast.LShift:
            if not eng.spec and eng.decide(y < 0):
                eng.raise_py(ValueError)
            if isinstance(b, int) and 0 <= b < 64:
                return x * (1 << b)
            return pow2(y) if isinstance(a, int) and a == 1 else x * pow2(y)
        if op is ast.RShift:
            if not eng.spec and eng.decide(y < 0):
                eng.raise_py(ValueError)
            if isinstance(b, int) and 0 <= b < 64:
                return x / (1 << b)
            return x / pow2(y)
        if op is ast.Pow:
            if isinstance(a, int) and a == 2:
                if not eng.spec and not eng.decide(y >= 0, pruned=True):
                    raise Unsupported('2 ** negative')
                return pow2(y)
            if isinstance(b, int) and 0 <= b <= 4:
                r = z3.IntVal(1)
                for _ in range(b):
                    r = r * x
                return r
            if isinstance(a, int) and a == -1 and not isinstance(b, int):
                if not eng.spec and not eng.decide(y >= 0):
                    raise Unsupported('-1 ** negative')
                return z3.If(y % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
            raise Unsupported('power')
        if op in (ast.BitAnd, ast.BitOr, ast.BitXor):
            if op is ast.BitAnd and isinstance(b, int) and b == 1:
                return x % 2
            if op is ast.BitAnd and isinstance(a, int) and a == 1:
                return y % 2
            if not eng.spec and not (eng.decide(x >= 0, pruned=True) and eng.decide(y >= 0, pruned=True)):
                raise Unsupported('bit operation on negative numbers')
            return {ast.BitAnd: band, ast.BitOr: bor, ast.BitXor: bxor}[op](x, y)
        raise Unsupported(f'operator {op.__name__}')
    if op is ast.Add and isinstance(a, (VList, tuple, str)) and isinstance(b, (VList, tuple, str)):
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        return concat(eng, as_vlist(eng, a), as_vlist(eng, b))
    if op is ast.Mult and isinstance(a, (VList, str, tuple)) and eng.is_intlike(b):
        return repeat(eng, a, b)
    if op is ast.Mult and isinstance(b, (VList, str, tuple)) and eng.is_intlike(a):
        return repeat(eng, b, a)
    if isinstance(a, VSet) and isinstance(b, VSet):
        f = {ast.BitOr: 'union', ast.BitAnd: 'intersection', ast.Sub: 'difference', ast.BitXor: 'symmetric_difference'}.get(op)
        if f:
            return set_op(eng, f, a, b)
    if op is ast.Mod and isinstance(a, str):
        return VOpaque('formatted string')
    if isinstance(a, VOpaque) or isinstance(b, VOpaque):
        return VOpaque('opaque')
    if a is None or b is None or isinstance(a, slice) or isinstance(b, slice):
        eng.raise_py(TypeError)
    if op is ast.Mod and isinstance(a, (VSet, VDict, tuple)) or op is ast.Mod and isinstance(a, VList) and a.kind in ('list', 'tup') and not is_nd(a):
        eng.raise_py(TypeError)
    raise Unsupported(f'{op.__name__} on {a!r}, {b!r}')


def concat(eng, a, b):
    if a.concrete and b.concrete:
        return eng.new(VList(items=list(a.items) + list(b.items), kind=a.kind, ety=a.ety or b.ety))
    if a.concrete and not a.items:
        return eng.new(VList(n=b.n, arr=b.arr, ety=b.ety, kind=a.kind))
    ety = b.ety if a.concrete else a.ety
    n1, a1 = eng.sym_list(a, ety)
    n2, a2 = eng.sym_list(b, ety)
    if b.concrete and len(b.items) <= 4 and not eng.spec:
        arr = a1
        for k, x in enumerate(b.items):
            arr = z3.Store(arr, n1 + k, eng.unwrap(x, ety))
        return eng.new(VList(n=n1 + len(b.items), arr=arr, ety=ety, kind=a.kind))
    n = z3.simplify(n1 + n2)
    return mk_list(eng, n, ety, lambda j: z3.If(j < n1, z3.Select(a1, j), z3.Select(a2, j - n1)), a.kind, extra=[
        lambda arr: [(z3.And(j_ >= 0, j_ < n2), z3.Select(arr, n1 + j_) == z3.Select(a2, j_), [z3.Select(a2, j_)]) for j_ in [z3.Int(eng.name('j'))]]])


def mk_list(eng, n, ety, f, kind='list', extra=(), both=()):
    """a list with entries f(j) for 0 <= j < n"""
    if eng.spec:
        j = z3.Int(eng.name('j'))
        return eng.new(VList(n=n, arr=z3.Lambda([j], f(j)), ety=ety, kind=kind))
    arr = eng.const(z3.ArraySort(z3.IntSort(), ety.sort), 'arr')
    j = z3.Int(eng.name('j'))
    from .loops import source_patterns
    body = f(j)
    pats = [z3.Select(arr, j)] + [p(j) for p in both] + source_patterns(body, j)
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(arr, j) == body), patterns=pats))
    for ex in extra:
        for g, body, ps in ex(arr):
            v = [x for x in _consts(ps[0]) if x.decl().name().startswith('j!')]
            eng.assume(z3.ForAll(v[:1], z3.Implies(g, body), patterns=ps))
    return eng.new(VList(n=n, arr=arr, ety=ety, kind=kind))


def _consts(e):
    out, stack = [], [e]
    while stack:
        x = stack.pop()
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        stack.extend(x.children())
    return out


def repeat(eng, v, k):
    if isinstance(v, str) and isinstance(k, int):
        return v * k
    v = as_vlist(eng, v)
    if v.concrete and isinstance(k, int):
        if len(v.items) * k > 4096:
            raise Unsupported('huge list')
        return eng.new(VList(items=list(v.items) * k, kind=v.kind, ety=v.ety))
    k = eng.to_int(k)
    if v.concrete and len(v.items) == 1:
        ety = eng.typeof(v.items[0])
        x = eng.unwrap(v.items[0], ety)
        n = z3.simplify(z3.If(k > 0, k, z3.IntVal(0)))
        if eng.spec or True:
            return eng.new(VList(n=n, arr=z3.K(z3.IntSort(), x), ety=ety, kind=v.kind))
    n0, arr = eng.sym_list(v)
    n0 = eng.to_int(n0)
    ety = v.ety or eng.join([eng.typeof(x) for x in v.items])
    if not eng.spec and eng.decide(n0 == 0):
        return eng.new(VList(items=[], kind=v.kind, ety=ety))
    kk = z3.If(k > 0, k, z3.IntVal(0))
    return mk_list(eng, z3.simplify(n0 * kk), ety, lambda j: z3.Select(arr, j % n0), v.kind)


def is_same(eng, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool) or is_sym_bool(a) or is_sym_bool(b):
        if is_boolish(a) and is_boolish(b):
            r = zb(a) == zb(b)
            return r if not (isinstance(a, bool) and isinstance(b, bool)) else a is b
        return False
    if isinstance(a, type) or isinstance(b, type) or isinstance(a, (VObj, VList, VSet, VDict)):
        return a is b
    raise Unsupported('identity test')


def type_clash(a, b):
    def cls(v):
        if v is None:
            return 'none'
        if isinstance(v, (bool, int)) or is_sym_int(v) or is_sym_bool(v):
            return 'num'
        if isinstance(v, float):
            return 'num'
        if isinstance(v, str):
            return 'str'
        if isinstance(v, tuple):
            return 'tup'
        if isinstance(v, VList):
            return v.kind
        if isinstance(v, VSet):
            return 'set'
        if isinstance(v, VDict):
            return 'dict'
        if isinstance(v, type):
            return 'type'
        return None
    x, y = cls(a), cls(b)
    return x is not None and y is not None and x != y


def eq(eng, a, b):
    if (is_nd(a) or is_nd(b)) and not eng.spec:
        raise Unsupported('comparison of arrays')
    if isinstance(a, VObj) or isinstance(b, VObj):
        if a is b and False:
            return True
        if a is None or b is None:
            if isinstance(a, VObj):
                m = eng.class_attr(a.cls, '__eq__')
                if m is not None and not eng.spec:
                    return eng.call(VBound(a, m, a.cls), [b], {})
            return False
        if not isinstance(a, VObj):
            a, b = b, a
        m = eng.class_attr(a.cls, '__eq__')
        if m is None:
            return a is b
        if eng.spec:
            return obj_eq(eng, a, b)
        return eng.call(VBound(a, m, a.cls), [b], {})
    if type_clash(a, b):
        return False
    if isinstance(a, str) and isinstance(b, VList):
        a = eng.str_to_vlist(a)
    if isinstance(b, str) and isinstance(a, VList):
        b = eng.str_to_vlist(b)
    if a is None and b is None:
        return True
    if eng.is_intlike(a) and eng.is_intlike(b):
        if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
            return a == b
        if is_boolish(a) and is_boolish(b):
            return zb(a) == zb(b)
        return eng.to_int(a) == eng.to_int(b)
    if isinstance(a, (str, float, type)) and isinstance(b, (str, float, type)):
        return a == b
    if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return conj([eq(eng, x, y) for x, y in zip(a, b)], eng)
        a, b = as_vlist(eng, a), as_vlist(eng, b)
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return False
            return conj([eq(eng, x, y) for x, y in zip(a.items, b.items)], eng)
        if a.concrete:
            a, b = b, a
        if b.concrete:
            parts = [a.n == len(b.items)]
            for k, y in enumerate(b.items):
                parts.append(eq(eng, eng.wrap(a.ety, z3.Select(a.arr, k)), y))
            return conj(parts, eng)
        if a.n is b.n and a.arr is b.arr:
            return True
        j = z3.Int(eng.name('q'))
        if not eng.spec and a.ety == INT and (getattr(a, 'ascending', None) is not None or getattr(b, 'ascending', None) is not None):
            sorted_unique(eng, a, b)
        if a.ety.kind in ('int', 'bool', 'U', 'set'):
            body = z3.Select(a.arr, j) == z3.Select(b.arr, j)
        else:
            was = eng.spec
            eng.spec += 1
            try:
                body = zb(eng.truth(eq(eng, eng.wrap(a.ety, z3.Select(a.arr, j)), eng.wrap(b.ety, z3.Select(b.arr, j)))))
            finally:
                eng.spec = was
        q = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), body), patterns=_eqpats(a.arr, b.arr, j))
        return z3.And(a.n == b.n, q)
    if isinstance(a, VSet) and isinstance(b, VSet):
        if a.items is not None and b.items is not None and all(eng.is_plain(x) for x in a.items + b.items):
            return set(a.items) == set(b.items)
        ety = a.ety or b.ety
        if ety is None:
            if a.items:
                ety = eng.typeof(a.items[0])
            elif b.items:
                ety = eng.typeof(b.items[0])
            else:
                return True
        return eng.sym_set(a, ety) == eng.sym_set(b, ety)
    if isinstance(a, VDict) and isinstance(b, VDict):
        if a.items is not None and b.items is not None:
            if set(a.items) != set(b.items):
                return False
            return conj([eq(eng, a.items[k], b.items[k]) for k in a.items], eng)
        kty, vty = (a.kty, a.vty) if a.kty is not None else (b.kty, b.vty)
        d1, v1 = eng.sym_dict(a, kty, vty)
        d2, v2 = eng.sym_dict(b, kty, vty)
        k = z3.Const(eng.name('k'), kty.sort)
        return z3.And(d1 == d2, z3.ForAll([k], z3.Implies(z3.Select(d1, k), z3.Select(v1, k) == z3.Select(v2, k))))
    if is_z3(a) and is_z3(b) and a.sort() == b.sort():
        return a == b
    if isinstance(a, VRange) and isinstance(b, VRange):
        raise Unsupported('range equality')
    raise Unsupported(f'equality of {a!r} and {b!r}')


def sorted_unique(eng, a, b):
    """strictly increasing sequences of the same length, the numbers of one among those of the other, are equal
    (theory obligations `sorted lists`)"""
    def span(v):
        st, arr, n = getattr(v, 'span_of', (None, None, None))
        return st if arr is v.arr and n is v.n else None

    def strict(v):
        i, j = z3.Int(eng.name('i')), z3.Int(eng.name('j'))
        return z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < v.n), z3.Select(v.arr, i) < z3.Select(v.arr, j)))

    def inside(v, w):
        i, j = z3.Int(eng.name('i')), z3.Int(eng.name('j'))
        x = z3.Select(v.arr, i)
        among = z3.And(span(w) <= x, x < span(w) + w.n) if span(w) is not None else z3.Exists([j], z3.And(j >= 0, j < w.n, x == z3.Select(w.arr, j)))
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v.n), among))
    for v, w in ((a, b), (b, a)):
        if span(v) is None:
            j = z3.Int(eng.name('j'))
            eng.assume(theory.cut([a.n == b.n] + [strict(u) for u in (a, b) if span(u) is None] + [inside(v, w)],
                                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), z3.Select(a.arr, j) == z3.Select(b.arr, j)))))


def _eqpats(a, b, j):
    ps = []
    for x in (a, b):
        if not z3.is_quantifier(x) and (z3.is_const(x) or x.decl().kind() not in (z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY, z3.Z3_OP_ITE)):
            ps.append(z3.Select(x, j))
    if not ps:
        return []
    return ps


def obj_eq(eng, a, b):
    """specification equality of objects: equal abstract state"""
    ty = eng.typeof(a)
    shp = SHAPES[ty.args[0]]
    if a.cls is not b.cls and not (issubclass(a.cls, b.cls) or issubclass(b.cls, a.cls)):
        return False
    return conj([eq(eng, a.fields[f], b.fields[f]) for f in shp.fields if f not in shp.optional], eng)


def conj(parts, eng=None):
    out = []
    for p in parts:
        if eng is not None and not isinstance(p, bool):
            p = eng.truth(p)
        if isinstance(p, bool):
            if not p:
                return False
            continue
        out.append(p)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def order(eng, op, a, b):
    if eng.is_intlike(a) and eng.is_intlike(b) or isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, (int, float)):
        if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
            return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](a, b)
        x, y = eng.to_int(a), eng.to_int(b)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[op]
    if isinstance(a, VObj):
        m = eng.class_attr(a.cls, {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}[op])
        if m is not None:
            return eng.call(VBound(a, m, a.cls), [b], {})
    if isinstance(a, VSet) and isinstance(b, VSet):
        ety = a.ety or b.ety or (eng.typeof(a.items[0]) if a.items else eng.typeof(b.items[0]))
        x, y = eng.sym_set(a, ety), eng.sym_set(b, ety)
        if op in (ast.Gt, ast.GtE):
            x, y = y, x
        r = z3.IsSubset(x, y)
        if not eng.spec and z3.is_const(x) and z3.is_const(y):
            k = z3.Const(eng.name('k'), ety.sort)
            eng.assume(z3.Implies(r, z3.ForAll([k], z3.Implies(z3.Select(x, k), z3.Select(y, k)), patterns=[z3.Select(x, k), z3.Select(y, k)])))
        return r if op in (ast.LtE, ast.GtE) else z3.And(r, x != y)
    if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
        return lex(eng, op, as_vlist(eng, a), as_vlist(eng, b))
    raise Unsupported(f'order of {a!r}, {b!r}')


def lex(eng, op, a, b):
    """lexicographic order of sequences of numbers: there is a first difference, or one is a prefix of the other"""
    ety = a.ety or b.ety
    if a.concrete and b.concrete and eng.is_plain(a) and eng.is_plain(b):
        x, y = eng.plain(a), eng.plain(b)
        return {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[op](x, y)
    if op in (ast.Gt, ast.GtE):
        a, b = b, a
        op = ast.Lt if op is ast.Gt else ast.LtE
    if ety is None:
        ety = eng.typeof((a.items or b.items)[0])
    if ety.kind not in ('int', 'bool'):
        raise Unsupported('lexicographic order of nested values')
    n1, a1 = eng.sym_list(a, ety)
    n2, a2 = eng.sym_list(b, ety)

    def less(x, y):
        return z3.And(z3.Not(x), y) if ety.kind == 'bool' else x < y
    k = z3.Int(eng.name('k'))
    j = z3.Int(eng.name('j'))
    pre = z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(a1, j) == z3.Select(a2, j)))
    strict = z3.Exists([k], z3.And(k >= 0, k <= n1, k <= n2, pre,
                                   z3.Or(z3.And(k == n1, k < n2),
                                         z3.And(k < n1, k < n2, less(z3.Select(a1, k), z3.Select(a2, k))))))
    if op is ast.Lt:
        return strict
    return z3.Or(strict, zb(eq(eng, a, b)))


def contains(eng, c, x):
    if isinstance(c, (tuple, list)):
        parts = [eng.truth(eq(eng, x, y)) for y in c]
        return disj(parts)
    if isinstance(c, VList):
        if c.kind == 'str' or isinstance(x, VList) and c.concrete and False:
            raise Unsupported('substring test')
        if c.concrete:
            return disj([eng.truth(eq(eng, x, y)) for y in c.items])
        j = z3.Int(eng.name('j'))
        was = eng.spec
        eng.spec += 1
        try:
            body = zb(eng.truth(eq(eng, eng.wrap(c.ety, z3.Select(c.arr, j)), x)))
        finally:
            eng.spec = was
        return z3.Exists([j], z3.And(j >= 0, j < c.n, body))
    if isinstance(c, VSet):
        if c.items is not None:
            return disj([eng.truth(eq(eng, x, y)) for y in c.items])
        try:
            return z3.Select(c.arr, eng.unwrap(x, c.ety))
        except Unsupported:
            if type_mismatch(eng, x, c.ety):
                return False
            raise
    if isinstance(c, VDict):
        if c.items is not None:
            return disj([eng.truth(eq(eng, x, y)) for y in c.items])
        return z3.Select(c.dom, eng.unwrap(x, c.kty))
    if isinstance(c, VRange):
        if isinstance(c.step, int) and c.step == 1:
            i = eng.to_int(x)
            return z3.And(i >= eng.to_int(c.start), i < eng.to_int(c.stop))
    if isinstance(c, str) and isinstance(x, str):
        return x in c
    if isinstance(c, VSeq) and c.concrete is not None:
        return disj([eng.truth(eq(eng, x, y)) for y in c.concrete])
    if isinstance(c, VNat):
        return True
    raise Unsupported(f'{x!r} in {c!r}')


def type_mismatch(eng, x, ety):
    return False


def disj(parts):
    out = []
    for p in parts:
        if isinstance(p, bool):
            if p:
                return True
            continue
        out.append(p)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


# ---------------------------------------------------------------------- items and slices

def norm_index(eng, n, k, exc=IndexError):
    """index with Python's treatment of negative numbers; raises on out of range"""
    if eng.spec:
        if isinstance(k, int) and k < 0:
            return eng.to_int(n) + k
        return eng.to_int(k)
    k = eng.to_int(k)
    n = eng.to_int(n)
    if eng.decide(z3.And(k >= 0, k < n), pruned=True):
        return k
    if eng.decide(z3.And(k < 0, k >= -n), pruned=True):
        return n + k
    eng.raise_py(exc)


def getitem(eng, o, k):
    if isinstance(o, (tuple, str)):
        if isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                eng.raise_py(IndexError)
        if isinstance(o, str):
            o = eng.str_to_vlist(o)
        else:
            o = VList(items=list(o), kind='tup')
    if isinstance(o, VList):
        if o.concrete and isinstance(k, int):
            try:
                x = o.items[k]
            except IndexError:
                eng.raise_py(IndexError)
            return VList(items=[x], kind='str', ety=INT) if o.kind == 'str' else x
        if o.concrete and not eng.spec:
            n = len(o.items)
            ki = norm_index(eng, n, k)
            if o.kind == 'str' or all(eng.is_intlike(x) for x in o.items):
                _, arr = eng.sym_list(o, INT if o.kind == 'str' else None)
                x = z3.Select(arr, ki)
                return VList(items=[x], kind='str', ety=INT) if o.kind == 'str' else x
            for c in range(n):
                if eng.decide(ki == c):
                    return o.items[c]
            raise Unsupported('index')
        n, arr = eng.sym_list(o)
        ety = o.ety or eng.join([eng.typeof(x) for x in o.items])
        ki = norm_index(eng, n, k)
        x = z3.Select(arr, ki)
        if o.kind == 'str':
            return VList(items=[x], kind='str', ety=INT)
        w = eng.wrap(ety, x)
        if isinstance(w, V) and not isinstance(w, VObj):
            w.parent = (o, ki)
        return w
    if isinstance(o, VDict):
        if o.items is not None:
            if eng.is_plain(k):
                if k in o.items:
                    return o.items[k]
                if o.default is not None and not eng.spec:
                    v = eng.call(o.default, [], {})
                    o.items[k] = v
                    return v
                eng.raise_py(KeyError)
            if not o.items and o.default is not None and not eng.spec:
                v = eng.call(o.default, [], {})
                setitem(eng, o, k, v)
                return getitem(eng, o, k)
            if not o.items:
                eng.raise_py(KeyError)
            for kk, v in o.items.items():
                if eng.decide(eq(eng, k, kk)):
                    return v
            eng.raise_py(KeyError)
        kk = eng.unwrap(k, o.kty)
        if o.default is int and not eng.spec and o.vty == INT:
            touch(eng, o)
            v = z3.If(z3.Select(o.dom, kk), z3.Select(o.val, kk), z3.IntVal(0))
            o.dom, o.val = z3.Store(o.dom, kk, z3.BoolVal(True)), z3.Store(o.val, kk, v)
            written(eng, o)
            return v
        if o.default is not None and not eng.spec and not eng.decide(z3.Select(o.dom, kk), pruned=True):
            setitem(eng, o, k, eng.call(o.default, [], {}))
        elif not eng.spec and not eng.decide(z3.Select(o.dom, kk), pruned=True):
            eng.raise_py(KeyError)
        w = eng.wrap(o.vty, z3.Select(o.val, kk))
        if isinstance(w, V) and not isinstance(w, VObj):
            w.parent = (o, kk)
        return w
    if isinstance(o, VMat):
        if isinstance(k, tuple) and len(k) == 2:
            if isinstance(k[0], slice) and isinstance(k[1], slice):
                return mat_part(eng, o, *k)
            if isinstance(k[1], slice):
                if k[1] != slice(None):
                    raise Unsupported('part of a row')
                return getitem(eng, o, k[0])
            if isinstance(k[0], slice):
                if k[0] != slice(None):
                    raise Unsupported('part of a column')
                c = norm_index(eng, o.cols, k[1])
                arr = o.arr
                col = mk_list(eng, eng.to_int(o.rows), INT, lambda j: z3.Select(z3.Select(arr, j), c))
                col.nd = True
                return col
            r = norm_index(eng, o.rows, k[0])
            c = norm_index(eng, o.cols, k[1])
            return z3.Select(z3.Select(o.arr, r), c)
        if eng.is_intlike(k):
            r = norm_index(eng, o.rows, k)
            row = eng.new(VList(n=eng.to_int(o.cols), arr=z3.Select(o.arr, r), ety=INT))
            row.nd = True
            return row
    if isinstance(o, VSeq):
        if o.concrete is not None and isinstance(k, int):
            return o.concrete[k]
    if isinstance(o, VRange):
        n = eng.py_len(o)
        ki = norm_index(eng, n, k)
        return eng.to_int(o.start) + o.step * ki
    raise Unsupported(f'item of {o!r}')


def touch(eng, v):
    """called before a mutation; keeps views and copies honest"""
    if eng.spec:
        raise Unsupported('mutation in specification')
    if getattr(v, 'escaped', False):
        raise Unsupported('mutation of a container after it was stored in another one')


def written(eng, v):
    """called after a mutation: write an element view back to its container"""
    par = getattr(v, 'parent', None)
    if par is None:
        return
    owner, key = par
    touch(eng, owner)
    if isinstance(owner, VList):
        owner.arr = z3.Store(owner.arr, key, eng.unwrap(v, owner.ety))
    elif isinstance(owner, VDict):
        owner.val = z3.Store(owner.val, key, eng.unwrap(v, owner.vty))
    written(eng, owner)


def esc(eng, v):
    if isinstance(v, (VList, VSet, VDict)):
        v.escaped = True
    elif isinstance(v, tuple):
        for x in v:
            esc(eng, x)
    return v


def setitem(eng, o, k, v):
    if isinstance(o, VList):
        touch(eng, o)
        if o.concrete and isinstance(k, int):
            try:
                o.items[k] = v
            except IndexError:
                eng.raise_py(IndexError)
            return
        if o.concrete and not o.items:
            eng.raise_py(IndexError)
        if o.concrete:
            eng.make_sym(o)
        if o.ety == BOOL and not is_boolish(v):
            raise Unsupported('non-boolean stored in a boolean list')
        ki = norm_index(eng, o.n, k)
        o.arr = z3.Store(o.arr, ki, eng.unwrap(esc(eng, v), o.ety))
        written(eng, o)
        return
    if isinstance(o, VDict):
        touch(eng, o)
        if o.items is not None and (eng.is_plain(k)) and (not o.items or all(eng.is_plain(x) for x in o.items)):
            o.items[k] = v
            return
        if o.items is not None:
            if not o.items:
                kty, vty = eng.typeof(k), eng.typeof(v)
            else:
                kty, vty = eng.typeof(k), eng.join([eng.typeof(x) for x in o.items.values()])
            d, a = eng.sym_dict(o, kty, vty)
            o.items, o.dom, o.val, o.kty, o.vty = None, d, a, kty, vty
        kk = eng.unwrap(k, o.kty)
        o.dom = z3.Store(o.dom, kk, z3.BoolVal(True))
        o.val = z3.Store(o.val, kk, eng.unwrap(esc(eng, v), o.vty))
        written(eng, o)
        return
    if isinstance(o, VMat):
        touch(eng, o)
        if isinstance(k, tuple) and len(k) == 2 and (isinstance(k[0], slice) or isinstance(k[1], slice)):
            col = isinstance(k[0], slice)
            if k[0 if col else 1] != slice(None):
                raise Unsupported('part of a row')
            ix = norm_index(eng, o.cols if col else o.rows, k[1] if col else k[0])
            n, vec = eng.sym_list(to_list(eng, v), INT)
            if not eng.decide(eng.to_int(n) == eng.to_int(o.rows if col else o.cols), pruned=True):
                # numpy also spreads a vector of length one
                raise Unsupported('array of another length')
            o.arr = theory.setcol(o.arr, ix, vec) if col else z3.Store(o.arr, ix, vec)
            return
        if isinstance(k, tuple) and len(k) == 2:
            r = norm_index(eng, o.rows, k[0])
            c = norm_index(eng, o.cols, k[1])
            o.arr = z3.Store(o.arr, r, z3.Store(z3.Select(o.arr, r), c, eng.to_int(v)))
            return
    raise Unsupported(f'item assignment on {o!r}')


def delitem(eng, o, k):
    if isinstance(o, VDict):
        touch(eng, o)
        if o.items is not None and eng.is_plain(k):
            if k not in o.items:
                eng.raise_py(KeyError)
            del o.items[k]
            return
        kk = eng.unwrap(k, o.kty)
        if not eng.decide(z3.Select(o.dom, kk)):
            eng.raise_py(KeyError)
        o.dom = z3.Store(o.dom, kk, z3.BoolVal(False))
        written(eng, o)
        return
    if isinstance(o, VList) and o.concrete and isinstance(k, int):
        touch(eng, o)
        del o.items[k]
        return
    if isinstance(o, VList) and not o.concrete:
        touch(eng, o)
        ki = norm_index(eng, o.n, k)
        old, n = o.arr, o.n
        new = mk_list(eng, n - 1, o.ety, lambda j: z3.If(j < ki, z3.Select(old, j), z3.Select(old, j + 1)), o.kind)
        o.arr, o.n = new.arr, new.n
        written(eng, o)
        return
    raise Unsupported(f'del item of {o!r}')


def clamp(eng, n, k, default):
    if k is None:
        return default
    k = eng.to_int(k)
    return z3.simplify(z3.If(k < 0, z3.If(k + n < 0, z3.IntVal(0), k + n), z3.If(k > n, n, k)))


def getslice(eng, o, lo, hi, st):
    if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return o[slice(lo, hi, st)]
    o = as_vlist(eng, o)
    if o.concrete and all(x is None or isinstance(x, int) for x in (lo, hi, st)):
        return eng.new(VList(items=o.items[slice(lo, hi, st)], kind=o.kind, ety=o.ety))
    n, arr = eng.sym_list(o)
    n = eng.to_int(n)
    ety = o.ety or eng.join([eng.typeof(x) for x in o.items])
    if st == -1 and lo is None and hi is None:
        return mk_list(eng, n, ety, lambda j: z3.Select(arr, n - 1 - j), o.kind)
    if st in (None, 1):
        a = clamp(eng, n, lo, z3.IntVal(0))
        b = clamp(eng, n, hi, n)
        if z3.is_int_value(a) and a.as_long() == 0:
            return eng.new(VList(n=z3.simplify(b), arr=arr, ety=ety, kind=o.kind))
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        return mk_list(eng, m, ety, lambda j: z3.Select(arr, a + j), o.kind)
    if isinstance(st, int) and st > 1 or is_z3(st):
        if is_z3(st) and not eng.spec and not eng.decide(st > 0):
            raise Unsupported('slice step')
        a = clamp(eng, n, lo, z3.IntVal(0))
        b = clamp(eng, n, hi, n)
        m = z3.simplify(z3.If(b > a, (b - a + st - 1) / st, z3.IntVal(0)))
        return mk_list(eng, m, ety, lambda j: z3.Select(arr, a + j * st), o.kind)
    raise Unsupported('slice')


# ---------------------------------------------------------------------- containers

def list_append(eng, o, x):
    touch(eng, o)
    if o.kind != 'list':
        raise Unsupported('append')
    if o.concrete:
        o.items.append(x)
        return
    if isinstance(x, int) and not isinstance(x, bool) and o.ety == BOOL or is_sym_int(x) and o.ety == BOOL:
        raise Unsupported('mixed list')
    o.arr = z3.Store(o.arr, o.n, eng.unwrap(esc(eng, x), o.ety))
    o.n = z3.simplify(o.n + 1)
    written(eng, o)


def list_extend(eng, o, v):
    touch(eng, o)
    s = eng.to_seq(v)
    if s.concrete is not None:
        for x in list(s.concrete):
            list_append(eng, o, x)
        return
    w = to_list(eng, v)
    r = concat(eng, o, w)
    o.items, o.n, o.arr, o.ety = r.items, r.n, r.arr, r.ety
    written(eng, o)


def to_list(eng, v, kind='list'):
    """list(v)"""
    if isinstance(v, VList):
        if v.concrete:
            items = list(v.items)
            if v.kind == 'str':
                items = [VList(items=[x], kind='str', ety=INT) for x in items]
            return eng.new(VList(items=items, ety=v.ety, kind=kind))
        if v.kind == 'str':
            raise Unsupported('list of symbolic string')
        return eng.new(VList(n=v.n, arr=v.arr, ety=v.ety, kind=kind))
    s = eng.to_seq(v)
    if s.concrete is not None:
        return eng.new(VList(items=list(s.concrete), kind=kind))
    probe = z3.Int(eng.name('p'))
    x = pure_item(eng, s, probe)
    ety = eng.typeof(x)
    r = mk_list(eng, s.n, ety, lambda j: eng.unwrap(pure_item(eng, s, j), ety), kind)
    if isinstance(v, VRange) and v.step == 1:
        r.span_of = (eng.to_int(v.start), r.arr, r.n)
    return r


def pure_item(eng, s, j):
    eng.spec += 1
    try:
        return s.item(j)
    finally:
        eng.spec -= 1


def make_set(eng, v, frozen=False):
    if v is None:
        return eng.new(VSet(items=[]))
    if isinstance(v, VSet):
        return eng.new(VSet(arr=v.arr, ety=v.ety, items=list(v.items) if v.items is not None else None))
    if isinstance(v, VDict) and v.items is None:
        return eng.new(VSet(arr=v.dom, ety=v.kty))
    s = eng.to_seq(v)
    if s.concrete is not None:
        if all(eng.is_plain(x) for x in s.concrete):
            out = []
            for x in s.concrete:
                if not any(x == y and type(x) == type(y) or x == y for y in out):
                    out.append(x)
            return eng.new(VSet(items=out))
        ety = eng.join([eng.typeof(x) for x in s.concrete])
        arr = z3.EmptySet(ety.sort)
        for x in s.concrete:
            arr = z3.SetAdd(arr, eng.unwrap(x, ety))
        return eng.new(VSet(arr=arr, ety=ety))
    if isinstance(v, VRange) and v.step == 1:
        x = z3.Int(eng.name('x'))
        return set_by(eng, INT, lambda x: z3.And(x >= eng.to_int(v.start), x < eng.to_int(v.stop)))
    from .loops import image_set
    r = image_set(eng, s)
    if isinstance(v, VList) and not v.concrete and v.ety == INT and r.items is None and not eng.spec and 'asc' in theory.collect(eng.path.all())[0]:
        # an increasing list has as many elements as places
        increasing = theory.asc(v.arr, eng.to_int(v.n))
        eng.assume(z3.Implies(increasing, enumeration(eng, r.arr, INT)[0] == v.n))
        ranks(eng, v.arr, v.n, r.arr, increasing)
    return r


def ranks(eng, arr, n, members, given):
    """an increasing list of the elements of a set of natural numbers: place j holds a number below x iff j is below their number
    (theory obligations `enumeration`)"""
    if 'below' not in eng.vocabulary():
        return
    j, x = z3.Int(eng.name('j')), z3.Int(eng.name('x'))
    natural = z3.Or(n <= 0, z3.Select(arr, 0) >= 0)
    eng.assume(z3.ForAll([j, x], z3.Implies(z3.And(given, natural, 0 <= j, j < n), (z3.Select(arr, j) < x) == (j < theory.below(members, x))),
                         patterns=[theory.MP(z3.Select(arr, j), theory.below(members, x))]))
    eng.assume(z3.ForAll([x], z3.Implies(z3.And(given, natural, n >= 0), z3.And(theory.below(members, x) <= n)), patterns=[theory.below(members, x)]))


def set_by(eng, ety, f):
    """the set {x | f(x)}"""
    x = z3.Const(eng.name('x'), ety.sort)
    if eng.spec:
        return VSet(arr=z3.Lambda([x], f(x)), ety=ety)
    arr = eng.const(z3.ArraySort(ety.sort, z3.BoolSort()), 'set')
    eng.assume(z3.ForAll([x], z3.Select(arr, x) == f(x), patterns=[z3.Select(arr, x)]))
    return eng.new(VSet(arr=arr, ety=ety))


def set_of(eng, v):
    return v if isinstance(v, VSet) else make_set(eng, v)


def set_ety(eng, *ss):
    for s in ss:
        if s.ety is not None:
            return s.ety
        if s.items:
            return eng.join([eng.typeof(x) for x in s.items])
    return None


def set_op(eng, name, a, b):
    b = set_of(eng, b)
    if a.items is not None and b.items is not None and all(eng.is_plain(x) for x in a.items + b.items):
        r = getattr(set(a.items), name)(set(b.items))
        return eng.new(VSet(items=sorted(r, key=repr)))
    ety = set_ety(eng, a, b)
    x, y = eng.sym_set(a, ety), eng.sym_set(b, ety)
    r = {'union': z3.SetUnion, 'intersection': z3.SetIntersect, 'difference': z3.SetDifference}.get(name)
    if r is None:
        res = z3.SetUnion(z3.SetDifference(x, y), z3.SetDifference(y, x))
    else:
        res = r(x, y)
    if eng.vocabulary() & {'below', 'asc', 'gath'}:
        # a name of its own, so that facts about the set are found by its name
        names = eng.__dict__.setdefault('set_names', {})
        at = (name, x.get_id(), y.get_id())
        if not eng.spec:
            k = z3.Const(eng.name('k'), ety.sort)
            named = eng.const(res.sort(), name)
            eng.assume(z3.ForAll([k], z3.Select(named, k) == z3.simplify(z3.Select(res, k)), patterns=[z3.Select(named, k)] + [z3.Select(t, k) for t in (x, y) if z3.is_const(t)]))
            names[at] = (named, x, y)
        if at in names:
            res = names[at][0]
    return eng.new(VSet(arr=res, ety=ety))


def enumeration(eng, arr, ety):
    """(n, en): a bijection en from [0, n) to the set.  The set is assumed finite (every Python set is)."""
    key = ('enum', arr.get_id())
    cache = eng.path.__dict__.setdefault('enums', {})
    if key in cache and not eng.spec:
        return cache[key][:2]
    n = eng.const(z3.IntSort(), 'card')
    en = eng.const(z3.ArraySort(z3.IntSort(), ety.sort), 'en')
    ix = eng.const(z3.ArraySort(ety.sort, z3.IntSort()), 'ix')
    j = z3.Int(eng.name('j'))
    x = z3.Const(eng.name('x'), ety.sort)
    eng.assume(n >= 0)
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(arr, z3.Select(en, j)), z3.Select(ix, z3.Select(en, j)) == j)), patterns=[z3.Select(en, j)]))
    pats = [z3.Select(ix, x)]
    if z3.is_const(arr):
        pats.append(z3.Select(arr, x))
    eng.assume(z3.ForAll([x], z3.Implies(z3.Select(arr, x), z3.And(z3.Select(ix, x) >= 0, z3.Select(ix, x) < n, z3.Select(en, z3.Select(ix, x)) == x)), patterns=pats))
    cache[key] = (n, en, arr)
    eng.__dict__.setdefault('enumerators', {})[en.get_id()] = (n, en, arr, ety)
    return n, en


def enumerate_set(eng, arr, ety):
    n, en = enumeration(eng, arr, ety)
    return VSeq(n, lambda i: eng.wrap(ety, z3.Select(en, i)))


def card(eng, arr, ety):
    if eng.spec:
        f = z3.Function('card_' + ety.mangled, arr.sort(), z3.IntSort())
        return f(arr)
    n, _ = enumeration(eng, arr, ety)
    f = z3.Function('card_' + ety.mangled, arr.sort(), z3.IntSort())
    eng.assume(f(arr) == n)
    return n


# ---------------------------------------------------------------------- methods of built-in types

METHODS = {}


def meth(kind, name):
    def deco(f):
        METHODS[(kind, name)] = f
        return f
    return deco


def method(eng, v, name):
    if isinstance(v, str):
        if name == 'format':
            return _m(lambda e, *a, **k: str_format(e, v, a, k))
        return None
    if (is_sym_int(v) or is_sym_bool(v)) and name == 'bit_length':
        return _m(lambda e: theory.binlen(e.to_int(v)))
    kind = 'list' if isinstance(v, VList) and v.kind == 'list' else 'tup' if isinstance(v, tuple) else \
        v.kind if isinstance(v, VList) else 'set' if isinstance(v, VSet) else 'dict' if isinstance(v, VDict) else \
        'mat' if isinstance(v, VMat) else None
    f = METHODS.get((kind, name))
    if f is None:
        return None
    if getattr(f, '_prop', False):
        return f(eng, v)
    g = _m(lambda e, *a, **k: f(e, v, *a, **k))
    return g


def _m(f):
    f._pyvc_model = True
    return f


@meth('list', 'append')
def m_append(eng, o, x):
    list_append(eng, o, x)


@meth('list', 'extend')
def m_extend(eng, o, v):
    list_extend(eng, o, v)


@meth('list', 'copy')
def m_copy(eng, o):
    return to_list(eng, o)


@meth('list', 'insert')
def m_insert(eng, o, k, x):
    touch(eng, o)
    if o.concrete and isinstance(k, int):
        o.items.insert(k, x)
        return
    raise Unsupported('insert')


@meth('list', 'pop')
def m_pop(eng, o, k=-1):
    touch(eng, o)
    if o.concrete and isinstance(k, int):
        if not o.items:
            eng.raise_py(IndexError)
        return o.items.pop(k)
    if not o.concrete and isinstance(k, int) and k == -1:
        if eng.decide(o.n == 0):
            eng.raise_py(IndexError)
        x = eng.wrap(o.ety, z3.Select(o.arr, o.n - 1))
        o.n = z3.simplify(o.n - 1)
        written(eng, o)
        return x
    if not o.concrete:
        ki = norm_index(eng, o.n, k)
        x = eng.wrap(o.ety, z3.Select(o.arr, ki))
        delitem(eng, o, k)
        return x
    raise Unsupported('pop')


@meth('list', 'reverse')
def m_reverse(eng, o):
    touch(eng, o)
    r = getslice(eng, o, None, None, -1)
    o.items, o.n, o.arr = r.items, r.n, r.arr
    written(eng, o)


@meth('list', 'index')
def m_index(eng, o, x):
    if o.concrete:
        for i, y in enumerate(o.items):
            if eng.decide(eq(eng, y, x)):
                return i
        eng.raise_py(ValueError)
    if not eng.spec and not eng.decide(contains(eng, o, x)):
        eng.raise_py(ValueError)
    k = eng.const(z3.IntSort(), 'index')
    j = z3.Int(eng.name('j'))
    xx = eng.unwrap(x, o.ety)
    eng.assume(z3.And(k >= 0, k < o.n, z3.Select(o.arr, k) == xx))
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Select(o.arr, j) != xx), patterns=[z3.Select(o.arr, j)] if z3.is_const(o.arr) else []))
    return k


METHODS[('tup', 'index')] = lambda eng, o, x: m_index(eng, as_vlist(eng, o), x)


@meth('list', 'count')
def m_count(eng, o, x):
    if o.concrete:
        parts = [eng.truth(eq(eng, y, x)) for y in o.items]
        if all(isinstance(p, bool) for p in parts):
            return sum(parts)
        return z3.Sum(*[theory.If1(zb(p)) for p in parts])
    n, arr = eng.sym_list(o)
    xx = eng.unwrap(x, o.ety)
    c = mk_list(eng, n, INT, lambda j: theory.If1(z3.Select(arr, j) == xx))
    return psum(c.arr, n)


METHODS[('tup', 'count')] = lambda eng, o, x: m_count(eng, as_vlist(eng, o), x)


@meth('list', 'sort')
def m_sort(eng, o, key=None, reverse=False):
    touch(eng, o)
    r = b_sorted(eng, o, key=key, reverse=reverse)
    o.items, o.n, o.arr, o.ety = r.items, r.n, r.arr, r.ety
    written(eng, o)


@meth('list', 'remove')
def m_remove(eng, o, x):
    touch(eng, o)
    k = m_index(eng, o, x)
    delitem(eng, o, k)


@meth('list', 'tolist')
def m_tolist(eng, o):
    return to_list(eng, o)


@meth('set', 'add')
def s_add(eng, o, x):
    touch(eng, o)
    if o.items is not None and eng.is_plain(x) and all(eng.is_plain(y) for y in o.items):
        if x not in o.items:
            o.items.append(x)
        return
    if o.items is not None:
        eng.make_sym(o, set_ety(eng, o) or eng.typeof(x))
    o.arr = z3.Store(o.arr, eng.unwrap(x, o.ety), z3.BoolVal(True))
    written(eng, o)


@meth('set', 'discard')
def s_discard(eng, o, x):
    touch(eng, o)
    if o.items is not None and eng.is_plain(x) and all(eng.is_plain(y) for y in o.items):
        if x in o.items:
            o.items.remove(x)
        return
    if o.items is not None:
        if not o.items:
            return
        eng.make_sym(o)
    o.arr = z3.Store(o.arr, eng.unwrap(x, o.ety), z3.BoolVal(False))
    written(eng, o)


@meth('set', 'remove')
def s_remove(eng, o, x):
    if not eng.decide(contains(eng, o, x)):
        eng.raise_py(KeyError)
    s_discard(eng, o, x)


def _setbin(name):
    def f(eng, o, *others):
        r = o
        for b in others:
            r = set_op(eng, name, r, b)
        if not others:
            r = make_set(eng, o)
        return r
    return f


for _nm in ('union', 'intersection', 'difference', 'symmetric_difference'):
    METHODS[('set', _nm)] = _setbin(_nm)


def _setupd(name):
    def f(eng, o, b):
        touch(eng, o)
        r = set_op(eng, name, o, b)
        o.arr, o.ety, o.items = r.arr, r.ety, r.items
        written(eng, o)
    return f


for _nm, _op in (('update', 'union'), ('intersection_update', 'intersection'), ('difference_update', 'difference')):
    METHODS[('set', _nm)] = _setupd(_op)


@meth('set', 'copy')
def s_copy(eng, o):
    return make_set(eng, o)


@meth('set', 'issubset')
def s_issubset(eng, o, b):
    return order(eng, ast.LtE, o, set_of(eng, b))


@meth('set', 'issuperset')
def s_issuperset(eng, o, b):
    return order(eng, ast.LtE, set_of(eng, b), o)


@meth('set', 'isdisjoint')
def s_isdisjoint(eng, o, b):
    r = set_op(eng, 'intersection', o, b)
    t = eng.truth(r)
    return (not t) if isinstance(t, bool) else z3.Not(t)


@meth('set', 'pop')
def s_pop(eng, o):
    touch(eng, o)
    if o.items is not None:
        if len(o.items) == 1:
            return o.items.pop()
        if not o.items:
            eng.raise_py(KeyError)
        eng.make_sym(o)
    if not eng.decide(eng.truth(o)):
        eng.raise_py(KeyError)
    x = eng.const(o.ety.sort, 'popped')
    eng.assume(z3.Select(o.arr, x))
    o.arr = z3.Store(o.arr, x, z3.BoolVal(False))
    written(eng, o)
    return eng.wrap(o.ety, x)


@meth('dict', 'keys')
def d_keys(eng, o):
    if o.items is not None:
        return VSeq(len(o.items), None, concrete=list(o.items.keys()))
    return VSet(arr=o.dom, ety=o.kty)


@meth('dict', 'values')
def d_values(eng, o):
    if o.items is not None:
        return VSeq(len(o.items), None, concrete=list(o.items.values()))
    if eng.spec:
        raise Unsupported('dict values in specification')
    n, en = enumeration(eng, o.dom, o.kty)
    val, vty = o.val, o.vty
    return VSeq(n, lambda i: eng.wrap(vty, z3.Select(val, z3.Select(en, i))))


@meth('dict', 'items')
def d_items(eng, o):
    if o.items is not None:
        return VSeq(len(o.items), None, concrete=list(o.items.items()))
    if eng.spec:
        v = VSeq(None, None)
        v.dict = o
        return v
    n, en = enumeration(eng, o.dom, o.kty)
    val, vty, kty = o.val, o.vty, o.kty
    return VSeq(n, lambda i: (eng.wrap(kty, z3.Select(en, i)), eng.wrap(vty, z3.Select(val, z3.Select(en, i)))))


@meth('dict', 'get')
def d_get(eng, o, k, default=None):
    if eng.decide(contains(eng, o, k)):
        return getitem(eng, o, k)
    return default


@meth('dict', 'copy')
def d_copy(eng, o):
    return eng.new(VDict(dom=o.dom, val=o.val, kty=o.kty, vty=o.vty, items=dict(o.items) if o.items is not None else None))


@meth('dict', 'pop')
def d_pop(eng, o, k, *default):
    if eng.decide(contains(eng, o, k)):
        v = getitem(eng, o, k)
        delitem(eng, o, k)
        return v
    if default:
        return default[0]
    eng.raise_py(KeyError)


@meth('dict', 'update')
def d_update(eng, o, b):
    touch(eng, o)
    if isinstance(b, VDict) and b.items is not None:
        for k, v in b.items.items():
            setitem(eng, o, k, v)
        return
    raise Unsupported('dict update')


def prop(f):
    f._prop = True
    return f


@meth('mat', 'shape')
@prop
def mat_shape(eng, o):
    return (o.rows, o.cols)


@meth('mat', 'copy')
def mat_copy(eng, o):
    return eng.new(VMat(o.rows, o.cols, o.arr))


@meth('mat', 'transpose')
def mat_transpose(eng, o):
    return mk_mat(eng, o.cols, o.rows, lambda r, c: z3.Select(z3.Select(o.arr, c), r))


@meth('mat', 'T')
@prop
def mat_T(eng, o):
    return mat_transpose(eng, o)


@meth('mat', 'tolist')
def mat_tolist(eng, o):
    ety = parse('list[int]')
    cols = eng.to_int(o.cols)
    return mk_list(eng, eng.to_int(o.rows), ety, lambda r: ety.sort.mk(cols, z3.Select(o.arr, r)))


def mat_part(eng, o, rs, cs):
    if rs.step is not None or cs.step is not None:
        raise Unsupported('matrix slice')
    rows, cols, arr = eng.to_int(o.rows), eng.to_int(o.cols), o.arr
    r0, r1 = clamp(eng, rows, rs.start, z3.IntVal(0)), clamp(eng, rows, rs.stop, rows)
    c0, c1 = clamp(eng, cols, cs.start, z3.IntVal(0)), clamp(eng, cols, cs.stop, cols)
    size = lambda a, b: z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
    if all(z3.is_int_value(x) and x.as_long() == 0 for x in (r0, c0)):
        return eng.new(VMat(size(r0, r1), size(c0, c1), arr))
    return mk_mat(eng, size(r0, r1), size(c0, c1), lambda r, c: z3.Select(z3.Select(arr, r + r0), c + c0))


def mk_mat(eng, rows, cols, f):
    rows, cols = eng.to_int(rows), eng.to_int(cols)
    arr = eng.const(z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())), 'mat')
    r, c = z3.Int(eng.name('r')), z3.Int(eng.name('c'))
    e = z3.Select(z3.Select(arr, r), c)
    eng.assume(z3.ForAll([r, c], z3.Implies(z3.And(r >= 0, r < rows, c >= 0, c < cols), e == f(r, c)), patterns=[e]))
    return eng.new(VMat(rows, cols, arr))


# strings of digits

@meth('str', 'replace')
def str_replace(eng, o, a, b):
    # only for strings in which there is nothing to replace
    if not (isinstance(a, str) and len(a) == 1):
        raise Unsupported('replace on a symbolic string')
    n, arr = eng.sym_list(o, INT)
    j = z3.Int(eng.name('j'))
    eng.must(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(arr, j) != ord(a))), 'replace on a symbolic string')
    return o


@meth('str', 'count')
def str_count(eng, o, x):
    # the ones in bin(n); 'b' and '0' are not counted
    if x == '1' and getattr(o, 'bin_of', None) is not None:
        return theory.wgt(o.bin_of)
    raise Unsupported('count on a symbolic string')


@meth('str', 'zfill')
def str_zfill(eng, o, w):
    n, arr = eng.sym_list(o, INT)
    n, w = eng.to_int(n), eng.to_int(w)
    # only for strings that do not start with a sign
    if eng.decide(z3.And(n > 0, z3.Or(z3.Select(arr, 0) == 43, z3.Select(arr, 0) == 45)), pruned=True):
        raise Unsupported('zfill with sign')
    pad = z3.simplify(z3.If(w > n, w - n, z3.IntVal(0)))
    return mk_list(eng, z3.simplify(n + pad), INT, lambda j: z3.If(j < pad, z3.IntVal(48), z3.Select(arr, j - pad)), 'str')


@meth('str', 'join')
def str_join(eng, o, v):
    return VOpaque('joined string')


def bin_digits(eng, n):
    """'{0:b}'.format(n) for a natural number, most significant first"""
    L = theory.binlen(n)
    return mk_list(eng, z3.simplify(z3.If(n == 0, z3.IntVal(1), L)), INT,
                   lambda j: z3.If(bit(n, z3.If(n == 0, z3.IntVal(1), L) - 1 - j), z3.IntVal(49), z3.IntVal(48)), 'str')


def str_format(eng, s, a, k):
    if s in ('{0:b}', '{:b}') and len(a) == 1 and is_sym_int(a[0]):
        if not eng.decide(a[0] >= 0):
            raise Unsupported('format of negative number')
        return bin_digits(eng, a[0])
    if all(eng.is_plain(x) for x in a) and all(eng.is_plain(x) for x in k.values()):
        return s.format(*[eng.plain(x) for x in a], **{x: eng.plain(y) for x, y in k.items()})
    return VOpaque('formatted string')


@register(format)
def b_format(eng, v, spec=''):
    if spec == 'b' and is_sym_int(v):
        return str_format(eng, '{0:b}', (v,), {})
    if eng.is_plain(v):
        return format(eng.plain(v), spec)
    return VOpaque('formatted string')


@register(bin)
def b_bin(eng, v):
    if eng.is_plain(v):
        return bin(v)
    if not eng.decide(v >= 0):
        raise Unsupported('bin of negative number')
    d = bin_digits(eng, v)
    r = concat(eng, eng.str_to_vlist('0b'), d)
    r.bin_of = v
    return r


# ---------------------------------------------------------------------- functions

@register(len)
def b_len(eng, v):
    return eng.py_len(v)


@register(range)
def b_range(eng, *a):
    a = [x if isinstance(x, int) and not isinstance(x, bool) else eng.to_int(x) if not isinstance(x, float) else bad(x) for x in a]
    if len(a) == 1:
        return VRange(0, a[0])
    if len(a) == 2:
        return VRange(a[0], a[1])
    return VRange(a[0], a[1], a[2])


def bad(x):
    raise Unsupported(f'{x!r}')


@register(list)
def b_list(eng, v=None):
    if v is None:
        return eng.new(VList(items=[]))
    return to_list(eng, v)


@register(tuple)
def b_tuple(eng, v=None):
    if v is None:
        return ()
    if isinstance(v, tuple):
        return v
    s = eng.to_seq(v)
    if s.concrete is not None:
        return tuple(s.concrete)
    return to_list(eng, v, 'tup')


@register(set, frozenset)
def b_set(eng, v=None):
    return make_set(eng, v)


@register(dict)
def b_dict(eng, v=None, **kw):
    if v is None:
        return eng.new(VDict(items=dict(kw)))
    if isinstance(v, VDict):
        return d_copy(eng, v)
    s = eng.to_seq(v)
    if s.concrete is not None:
        d = eng.new(VDict(items={}))
        for x in s.concrete:
            k, y = eng.unpack(x, 2)
            setitem(eng, d, k, y)
        return d
    d = eng.new(VDict(items={}))
    from .loops import summarize

    def body(i):
        k, y = eng.unpack(s.item(i), 2)
        setitem(eng, d, k, y)
    summarize(eng, s.n, body, [], frozenset())
    return d


@register(bool)
def b_bool(eng, v=False):
    return eng.truth(v)


@register(int)
def b_int(eng, v=0, base=None):
    if base is not None:
        if base == 2 and isinstance(v, (VList, str)):
            return parse_binary(eng, as_vlist(eng, v))
        raise Unsupported('int with base')
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if is_sym_int(v):
        return v
    if is_sym_bool(v):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, VList) and v.kind == 'str':
        if v.concrete and len(v.items) == 1:
            c = v.items[0]
            if isinstance(c, int):
                if 48 <= c <= 57:
                    return c - 48
                eng.raise_py(ValueError)
            if eng.decide(z3.And(c >= 48, c <= 57)):
                return c - 48
            eng.raise_py(ValueError)
    if isinstance(v, str):
        try:
            return int(v)
        except ValueError:
            eng.raise_py(ValueError)
    if isinstance(v, float):
        return int(v)
    raise Unsupported(f'int({v!r})')


def parse_binary(eng, s):
    n, arr = eng.sym_list(s, INT)
    n = eng.to_int(n)
    j = z3.Int(eng.name('j'))
    ok = z3.And(n >= 1, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Or(z3.Select(arr, j) == 48, z3.Select(arr, j) == 49))))
    eng.must(ok, 'int of a string that may not be binary')
    d = mk_list(eng, n, BOOL, lambda j: z3.Select(arr, n - 1 - j) == 49)
    return dval(d.arr, n)


@register(str)
def b_str(eng, v=''):
    if eng.is_plain(v):
        return str(eng.plain(v))
    if is_sym_int(v) and not eng.spec:
        # decimal digit of a number known to be 0..9
        if not eng.feasible(z3.Or(v < 0, v > 9)):
            return eng.new(VList(items=[v + 48], kind='str', ety=INT))
        if eng.decide(v >= 1, pruned=True):
            r = eng.fresh('str', 'decimal')
            eng.assume(r.n == theory.declen(v))
            return r
    return VOpaque('string')


@register(abs)
def b_abs(eng, v):
    if isinstance(v, int):
        return abs(v)
    v = eng.to_int(v)
    return z3.If(v < 0, -v, v)


def _minmax(name):
    def f(eng, *a, key=None, default=None):
        if key is not None:
            raise Unsupported(f'{name} with key')
        if len(a) > 1:
            if all(isinstance(x, int) for x in a):
                return getattr(builtins, name)(a)
            r = eng.to_int(a[0])
            for x in a[1:]:
                x = eng.to_int(x)
                r = z3.If(x < r, x, r) if name == 'min' else z3.If(x > r, x, r)
            return r
        v = a[0]
        s = eng.to_seq(v)
        if s.concrete is not None:
            if not s.concrete:
                if default is not None:
                    return default
                eng.raise_py(ValueError)
            if len(s.concrete) == 1:
                return s.concrete[0]
            if all(isinstance(x, int) for x in s.concrete):
                return getattr(builtins, name)(s.concrete)
            if not all(eng.is_intlike(x) for x in s.concrete):
                raise Unsupported(f'{name} of non-integers')
            return f(eng, *s.concrete)
        if eng.spec:
            raise Unsupported(f'{name} in specification')
        if eng.decide(s.n == 0):
            if default is not None:
                return default
            eng.raise_py(ValueError)
        m = eng.const(z3.IntSort(), name)
        if isinstance(v, VSet) and v.ety == INT:
            x = z3.Int(eng.name('x'))
            eng.assume(z3.Select(v.arr, m))
            eng.assume(z3.ForAll([x], z3.Implies(z3.Select(v.arr, x), x >= m if name == 'min' else x <= m), patterns=[z3.Select(v.arr, x)] if z3.is_const(v.arr) else []))
            return m
        w = eng.const(z3.IntSort(), 'argm')
        j = z3.Int(eng.name('j'))
        x = pure_item(eng, s, w)
        if not (is_sym_int(x) and x.sort() == z3.IntSort()):
            raise Unsupported(f'{name} of non-integers')
        eng.assume(z3.And(w >= 0, w < s.n, m == x))
        y = pure_item(eng, s, j)
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), y >= m if name == 'min' else y <= m)))
        return m
    return f


_MODELS[min] = _minmax('min')
_MODELS[max] = _minmax('max')


@register(sum)
def b_sum(eng, v, start=0):
    s = eng.to_seq(v)
    if s.concrete is not None:
        r = start
        for x in s.concrete:
            r = binop(eng, ast.Add, r, x)
        return r
    if isinstance(v, VList) and v.ety == INT:
        return psum(v.arr, v.n) + start if start else psum(v.arr, v.n)
    lst = mk_list(eng, s.n, INT, lambda j: eng.to_int(pure_item(eng, s, j)))
    r = psum(lst.arr, s.n)
    return r + start if not (isinstance(start, int) and start == 0) else r


@register(enumerate)
def b_enumerate(eng, v, start=0):
    s = eng.to_seq(v)
    if s.concrete is not None:
        return VSeq(len(s.concrete), None, concrete=[(start + i, x) for i, x in enumerate(s.concrete)])
    return VSeq(s.n, lambda i: (i + start if not (isinstance(start, int) and start == 0) else i, s.item(i)))


@register(zip)
def b_zip(eng, *vs):
    ss = [eng.to_seq(v) for v in vs]
    if all(s.concrete is not None for s in ss):
        return VSeq(0, None, concrete=list(zip(*[s.concrete for s in ss])))
    n = None
    for s in ss:
        m = eng.to_int(len(s.concrete) if s.concrete is not None else s.n)
        n = m if n is None else z3.If(m < n, m, n)

    def item(i):
        out = []
        for s in ss:
            if s.concrete is not None:
                out.append(getitem(eng, VList(items=list(s.concrete)), i))
            else:
                out.append(s.item(i))
        return tuple(out)
    return VSeq(z3.simplify(n), item)


@register(reversed)
def b_reversed(eng, v):
    s = eng.to_seq(v)
    if s.concrete is not None:
        return VSeq(len(s.concrete), None, concrete=list(reversed(s.concrete)))
    n = s.n
    return VSeq(n, lambda i: s.item(n - 1 - i))


@register(sorted)
def b_sorted(eng, v, key=None, reverse=False):
    if isinstance(v, VList) and v.concrete and key is None and all(isinstance(x, int) for x in v.items):
        return eng.new(VList(items=sorted(v.items, reverse=reverse)))
    if isinstance(v, VSet) and v.items is not None and key is None and all(isinstance(x, int) for x in v.items):
        return eng.new(VList(items=sorted(v.items, reverse=reverse)))
    if key is not None or reverse is not False:
        raise Unsupported('sorted with key')
    if isinstance(v, VRange) and isinstance(v.step, int) and v.step > 0:
        r = to_list(eng, v)
        if not r.concrete:
            if 'asc' in theory.collect(eng.path.all())[0]:
                eng.assume(theory.asc(r.arr, r.n))
            r.ascending = r.arr
        return r
    if isinstance(v, VDict) and v.items is None:
        v = VSet(arr=v.dom, ety=v.kty)
    if isinstance(v, VSet):
        if v.items is not None:
            if len(v.items) <= 1:
                return to_list(eng, v)
            eng.make_sym(v)
        if v.ety != INT:
            raise Unsupported('sorted set of non-integers')
        n, en = enumeration(eng, v.arr, v.ety)
        # a monotone enumeration of the same set
        sa = eng.const(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'sorted')
        sx = eng.const(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'place')
        i, j, x = z3.Int(eng.name('i')), z3.Int(eng.name('j')), z3.Int(eng.name('x'))
        eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(v.arr, z3.Select(sa, j)), z3.Select(sx, z3.Select(sa, j)) == j)), patterns=[z3.Select(sa, j)]))
        pats = [z3.Select(sx, x)] + ([z3.Select(v.arr, x)] if z3.is_const(v.arr) else [])
        eng.assume(z3.ForAll([x], z3.Implies(z3.Select(v.arr, x), z3.And(z3.Select(sx, x) >= 0, z3.Select(sx, x) < n, z3.Select(sa, z3.Select(sx, x)) == x)), patterns=pats))
        eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j < n), z3.Select(sa, i) < z3.Select(sa, j)), patterns=[theory.MP(z3.Select(sa, i), z3.Select(sa, j))]))
        if 'asc' in theory.collect(eng.path.all())[0]:
            eng.assume(theory.asc(sa, n))
        ranks(eng, sa, n, v.arr, z3.BoolVal(True))
        r = eng.new(VList(n=n, arr=sa, ety=INT))
        r.ascending = sa
        return r
    s = eng.to_seq(v)
    if s.concrete is not None:
        if len(s.concrete) <= 1:
            return eng.new(VList(items=list(s.concrete)))
        if not all(eng.is_intlike(x) for x in s.concrete):
            raise Unsupported('sorted of non-integers')
        v = eng.new(VList(items=list(s.concrete)))
        if len(s.concrete) == 2:
            a, b = (eng.to_int(x) for x in s.concrete)
            return eng.new(VList(items=[z3.If(a <= b, a, b), z3.If(a <= b, b, a)]))
    else:
        v = to_list(eng, v)
    n, arr = eng.sym_list(v, INT)
    n = eng.to_int(n)
    sa = eng.const(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'sorted')
    p = eng.const(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'perm')
    q = eng.const(z3.ArraySort(z3.IntSort(), z3.IntSort()), 'permi')
    i, j = z3.Int(eng.name('i')), z3.Int(eng.name('j'))
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(p, j) >= 0, z3.Select(p, j) < n, z3.Select(q, z3.Select(p, j)) == j, z3.Select(sa, j) == z3.Select(arr, z3.Select(p, j)))), patterns=[z3.Select(sa, j)]))
    pat = [z3.Select(q, j)] + ([z3.Select(arr, j)] if z3.is_const(arr) else [])
    eng.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.And(z3.Select(q, j) >= 0, z3.Select(q, j) < n, z3.Select(p, z3.Select(q, j)) == j, z3.Select(sa, z3.Select(q, j)) == z3.Select(arr, j))), patterns=pat))
    eng.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, j < n), z3.Select(sa, i) <= z3.Select(sa, j)), patterns=[theory.MP(z3.Select(sa, i), z3.Select(sa, j))]))
    if 'asc' in theory.collect(eng.path.all())[0]:   # an increasing list is sorted already
        eng.assume(z3.Implies(theory.asc(arr, n), z3.And(theory.asc(sa, n),
                   z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), z3.Select(sa, j) == z3.Select(arr, j)), patterns=[z3.Select(sa, j)]))))
    r = eng.new(VList(n=n, arr=sa, ety=INT))
    r.ascending = sa
    return r


@register(type)
def b_type(eng, v):
    if isinstance(v, bool) or is_sym_bool(v):
        return bool
    if isinstance(v, int) or is_sym_int(v):
        return int
    if isinstance(v, VList):
        if is_nd(v):
            import numpy as np
            return np.ndarray
        return {'list': list, 'tup': tuple, 'str': str}[v.kind]
    if isinstance(v, VSet):
        return set
    if isinstance(v, VDict):
        return dict
    if isinstance(v, VObj):
        return v.cls
    if isinstance(v, (str, tuple, float, type(None))):
        return type(v)
    if isinstance(v, VMat):
        import numpy as np
        return np.ndarray
    if isinstance(v, VRange):
        return range
    if isinstance(v, slice):
        return slice
    raise Unsupported(f'type of {v!r}')


@register(isinstance)
def b_isinstance(eng, v, t):
    ts = t if isinstance(t, tuple) else (t,)
    c = b_type(eng, v)
    return any(issubclass(c, x) for x in ts)


@register(hasattr)
def b_hasattr(eng, v, name):
    if isinstance(v, VObj):
        return name in v.fields or eng.class_attr(v.cls, name) is not None
    if isinstance(v, (VList, tuple, VSet, VDict)) or eng.is_intlike(v):
        return hasattr(b_type(eng, v), name)
    raise Unsupported('hasattr')


@register(setattr)
def b_setattr(eng, o, name, v):
    eng.setattr(o, name, v)


@register(getattr)
def b_getattr(eng, o, name, *d):
    return eng.getattr(o, name)


@register(divmod)
def b_divmod(eng, a, b):
    return (binop(eng, ast.FloorDiv, a, b), binop(eng, ast.Mod, a, b))


@register(all)
def b_all(eng, v):
    s = eng.to_seq(v)
    if s.concrete is not None:
        return conj([eng.truth(x) for x in s.concrete])
    j = z3.Int(eng.name('j'))
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < s.n), zb(eng.truth(pure_item(eng, s, j)))))


@register(any)
def b_any(eng, v):
    s = eng.to_seq(v)
    if s.concrete is not None:
        return disj([eng.truth(x) for x in s.concrete])
    j = z3.Int(eng.name('j'))
    return z3.Exists([j], z3.And(j >= 0, j < s.n, zb(eng.truth(pure_item(eng, s, j)))))


@register(map)
def b_map(eng, f, *vs):
    ss = [eng.to_seq(v) for v in vs]
    if all(s.concrete is not None for s in ss):
        return VSeq(0, None, concrete=[eng.call(f, list(t), {}) for t in zip(*[s.concrete for s in ss])])
    if len(ss) == 1:
        s = ss[0]
        return VSeq(s.n, lambda i: eng.call(f, [s.item(i)], {}))
    raise Unsupported('map')


@register(next)
def b_next(eng, v, *d):
    raise Unsupported('next')


@register(iter)
def b_iter(eng, v):
    return eng.to_seq(v)


@register(print)
def b_print(eng, *a, **k):
    return None


@register(operator.and_)
def o_and(eng, a, b):
    return binop(eng, ast.BitAnd, a, b) if not isinstance(a, VObj) else eng.binop(ast.BitAnd(), a, b)


@register(operator.or_)
def o_or(eng, a, b):
    return binop(eng, ast.BitOr, a, b) if not isinstance(a, VObj) else eng.binop(ast.BitOr(), a, b)


@register(operator.xor)
def o_xor(eng, a, b):
    return binop(eng, ast.BitXor, a, b) if not isinstance(a, VObj) else eng.binop(ast.BitXor(), a, b)


@register(operator.eq)
def o_eq(eng, a, b):
    return eq(eng, a, b)


@register(math.gcd)
def m_gcd(eng, a, b):
    return theory.gcd(eng.to_int(a), eng.to_int(b))


@register(functools.reduce)
def f_reduce(eng, f, v, *init):
    s = eng.to_seq(v)
    if s.concrete is None:
        raise Unsupported('reduce')
    xs = list(s.concrete)
    acc = init[0] if init else xs.pop(0)
    for x in xs:
        acc = eng.call(f, [acc, x], {})
    return acc


@register(itertools.product)
def it_product(eng, *vs, repeat=1):
    ss = [eng.to_seq(v) for v in vs]
    if all(s.concrete is not None for s in ss) and isinstance(repeat, int):
        xs = list(itertools.product(*[s.concrete for s in ss], repeat=repeat))
        if len(xs) > 4096:
            raise Unsupported('huge product')
        return VSeq(len(xs), None, concrete=xs)
    raise Unsupported('product')


@register(itertools.combinations)
def it_comb(eng, v, r):
    s = eng.to_seq(v)
    if s.concrete is not None and isinstance(r, int):
        xs = list(itertools.combinations(s.concrete, r))
        return VSeq(len(xs), None, concrete=xs)
    if r == 2:
        return pairs_of(eng, s)
    raise Unsupported('combinations')


def pairs_of(eng, s):
    """all pairs of places a < b of a sequence; nothing is said about their order"""
    n = eng.to_int(s.n)
    N = eng.const(z3.IntSort(), 'npairs')
    AI = z3.ArraySort(z3.IntSort(), z3.IntSort())
    p, q = eng.const(AI, 'pa'), eng.const(AI, 'pb')
    at = eng.const(z3.ArraySort(z3.IntSort(), AI), 'pat')
    i, x, y = z3.Int(eng.name('i')), z3.Int(eng.name('x')), z3.Int(eng.name('y'))
    eng.assume(N >= 0)
    pi, qi = z3.Select(p, i), z3.Select(q, i)
    eng.assume(theory.FA([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(0 <= pi, pi < qi, qi < n, z3.Select(z3.Select(at, pi), qi) == i)), [pi, qi]))
    k = z3.Select(z3.Select(at, x), y)
    eng.assume(theory.FA([x, y], z3.Implies(z3.And(0 <= x, x < y, y < n), z3.And(0 <= k, k < N, z3.Select(p, k) == x, z3.Select(q, k) == y)), [k]))
    return VSeq(N, lambda t: (s.item(z3.Select(p, t)), s.item(z3.Select(q, t))))


@register(itertools.chain)
def it_chain(eng, *vs):
    out = eng.new(VList(items=[]))
    for v in vs:
        list_extend(eng, out, v)
    return out


@register(id)
def b_id(eng, v):
    raise Unsupported('id')


@register(hash)
def b_hash(eng, v):
    return VOpaque('hash')


@register(int.bit_length)
def i_bit_length(eng, v):
    return theory.binlen(eng.to_int(v))


def install_numpy():
    import numpy as np
    from collections import defaultdict

    @register(np.array)
    def np_array(eng, v, dtype=None):
        if isinstance(v, VMat):
            return eng.new(VMat(v.rows, v.cols, v.arr))
        if isinstance(v, VList) and not v.concrete and v.ety.kind in ('list', 'tup') and v.ety.args[0] == INT:
            raise Unsupported('array of ragged lists')
        raise Unsupported('np.array')

    @register(np.zeros)
    def np_zeros(eng, shape, dtype=None):
        if isinstance(shape, VList) and shape.concrete:
            shape = tuple(shape.items)
        if isinstance(shape, tuple) and len(shape) == 2:
            r, c = (eng.to_int(x) for x in shape)
            return eng.new(VMat(r, c, z3.K(z3.IntSort(), z3.K(z3.IntSort(), z3.IntVal(0)))))
        n = eng.to_int(shape)
        return eng.new(VList(n=n, arr=z3.K(z3.IntSort(), z3.IntVal(0)), ety=INT))

    @register(np.dot)
    def np_dot(eng, a, b):
        """product of two matrices over the mathematical integers (no overflow)"""
        if not (isinstance(a, VMat) and isinstance(b, VMat)):
            raise Unsupported('np.dot')
        eng.oblige('matrices have matching shapes', a.cols == b.rows)
        eng.frame.env['_left'], eng.frame.env['_right'] = a, b  # for specifications
        i, j = z3.Ints('dot_i dot_j')
        m = eng.const(theory.AAI, 'dot')
        eng.assume(z3.ForAll([i, j], m[i][j] == theory.dotv(a.arr, b.arr, a.cols, i, j), patterns=[m[i][j]]))
        return eng.new(VMat(a.rows, b.cols, m))

    @register(np.lcm)
    def np_lcm(eng, a, b):
        """np.lcm on machine integers is taken as the mathematical least common multiple (no overflow)"""
        a, b = eng.to_int(a), eng.to_int(b)
        m = eng.const(z3.IntSort(), 'lcm')
        ka, kb = eng.const(z3.IntSort(), 'lca'), eng.const(z3.IntSort(), 'lcb')
        eng.assume(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(m >= 1, m >= a, m >= b, ka >= 1, kb >= 1, m == ka * a, m == kb * b, m % a == 0, m % b == 0)))
        return m

    @register(defaultdict)
    def dd(eng, factory=None, *a):
        d = eng.new(VDict(items={}))
        d.default = factory
        return d


install_numpy()
