"""pyvc: verification conditions from the real Python functions of /repo.

The interpreter below executes function bodies (ast nodes taken from the files Python itself imported) on symbolic
values.  Every path ends in obligations that are given to z3.  Loops of unknown length are summarised (see `Loops`
section) or cut by an invariant from a contract; nothing is unrolled up to a bound, except loops whose length is a known
constant, which are executed completely.
"""
import ast
import builtins
import functools
import importlib
import inspect
import itertools
import math
import operator
import time
import types as pytypes

import z3

from .types import Ty, parse, INT, BOOL, SHAPES
from .values import *
from . import theory

MAX_CONCRETE = 4096


class PyRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc  # exception class
        self.where = where


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class VStar:
    """arguments given as *sequence of unknown length"""

    def __init__(self, value):
        self.value = value


class Infeasible(Exception):
    pass


class PathEnd(Exception):
    """path deliberately ended (after an invariant has been re-established)"""


class TooManyPaths(Unsupported):
    pass


def has_quant(e, _memo={}):
    k = e.get_id()
    if k in _memo and _memo[k][1] is e:
        return _memo[k][0]
    seen = set()
    stack = [e]
    res = False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    return res


def consts_in(e):
    seen = set()
    out = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.get_id())
        elif z3.is_app(x):
            stack.extend(x.children())
    return out


class Path:
    def __init__(self, base, trail):
        self.base = list(base)        # inherited assumptions
        self.added = []               # ('d' | 'f', formula)
        self.trail = trail
        self.pos = 0
        self.alts = []
        self.trial = False            # scratch path for arbitrary values: no branching here
        self.consts = []              # fresh constants created on this path
        self.solver = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        self.solver.set('timeout', 300)
        for f in self.base:
            if not has_quant(f):
                self.solver.add(f)

    def all(self):
        return self.base + [f for _, f in self.added]

    def add(self, kind, f):
        self.added.append((kind, f))
        if not has_quant(f):
            self.solver.add(f)


class PathResult:
    def __init__(self, kind, value, path, env, heap, where=None):
        self.kind, self.value, self.path, self.env, self.heap, self.where = kind, value, path, env, heap, where

    @property
    def guard(self):
        ds = [f for k, f in self.path.added if k == 'd']
        return z3.And(*ds) if ds else z3.BoolVal(True)

    @property
    def facts(self):
        return [f for k, f in self.path.added if k == 'f']


class Obligation:
    def __init__(self, name, premises, goal, where=None):
        self.name, self.premises, self.goal, self.where = name, premises, goal, where
        self.status = None
        self.time = 0.0
        self.model = None
        self.backend = None


class Env(dict):
    """local variables with a link to the enclosing function's variables"""

    def __init__(self, parent=None):
        super().__init__()
        self.parent = parent
        self.nonlocals = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e:
                return e, dict.__getitem__(e, name)
            e = e.parent
        return None, None


class Frame:
    def __init__(self, env, globs, fname, cls=None, contract=None, node=None):
        self.env, self.globs, self.fname, self.cls, self.contract, self.node = env, globs, fname, cls, contract, node
        self.yields = None
        self.loop_ids = {}
        self.entry = None
        self.depth = 0


_file_cache = {}


def fn_node(fn):
    """ast node of a real function object, from the file it was imported from"""
    code = fn.__code__
    path = code.co_filename
    if path not in _file_cache:
        src = open(path, encoding='utf-8').read()
        tree = ast.parse(src)
        index = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(line, node.decorator_list[0].lineno)
                index.setdefault(line, []).append(node)
        _file_cache[path] = index
    cands = _file_cache[path].get(code.co_firstlineno, [])
    for node in cands:
        if isinstance(node, ast.FunctionDef) and node.name == code.co_name:
            return node
        if isinstance(node, ast.Lambda) and code.co_name == '<lambda>':
            return node
    raise Unsupported(f'no source for {fn}')


def is_repo_fn(f):
    return isinstance(f, pytypes.FunctionType) and '/discretehelpers/' in f.__code__.co_filename


class Engine:
    def __init__(self, contracts=None, timeout_ms=10000):
        self.contracts = contracts  # registry with .for_function(fn) -> list
        self.timeout = timeout_ms
        self.path = None
        self.heap = []
        self.counter = 0
        self.obligations = []
        self.record = True
        self.spec = 0
        self.bound_depth = 0
        self.inlined = set()
        self.files = set()
        self.used_contracts = set()
        self.used_models = set()
        self.verifying = None
        self.call_depth = 0
        self.max_paths = 400
        self.deadline = None
        self.ob_prefix = ''
        self.frame = None
        self._loopinv_used = set()
        self.would = 0

    # ------------------------------------------------------------------ basics

    @property
    def root_contract(self):
        v = self.verifying
        return v if hasattr(v, 'empty') else None

    def check_deadline(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise Unsupported('time budget of this function used up')

    def name(self, hint):
        self.counter += 1
        return f'{hint}!{self.counter}'

    def const(self, sort, hint='c'):
        c = z3.Const(self.name(hint), sort)
        if self.path is not None:
            self.path.consts.append(c)
        return c

    def func(self, *sig, hint='f'):
        f = z3.Function(self.name(hint), *sig)
        return f

    def assume(self, f):
        if isinstance(f, bool):
            if not f:
                raise Infeasible
            return
        f = z3.simplify(f) if not has_quant(f) else f
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise Infeasible
        self.path.add('f', f)

    def new(self, obj):
        self.heap.append(obj)
        return obj

    def fresh(self, ty, hint='v'):
        ty = parse(ty)
        k = ty.kind
        if k in ('int', 'bool', 'U'):
            return self.const(ty.sort, hint)
        if k in ('list', 'tup', 'str'):
            n = self.const(z3.IntSort(), hint + '_n')
            self.assume(n >= 0)
            ety = ty.args[0] if ty.args else INT
            arr = self.const(z3.ArraySort(z3.IntSort(), ety.sort), hint + '_a')
            v = self.new(VList(n=n, arr=arr, ety=ety, kind=k))
            self.assume_wf(v)
            return v
        if k == 'set':
            return self.new(VSet(arr=self.const(ty.sort, hint), ety=ty.args[0]))
        if k == 'dict':
            kt, vt = ty.args
            return self.new(VDict(dom=self.const(z3.ArraySort(kt.sort, z3.BoolSort()), hint + '_d'),
                                  val=self.const(z3.ArraySort(kt.sort, vt.sort), hint + '_v'), kty=kt, vty=vt))
        if k == 'tuple':
            return tuple(self.fresh(a, f'{hint}_{i}') for i, a in enumerate(ty.args))
        if k == 'none':
            return None
        if k == 'opt':
            if self.path is None or self.path.trial:
                raise Unsupported('optional value in a loop')
            return self.fresh(ty.args[0], hint) if self.decide(self.const(z3.BoolSort(), hint + '_given')) else None
        if k == 'mat':
            r = self.const(z3.IntSort(), hint + '_r')
            c = self.const(z3.IntSort(), hint + '_c')
            self.assume(r >= 0)
            self.assume(c >= 0)
            return self.new(VMat(r, c, self.const(z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort())), hint + '_m')))
        if k == 'obj':
            shp = SHAPES[ty.args[0]]
            o = self.new(VObj(shp.cls, {}))
            for f, t in shp.fields.items():
                o.fields[f] = self.fresh(t, f'{hint}_{f}')
            o.fields.update(shp.const)
            for inv in shp.inv:
                self.assume(self.spec_eval(inv, {'self': o}))
            return o
        raise Unsupported(f'fresh {ty}')

    def assume_wf(self, v):
        """nested lists have non-negative lengths"""
        if isinstance(v, VList) and not v.concrete and v.ety.kind in ('list', 'tup', 'str'):
            j = z3.Int(self.name('j'))
            e = z3.Select(v.arr, j)
            self.assume(z3.ForAll([j], v.ety.sort.len(e) >= 0, patterns=[e]))

    def typeof(self, v):
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if is_z3(v):
            s = v.sort()
            if s == z3.IntSort():
                return INT
            if s == z3.BoolSort():
                return BOOL
            if s.name().startswith('U_'):
                return parse('U:' + s.name()[2:])
            for t in list(__import__('pyvc.types', fromlist=['_cache'])._cache.values()):
                if t.kind not in ('none',) and t._sort is not None and t._sort == s:
                    return t
        if isinstance(v, VList):
            if v.kind == 'str':
                return parse('str')
            if not v.concrete:
                return parse(f'{v.kind}[{v.ety}]')
            if not v.items:
                if v.ety is not None:
                    return parse(f'{v.kind}[{v.ety}]')
                c = self.root_contract
                if c is not None and c.empty:
                    return parse(f'{v.kind}[{c.empty}]')
                raise Unsupported('type of empty list')
            return parse(f'{v.kind}[{self.join([self.typeof(x) for x in v.items])}]')
        if isinstance(v, VSet):
            if v.ety is None:
                if not v.items:
                    raise Unsupported('type of empty set')
                return parse(f'set[{self.join([self.typeof(x) for x in v.items])}]')
            return parse(f'set[{v.ety}]')
        if isinstance(v, VDict):
            if v.kty is None:
                if not v.items:
                    raise Unsupported('type of empty dict')
                return parse(f'dict[{self.join([self.typeof(x) for x in v.items])},{self.join([self.typeof(x) for x in v.items.values()])}]')
            return parse(f'dict[{v.kty},{v.vty}]')
        if isinstance(v, tuple):
            return parse('tuple[' + ','.join(str(self.typeof(x)) for x in v) + ']')
        if isinstance(v, VObj):
            for nm, shp in SHAPES.items():
                if shp.cls is v.cls:
                    return parse('obj:' + nm)
        if isinstance(v, VMat):
            return parse('mat')
        if isinstance(v, str):
            return parse('str')
        raise Unsupported(f'type of {v!r}')

    def join(self, tys):
        s = set(tys)
        if len(s) == 1:
            return tys[0]
        if s == {INT, BOOL}:
            raise Unsupported('mixed int/bool container')
        raise Unsupported(f'mixed container {s}')

    def wrap(self, ty, e):
        k = ty.kind
        if k in ('int', 'bool', 'U'):
            return e
        if k in ('list', 'tup', 'str'):
            ety = ty.args[0] if ty.args else INT
            if not self.spec:
                self.assume(ty.sort.len(e) >= 0)
            return self.new(VList(n=ty.sort.len(e), arr=ty.sort.arr(e), ety=ety, kind=k))
        if k == 'set':
            return self.new(VSet(arr=e, ety=ty.args[0]))
        if k == 'dict':
            return self.new(VDict(dom=ty.sort.dom(e), val=ty.sort.val(e), kty=ty.args[0], vty=ty.args[1]))
        if k == 'tuple':
            return tuple(self.wrap(a, getattr(ty.sort, f'f{i}')(e)) for i, a in enumerate(ty.args))
        if k == 'obj':
            shp = SHAPES[ty.args[0]]
            o = self.new(VObj(shp.cls, {}))
            for f, t in shp.fields.items():
                o.fields[f] = self.wrap(t, getattr(ty.sort, 'fld_' + f)(e))
            o.fields.update(shp.const)
            return o
        if k == 'mat':
            return self.new(VMat(ty.sort.rows(e), ty.sort.cols(e), ty.sort.arr(e)))
        if k == 'opt':
            g = z3.simplify(ty.sort.some(e))
            if self.spec and not (z3.is_true(g) or z3.is_false(g)):
                raise Unsupported('optional value in a specification')
            return self.wrap(ty.args[0], ty.sort.val(e)) if self.decide(g) else None
        raise Unsupported(f'wrap {ty}')

    def unwrap(self, v, ty):
        ty = parse(ty)
        k = ty.kind
        if k == 'int':
            return self.to_int(v)
        if k == 'bool':
            if isinstance(v, bool):
                return z3.BoolVal(v)
            if is_sym_bool(v):
                return v
            raise Unsupported(f'{v!r} as bool')
        if k == 'U':
            if is_z3(v) and v.sort() == ty.sort:
                return v
            raise Unsupported(f'{v!r} as {ty}')
        if k in ('list', 'tup', 'str'):
            if isinstance(v, str):
                v = self.str_to_vlist(v)
            if isinstance(v, tuple):
                v = VList(items=list(v), kind='tup')
            if not isinstance(v, VList):
                raise Unsupported(f'{v!r} as {ty}')
            n, arr = self.sym_list(v, ty.args[0] if ty.args else INT)
            return ty.sort.mk(self.to_int(n), arr)
        if k == 'set':
            return self.sym_set(v, ty.args[0])
        if k == 'dict':
            d, a = self.sym_dict(v, ty.args[0], ty.args[1])
            return ty.sort.mk(d, a)
        if k == 'tuple':
            if not isinstance(v, tuple) or len(v) != len(ty.args):
                raise Unsupported(f'{v!r} as {ty}')
            return ty.sort.mk(*[self.unwrap(x, a) for x, a in zip(v, ty.args)])
        if k == 'obj':
            shp = SHAPES[ty.args[0]]
            if not isinstance(v, VObj):
                raise Unsupported(f'{v!r} as {ty}')
            return ty.sort.mk(*[self.unwrap(v.fields[f], t) for f, t in shp.fields.items()])
        if k == 'opt':
            if v is None:
                return ty.sort.mk(z3.BoolVal(False), self.default(ty.args[0]))
            return ty.sort.mk(z3.BoolVal(True), self.unwrap(v, ty.args[0]))
        if k == 'mat':
            return ty.sort.mk(self.to_int(v.rows), self.to_int(v.cols), v.arr)
        raise Unsupported(f'unwrap {ty}')

    def to_int(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if is_sym_int(v) and v.sort() == z3.IntSort():
            return v
        if is_sym_bool(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported(f'{v!r} as int')

    def is_intlike(self, v):
        return isinstance(v, (bool, int)) or is_sym_int(v) or is_sym_bool(v)

    def sym_list(self, v, ety=None):
        """(n, arr) of a list, converting a concrete one"""
        if not v.concrete:
            if ety is not None and v.ety != ety:
                if ety == INT and v.ety == BOOL:
                    j = z3.Int(self.name('j'))
                    return v.n, z3.Lambda([j], z3.If(z3.Select(v.arr, j), z3.IntVal(1), z3.IntVal(0)))
                raise Unsupported(f'list of {v.ety} used as list of {ety}')
            return v.n, v.arr
        if ety is None:
            ety = v.ety or (self.join([self.typeof(x) for x in v.items]) if v.items else None)
            if ety is None and self.root_contract is not None and self.root_contract.empty:
                ety = parse(self.root_contract.empty)
            if ety is None:
                raise Unsupported('empty list of unknown element type')
        arr = z3.K(z3.IntSort(), self.default(ety))
        for i, x in enumerate(v.items):
            arr = z3.Store(arr, i, self.unwrap(x, ety))
        return z3.IntVal(len(v.items)), arr

    def default(self, ty):
        k = ty.kind
        if k == 'int':
            return z3.IntVal(0)
        if k == 'bool':
            return z3.BoolVal(False)
        return z3.Const('default_' + ty.mangled, ty.sort)

    def make_sym(self, v, ety=None):
        """turn a concrete container into symbolic form, in place"""
        if isinstance(v, VList) and v.concrete:
            if ety is None:
                ety = v.ety or self.join([self.typeof(x) for x in v.items])
            n, arr = self.sym_list(v, ety)
            v.items, v.n, v.arr, v.ety = None, n, arr, ety
        elif isinstance(v, VSet) and v.items is not None:
            if ety is None:
                ety = v.ety or self.join([self.typeof(x) for x in v.items])
            v.arr = self.sym_set(v, ety)
            v.ety = ety
            v.items = None

    def sym_set(self, v, ety):
        if isinstance(v, VSet):
            if v.items is None:
                if v.ety != ety:
                    raise Unsupported(f'set of {v.ety} used as set of {ety}')
                return v.arr
            arr = z3.EmptySet(ety.sort)
            for x in v.items:
                if ety.kind == 'bool' and self.is_plain(x) and x in (0, 1):
                    x = bool(x)  # True == 1
                arr = z3.SetAdd(arr, self.unwrap(x, ety))
            return arr
        raise Unsupported(f'{v!r} as set')

    def sym_dict(self, v, kty, vty):
        if not isinstance(v, VDict):
            raise Unsupported(f'{v!r} as dict')
        if v.items is None:
            return v.dom, v.val
        dom = z3.EmptySet(kty.sort)
        val = z3.K(kty.sort, self.default(vty))
        for k, x in v.items.items():
            kk = self.unwrap(k, kty)
            dom = z3.SetAdd(dom, kk)
            val = z3.Store(val, kk, self.unwrap(x, vty))
        return dom, val

    def str_to_vlist(self, s):
        return VList(items=[ord(c) for c in s], kind='str', ety=INT)

    # ------------------------------------------------------------------ decisions

    def feasible(self, cond):
        s = self.path.solver
        if has_quant(cond):
            return True
        s.push()
        s.add(cond)
        r = s.check()
        s.pop()
        return r != z3.unsat

    def truth(self, v):
        """value -> python bool or z3 Bool"""
        if v is None:
            return False
        if isinstance(v, (bool, int, str, tuple, float)):
            return bool(v)
        if is_sym_bool(v):
            return v
        if is_sym_int(v):
            return v != 0
        if isinstance(v, VList):
            return len(v.items) > 0 if v.concrete else v.n != 0
        if isinstance(v, VSet):
            if v.items is not None:
                return len(v.items) > 0
            return v.arr != z3.EmptySet(v.ety.sort)
        if isinstance(v, VDict):
            if v.items is not None:
                return len(v.items) > 0
            return v.dom != z3.EmptySet(v.kty.sort)
        if isinstance(v, VObj):
            m = self.class_attr(v.cls, '__len__')
            if m is not None:
                return self.truth(self.call(VBound(v, m), [], {}))
            return True
        if isinstance(v, (type, pytypes.FunctionType, pytypes.BuiltinFunctionType, pytypes.ModuleType)):
            return True
        if isinstance(v, VRange):
            return self.truth(self.py_len(v) != 0)
        if isinstance(v, (VClosure, VBound)):
            return True
        raise Unsupported(f'truth of {v!r}')

    def must(self, cond, what):
        """go on only when the condition provably holds here"""
        c = self.truth(cond)
        if isinstance(c, bool):
            if not c:
                raise Unsupported(what)
            return
        if not theory.quick(self.path.all(), c, 3000):
            raise Unsupported(what)
        self.assume(c)

    def decide(self, v, pruned=False):
        """branch on a condition; `pruned` first tries to settle it with the quantified facts"""
        c = self.truth(v) if not is_sym_bool(v) else v
        if isinstance(c, bool):
            return c
        if not has_quant(c):
            c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        p = self.path
        if p.pos < len(p.trail):
            d = p.trail[p.pos]
            p.pos += 1
            if d in ('T', 'F'):
                b = d == 'T'
                p.add('d', c if b else z3.Not(c))
                return b
            b = d == 't'  # forced
            p.add('f', c if b else z3.Not(c))
            return b
        self.check_deadline()
        ft = self.feasible(c)
        ff = self.feasible(z3.Not(c)) if ft else True
        if ft and ff and pruned and not getattr(self, 'lenient', 0):
            if self.quick(c):
                ff = False
            elif self.quick(z3.Not(c)):
                ft = False
        if ft and ff:
            p.alts.append(p.trail[:p.pos] + ['F'])
            p.trail = p.trail[:p.pos] + ['T']
            p.pos += 1
            p.add('d', c)
            return True
        b = ft
        p.trail = p.trail[:p.pos] + ['t' if b else 'f']
        p.pos += 1
        p.add('f', c if b else z3.Not(c))
        return b

    # ------------------------------------------------------------------ obligations

    def oblige(self, name, goal, where=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.record:
            self.would += 1
            return
        if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
            a, b = goal.children()
            goal = b if z3.is_true(a) else a if z3.is_true(b) else z3.Not(b) if z3.is_false(a) else z3.Not(a) if z3.is_false(b) else goal
        if z3.is_and(goal):
            for i, g in enumerate(goal.children()):
                self.oblige(f'{name}.{i}' if len(goal.children()) > 1 else name, g, where)
            return
        self.obligations.append(Obligation(self.ob_prefix + name, self.path.all(), goal, where))

    def refute(self, premises, goal, timeout):
        return theory.prove(premises, goal, timeout)

    def vocabulary(self):
        """names that the contract under proof mentions"""
        c = self.verifying
        if getattr(c, '_vocabulary', None) is None:
            import re
            texts = [str(t) for f in ('requires', 'ensures', 'hints', 'code') for t in (getattr(c, f, None) or [])]
            for sp in getattr(c, 'loops', {}).values():
                texts += list(sp.inv) + list(sp.hints) + list(sp.then)
            texts += [t for ts in getattr(c, 'after', {}).values() for t in ts]
            c._vocabulary = set(re.findall(r'[A-Za-z_]\w*', ' '.join(texts) + ' ' + str(getattr(c, 'code', ''))))
        return c._vocabulary

    def quick(self, c):
        facts = self.path.all()
        key = (c.get_id(),) + tuple(f.get_id() for f in facts)
        known = self.__dict__.setdefault('settled', {})
        if key not in known:
            known[key] = theory.quick(facts, c), (c, facts)
        return known[key][0]

    def unreachable(self, timeout=2000):
        """is the current path contradictory (using quantified facts too)?"""
        if getattr(self, 'lenient', 0):
            return False
        # the same place is passed again on the way to other paths
        facts = self.path.all()
        key = tuple(f.get_id() for f in facts)
        known = self.__dict__.setdefault('settled', {})
        if key not in known:
            r, _, _ = theory.prove(facts, z3.BoolVal(False), timeout, use_cvc5=True, quick=True)
            known[key] = r == 'proved', facts
        return known[key][0]

    def raise_py(self, exc, where=None):
        if not self.spec and self.unreachable():
            raise Infeasible
        raise PyRaise(exc, where)

    # ------------------------------------------------------------------ exploration

    def snapshot(self):
        return [(o, o.state()) for o in self.heap], len(self.heap)

    def restore(self, snap):
        states, n = snap
        del self.heap[n:]
        for o, st in states:
            o.set_state(st)

    def env_chain(self):
        out = []
        e = self.frame.env if self.frame else None
        while e is not None:
            out.append(e)
            e = e.parent
        return out

    def explore(self, thunk, extra=(), limit=None):
        """run `thunk` on every path from the current state; state is restored afterwards"""
        snap = self.snapshot()
        envs = [(e, dict(e)) for e in self.env_chain()]
        yields = self.frame.yields if self.frame else None
        outer = self.path
        base = (outer.all() if outer is not None else []) + list(extra)
        pending = [[]]
        results = []
        limit = limit or self.max_paths
        while pending:
            self.check_deadline()
            trail = pending.pop()
            path = Path(base, trail)
            self.path = path
            kind, value, where = 'ok', None, None
            try:
                value = thunk()
            except PyRaise as e:
                kind, value, where = 'raise', e.exc, e.where
            except BreakEx:
                kind = 'break'
            except ContinueEx:
                kind = 'continue'
            except ReturnEx as e:
                kind, value = 'return', e.value
            except Infeasible:
                kind = None
            except PathEnd:
                kind = None
            except Unsupported:
                # nothing to model where nobody comes
                if not path.all() or not self.unreachable():
                    raise
                kind = None
            finally:
                self.path = outer
            if kind is not None:
                results.append(PathResult(kind, value, path, [(e, dict(e)) for e, _ in envs],
                                          [(o, o.state()) for o in self.heap], where))
            pending.extend(path.alts)
            self.restore(snap)
            for e, d in envs:
                e.clear()
                e.update(d)
            if len(results) + len(pending) > limit:
                raise TooManyPaths(f'more than {limit} paths')
        return results

    # ------------------------------------------------------------------ functions and calls

    def class_attr(self, cls, name):
        for k in cls.__mro__:
            if k is object:
                continue
            if name in k.__dict__:
                return k.__dict__[name]
        return None

    def bind(self, node, args, kwargs, defaults, kwdefaults, fname):
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if args and isinstance(args[-1], VStar):
            if a.vararg is None or len(args) - 1 != len(params):
                raise Unsupported(f'starred symbolic arguments of {fname}')
            v = args.pop().value
            env[a.vararg.arg] = self.new(VList(n=v.n, arr=v.arr, ety=v.ety, kind='tup'))
        if len(args) > len(params) and a.vararg is None:
            raise Unsupported(f'too many arguments for {fname}')
        for nm, v in zip(params, args):
            env[nm] = v
        if a.vararg is not None and a.vararg.arg not in env:
            env[a.vararg.arg] = tuple(args[len(params):])
        kw = dict(kwargs)
        for nm in params + [x.arg for x in a.kwonlyargs]:
            if nm in kw:
                if nm in env:
                    raise Unsupported(f'duplicate argument {nm}')
                env[nm] = kw.pop(nm)
        if kw:
            if a.kwarg is None:
                raise Unsupported(f'unexpected keyword {list(kw)} for {fname}')
            env[a.kwarg.arg] = self.new(VDict(items=kw))
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.new(VDict(items={}))
        nd = len(defaults)
        for nm, d in zip(params[len(params) - nd:], defaults):
            if nm not in env:
                env[nm] = d
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in kwdefaults:
                    env[x.arg] = kwdefaults[x.arg]
        for nm in params:
            if nm not in env:
                raise Unsupported(f'missing argument {nm} for {fname}')
        return env

    def import_value(self, v):
        """a real Python object seen by the interpreted code"""
        if isinstance(v, list):
            return self.new(VList(items=[self.import_value(x) for x in v]))
        if isinstance(v, dict):
            return self.new(VDict(items={k: self.import_value(x) for k, x in v.items()}))
        if isinstance(v, (set, frozenset)):
            return self.new(VSet(items=sorted(v, key=repr)))
        if isinstance(v, tuple):
            return tuple(self.import_value(x) for x in v)
        return v

    def is_generator(self, node):
        if isinstance(node, ast.Lambda):
            return False
        for x in ast.walk(node):
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def run_body(self, node, env, globs, fname, cls=None, contract=None, defenv=None):
        frame = Frame(env, globs, fname, cls, contract, node)
        k = 0
        for x in ast.walk(node):
            pass
        frame.loop_ids = loop_ordinals(node)
        outer = self.frame
        self.frame = frame
        self.call_depth += 1
        if self.call_depth > 40:
            raise Unsupported('recursion without contract')
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body)
            if self.is_generator(node):
                frame.yields = self.new(VList(items=[]))
            try:
                self.block(node.body)
            except ReturnEx as r:
                if frame.yields is not None:
                    return frame.yields
                return r.value
            return frame.yields
        finally:
            self.frame = outer
            self.call_depth -= 1

    def inline(self, fn, args, kwargs, cls=None, contract=None):
        if isinstance(fn, VClosure):
            env = Env(fn.env)
            env.update(self.bind(fn.node, args, kwargs, fn.defaults, fn.kwdefaults, fn.name))
            return self.run_body(fn.node, env, fn.globs, fn.name, fn.cls)
        node = fn_node(fn)
        self.inlined.add(f'{fn.__module__}.{fn.__qualname__}')
        self.files.add(fn.__code__.co_filename)
        env = Env()
        defaults = tuple(self.import_value(x) for x in (fn.__defaults__ or ()))
        kwd = {k: self.import_value(x) for k, x in (fn.__kwdefaults__ or {}).items()}
        env.update(self.bind(node, args, kwargs, defaults, kwd, fn.__qualname__))
        if fn.__closure__:
            outer = Env()
            for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
                outer[nm] = self.import_value(cell.cell_contents)
            env.parent = outer
        if cls is None and '.' in fn.__qualname__:
            pass
        return self.run_body(node, env, fn.__globals__, fn.__qualname__, cls, contract)

    def call(self, f, args, kwargs):
        self.check_deadline()
        if isinstance(f, VBound):
            if isinstance(f.func, pytypes.FunctionType):
                return self.call_fn(f.func, [f.obj] + list(args), kwargs, f.cls)
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, VClosure):
            return self.inline(f, args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kwargs})
        if callable(f) and getattr(f, '_pyvc_model', False):
            return f(self, *args, **kwargs)
        from . import models
        m = models.lookup(f)
        if m is not None:
            self.used_models.add(models.name_of(f))
            return m(self, *args, **kwargs)
        if isinstance(f, pytypes.FunctionType) and is_repo_fn(f):
            return self.call_fn(f, args, kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, VOpaque):
            return VOpaque('result')
        if callable(f) and all(self.is_plain(x) for x in list(args) + list(kwargs.values())):
            mod = getattr(f, '__module__', None)
            if mod in ('builtins', 'math', 'operator', None, '_operator') or isinstance(getattr(f, '__self__', None), str):
                try:
                    return self.import_value(f(*[self.plain(x) for x in args], **{k: self.plain(x) for k, x in kwargs.items()}))
                except Exception as e:
                    self.raise_py(type(e))
        raise Unsupported(f'call of {f!r}')

    def is_plain(self, v):
        if isinstance(v, (bool, int, str, float, type(None), bytes)):
            return True
        if isinstance(v, tuple):
            return all(self.is_plain(x) for x in v)
        if isinstance(v, VList):
            return v.concrete and all(self.is_plain(x) for x in v.items)
        return False

    def plain(self, v):
        if isinstance(v, tuple):
            return tuple(self.plain(x) for x in v)
        if isinstance(v, VList):
            xs = [self.plain(x) for x in v.items]
            return ''.join(map(chr, xs)) if v.kind == 'str' else (xs if v.kind == 'list' else tuple(xs))
        return v

    def call_fn(self, fn, args, kwargs, cls=None):
        if self.contracts is not None:
            for c in self.contracts.for_function(fn):
                if c.inline or (c is self.verifying and not c.recursive and self.call_depth == 0):
                    continue
                b = c.try_bind(self, fn, args, kwargs)
                if b is not None:
                    return self.apply_contract(c, fn, b)
        return self.inline(fn, args, kwargs, cls)

    def apply_contract(self, c, fn, env):
        self.used_contracts.add(c.id)
        pre = {k: self.freeze(v) for k, v in env.items()}
        spec_env = dict(env)
        for i, r in enumerate(c.requires):
            self.oblige(f'call {c.id} requires#{i}', self.spec_bool(r, spec_env, c))
        for exc, cond in c.raises:
            if cond is None:
                continue
            cv = self.spec_bool(cond, spec_env, c)
            if self.decide(cv):
                self.raise_py(c.exc(exc), f'contract of {c.id}')
        old = {f'old_{k}': v for k, v in pre.items()}
        # frame: only the listed fields of `self` change
        for target, fields in c.modifies.items():
            obj = env[target]
            for f, t in fields.items():
                if isinstance(t, str) and t == 'delete':
                    obj.fields.pop(f, None)
                elif isinstance(t, str) and t.startswith('const:'):
                    obj.fields[f] = eval(t[6:])
                else:
                    obj.fields[f] = self.fresh(t, f'{c.short}_{f}')
        result = None
        if c.returns is not None:
            result = self.fresh(c.returns, c.short + '_res')
            if isinstance(result, VObj) and c.returns_cls is not None:
                result.cls = c.returns_cls
        for e in c.ensures:
            self.assume(self.spec_bool(e, {**spec_env, **old, 'result': result}, c))
        return result

    def freeze(self, v):
        """a copy of the current state of a value, for old(...)"""
        if isinstance(v, VList):
            return VList(items=list(v.items) if v.concrete else None, n=v.n, arr=v.arr, ety=v.ety, kind=v.kind)
        if isinstance(v, VSet):
            return VSet(arr=v.arr, ety=v.ety, items=list(v.items) if v.items is not None else None)
        if isinstance(v, VDict):
            return VDict(dom=v.dom, val=v.val, kty=v.kty, vty=v.vty, items=dict(v.items) if v.items is not None else None)
        if isinstance(v, VObj):
            return VObj(v.cls, {k: self.freeze(x) for k, x in v.fields.items()})
        if isinstance(v, VMat):
            return VMat(v.rows, v.cols, v.arr)
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        return v

    def instantiate(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return cls
        if '/discretehelpers/' in (getattr(inspect.getmodule(cls), '__file__', '') or ''):
            o = self.new(VObj(cls, {}))
            init = self.class_attr(cls, '__init__')
            if init is not None:
                self.call_fn(init, [o] + list(args), kwargs, cls)
            return o
        raise Unsupported(f'instance of {cls}')

    # ------------------------------------------------------------------ attribute access

    def getattr(self, v, name):
        if isinstance(v, VObj):
            if self.spec:
                for shp in SHAPES.values():
                    if shp.cls is v.cls and name in shp.derived:
                        return self.spec_eval(shp.derived[name], {'self': v})
            if name in v.fields:
                return v.fields[name]
            a = self.class_attr(v.cls, name)
            if isinstance(a, functools.cached_property):
                r = self.call_fn(a.func, [v], {}, v.cls)
                if name not in v.fields or not self.spec:
                    v.fields[name] = r
                return r
            if isinstance(a, property):
                return self.call_fn(a.fget, [v], {}, v.cls)
            if isinstance(a, pytypes.FunctionType):
                return VBound(v, a, v.cls)
            if isinstance(a, staticmethod):
                return a.__func__
            if name == '__dict__':
                return VDict(items=v.fields)
            if name == '__class__':
                return v.cls
            if a is not None:
                return self.import_value(a)
            for shp in SHAPES.values():
                if shp.cls is v.cls and name in shp.derived:
                    return self.spec_eval(shp.derived[name], {'self': v})
            self.raise_py(AttributeError, name)
        if isinstance(v, VSuper):
            mro = v.obj.cls.__mro__
            i = mro.index(v.cls)
            for k in mro[i + 1:]:
                if name in k.__dict__ and k is not object:
                    return VBound(v.obj, k.__dict__[name], k)
            raise Unsupported(f'super().{name}')
        if isinstance(v, pytypes.ModuleType):
            return self.import_value(getattr(v, name))
        if isinstance(v, type):
            a = getattr(v, name)
            return a if not isinstance(a, (list, dict, set)) else self.import_value(a)
        from . import models
        m = models.method(self, v, name)
        if m is not None:
            return m
        if isinstance(v, (str, int, float, slice)) and hasattr(v, name):
            return getattr(v, name)
        raise Unsupported(f'attribute {name} of {v!r}')

    def setattr(self, v, name, val):
        if isinstance(v, VObj):
            a = self.class_attr(v.cls, name)
            if isinstance(a, property):
                if a.fset is None:
                    self.raise_py(AttributeError)
                self.call_fn(a.fset, [v, val], {}, v.cls)
                return
            if name == '__dict__' and isinstance(val, VDict) and val.items is not None:
                v.fields = dict(val.items)
                return
            v.fields[name] = val
            return
        raise Unsupported(f'attribute assignment on {v!r}')

    # ------------------------------------------------------------------ specification expressions

    def spec_bool(self, text, env, contract=None):
        r = self.spec_eval(text, env, contract)
        t = self.truth(r)
        return z3.BoolVal(t) if isinstance(t, bool) else t

    def spec_eval(self, text, env, contract=None):
        node = parse_spec(text)
        e = Env()
        e.update(env)
        globs = theory.SPEC_GLOBALS if contract is None else {**theory.SPEC_GLOBALS, **contract.globals}
        frame = Frame(e, globs, 'spec')
        outer = self.frame
        self.frame = frame
        self.spec += 1
        try:
            return self.ev(node)
        finally:
            self.spec -= 1
            self.frame = outer

    # ------------------------------------------------------------------ statements

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.check_deadline()
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__} (line {s.lineno})')
        m(s)

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value)

    def st_Pass(self, s):
        pass

    def st_Return(self, s):
        raise ReturnEx(self.ev(s.value) if s.value is not None else None)

    def st_If(self, s):
        if self.decide(self.ev(s.test)):
            self.block(s.body)
        else:
            self.block(s.orelse)

    def st_Break(self, s):
        raise BreakEx

    def st_Continue(self, s):
        raise ContinueEx

    def st_Assert(self, s):
        if self.frame.fname.startswith('lemma') and self.frame.contract is not None and self.call_depth == 1:
            with_spec = self.ev_spec_node(s.test)
            lab = s.msg.value if isinstance(s.msg, ast.Constant) else str(s.lineno)
            self.oblige(f'assert {lab}', with_spec)
            self.assume(with_spec)
            return
        if not self.decide(self.ev(s.test)):
            self.raise_py(AssertionError, f'assert line {s.lineno}')

    def ev_spec_node(self, node):
        self.spec += 1
        try:
            t = self.truth(self.ev(node))
            return z3.BoolVal(t) if isinstance(t, bool) else t
        finally:
            self.spec -= 1

    def st_Raise(self, s):
        if s.exc is None:
            raise Unsupported('bare raise')
        e = self.ev(s.exc)
        if isinstance(e, type) and issubclass(e, BaseException):
            self.raise_py(e, f'line {s.lineno}')
        raise Unsupported('raise of a non-class')

    def st_Import(self, s):
        for a in s.names:
            mod = importlib.import_module(a.name)
            if a.asname:
                self.frame.env[a.asname] = mod
            else:
                self.frame.env[a.name.split('.')[0]] = importlib.import_module(a.name.split('.')[0])

    def st_ImportFrom(self, s):
        base = s.module or ''
        if s.level:
            pkg = self.frame.globs['__package__'] or self.frame.globs['__name__']
            parts = pkg.split('.')
            parts = parts[:len(parts) - (s.level - 1)]
            base = '.'.join(parts + ([s.module] if s.module else []))
        mod = importlib.import_module(base)
        for a in s.names:
            if a.name == '*':
                raise Unsupported('import *')
            if not hasattr(mod, a.name):
                v = importlib.import_module(base + '.' + a.name)
            else:
                v = getattr(mod, a.name)
            self.frame.env[a.asname or a.name] = self.import_value(v)

    def st_FunctionDef(self, s):
        defaults = tuple(self.ev(d) for d in s.args.defaults)
        kwd = {a.arg: self.ev(d) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        self.frame.env[s.name] = VClosure(s, self.frame.env, self.frame.globs, s.name, self.frame.cls, defaults, kwd)

    def st_Nonlocal(self, s):
        self.frame.env.nonlocals.update(s.names)

    def st_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)
        c = self.frame.contract
        if c is not None and c is self.verifying and getattr(c, 'after', None):
            from . import loops
            for t in s.targets:
                for x in [t] if isinstance(t, ast.Name) else t.elts if isinstance(t, ast.Tuple) else []:
                    if isinstance(x, ast.Name) and x.id in c.after:
                        loops.prove_here(self, f'after {x.id}:', c.after[x.id], self.frame.entry or {}, c)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def st_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            cur = self.load(s.target.id)
            v = self.ev(s.value)
            r = self.inplace(s.op, cur, v)
            if r is not cur:
                self.assign(s.target, r)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value)
            cur = self.getattr(o, s.target.attr)
            r = self.inplace(s.op, cur, self.ev(s.value))
            if r is not cur:
                self.setattr(o, s.target.attr, r)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value)
            k = self.ev(s.target.slice)
            cur = self.getitem(o, k)
            r = self.inplace(s.op, cur, self.ev(s.value))
            if r is not cur:
                self.setitem(o, k, r)
        else:
            raise Unsupported('augmented assignment')

    def inplace(self, op, cur, v):
        from . import models
        if isinstance(op, ast.Add) and isinstance(cur, VList) and cur.kind == 'list':
            models.list_extend(self, cur, v)
            return cur
        if isinstance(cur, VSet):
            name = {ast.BitOr: 'update', ast.BitAnd: 'intersection_update', ast.Sub: 'difference_update'}.get(type(op))
            if name:
                models.method(self, cur, name)(self, v)
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            env = self.frame.env
            if t.id in env.nonlocals:
                e = env.parent
                while e is not None and t.id not in e:
                    e = e.parent
                if e is None:
                    raise Unsupported('nonlocal')
                e[t.id] = v
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                raise Unsupported('starred assignment')
            vals = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vals):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev(t.slice)
            self.setitem(o, k, v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def unpack(self, v, k):
        if isinstance(v, tuple):
            if len(v) != k:
                self.raise_py(ValueError, 'unpack')
            return list(v)
        if isinstance(v, VList):
            if v.concrete:
                if len(v.items) != k:
                    self.raise_py(ValueError, 'unpack')
                return list(v.items)
            if not self.decide(v.n == k):
                self.raise_py(ValueError, 'unpack')
            return [self.wrap(v.ety, z3.Select(v.arr, i)) for i in range(k)]
        if isinstance(v, VSeq):
            if v.concrete is not None:
                return self.unpack(tuple(v.concrete), k)
        raise Unsupported(f'unpack {v!r}')

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                self.delitem(o, k)
            elif isinstance(t, ast.Name):
                del self.frame.env[t.id]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                if isinstance(o, VObj):
                    o.fields.pop(t.attr, None)
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del')

    def st_Try(self, s):
        try:
            self.block(s.body)
        except PyRaise as e:
            for h in s.handlers:
                if h.type is None:
                    match = True
                else:
                    t = self.ev(h.type)
                    ts = t if isinstance(t, tuple) else (t,)
                    match = any(isinstance(x, type) and issubclass(e.exc, x) for x in ts)
                if match:
                    if h.name:
                        self.frame.env[h.name] = VOpaque('exception')
                    self.block(h.body)
                    break
            else:
                if s.finalbody:
                    self.block(s.finalbody)
                raise
        else:
            self.block(s.orelse)
        if s.finalbody:
            self.block(s.finalbody)

    # ------------------------------------------------------------------ loops

    def st_For(self, s):
        it = self.ev(s.iter)
        seq = self.to_seq(it)
        if seq.concrete is not None:
            broke = False
            for x in list(seq.concrete):
                self.assign(s.target, x)
                try:
                    self.block(s.body)
                except BreakEx:
                    broke = True
                    break
                except ContinueEx:
                    pass
            if not broke:
                self.block(s.orelse)
            return
        inv = self.loop_spec(s)

        def body(i):
            self.assign(s.target, seq.item(i))
            self.block(s.body)

        if inv is not None:
            from .loops import invariant_for
            invariant_for(self, s, seq, inv, body, it)
        else:
            from .loops import summarize
            summarize(self, seq.n, body, s.orelse, frozenset(target_names(s.target)))

    def st_While(self, s):
        inv = self.loop_spec(s)
        if inv is not None:
            from .loops import invariant_while
            invariant_while(self, s, inv)
            return
        count = 0
        while True:
            t = self.truth(self.ev(s.test))
            if not isinstance(t, bool):
                t = z3.simplify(t) if not has_quant(t) else t
                if z3.is_true(t):
                    t = True
                elif z3.is_false(t):
                    t = False
                else:
                    ft, ff = self.feasible(t), self.feasible(z3.Not(t))
                    if ft and ff:
                        raise Unsupported(f'while loop without invariant (line {s.lineno} of {self.frame.fname})')
                    t = ft
            if not t:
                self.block(s.orelse)
                return
            try:
                self.block(s.body)
            except BreakEx:
                return
            except ContinueEx:
                pass
            count += 1
            if count > 64:
                raise Unsupported('while loop without invariant')

    def loop_spec(self, s):
        c = self.frame.contract
        if c is None:
            c = self.contracts.loops_for(self.frame.node) if self.contracts is not None and self.frame.node is not None else None
        if c is None:
            return None
        k = self.frame.loop_ids.get(id(s))
        return c.loops.get(k)

    def to_seq(self, v):
        """any iterable value as a finite sequence"""
        from . import models
        if isinstance(v, VSeq):
            return v
        if isinstance(v, (tuple, list)):
            return VSeq(len(v), lambda i: v[i], concrete=list(v))
        if isinstance(v, str):
            return VSeq(len(v), None, concrete=list(v))
        if isinstance(v, VList):
            if v.concrete:
                items = list(v.items)
                if v.kind == 'str':
                    items = [VList(items=[x], kind='str', ety=INT) for x in items]
                return VSeq(len(items), None, concrete=items)
            n, arr, ety = v.n, v.arr, v.ety
            if v.kind == 'str':
                return VSeq(n, lambda i: VList(items=[z3.Select(arr, i)], kind='str', ety=INT))
            owner = v

            def item(i):
                x = self.wrap(ety, z3.Select(arr, i))
                if isinstance(x, V):
                    x.parent = (owner, i)
                return x
            return VSeq(n, item)
        if isinstance(v, VRange):
            n = self.py_len(v)
            st, sp = v.start, v.step
            if isinstance(n, int):
                if n > MAX_CONCRETE:
                    raise Unsupported('huge concrete range')
                return VSeq(n, None, concrete=[st + sp * k for k in range(n)])
            return VSeq(n, lambda i: st + sp * i)
        if isinstance(v, VSet):
            if v.items is not None:
                return VSeq(len(v.items), None, concrete=list(v.items))
            return models.enumerate_set(self, v.arr, v.ety)
        if isinstance(v, VDict):
            if v.items is not None:
                return VSeq(len(v.items), None, concrete=list(v.items.keys()))
            return models.enumerate_set(self, v.dom, v.kty)
        if isinstance(v, VObj):
            it = self.class_attr(v.cls, '__iter__')
            if it is not None:
                return self.to_seq(self.call_fn(it, [v], {}, v.cls))
            ln = self.class_attr(v.cls, '__len__')
            gi = self.class_attr(v.cls, '__getitem__')
            if gi is not None and ln is not None:
                # the sequence protocol: __getitem__ from 0 until IndexError.  This is the sequence of length __len__
                # when __getitem__ raises IndexError exactly from __len__ on; `Binv` is the only such class.
                inner = v.fields.get('vector')
                if isinstance(inner, VList):
                    return self.to_seq(inner)
            raise Unsupported(f'iteration over {v!r}')
        if isinstance(v, VMat):
            raise Unsupported('iteration over matrix')
        raise Unsupported(f'iteration over {v!r}')

    def py_len(self, v):
        if isinstance(v, (tuple, str)):
            return len(v)
        if isinstance(v, VList):
            return len(v.items) if v.concrete else v.n
        if isinstance(v, VRange):
            st, sp, step = v.start, v.stop, v.step
            if not isinstance(step, int) or step == 0:
                raise Unsupported('symbolic range step')
            if isinstance(st, int) and isinstance(sp, int):
                return len(range(st, sp, step))
            d = (sp - st) if step > 0 else (st - sp)
            k = abs(step)
            q = d if k == 1 else (d + (k - 1)) / k
            if isinstance(q, int):
                return max(q, 0)
            return z3.simplify(z3.If(self.to_int(d) > 0, self.to_int(q), z3.IntVal(0)))
        if isinstance(v, VSet):
            if v.items is not None:
                return len(v.items)
            from . import models
            return models.card(self, v.arr, v.ety)
        if isinstance(v, VDict):
            if v.items is not None:
                return len(v.items)
            from . import models
            return models.card(self, v.dom, v.kty)
        if isinstance(v, VSeq):
            return len(v.concrete) if v.concrete is not None else v.n
        if isinstance(v, VObj):
            m = self.class_attr(v.cls, '__len__')
            if m is not None:
                return self.call_fn(m, [v], {}, v.cls)
        if isinstance(v, VMat):
            return v.rows
        raise Unsupported(f'len of {v!r}')

    # ------------------------------------------------------------------ expressions

    def ev(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e)

    def ex_Constant(self, e):
        return e.value

    def load(self, name):
        env, v = self.frame.env.lookup(name)
        if env is not None:
            return v
        if name in self.frame.globs:
            v = self.frame.globs[name]
            return self.import_value(v)
        if hasattr(builtins, name):
            return getattr(builtins, name)
        if name == '__class__' and self.frame.cls:
            return self.frame.cls
        raise Unsupported(f'name {name}')

    def ex_Name(self, e):
        return self.load(e.id)

    def ex_Tuple(self, e):
        return tuple(self.elts(e.elts))

    def elts(self, es, call=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if call and x is es[-1] and isinstance(v, VList) and not v.concrete and v.kind in ('list', 'tup'):
                    out.append(VStar(v))
                    continue
                s = self.to_seq(v)
                if s.concrete is None:
                    raise Unsupported('starred symbolic')
                out.extend(s.concrete)
            else:
                out.append(self.ev(x))
        return out

    def ex_List(self, e):
        return self.new(VList(items=self.elts(e.elts)))

    def ex_Set(self, e):
        from . import models
        return models.make_set(self, self.new(VList(items=self.elts(e.elts))))

    def ex_Dict(self, e):
        d = self.new(VDict(items={}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported('dict unpack')
            self.setitem(d, self.ev(k), self.ev(v))
        return d

    def ex_Lambda(self, e):
        defaults = tuple(self.ev(d) for d in e.args.defaults)
        return VClosure(e, self.frame.env, self.frame.globs, '<lambda>', self.frame.cls, defaults)

    def ex_IfExp(self, e):
        c = self.truth(self.ev(e.test))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse)
        if self.spec:
            a, b = self.ev(e.body), self.ev(e.orelse)
            return self.merge(c, a, b)
        return self.ev(e.body) if self.decide(c) else self.ev(e.orelse)

    def merge(self, c, a, b):
        if self.is_intlike(a) and self.is_intlike(b):
            if (isinstance(a, bool) or is_sym_bool(a)) and (isinstance(b, bool) or is_sym_bool(b)):
                return z3.If(c, self.unwrap(a, BOOL), self.unwrap(b, BOOL))
            return z3.If(c, self.to_int(a), self.to_int(b))
        if is_z3(a) and is_z3(b):
            return z3.If(c, a, b)
        ta = self.typeof(a)
        return self.wrap(ta, z3.If(c, self.unwrap(a, ta), self.unwrap(b, ta)))

    def ex_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        if self.spec:
            vals = []
            for x in e.values:
                t = self.truth(self.ev(x))
                if isinstance(t, bool):
                    if t != is_and:
                        return z3.BoolVal(t) if False else t
                    continue
                vals.append(t)
            if not vals:
                return is_and
            if len(vals) == 1:
                return vals[0]
            return z3.And(*vals) if is_and else z3.Or(*vals)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x)
            if i == len(e.values) - 1:
                return v
            b = self.decide(v)
            if b != is_and:
                if is_sym_bool(v):
                    return b
                return v
        return v

    def ex_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(v, VObj):
            nm = {ast.Invert: '__invert__', ast.USub: '__neg__'}[type(e.op)]
            return self.call(self.getattr(v, nm), [], {})
        if isinstance(e.op, ast.USub):
            return -v if isinstance(v, (int, float)) else -self.to_int(v)
        if isinstance(e.op, ast.Invert):
            return ~v if isinstance(v, int) else z3.simplify(-self.to_int(v) - 1)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary')

    DUNDER = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.BitAnd: '__and__', ast.BitOr: '__or__',
              ast.BitXor: '__xor__', ast.Pow: '__pow__', ast.Mod: '__mod__', ast.FloorDiv: '__floordiv__'}

    def ex_BinOp(self, e):
        return self.binop(e.op, self.ev(e.left), self.ev(e.right))

    def binop(self, op, a, b):
        if isinstance(a, VObj):
            nm = self.DUNDER.get(type(op))
            m = self.class_attr(a.cls, nm) if nm else None
            if m is None:
                raise Unsupported(f'operator on {a!r}')
            return self.call(VBound(a, m, a.cls), [b], {})
        from . import models
        return models.binop(self, type(op), a, b)

    def ex_Compare(self, e):
        left = self.ev(e.left)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            v = self.compare(op, left, right)
            if len(e.ops) == 1:
                return v
            if self.spec:
                t = self.truth(v)
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                acc = t if acc is None else z3.And(acc, t)
            else:
                if not self.decide(v):
                    return False
            left = right
        return acc if self.spec else True

    def compare(self, op, a, b):
        from . import models
        if isinstance(op, ast.Is):
            return models.is_same(self, a, b)
        if isinstance(op, ast.IsNot):
            r = models.is_same(self, a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.In):
            return models.contains(self, b, a)
        if isinstance(op, ast.NotIn):
            r = models.contains(self, b, a)
            t = self.truth(r)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if isinstance(op, ast.Eq):
            return models.eq(self, a, b)
        if isinstance(op, ast.NotEq):
            r = self.truth(models.eq(self, a, b))
            return (not r) if isinstance(r, bool) else z3.Not(r)
        return models.order(self, type(op), a, b)

    def ex_Call(self, e):
        # spec-level and special forms
        if isinstance(e.func, ast.Name):
            nm = e.func.id
            if self.spec:
                if nm == 'old' and len(e.args) == 1:
                    return self.spec_old(e.args[0])
                if nm in theory.SPEC_FORMS:
                    return theory.SPEC_FORMS[nm](self, e)
            if nm in ('all', 'any') and len(e.args) == 1 and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) \
                    and self.frame.env.lookup(nm)[0] is None:
                from .loops import quantified
                return quantified(self, nm, e.args[0])
            if nm == 'super':
                if e.args:
                    c = self.ev(e.args[0])
                    return VSuper(self.ev(e.args[1]), c)
                first = self.frame.node.args.args[0].arg
                return VSuper(self.frame.env[first], self.frame.cls)
        f = self.ev(e.func)
        if f in (dict, set) and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)) and not self.spec:
            from .loops import comprehension
            gen = e.args[0]
            if f is set:
                return comprehension(self, gen, 'set')
            if isinstance(gen.elt, ast.Tuple) and len(gen.elt.elts) == 2 and not any(isinstance(x, ast.Starred) for x in gen.elt.elts):
                return comprehension(self, ast.DictComp(key=gen.elt.elts[0], value=gen.elt.elts[1], generators=gen.generators), 'dict')
        args = self.elts(e.args, call=True)
        if args and isinstance(args[-1], VStar) and not isinstance(f, (pytypes.FunctionType, VBound, VClosure)):
            raise Unsupported('starred symbolic')
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                if isinstance(d, VDict) and d.items is not None:
                    kwargs.update(d.items)
                else:
                    raise Unsupported('** with symbolic dict')
            else:
                kwargs[k.arg] = self.ev(k.value)
        return self.call(f, args, kwargs)

    def spec_old(self, node):
        e = Env(self.frame.env)
        for k, v in self.frame.env.items():
            if k.startswith('old_'):
                e[k[4:]] = v
        outer = self.frame
        self.frame = Frame(e, outer.globs, outer.fname, outer.cls)
        try:
            return self.ev(node)
        finally:
            self.frame = outer

    def ex_Attribute(self, e):
        return self.getattr(self.ev(e.value), e.attr)

    def ex_Subscript(self, e):
        o = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower) if e.slice.lower else None
            hi = self.ev(e.slice.upper) if e.slice.upper else None
            st = self.ev(e.slice.step) if e.slice.step else None
            return self.getslice(o, lo, hi, st)
        return self.getitem(o, self.ev(e.slice))

    def ex_Slice(self, e):
        return slice(self.ev(e.lower) if e.lower else None, self.ev(e.upper) if e.upper else None,
                     self.ev(e.step) if e.step else None)

    def getslice(self, o, lo, hi, st):
        from . import models
        if isinstance(o, VObj):
            return self.call(self.getattr(o, '__getitem__'), [slice(lo, hi, st)], {})
        return models.getslice(self, o, lo, hi, st)

    def getitem(self, o, k):
        from . import models
        if isinstance(o, VObj):
            return self.call(self.getattr(o, '__getitem__'), [k], {})
        if isinstance(k, slice) and not isinstance(o, VMat):
            return models.getslice(self, o, k.start, k.stop, k.step)
        return models.getitem(self, o, k)

    def setitem(self, o, k, v):
        from . import models
        if isinstance(o, VObj):
            return self.call(self.getattr(o, '__setitem__'), [k, v], {})
        return models.setitem(self, o, k, v)

    def delitem(self, o, k):
        from . import models
        return models.delitem(self, o, k)

    def ex_JoinedStr(self, e):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.ev(x.value)
                if self.is_plain(v) and x.format_spec is None and x.conversion == -1:
                    parts.append(format(self.plain(v)))
                else:
                    return VOpaque('formatted string')
        return ''.join(parts)

    def ex_ListComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def ex_GeneratorExp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'list')

    def ex_SetComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'set')

    def ex_DictComp(self, e):
        from .loops import comprehension
        return comprehension(self, e, 'dict')

    def ex_Yield(self, e):
        v = self.ev(e.value)
        from . import models
        models.list_append(self, self.frame.yields, v)
        return None

    def ex_YieldFrom(self, e):
        from . import models
        models.list_extend(self, self.frame.yields, self.ev(e.value))
        return None

    def ex_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v


def target_names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


_ord_cache = {}


def loop_ordinals(node):
    if id(node) in _ord_cache:
        return _ord_cache[id(node)][1]
    out = {}
    k = 0

    def visit(n):
        nonlocal k
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.For, ast.While)):
                out[id(c)] = k
                k += 1
                visit(c)
            elif isinstance(c, (ast.FunctionDef, ast.Lambda)):
                continue
            else:
                visit(c)
    visit(node)
    _ord_cache[id(node)] = (node, out)
    return out


_spec_cache = {}


def parse_spec(text):
    if isinstance(text, ast.AST):
        return text
    if text not in _spec_cache:
        _spec_cache[text] = ast.parse(text.strip(), mode='eval').body
    return _spec_cache[text]
