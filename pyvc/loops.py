"""Loops of unknown length: derived summaries, and invariants from contracts."""
import ast

import z3

from .types import Ty, parse, INT, BOOL, SHAPES
from .values import *
from .core import (PyRaise, BreakEx, ContinueEx, ReturnEx, Infeasible, PathEnd, Env, Frame, has_quant, consts_in,
                   target_names)
from . import theory

ZI = z3.IntSort()


def forall(vs, body, pats=None):
    return theory.FA(vs, body, [p for p in pats if p is not None] if pats else None)


# ---------------------------------------------------------------------- locations

class Loc:
    """something a loop body can change: a local variable, a field of an object, or a container"""

    def __init__(self, kind, owner, name=None):
        self.kind, self.owner, self.name = kind, owner, name
        self.ty = None

    @property
    def key(self):
        return (self.kind, id(self.owner), self.name)

    def __repr__(self):
        return f'{self.kind}:{self.name}'


_MISSING = object()


def same(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if type(a) == type(b) and isinstance(a, (int, str, float, bool, type(None))):
        return a == b
    return False


def capture(eng):
    """all locations with their current values"""
    out = {}
    for e in eng.env_chain():
        for nm, v in e.items():
            out[('env', id(e), nm)] = (Loc('env', e, nm), v)
    for o in eng.heap:
        if isinstance(o, VObj):
            for f, v in o.fields.items():
                out[('fld', id(o), f)] = (Loc('fld', o, f), v)
        else:
            out[('obj', id(o), None)] = (Loc('obj', o), o.state())
    return out


def state_of(result, heap_n):
    """locations at the end of a path result, limited to the objects that existed before"""
    out = {}
    for e, d in result.env:
        for nm, v in d.items():
            out[('env', id(e), nm)] = (Loc('env', e, nm), v)
    for o, st in result.heap[:heap_n]:
        if isinstance(o, VObj):
            for f, v in st[0].items():
                out[('fld', id(o), f)] = (Loc('fld', o, f), v)
        else:
            out[('obj', id(o), None)] = (Loc('obj', o), st)
    return out


def value_with_state(loc, st):
    """a detached value for the state of a container"""
    o = loc.owner
    c = object.__new__(type(o))
    c.__dict__.update(o.__dict__)
    c.set_state(st)
    return c


def loc_value(loc, v):
    return value_with_state(loc, v) if loc.kind == 'obj' else v


def type_of(eng, v, st=None):
    if isinstance(v, (VList, VSet, VDict)) and st is not None:
        pass
    if isinstance(v, str):
        return parse('str')
    return eng.typeof(v)


def install(eng, loc, v):
    """put value v in the location"""
    if loc.kind == 'env':
        loc.owner[loc.name] = v
    elif loc.kind == 'fld':
        loc.owner.fields[loc.name] = v
    else:
        loc.owner.set_state(v.state())


# ---------------------------------------------------------------------- exploring a body

class Explored:
    pass


def run_body(eng, n, body, changed, i, starts, extra):
    """paths of one iteration at index i, from a state where the changed locations have the values `starts`"""
    base = eng.counter

    def thunk():
        eng.counter = base
        for loc in changed.values():
            install(eng, loc, copy_value(starts[loc.key]))
        body(i)

    top = [base]

    def wrapped():
        try:
            return thunk()
        finally:
            top[0] = max(top[0], eng.counter)
    res = eng.explore(wrapped, extra=extra)
    eng.counter = top[0]
    return res


def copy_value(v):
    if isinstance(v, V) and not isinstance(v, VObj):
        c = object.__new__(type(v))
        c.__dict__.update(v.__dict__)
        c.set_state(v.state())
        return c
    return v


def havoc_value(eng, ty, hint):
    """(value, consts, facts) for an arbitrary value of the type, constants not registered with the path"""
    saved = eng.path
    from .core import Path
    eng.path = Path([], [])
    eng.path.trial = True
    try:
        heap_n = len(eng.heap)
        v = eng.fresh(ty, hint)
        del eng.heap[heap_n:]
        facts = [f for _, f in eng.path.added]
        consts = eng.path.consts
    finally:
        eng.path = saved
    return v, consts, facts


def same_shape(loc, v, pre):
    """writing to a matrix does not change its shape"""
    if loc.kind == 'obj' and isinstance(v, VMat):
        v0 = loc_value(loc, pre[loc.key][1])
        v.rows, v.cols = v0.rows, v0.cols


def discover(eng, n, body, pre, types=None):
    """fixpoint of the set of changed locations; returns (changed, starts, start facts, index, paths)"""
    changed = {}
    heap_n = len(eng.heap)
    was_record = eng.record
    eng.record = False
    poison = set()
    try:
        for _ in range(8):
            starts, sconsts, facts = {}, {}, []
            for key, loc in changed.items():
                if key in poison:
                    starts[key] = VOpaque('loop variable')
                    sconsts[key] = []
                    continue
                v, cs, fs = havoc_value(eng, loc.ty, 's_' + str(loc.name or 'obj'))
                same_shape(loc, v, pre)
                starts[key] = v
                sconsts[key] = cs
                facts += fs
            i = z3.Int(eng.name('it'))
            extra = facts + [i >= 0] + ([i < n] if n is not None else [])
            results = run_body(eng, n, body, changed, i, starts, extra)
            new = {}
            for r in results:
                if r.kind not in ('ok', 'continue'):
                    # changes made before an exit do not reach the next iteration
                    continue
                end = state_of(r, heap_n)
                for key, (loc, v0) in pre.items():
                    if key in changed:
                        continue
                    v1 = end[key][1] if key in end else _MISSING
                    if v1 is _MISSING or not same(v0, v1):
                        new.setdefault(key, (loc, []))[1].append(v1)
                # a cached property filled in by the body behaves like a local value: drop it
            if not new:
                return changed, starts, sconsts, facts, i, results, poison
            for key, (loc, vals) in new.items():
                v0 = loc_value(loc, pre[key][1])
                tys = set()
                declared = (types or {}).get(loc.name)
                if loc.kind == 'obj':
                    declared = next((t for nm, t in (types or {}).items() if eng.frame.env.get(nm) is loc.owner), None)
                if declared:
                    tys.add(parse(declared))
                else:
                    known = [v0] + [loc_value(loc, x) if x is not _MISSING else None for x in vals]
                    # an empty list takes the type of what it becomes
                    empty = [v for v in known if isinstance(v, VList) and v.concrete and not v.items and v.ety is None]
                    for v in [v for v in known if not any(v is e for e in empty)] or empty:
                        try:
                            tys.add(type_of(eng, v))
                        except Unsupported:
                            pass
                if len(tys) != 1:
                    if loc.kind == 'env':
                        poison.add(key)
                    else:
                        raise Unsupported(f'loop changes {loc} of types {tys}')
                else:
                    loc.ty = tys.pop()
                changed[key] = loc
        raise Unsupported('loop state does not stabilise')
    finally:
        eng.record = was_record


def stores(arr, base):
    """[(index, value), ...] when arr is a chain of stores on base"""
    out = []
    while not arr.eq(base):
        if not z3.is_store(arr):
            return None
        out.append((arr.arg(1), arr.arg(2)))
        arr = arr.arg(0)
    return out[::-1]


def merged_stores(arr, base):
    """like `stores`, with several writes to the same place taken as the last one"""
    st = stores(arr, base)
    if st is None:
        return None
    out = []
    for k, v in st:
        out = [(a, b) for a, b in out if not a.eq(k)] + [(k, v)]
    return out


def sub(e, pairs):
    if not pairs or not isinstance(e, z3.ExprRef):
        return e
    return z3.substitute(e, *pairs)


def mentions(e, consts):
    ids = {c.get_id() for c in consts}
    return bool(consts_in(e) & ids)


def merge_vals(vals):
    """vals: [(guard, value)] -> nested If"""
    r = vals[-1][1]
    for g, v in reversed(vals[:-1]):
        r = v if v.eq(r) else z3.If(g, v, r)
    return r


def summarize(eng, n, body, orelse=(), targets=frozenset(), types=None):
    if eng.spec:
        raise Unsupported('loop in specification')
    n = eng.to_int(n)
    pre = capture(eng)
    before = getattr(eng, 'would', 0)
    changed, starts, sconsts, sfacts, i, results, poison = discover(eng, n, body, pre, types)
    heap_n = len(eng.heap)
    normal = [r for r in results if r.kind in ('ok', 'continue')]
    exits = [r for r in results if r.kind not in ('ok', 'continue')]
    all_sconsts = [c for cs in sconsts.values() for c in cs]

    if exits:
        b = eng.const(z3.BoolSort(), 'exits')
        leaves = eng.decide(b)
    else:
        leaves = False
    if leaves:
        m = eng.const(ZI, 'exit_at')
        eng.assume(z3.And(m >= 0, m < n))
    else:
        m = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        if not eng.feasible(n < 0):
            m = n
            eng.assume(n >= 0)

    # skolem arrays for the constants created in the body
    skolem = []
    seen = set()
    for r in normal:
        for c in r.path.consts:
            if c.get_id() in seen:
                continue
            seen.add(c.get_id())
            C = eng.const(z3.ArraySort(ZI, c.sort()), 'sk_' + c.decl().name().split('!')[0])
            skolem.append((c, z3.Select(C, i)))

    ends = [state_of(r, heap_n) for r in normal]
    guards = [r.guard for r in normal]
    forms = {}
    for key, loc in changed.items():
        if key in poison:
            forms[key] = Poison()
            continue
        init = loc_value(loc, pre[key][1])
        s = starts[key]
        es = []
        for e in ends:
            if key in e:
                es.append(loc_value(loc, e[key][1]))
            else:
                raise Unsupported('loop deletes a variable')
        forms[key] = classify(eng, loc, init, s, sconsts[key], es, guards, i, m)

    obliged = getattr(eng, 'would', 0) > before
    for key, f in forms.items():
        if isinstance(f, SetItems):
            cs = sconsts[key]
            terms = list(guards) + [x for r in normal for x in r.facts]
            for k2, f2 in forms.items():
                if k2 == key:
                    terms += [t for w in f.writes for kv in w for t in kv]
                elif k2 not in poison:
                    terms += [t for e in f2.es for t in flat(eng, e, changed[k2].ty)]
            f.used = any(mentions(t, cs) for t in terms)
        if isinstance(f, AddSet) and not leaves:
            cs = sconsts[key]
            terms = list(guards) + [x for r in normal for x in r.facts] + [v for vs in f.vals for v in vs]
            terms += [t for k2, f2 in forms.items() if k2 != key and k2 not in poison for e in f2.es for t in flat(eng, e, changed[k2].ty)]
            f.used = any(mentions(t, cs) for t in terms)
        f.partial = leaves

    def at(idx, final=False):
        """values of the changed locations at iteration idx"""
        return {key: (f.final() if final else f.at(idx)) for key, f in forms.items()}

    # start constants -> closed forms at i
    pairs = []
    for key, loc in changed.items():
        if key in poison:
            continue
        pairs += forms[key].pairs(i)
    # constants defined in the body, then closed forms, then the other body constants
    defs = definitions(normal)
    dropped = {(c == e).get_id() for c, e in defs} | {(e == c).get_id() for c, e in defs}

    def sig(e):
        for d in defs:
            e = sub(e, [d])
        return sub(sub(e, pairs), skolem)

    rng = z3.And(i >= 0, i < m)
    if normal:
        tot = z3.Or(*[sig(g) for g in guards]) if len(guards) > 1 else sig(guards[0])
        tot = z3.simplify(tot) if not has_quant(tot) else tot
        if not z3.is_true(tot):
            eng.assume(forall([i], z3.Implies(rng, tot)))
        for r, g in zip(normal, guards):
            gg = sig(g) if len(normal) > 1 else z3.BoolVal(True)
            for f in r.facts:
                if z3.is_true(f) or f.get_id() in dropped:
                    continue
                q = sig(f)
                bodyf = z3.Implies(rng if z3.is_true(gg) else z3.And(rng, gg), q)
                eng.assume(forall([i], bodyf))
    else:
        eng.assume(m <= 0)
    for key, f in forms.items():
        f.emit(sig, rng)

    # obligations met inside the body, at an arbitrary iteration
    if eng.record and obliged:
        i2 = eng.const(ZI, 'iter')
        vals = {key: f.at(i2) for key, f in forms.items() if not unread(f)}
        def again():
            for key, loc in changed.items():
                install(eng, loc, havoc_value(eng, loc.ty, 'any')[0] if unread(forms[key]) else copy_value(vals[key]))
            body(i2)
        eng.explore(again, extra=[i2 >= 0, i2 < (m if not leaves else m)])
    # state after the loop
    vals = at(m, final=True)
    for key, loc in changed.items():
        install(eng, loc, vals[key])
        if loc.kind == 'env' and isinstance(vals[key], V):
            if vals[key] not in eng.heap:
                eng.heap.append(vals[key])
    for e in eng.env_chain():
        for t in targets:
            if t in e and ('env', id(e), t) not in pre:
                del e[t]
    if leaves:
        try:
            body(m)
        except BreakEx:
            return
        except ContinueEx:
            raise Infeasible
        raise Infeasible
    if orelse:
        eng.block(orelse)


def unread(form):
    return (isinstance(form, AddSet) or isinstance(form, SetItems) and form.kind != 'list') and not form.used


def definitions(results):
    """[(constant, value)]: constants of the body that a fact `constant == value` defines, in an order for substitution"""
    table, clash = {}, set()
    for r in results:
        own = {c.get_id() for c in r.path.consts}
        here = {}
        for f in r.facts:
            if not z3.is_eq(f):
                continue
            for c, e in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                if c.get_id() in own and c.get_id() not in here and z3.is_const(c) and not mentions(e, [c]):
                    here[c.get_id()] = (c, e)
                    break
        for c in r.path.consts:
            k = c.get_id()
            if k in table and (k not in here or not table[k][1].eq(here[k][1])):
                clash.add(k)
            elif k not in table:
                if k in here:
                    table[k] = here[k]
                else:
                    clash.add(k)
    table = {k: v for k, v in table.items() if k not in clash}
    order, left = [], dict(table)
    while left:
        # a constant may be replaced once no remaining definition mentions it
        free = [k for k in left if not any(mentions(e, [left[k][0]]) for j, (_, e) in left.items() if j != k)]
        if not free:
            break
        for k in free:
            order.append(left.pop(k))
    return order


# ---------------------------------------------------------------------- closed forms

class Poison:
    def at(self, idx):
        return VOpaque('loop variable')

    def final(self):
        return VOpaque('loop variable')

    def pairs(self, i):
        return []

    def emit(self, sig, rng):
        pass


class Form:
    def __init__(self, eng, loc, init, s, consts, es, guards, i, m):
        self.eng, self.loc, self.init, self.s, self.consts = eng, loc, init, s, consts
        self.es, self.guards, self.i, self.m = es, guards, i, m

    def final(self):
        return self.at(self.m)

    def gmerge(self, vals, sig):
        return merge_vals([(sig(g), sig(v)) for g, v in zip(self.guards, vals)])


class Same(Form):
    def at(self, idx):
        return self.init

    def pairs(self, i):
        return [(a, b) for a, b in zip(flat(self.eng, self.s, self.loc.ty), flat(self.eng, self.init, self.loc.ty))]

    def emit(self, sig, rng):
        pass


def flat(eng, v, ty):
    """the z3 terms making up a value of the type"""
    k = ty.kind
    if k in ('int', 'bool', 'U'):
        return [eng.unwrap(v, ty)]
    if k in ('list', 'tup', 'str'):
        if isinstance(v, str):
            v = eng.str_to_vlist(v)
        if isinstance(v, tuple):
            v = VList(items=list(v), kind='tup')
        n, a = eng.sym_list(v, ty.args[0] if ty.args else INT)
        return [eng.to_int(n), a]
    if k == 'set':
        return [eng.sym_set(v, ty.args[0])]
    if k == 'dict':
        return list(eng.sym_dict(v, *ty.args))
    if k == 'tuple':
        return [t for x, a in zip(v, ty.args) for t in flat(eng, x, a)]
    if k == 'mat':
        return [eng.to_int(v.rows), eng.to_int(v.cols), v.arr]
    if k == 'obj':
        shp = SHAPES[ty.args[0]]
        return [t for f, a in shp.fields.items() for t in flat(eng, v.fields[f], a)]
    raise Unsupported(f'flat {ty}')


def build(eng, ty, terms):
    """inverse of flat (consumes the list)"""
    k = ty.kind
    if k in ('int', 'bool', 'U'):
        return terms.pop(0)
    if k in ('list', 'tup', 'str'):
        n = terms.pop(0)
        a = terms.pop(0)
        return VList(n=n, arr=a, ety=ty.args[0] if ty.args else INT, kind=k)
    if k == 'set':
        return VSet(arr=terms.pop(0), ety=ty.args[0])
    if k == 'dict':
        d = terms.pop(0)
        return VDict(dom=d, val=terms.pop(0), kty=ty.args[0], vty=ty.args[1])
    if k == 'tuple':
        return tuple(build(eng, a, terms) for a in ty.args)
    if k == 'mat':
        r = terms.pop(0)
        c = terms.pop(0)
        return VMat(r, c, terms.pop(0))
    if k == 'obj':
        shp = SHAPES[ty.args[0]]
        o = VObj(shp.cls, {})
        for f, a in shp.fields.items():
            o.fields[f] = build(eng, a, terms)
        o.fields.update(shp.const)
        return o
    raise Unsupported(f'build {ty}')


class Recurrence(Form):
    """W[0] = init, W[i + 1] = step(W[i], i) for every component"""

    def __init__(self, *a):
        super().__init__(*a)
        eng, ty = self.eng, self.loc.ty
        self.inits = flat(eng, self.init, ty)
        self.ss = flat(eng, self.s, ty)
        self.ees = [flat(eng, e, ty) for e in self.es]
        self.keep = [all(ee[k].eq(self.ss[k]) for ee in self.ees) for k in range(len(self.ss))]
        self.W = [None if kp else eng.const(z3.ArraySort(ZI, t.sort()), 'w') for t, kp in zip(self.ss, self.keep)]

    def terms(self, idx):
        return [t0 if w is None else z3.Select(w, idx) for t0, w in zip(self.inits, self.W)]

    def at(self, idx):
        return build(self.eng, self.loc.ty, self.terms(idx))

    def pairs(self, i):
        return list(zip(self.ss, self.terms(i)))

    def emit(self, sig, rng):
        eng, i = self.eng, self.i
        k = z3.Int(eng.name('nx'))
        for c, (w, t0) in enumerate(zip(self.W, self.inits)):
            if w is None:
                continue
            eng.assume(z3.Select(w, 0) == t0)
            step = self.gmerge([ee[c] for ee in self.ees], sig)
            eng.assume(forall([i, k], z3.Implies(z3.And(rng, k == i + 1), z3.Select(w, k) == step),
                              [theory.MP(z3.Select(w, i), z3.Select(w, k))]))
            # one step back from the end, so that the last step is visible
            eng.assume(z3.Implies(self.m > 0, z3.Select(w, self.m) == z3.substitute(step, (i, z3.simplify(self.m - 1)))))


class LastWrite(Form):
    """the body overwrites the variable without reading it"""

    def __init__(self, *a):
        super().__init__(*a)
        self.vals = None

    def at(self, idx):
        eng, ty = self.eng, self.loc.ty
        terms = [z3.Select(w, idx) for w in self.W()]
        return build(eng, ty, terms)

    def W(self):
        if self.vals is None:
            self.vals = [self.eng.const(z3.ArraySort(ZI, t.sort()), 'lw') for t in flat(self.eng, self.s, self.loc.ty)]
        return self.vals

    def pairs(self, i):
        return list(zip(flat(self.eng, self.s, self.loc.ty), [z3.Select(w, i) for w in self.W()]))

    def emit(self, sig, rng):
        eng, i = self.eng, self.i
        ees = [flat(eng, e, self.loc.ty) for e in self.es]
        for c, (w, t0) in enumerate(zip(self.W(), flat(eng, self.init, self.loc.ty))):
            eng.assume(z3.Select(w, 0) == t0)
            step = self.gmerge([ee[c] for ee in ees], sig)
            k = z3.Int(eng.name('nx'))
            eng.assume(forall([k], z3.Implies(z3.And(k >= 1, k <= self.m), z3.Select(w, k) == z3.substitute(step, (i, k - 1))),
                              [z3.Select(w, k)]))


class Additive(Form):
    def __init__(self, *a):
        super().__init__(*a)
        self.deltas = None
        self.init_t = self.eng.to_int(self.init)
        self.const_delta = None
        self.D = None

    def setup(self, deltas):
        self.deltas = deltas
        if all(d.eq(deltas[0]) for d in deltas) and z3.is_int_value(deltas[0]):
            self.const_delta = deltas[0]
        else:
            self.D = self.eng.const(z3.ArraySort(ZI, ZI), 'delta')
        return self

    def at(self, idx):
        if self.const_delta is not None:
            return z3.simplify(self.init_t + self.const_delta * idx)
        z = z3.is_int_value(self.init_t) and self.init_t.as_long() == 0
        return theory.psum(self.D, idx) if z else self.init_t + theory.psum(self.D, idx)

    def pairs(self, i):
        return [(self.s, self.at(i))]

    def emit(self, sig, rng):
        if self.const_delta is not None:
            return
        i = self.i
        v = self.gmerge(self.deltas, sig)
        self.eng.assume(forall([i], z3.Implies(rng, z3.Select(self.D, i) == v), [z3.Select(self.D, i)]))
        # the empty sum and steps are theory equations; bounds of sums of 0/1 summands are a lemma
        vals01 = all(z3.is_int_value(d) and d.as_long() in (0, 1) for d in self.deltas)
        if vals01:
            k = z3.Int(self.eng.name('k'))
            p = theory.psum(self.D, k)
            self.eng.assume(forall([k], z3.Implies(z3.And(k >= 0, k <= self.m), z3.And(p >= 0, p <= k)), [p]))


class MapList(Form):
    """every iteration appends exactly the values vals (q of them)"""

    def setup(self, vals, q):
        self.vals, self.q = vals, q
        ty = self.loc.ty
        self.ety = ty.args[0] if ty.args else INT
        n0, a0 = flat(self.eng, self.init, ty)
        self.n0, self.a0 = z3.simplify(n0), a0
        self.A = self.eng.const(a0.sort(), 'map')
        return self

    def at(self, idx):
        return VList(n=z3.simplify(self.n0 + self.q * idx), arr=self.A, ety=self.ety, kind=self.loc.ty.kind)

    def pairs(self, i):
        n, a = flat(self.eng, self.s, self.loc.ty)
        return [(n, z3.simplify(self.n0 + self.q * i)), (a, self.A)]

    def emit(self, sig, rng):
        eng, i = self.eng, self.i
        j = z3.Int(eng.name('j'))
        zero = z3.is_int_value(self.n0) and self.n0.as_long() == 0
        if not zero:
            eng.assume(forall([j], z3.Implies(z3.And(j >= 0, j < self.n0), z3.Select(self.A, j) == z3.Select(self.a0, j)),
                              [z3.Select(self.A, j)]))
        if self.q == 1:
            v = self.gmerge([x[0] for x in self.vals], sig)
            body = z3.Select(self.A, j) == z3.substitute(v, (i, z3.simplify(j - self.n0)))
            eng.assume(forall([j], z3.Implies(z3.And(j >= self.n0, j < self.n0 + self.m), body), [z3.Select(self.A, j)]))
            if not zero:
                eng.assume(forall([i], z3.Implies(rng, z3.Select(self.A, self.n0 + i) == v)))
            else:
                pats = source_patterns(v, i)
                if pats:
                    eng.assume(forall([i], z3.Implies(rng, z3.Select(self.A, i) == v), pats))
        else:
            for t in range(self.q):
                v = self.gmerge([x[t] for x in self.vals], sig)
                eng.assume(forall([i], z3.Implies(rng, z3.Select(self.A, self.n0 + self.q * i + t) == v)))
            # in terms of the place
            parts = []
            for t in range(self.q):
                v = self.gmerge([x[t] for x in self.vals], sig)
                parts.append(z3.Implies((j - self.n0) % self.q == t, z3.Select(self.A, j) == z3.substitute(v, (i, (j - self.n0) / self.q))))
            eng.assume(forall([j], z3.Implies(z3.And(j >= self.n0, j < self.n0 + self.q * self.m), z3.And(*parts)), [z3.Select(self.A, j)]))


def source_patterns(v, i):
    """terms Select(constant array, i) inside v, usable as triggers"""
    out, seen, stack = [], set(), [v]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_select(x) and x.arg(1).eq(i) and z3.is_const(x.arg(0)):
            out.append(x)
        stack.extend(x.children())
    return out[:3]


class FilterList(Form):
    """each iteration appends at most one value"""

    def setup(self, vals):
        eng = self.eng
        self.vals = vals
        ty = self.loc.ty
        self.ety = ty.args[0] if ty.args else INT
        self.n0, self.a0 = flat(eng, self.init, ty)
        self.A = eng.const(self.a0.sort(), 'filt')
        self.P = eng.const(z3.ArraySort(ZI, ZI), 'pos')
        self.X = eng.const(z3.ArraySort(ZI, ZI), 'idx')
        return self

    def at(self, idx):
        return VList(n=z3.Select(self.P, idx), arr=self.A, ety=self.ety, kind=self.loc.ty.kind)

    def pairs(self, i):
        n, a = flat(self.eng, self.s, self.loc.ty)
        return [(n, z3.Select(self.P, i)), (a, self.A)]

    def emit(self, sig, rng):
        eng, i, m = self.eng, self.i, self.m
        P, A, X, n0 = self.P, self.A, self.X, self.n0
        yes = [(g, v[0]) for g, v in zip(self.guards, self.vals) if v]
        g = z3.Or(*[sig(a) for a, _ in yes]) if len(yes) > 1 else sig(yes[0][0])
        v = merge_vals([(sig(a), sig(b)) for a, b in yes])
        j, k = z3.Int(eng.name('j')), z3.Int(eng.name('k'))
        Pi = z3.Select(P, i)
        eng.assume(z3.Select(P, 0) == n0)
        eng.assume(forall([j], z3.Implies(z3.And(j >= 0, j < n0), z3.Select(A, j) == z3.Select(self.a0, j)), [z3.Select(A, j)]))
        pats = [Pi] + source_patterns(z3.And(g, v == v) if z3.is_bool(v) else g, i)
        eng.assume(forall([i], z3.Implies(rng, z3.And(
            z3.Select(P, i + 1) == z3.If(g, Pi + 1, Pi), Pi >= n0, Pi <= n0 + i, Pi <= z3.Select(P, m),
            z3.Implies(g, z3.And(z3.Select(A, Pi) == v, z3.Select(X, Pi) == i, Pi < z3.Select(P, m))))), pats))
        eng.assume(z3.And(z3.Select(P, m) >= n0, z3.Select(P, m) <= n0 + m))
        Xj = z3.Select(X, j)
        eng.assume(forall([j], z3.Implies(z3.And(j >= n0, j < z3.Select(P, m)), z3.And(
            Xj >= 0, Xj < m, z3.substitute(g, (i, Xj)), z3.Select(P, Xj) == j, z3.Select(A, j) == z3.substitute(v, (i, Xj)))),
            [z3.Select(A, j), Xj]))
        eng.assume(forall([j, k], z3.Implies(z3.And(j >= n0, j < k, k < z3.Select(P, m)), z3.Select(X, j) < z3.Select(X, k)),
                          [theory.MP(z3.Select(X, j), z3.Select(X, k)), theory.MP(z3.Select(A, j), z3.Select(A, k))]))
        eng.assume(forall([j, k], z3.Implies(z3.And(j >= 0, j <= k, k <= m), z3.And(z3.Select(P, j) <= z3.Select(P, k), z3.Select(P, j) >= n0)),
                          [theory.MP(z3.Select(P, j), z3.Select(P, k))]))


def by_element(eng, i, m, exprs):
    """(set, element, the expressions) when the loop runs once through a set and uses the element alone"""
    found, seen, stack = {}, set(), list(exprs)
    table = eng.__dict__.get('enumerators', {})
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_select(x) and x.arg(1).eq(i) and x.arg(0).get_id() in table:
            found[x.arg(0).get_id()] = x
        stack.extend(x.children())
    if len(found) != 1:
        return None
    ident, term = found.popitem()
    n, en, arr, ety = table[ident]
    if not n.eq(m):
        return None
    x = z3.Const(eng.name('e'), ety.sort)
    out = [z3.substitute(e, (term, x)) for e in exprs]
    if any(mentions(e, [i]) for e in out):
        return None
    return arr, x, out


class AddSet(Form):
    used, partial, whole = True, True, None

    def setup(self, vals):
        self.vals = vals  # per path: list of added elements
        self.a0 = flat(self.eng, self.init, self.loc.ty)[0]
        self.ety = self.loc.ty.args[0]
        self.F = self.eng.const(z3.ArraySort(self.ety.sort, ZI), 'first')
        self.fin = None
        return self

    def arr_at(self, idx):
        x = z3.Const(self.eng.name('x'), self.ety.sort)
        return z3.Lambda([x], z3.Or(z3.Select(self.a0, x), z3.And(z3.Select(self.F, x) >= 0, z3.Select(self.F, x) < idx)))

    def elements(self, hit):
        """the image of a whole set, stated without the order of enumeration"""
        eng = self.eng
        if self.used or self.partial or len(hit) != 1 or not is_empty_set(self.a0):
            return False
        r = by_element(eng, self.i, self.m, list(hit[0]))
        if r is None:
            return False
        S, x, (g, v) = r
        arr = eng.const(self.a0.sort(), 'image')
        k = z3.Const(eng.name('k'), self.ety.sort)
        if v.eq(x):
            eng.assume(forall([x], z3.Select(arr, x) == z3.And(z3.Select(S, x), g), [z3.Select(arr, x)] + ([z3.Select(S, x)] if z3.is_const(S) else [])))
        else:
            src = z3.Select(eng.const(z3.ArraySort(k.sort(), x.sort()), 'src'), k)
            pats = source_patterns(v, x) or source_patterns(g, x)
            if z3.is_const(S):
                pats = pats + [z3.Select(S, x)]
            eng.assume(forall([x], z3.Implies(z3.And(z3.Select(S, x), g), z3.Select(arr, v)), pats or None))
            eng.assume(forall([k], z3.Implies(z3.Select(arr, k), z3.And(z3.Select(S, src), z3.substitute(g, (x, src)), z3.substitute(v, (x, src)) == k)),
                              [z3.Select(arr, k)]))
        self.whole = arr
        return True

    def final(self):
        if self.whole is not None:
            return VSet(arr=self.whole, ety=self.ety)
        return self.at(self.m)

    def at(self, idx):
        eng = self.eng
        arr = eng.const(self.a0.sort(), 'setat')
        x = z3.Const(eng.name('x'), self.ety.sort)
        rhs = z3.And(z3.Select(self.F, x) >= 0, z3.Select(self.F, x) < idx)
        if not is_empty_set(self.a0):
            rhs = z3.Or(z3.Select(self.a0, x), rhs)
        eng.assume(forall([x], z3.Select(arr, x) == rhs, [z3.Select(arr, x), z3.Select(self.F, x)]))
        return VSet(arr=arr, ety=self.ety)

    def pairs(self, i):
        return [(flat(self.eng, self.s, self.loc.ty)[0], self.arr_at(i))]

    def emit(self, sig, rng):
        eng, i, m, F = self.eng, self.i, self.m, self.F
        x = z3.Const(eng.name('x'), self.ety.sort)
        Fx = z3.Select(F, x)
        hit = []
        for g, vs in zip(self.guards, self.vals):
            for v in vs:
                hit.append((sig(g), sig(v)))
        if self.elements(hit):
            return
        for g, v in hit:
            body = z3.And(z3.Select(F, v) >= 0, z3.Select(F, v) <= i)
            pats = source_patterns(v, i) or source_patterns(g, i)
            if v.eq(i):
                pats = [z3.Select(F, i)] + pats
            eng.assume(forall([i], z3.Implies(z3.And(rng, g), body), pats or None))
        alts = [z3.And(z3.substitute(g, (i, Fx)), z3.substitute(v, (i, Fx)) == x) for g, v in hit]
        eng.assume(forall([x], z3.Implies(z3.And(Fx >= 0, Fx < m), z3.Or(*alts) if len(alts) > 1 else alts[0]), [Fx]))


def is_empty_set(a):
    return z3.is_K(a) and z3.is_false(a.arg(0)) if hasattr(z3, 'is_K') and z3.is_app(a) else False


class SumItems(Form):
    """each iteration adds to at most one item: the value is a sum over the iterations that name the key"""

    def setup(self, kind, writes):
        eng = self.eng
        self.kind, self.writes = kind, writes
        ty = self.loc.ty
        a, self.v0 = flat(eng, self.init, ty)
        self.n0 = self.d0 = a
        self.ksort = ZI if kind == 'list' else ty.args[0].sort
        self.D = eng.const(z3.ArraySort(self.ksort, z3.ArraySort(ZI, ZI)), 'adds')
        if kind != 'list':
            self.F = eng.const(z3.ArraySort(self.ksort, ZI), 'firstw')
        return self

    def dom(self, k, idx):
        return z3.Or(z3.Select(self.d0, k), z3.And(z3.Select(self.F, k) >= 0, z3.Select(self.F, k) < idx))

    def val(self, k, idx):
        s = theory.psum(z3.Select(self.D, k), idx)
        old = z3.Select(self.v0, k)
        if self.kind == 'list':
            return old + s
        # a key that is not there yet starts from the default value 0
        return z3.If(z3.Select(self.d0, k), old, z3.IntVal(0)) + s if not is_empty_set(self.d0) else s

    def arrays(self, idx):
        eng = self.eng
        k = z3.Const(eng.name('k'), self.ksort)
        A = eng.const(self.v0.sort(), 'sums')
        eng.assume(forall([k], z3.Select(A, k) == self.val(k, idx), [z3.Select(A, k)]))
        if self.kind == 'list':
            return self.n0, A
        d = eng.const(self.d0.sort(), 'dom')
        eng.assume(forall([k], z3.Select(d, k) == self.dom(k, idx), [z3.Select(d, k), z3.Select(self.F, k)]))
        return d, A

    def at(self, idx):
        return build(self.eng, self.loc.ty, list(self.arrays(idx)))

    def pairs(self, i):
        a, b = flat(self.eng, self.s, self.loc.ty)
        k = z3.Const(self.eng.name('k'), self.ksort)
        return [(a, self.n0 if self.kind == 'list' else z3.Lambda([k], self.dom(k, i))), (b, z3.Lambda([k], self.val(k, i)))]

    def emit(self, sig, rng):
        eng, i = self.eng, self.i
        k = z3.Const(eng.name('k'), self.ksort)
        cases = [(sig(g), sig(w[0][0]), sig(w[0][1])) for g, w in zip(self.guards, self.writes) if w]
        add = z3.IntVal(0)
        for g, key, d in reversed(cases):
            add = z3.If(z3.And(g, key == k), d, add)
        Dki = z3.Select(z3.Select(self.D, k), i)
        eng.assume(forall([k, i], z3.Implies(rng, Dki == add), [Dki]))
        if self.kind != 'list':
            Fk = z3.Select(self.F, k)
            at_ = lambda e, t: z3.substitute(e, (i, t))
            hit = lambda t: z3.Or(*[z3.And(at_(g, t), at_(key, t) == k) for g, key, _ in cases])
            eng.assume(forall([k], z3.Implies(z3.And(Fk >= 0, Fk < self.m), hit(Fk)), [Fk]))
            for g, key, _ in cases:
                eng.assume(forall([i], z3.Implies(z3.And(rng, g), z3.And(z3.Select(self.F, key) >= 0, z3.Select(self.F, key) <= i)), source_patterns(key, i) or None))
            # before its first iteration a key has nothing added
            eng.assume(forall([k, i], z3.Implies(z3.And(i >= 0, i <= self.m, z3.Or(Fk < 0, Fk >= i)), theory.psum(z3.Select(self.D, k), i) == 0),
                              [theory.psum(z3.Select(self.D, k), i)]))


class OwnItem(Form):
    """iteration i writes at most item i + c of a list, and reads no other item of it"""

    def setup(self, writes, c):
        eng = self.eng
        self.writes, self.c = writes, c
        self.n0, self.v0 = flat(eng, self.init, self.loc.ty)
        self.own = eng.const(self.v0.sort(), 'own')
        return self

    def item(self, k, idx):
        j = z3.simplify(k - self.c)
        return z3.If(z3.And(j >= 0, j < idx), z3.Select(self.own, k), z3.Select(self.v0, k))

    def at(self, idx):
        eng = self.eng
        k = z3.Int(eng.name('k'))
        A = eng.const(self.v0.sort(), 'items')
        eng.assume(forall([k], z3.Select(A, k) == self.item(k, idx), [z3.Select(A, k)]))
        return build(eng, self.loc.ty, [self.n0, A])

    def pairs(self, i):
        a, b = flat(self.eng, self.s, self.loc.ty)
        k = z3.Int(self.eng.name('k'))
        return [(a, self.n0), (b, z3.Lambda([k], self.item(k, i)))]

    def emit(self, sig, rng):
        eng, i = self.eng, self.i
        k = z3.Int(eng.name('k'))
        val = z3.Select(self.v0, i + self.c)
        for g, w in zip(self.guards, self.writes):
            if w:
                val = z3.If(sig(g), sig(w[0][1]), val)
        at = lambda e: z3.simplify(z3.substitute(e, (i, k - self.c)))
        eng.assume(forall([k], z3.Implies(at(rng), z3.Select(self.own, k) == at(val)), [z3.Select(self.own, k)]))


def own_item(writes, guards, ss, i):
    """the constant distance between the index of the iteration and of the only item that it uses, or None"""
    c = None
    for g, w in zip(guards, writes):
        for key, _ in w:
            d = z3.simplify(key - i)
            if not z3.is_int_value(d) or (c is not None and not c.eq(d)):
                return None
            c = d
    if c is None:
        return None
    at = [w[0][0] for w in writes if w] + [z3.simplify(i + c), i + c]
    mask = z3.FreshConst(ss[1].sort().range())
    hide = [(z3.Select(ss[1], k), mask) for k in at]
    if any(mentions(z3.substitute(e, *hide), [ss[1]]) for g, w in zip(guards, writes) for e in [g] + [v for _, v in w]):
        return None
    return c


def addition(eng, kind, w, ss, default):
    """(key, summand) when the write adds to the old item"""
    key, val = w
    old = z3.Select(ss[1], key)
    if kind == 'dict':
        if not default:
            return None
        old = z3.If(z3.Select(ss[0], key), old, z3.IntVal(0))
    d = z3.simplify(val - old)
    return None if mentions(d, ss) else (key, d)


class SetMat(Form):
    """each iteration writes one entry, row or column of a matrix that the loop does not read; the last write wins"""
    used = False

    def setup(self, kind, writes):
        eng = self.eng
        self.kind, self.writes = kind, writes
        self.r0, self.c0, self.a0 = flat(eng, self.init, self.loc.ty)
        self.A = eng.const(self.a0.sort(), 'matw')
        self.L = eng.const(self.a0.sort() if kind == 'entry' else z3.ArraySort(ZI, ZI), 'lastw')
        return self

    def final(self):
        return VMat(self.r0, self.c0, self.A)

    def at(self, idx):
        # the matrix during the loop is not read
        return VMat(self.r0, self.c0, self.eng.const(self.a0.sort(), 'anymat'))

    def pairs(self, i):
        r, c, a = flat(self.eng, self.s, self.loc.ty)
        return [(r, self.r0), (c, self.c0)]

    def emit(self, sig, rng):
        eng, i, m = self.eng, self.i, self.m
        r, c = z3.Int(eng.name('r')), z3.Int(eng.name('c'))
        hits = [(sig(g), [sig(x) for x in w[0]]) for g, w in zip(self.guards, self.writes) if w]
        g = z3.Or(*[h[0] for h in hits]) if len(hits) > 1 else hits[0][0]
        parts = [merge_vals([(h[0], h[1][t]) for h in hits]) for t in range(len(hits[0][1]))]
        at_ = lambda e, t: z3.substitute(e, (i, t))
        e = z3.Select(z3.Select(self.A, r), c)
        if self.kind == 'entry':
            place = z3.Select(z3.Select(self.L, r), c)
            here = lambda t: z3.And(at_(parts[0], t) == r, at_(parts[1], t) == c)
            val = lambda t: at_(parts[2], t)
            last = z3.Select(z3.Select(self.L, parts[0]), parts[1])
        else:
            k = r if self.kind == 'row' else c
            place = z3.Select(self.L, k)
            here = lambda t: at_(parts[0], t) == k
            val = lambda t: z3.Select(at_(parts[1], t), c if self.kind == 'row' else r)
            last = z3.Select(self.L, parts[0])
        eng.assume(forall([r, c], z3.And(place >= -1, place < z3.If(m > 0, m, z3.IntVal(0)),
                                         z3.Implies(place >= 0, z3.And(at_(g, place), here(place), e == val(place))),
                                         z3.Implies(place < 0, e == z3.Select(z3.Select(self.a0, r), c))), [e]))
        pats = source_patterns(z3.And(*[p == p for p in parts if z3.is_int(p)]), i)
        if self.kind != 'entry' and parts[0].eq(i):
            pats = [last] + pats
        eng.assume(forall([i], z3.Implies(z3.And(rng, g), z3.And(last >= i, last < m)), pats or None))


def mat_write(arr, base):
    """(kind, parts) of a single write to the matrix `base`"""
    if z3.is_app(arr) and arr.decl().name() == 'setcol' and arr.arg(0).eq(base):
        return 'col', [arr.arg(1), arr.arg(2)]
    st = stores(arr, base)
    if st is None or len(st) != 1:
        return None
    r, row = st[0]
    old = z3.Select(base, r)
    if z3.is_store(row) and row.arg(0).eq(old):
        return 'entry', [r, row.arg(1), row.arg(2)]
    return 'row', [r, row]


class SetItems(Form):
    """each path writes a known number of items of a list (or keys of a dict), last write wins"""

    def setup(self, kind, writes):
        eng = self.eng
        self.kind, self.writes = kind, writes
        ty = self.loc.ty
        if kind == 'list':
            self.n0, self.v0 = flat(eng, self.init, ty)
            self.ksort = ZI
        else:
            self.d0, self.v0 = flat(eng, self.init, ty)
            self.ksort = ty.args[0].sort
        self.maxw = max(len(w) for w in writes)
        if self.maxw > 1:
            raise Unsupported('several item writes per iteration')
        self.A = eng.const(self.v0.sort(), 'items')
        self.L = eng.const(z3.ArraySort(self.ksort, ZI), 'last')
        self.F = eng.const(z3.ArraySort(self.ksort, ZI), 'firstw')
        self.W = None
        return self

    def wseq(self):
        if self.W is None:
            self.W = self.eng.const(z3.ArraySort(ZI, self.v0.sort()), 'itemsat')
        return self.W

    whole, partial = None, True

    def elements(self, g, key, val):
        """a dict made from a whole set with different keys for different elements, stated without the order of enumeration"""
        eng = self.eng
        if self.used or self.partial or self.kind == 'list' or not is_empty_set(self.d0):
            return False
        r = by_element(eng, self.i, self.m, [g, key, val])
        if r is None:
            return False
        S, x, (g, key, val) = r
        A = self.A
        dom = eng.const(self.d0.sort(), 'dom')
        inS = z3.Select(S, x)
        srcp = [inS] if z3.is_const(S) else []
        if key.eq(x):
            eng.assume(forall([x], z3.Select(dom, x) == z3.And(inS, g), [z3.Select(dom, x)] + srcp))
            eng.assume(forall([x], z3.Implies(z3.Select(dom, x), z3.Select(A, x) == val), [z3.Select(A, x)] + source_patterns(val, x)))
        else:
            y = z3.Const(eng.name('e'), x.sort())
            at = lambda t, u: z3.substitute(t, (x, u))
            goal = z3.ForAll([x, y], z3.Implies(z3.And(inS, g, at(inS, y), at(g, y), key == at(key, y)), x == y))
            if theory.prove(eng.path.all(), goal, 2000, use_cvc5=True)[0] != 'proved':
                return False
            k = z3.Const(eng.name('k'), self.ksort)
            src = z3.Select(eng.const(z3.ArraySort(self.ksort, x.sort()), 'src'), k)
            pats = source_patterns(key, x) + srcp
            eng.assume(forall([x], z3.Implies(z3.And(inS, g), z3.And(z3.Select(dom, key), z3.Select(A, key) == val)), pats or None))
            eng.assume(forall([k], z3.Implies(z3.Select(dom, k), z3.And(at(inS, src), at(g, src), at(key, src) == k, z3.Select(A, k) == at(val, src))),
                              [z3.Select(dom, k)]))
        self.whole = dom
        return True

    def final(self):
        ty = self.loc.ty
        if self.whole is not None:
            return VDict(dom=self.whole, val=self.A, kty=ty.args[0], vty=ty.args[1])
        if self.kind == 'list':
            return VList(n=self.n0, arr=self.A, ety=ty.args[0], kind=ty.kind)
        return VDict(dom=self.dom_at(self.m), val=self.A, kty=ty.args[0], vty=ty.args[1])

    def dom_at(self, idx):
        eng = self.eng
        k = z3.Const(eng.name('k'), self.ksort)
        dom = eng.const(self.d0.sort(), 'dom')
        rhs = z3.And(z3.Select(self.F, k) >= 0, z3.Select(self.F, k) < idx)
        if not is_empty_set(self.d0):
            rhs = z3.Or(z3.Select(self.d0, k), rhs)
        eng.assume(forall([k], z3.Select(dom, k) == rhs, [z3.Select(dom, k), z3.Select(self.F, k)]))
        return dom

    def at(self, idx):
        ty = self.loc.ty
        if self.kind == 'list':
            return VList(n=self.n0, arr=z3.Select(self.wseq(), idx), ety=ty.args[0], kind=ty.kind)
        return VDict(dom=self.dom_at(idx), val=z3.Select(self.wseq(), idx), kty=ty.args[0], vty=ty.args[1])

    used = True

    def pairs(self, i):
        a, b = flat(self.eng, self.s, self.loc.ty)
        if not self.used:
            return [(a, self.n0)] if self.kind == 'list' else []
        if self.kind == 'list':
            return [(a, self.n0), (b, z3.Select(self.wseq(), i))]
        k = z3.Const(self.eng.name('k'), self.ksort)
        dom = z3.Lambda([k], z3.Or(z3.Select(self.d0, k), z3.And(z3.Select(self.F, k) >= 0, z3.Select(self.F, k) < i)))
        return [(a, dom), (b, z3.Select(self.wseq(), i))]

    def emit(self, sig, rng):
        eng, i, m, A, L, F = self.eng, self.i, self.m, self.A, self.L, self.F
        k = z3.Const(eng.name('k'), self.ksort)
        Lk, Fk = z3.Select(L, k), z3.Select(F, k)
        hits = [(sig(g), sig(w[0][0]), sig(w[0][1])) for g, w in zip(self.guards, self.writes) if w]
        g = z3.Or(*[h[0] for h in hits]) if len(hits) > 1 else hits[0][0]
        key = merge_vals([(h[0], h[1]) for h in hits])
        val = merge_vals([(h[0], h[2]) for h in hits])
        at_ = lambda e, t: z3.substitute(e, (i, t))
        if self.elements(g, key, val):
            return
        inL = z3.And(Lk >= 0, Lk < m)
        eng.assume(forall([k], z3.And(Lk >= -1, Lk < z3.If(m > 0, m, z3.IntVal(0)),
                                      z3.Implies(Lk >= 0, z3.And(at_(g, Lk), at_(key, Lk) == k, z3.Select(A, k) == at_(val, Lk))),
                                      z3.Implies(Lk < 0, z3.Select(A, k) == z3.Select(self.v0, k))),
                          [z3.Select(A, k), Lk]))
        pats = source_patterns(key, i) + ([z3.Select(L, i)] if key.eq(i) else [])
        eng.assume(forall([i], z3.Implies(z3.And(rng, g), z3.And(z3.Select(L, key) >= i, z3.Select(L, key) < m)), pats or None))
        eng.assume(forall([i, k], z3.Implies(z3.And(rng, g, i > Lk), key != k), None if not source_patterns(key, i) else
                          [theory.MP(source_patterns(key, i)[0], Lk)]))
        if self.kind != 'list':
            eng.assume(forall([k], z3.And(z3.Implies(z3.And(Fk >= 0, Fk < m), z3.And(at_(g, Fk), at_(key, Fk) == k)),
                                          (Lk >= 0) == z3.And(Fk >= 0, Fk < m), z3.Implies(Lk >= 0, Fk <= Lk)), [Fk, Lk]))
            eng.assume(forall([i], z3.Implies(z3.And(rng, g), z3.And(z3.Select(F, key) >= 0, z3.Select(F, key) <= i)), pats or None))
        if self.W is not None:
            W = self.W
            nx = z3.Int(eng.name('nx'))
            eng.assume(z3.Select(W, 0) == self.v0)
            eng.assume(z3.Select(W, m) == A)
            step = z3.If(g, z3.Store(z3.Select(W, i), key, val), z3.Select(W, i))
            eng.assume(forall([i, nx], z3.Implies(z3.And(rng, nx == i + 1), z3.Select(W, nx) == step),
                              [theory.MP(z3.Select(W, i), z3.Select(W, nx))]))


def classify(eng, loc, init, s, consts, es, guards, i, m):
    ty = loc.ty
    args = (eng, loc, init, s, consts, es, guards, i, m)
    if not es:
        return Same(*args)
    ss = flat(eng, s, ty)
    ees = [flat(eng, e, ty) for e in es]
    if all(all(a.eq(b) for a, b in zip(ss, ee)) for ee in ees):
        return Same(*args)
    k = ty.kind
    if k == 'int':
        deltas = [z3.simplify(ee[0] - ss[0]) for ee in ees]
        if not any(mentions(d, consts) for d in deltas):
            return Additive(*args).setup(deltas)
    if k in ('int', 'bool', 'U', 'tuple', 'list', 'tup', 'set', 'dict', 'str', 'obj'):
        if not any(mentions(t, consts) for ee in ees for t in ee):
            # does any path read the old value?
            return LastWrite(*args)
    if k in ('list', 'tup', 'str'):
        apps = []
        for n_e, a_e in ees:
            d = z3.simplify(n_e - ss[0])
            if not z3.is_int_value(d):
                apps = None
                break
            q = d.as_long()
            st = stores(a_e, ss[1])
            if st is None or len(st) != q or any(not is_zero(ix - ss[0] - t) for t, (ix, _) in enumerate(st)):
                apps = None
                break
            apps.append([v for _, v in st])
        if apps is not None:
            qs = {len(x) for x in apps}
            if len(qs) == 1:
                return MapList(*args).setup(apps, qs.pop())
            if qs == {0, 1}:
                return FilterList(*args).setup(apps)
        if all(is_zero(n_e - ss[0]) for n_e, _ in ees):
            ws = [merged_stores(a_e, ss[1]) for _, a_e in ees]
            if all(w is not None for w in ws) and max(len(w) for w in ws) == 1:
                c = own_item(ws, guards, ss, i)
                if c is not None:
                    return OwnItem(*args).setup(ws, c)
                if ty.args and ty.args[0] == INT:
                    adds = [[addition(eng, 'list', x, ss, None) for x in w] for w in ws]
                    if all(x is not None for w in adds for x in w):
                        return SumItems(*args).setup('list', adds)
                return SetItems(*args).setup('list', ws)
    if k == 'set':
        vals = []
        for (a_e,) in ees:
            st = stores(a_e, ss[0])
            if st is None or any(not z3.is_true(v) for _, v in st):
                vals = None
                break
            vals.append([x for x, _ in st])
        if vals is not None:
            return AddSet(*args).setup(vals)
    if k == 'dict':
        ws = []
        for d_e, v_e in ees:
            sd, sv = merged_stores(d_e, ss[0]), merged_stores(v_e, ss[1])
            if sd is None or sv is None or len(sd) != len(sv) or any(not z3.is_true(v) for _, v in sd) or \
                    any(not a[0].eq(b[0]) for a, b in zip(sd, sv)):
                ws = None
                break
            ws.append(sv)
        if ws is not None and max(len(w) for w in ws) == 1:
            if ty.args[1] == INT:
                adds = [[addition(eng, 'dict', x, ss, getattr(loc_owner(loc, init), 'default', None) is int) for x in w] for w in ws]
                if all(x is not None for w in adds for x in w):
                    return SumItems(*args).setup('dict', adds)
            return SetItems(*args).setup('dict', ws)
    if k == 'mat' and all(ee[0].eq(ss[0]) and ee[1].eq(ss[1]) for ee in ees):
        ws = [None if ee[2].eq(ss[2]) else mat_write(ee[2], ss[2]) or () for ee in ees]
        kinds = {w[0] if w else None for w in ws if w is not None}
        # the matrix must not be read: neither by what is written nor by the conditions
        if len(kinds) == 1 and None not in kinds and not any(mentions(x, [ss[2]]) for w in ws if w for x in w[1]) and \
                not any(mentions(g, [ss[2]]) for g in guards):
            return SetMat(*args).setup(kinds.pop(), [[w[1]] if w else [] for w in ws])
    return Recurrence(*args)


def loc_owner(loc, init):
    return loc.owner if loc.kind == 'obj' else init


def is_zero(e):
    e = z3.simplify(e)
    return z3.is_int_value(e) and e.as_long() == 0


# ---------------------------------------------------------------------- comprehensions and quantifiers

def comprehension(eng, node, kind):
    if eng.spec:
        return spec_comprehension(eng, node, kind)
    from . import models
    gens = node.generators
    if kind == 'list':
        acc = eng.new(VList(items=[]))
    elif kind == 'set':
        acc = eng.new(VSet(items=[]))
    else:
        acc = eng.new(VDict(items={}))
    frame = eng.frame
    outer_env = frame.env
    env = Env(outer_env)

    def run(gi):
        if gi == len(gens):
            if kind == 'dict':
                k = eng.ev(node.key)
                models.setitem(eng, acc, k, eng.ev(node.value))
            elif kind == 'list':
                models.list_append(eng, acc, eng.ev(node.elt))
            else:
                models.METHODS[('set', 'add')](eng, acc, eng.ev(node.elt))
            return
        g = gens[gi]
        seq = eng.to_seq(eng.ev(g.iter))

        def body(i):
            eng.assign(g.target, seq.item(i))
            for c in g.ifs:
                if not eng.decide(eng.ev(c)):
                    return
            run(gi + 1)

        if seq.concrete is not None:
            for x in list(seq.concrete):
                eng.assign(g.target, x)
                if all(eng.decide(eng.ev(c)) for c in g.ifs):
                    run(gi + 1)
        else:
            summarize(eng, seq.n, body, (), frozenset(target_names(g.target)))

    frame.env = env
    try:
        run(0)
    finally:
        frame.env = outer_env
    return acc


def quantified(eng, name, gen):
    if eng.spec:
        return spec_quantifier(eng, name, gen)
    frame = eng.frame
    outer_env = frame.env
    env = Env(outer_env)
    frame.env = env
    is_all = name == 'all'

    class Found(Exception):
        pass

    def run(gi):
        if gi == len(gen.generators):
            t = eng.truth(eng.ev(gen.elt))
            if eng.decide(t) != is_all:
                raise BreakEx
            return
        g = gen.generators[gi]
        seq = eng.to_seq(eng.ev(g.iter))
        if seq.concrete is not None:
            for x in list(seq.concrete):
                eng.assign(g.target, x)
                if all(eng.decide(eng.ev(c)) for c in g.ifs):
                    run(gi + 1)
            return

        def body(i):
            eng.assign(g.target, seq.item(i))
            for c in g.ifs:
                if not eng.decide(eng.ev(c)):
                    return
            run(gi + 1)
        found = [False]

        def body2(i):
            body(i)
        # a break inside means: decided; it has to leave every generator
        flag = _FlagBreak()
        summarize_break(eng, seq.n, body2, flag, frozenset(target_names(g.target)))
        if flag.hit:
            raise BreakEx

    try:
        run(0)
        return is_all
    except BreakEx:
        return not is_all
    finally:
        frame.env = outer_env


class _FlagBreak:
    hit = False


def summarize_break(eng, n, body, flag, targets):
    """summarize, and tell whether the loop was left by break"""
    marker = ['no']
    summarize(eng, n, body, [_MarkStmt(flag)], targets)


class _MarkStmt(ast.stmt):
    _fields = ()
    lineno = 0

    def __init__(self, flag):
        self.flag = flag
        flag.hit = True  # becomes False when the loop ends without break


def _st_mark(self, s):
    s.flag.hit = False


from .core import Engine  # noqa: E402
Engine.st__MarkStmt = _st_mark


def bind_generator(eng, g):
    """(bound variables, guard) of a generator in a specification"""
    it = g.iter
    v = eng.ev(it)
    if isinstance(v, VNat):
        x = z3.Int(eng.name('q'))
        eng.assign(g.target, x)
        guard = [] if getattr(v, 'all', False) else [x >= 0]
        bound = [x]
    elif isinstance(v, VRange):
        x = z3.Int(eng.name('q'))
        eng.assign(g.target, x)
        guard = [x >= eng.to_int(v.start), x < eng.to_int(v.stop)]
        bound = [x]
        if v.step != 1:
            raise Unsupported('range step in specification')
    elif isinstance(v, VSet) and v.items is None:
        x = z3.Const(eng.name('q'), v.ety.sort)
        eng.assign(g.target, eng.wrap(v.ety, x))
        guard = [z3.Select(v.arr, x)]
        bound = [x]
    elif isinstance(v, VDict) and v.items is None:
        x = z3.Const(eng.name('q'), v.kty.sort)
        eng.assign(g.target, eng.wrap(v.kty, x))
        guard = [z3.Select(v.dom, x)]
        bound = [x]
    elif isinstance(v, VSeq) and getattr(v, 'dict', None) is not None:
        d = v.dict
        x = z3.Const(eng.name('q'), d.kty.sort)
        eng.assign(g.target, (eng.wrap(d.kty, x), eng.wrap(d.vty, z3.Select(d.val, x))))
        guard = [z3.Select(d.dom, x)]
        bound = [x]
    else:
        s = eng.to_seq(v)
        if s.concrete is not None:
            return None, s.concrete
        x = z3.Int(eng.name('q'))
        eng.assign(g.target, s.item(x))
        guard = [x >= 0, x < s.n]
        bound = [x]
    return bound, guard


def spec_quantifier(eng, name, gen):
    frame = eng.frame
    outer = frame.env
    frame.env = Env(outer)
    from . import models

    def run(gi):
        if gi == len(gen.generators):
            return models.zb(eng.truth(eng.ev(gen.elt)))
        g = gen.generators[gi]
        bound, guard = bind_generator(eng, g)
        if bound is None:
            parts = []
            for x in guard:
                eng.assign(g.target, x)
                conds = [models.zb(eng.truth(eng.ev(c))) for c in g.ifs]
                b = run(gi + 1)
                if name == 'all':
                    parts.append(z3.Implies(z3.And(*conds), b) if conds else b)
                else:
                    parts.append(z3.And(*conds, b))
            if not parts:
                return z3.BoolVal(name == 'all')
            return z3.And(*parts) if name == 'all' else z3.Or(*parts)
        guard = guard + [models.zb(eng.truth(eng.ev(c))) for c in g.ifs]
        b = run(gi + 1)
        if name == 'all':
            # merge nested universal quantifiers
            return ('q', bound, guard, b)
        return ('q', bound, guard, b)

    def close(t):
        if not isinstance(t, tuple):
            return t
        bound, guards, cur = [], [], t
        while isinstance(cur, tuple):
            bound += cur[1]
            guards += cur[2]
            cur = cur[3]
        if name == 'all':
            return z3.ForAll(bound, z3.Implies(z3.And(*guards), cur) if guards else cur)
        return z3.Exists(bound, z3.And(*guards, cur))

    try:
        return close(run(0))
    finally:
        frame.env = outer


def spec_comprehension(eng, node, kind):
    from . import models
    frame = eng.frame
    outer = frame.env
    frame.env = Env(outer)
    try:
        if kind == 'list' and len(node.generators) == 1 and not node.generators[0].ifs:
            g = node.generators[0]
            s = eng.to_seq(eng.ev(g.iter))
            if s.concrete is not None:
                out = []
                for x in s.concrete:
                    eng.assign(g.target, x)
                    out.append(eng.ev(node.elt))
                return VList(items=out)
            j = z3.Int(eng.name('j'))
            eng.assign(g.target, s.item(j))
            v = eng.ev(node.elt)
            ety = eng.typeof(v)
            return VList(n=s.n, arr=z3.Lambda([j], eng.unwrap(v, ety)), ety=ety)
        if kind == 'set':
            bs, gs = [], []
            for g in node.generators:
                bound, guard = bind_generator(eng, g)
                if bound is None:
                    raise Unsupported('set comprehension in specification')
                bs += bound
                gs += guard + [models.zb(eng.truth(eng.ev(c))) for c in g.ifs]
            v = eng.ev(node.elt)
            ety = eng.typeof(v)
            vv = eng.unwrap(v, ety)
            x = z3.Const(eng.name('x'), ety.sort)
            if len(bs) == 1 and vv.eq(bs[0]):
                return VSet(arr=z3.Lambda([x], z3.substitute(z3.And(*gs), (bs[0], x))), ety=ety)
            return VSet(arr=z3.Lambda([x], z3.Exists(bs, z3.And(*gs, vv == x))), ety=ety)
        raise Unsupported('comprehension in specification')
    finally:
        frame.env = outer


def image_set(eng, s):
    acc = eng.new(VSet(items=[]))
    from . import models

    def body(i):
        models.METHODS[('set', 'add')](eng, acc, s.item(i))
    summarize(eng, s.n, body)
    return acc


# ---------------------------------------------------------------------- invariants

class LoopSpec:
    def __init__(self, inv=(), decreases=None, types=None, hints=(), then=()):
        self.then = list(then)      # consequences once the loop is over, proved and then used
        self.inv = list(inv)
        self.decreases = decreases
        self.types = types or {}
        self.hints = list(hints)


def inv_env(eng, extra):
    env = {}
    for e in reversed(eng.env_chain()):
        env.update(e)
    env.update(extra)
    return env


def eval_inv(eng, text, extra, contract):
    return eng.spec_bool(text, inv_env(eng, extra), contract)


def prove_here(eng, name, texts, extra, contract):
    """facts that are proved at this place and used from here on"""
    for h in texts:
        goal = eval_inv(eng, h, extra, contract)
        eng.oblige(f'{name} {h}', goal)
        eng.assume(goal)


def at_start(eng):
    """values at the start of the iteration"""
    return {f'prev_{k}': eng.freeze(v) for e in reversed(eng.env_chain()) for k, v in e.items()}


def apply_types(eng, spec):
    from .contracts import coerce
    from .types import parse
    for k, t in spec.types.items():
        for e in eng.env_chain():
            if k in e:
                e[k] = coerce(eng, e[k], parse(t) if isinstance(t, str) else t)
                break


def discover_lenient(eng, node, n, body, pre, types):
    """locations that the body changes; paths outside of the subset are left out here, because the run from an arbitrary
    state that satisfies the invariant checks that nothing else is changed"""
    from .core import PathEnd
    cache = eng.__dict__.setdefault('discovered', {})
    at = (id(node), eng.counter, tuple(eng.path.trail[:eng.path.pos]), len(pre)) if eng.record else None
    if at in cache:
        # the same place, reached again on the way to another path
        found, bad, eng.counter = cache[at]
        changed = {}
        keys = list(pre)
        for k, ty in found:
            loc = pre[keys[k]][0]
            if ty is not None:
                loc.ty = ty
            changed[keys[k]] = loc
        return changed, {keys[k] for k in bad}

    def attempt(i):
        try:
            body(i)
        except Unsupported:
            raise PathEnd
    eng.lenient = getattr(eng, 'lenient', 0) + 1
    try:
        changed, starts, sconsts, sfacts, i, results, poison = discover(eng, n, attempt, pre, types)
    finally:
        eng.lenient -= 1
    if at is not None:
        keys = {key: k for k, key in enumerate(pre)}
        cache[at] = [(keys[k], getattr(loc, 'ty', None)) for k, loc in changed.items()], [keys[k] for k in poison], eng.counter
    return changed, poison


def only_changed(eng, before, changed):
    after = capture(eng)
    for key, (loc, v0) in before.items():
        if key in changed:
            continue
        v1 = after[key][1] if key in after else _MISSING
        if v1 is _MISSING or not same(v0, v1):
            raise Unsupported(f'loop also changes {loc}')


def invariant_for(eng, s, seq, spec, body, it):
    contract = eng.frame.contract or eng.contracts.loops_for(eng.frame.node)
    n = eng.to_int(seq.n)
    if eng.feasible(n < 0):
        n = z3.If(n > 0, n, z3.IntVal(0))
    label = f'loop at line {s.lineno}'
    apply_types(eng, spec)
    entry = {f'entry_{k}': eng.freeze(v) for e in reversed(eng.env_chain()) for k, v in e.items()}
    entry.update({k: v for k, v in (eng.frame.entry or {}).items()})
    gh = {'_n': n, '_xs': it if isinstance(it, (VList, VSet, VDict)) else None, '_item': VSeqFn(seq)}
    for c, t in enumerate(spec.inv):
        eng.oblige(f'{label} invariant#{c} holds initially', eval_inv(eng, t, {**entry, **gh, '_i': z3.IntVal(0)}, contract))
    pre = capture(eng)
    changed, poison = discover_lenient(eng, s, n, body, pre, spec.types)
    eng._loopinv_used.add((id(contract), s.lineno))
    # arbitrary state satisfying the invariant
    idx = eng.const(ZI, '_i')
    for key, loc in changed.items():
        v = VOpaque('loop variable') if key in poison else eng.fresh(loc.ty, str(loc.name or 'o'))
        same_shape(loc, v, pre)
        install(eng, loc, v)
    for t in target_names(s.target):
        for e in eng.env_chain():
            if ('env', id(e), t) not in pre and t in e:
                del e[t]
    b = eng.const(z3.BoolSort(), 'iterate')
    if eng.decide(b):
        eng.assume(z3.And(idx >= 0, idx < n))
        for t in spec.inv:
            eng.assume(eval_inv(eng, t, {**entry, **gh, '_i': idx}, contract))
        before_body = capture(eng)
        if spec.hints:
            gh.update(at_start(eng))
        try:
            body(idx)
        except ContinueEx:
            pass
        except BreakEx:
            prove_here(eng, f'{label} then', spec.then, {**entry, **gh, '_i': idx}, contract)
            return
        only_changed(eng, before_body, changed)
        prove_here(eng, f'{label} hint', spec.hints, {**entry, **gh, '_i': idx}, contract)
        for c, t in enumerate(spec.inv):
            goal = eval_inv(eng, t, {**entry, **gh, '_i': z3.simplify(idx + 1)}, contract)
            eng.oblige(f'{label} invariant#{c} is kept', goal)
            eng.assume(goal)
        raise PathEnd
    eng.assume(idx == n)
    eng.assume(n >= 0)
    for t in spec.inv:
        eng.assume(eval_inv(eng, t, {**entry, **gh, '_i': n}, contract))
    prove_here(eng, f'{label} then', spec.then, {**entry, **gh, '_i': n}, contract)
    eng.block(s.orelse)


class VSeqFn:
    """`_item(k)` in an invariant: the k-th element of the iterated sequence"""
    _pyvc_model = True

    def __init__(self, seq):
        self.seq = seq

    def __call__(self, eng, k):
        return self.seq.item(eng.to_int(k))


def invariant_while(eng, s, spec):
    contract = eng.frame.contract or eng.contracts.loops_for(eng.frame.node)
    label = f'loop at line {s.lineno}'
    apply_types(eng, spec)
    entry = {f'entry_{k}': eng.freeze(v) for e in reversed(eng.env_chain()) for k, v in e.items()}
    entry.update({k: v for k, v in (eng.frame.entry or {}).items()})
    for c, t in enumerate(spec.inv):
        eng.oblige(f'{label} invariant#{c} holds initially', eval_inv(eng, t, entry, contract))

    def body(_):
        if not eng.decide(eng.ev(s.test)):
            raise BreakEx
        eng.block(s.body)

    pre = capture(eng)
    changed, poison = discover_lenient(eng, s, None, body, pre, spec.types)
    for key, loc in changed.items():
        v = VOpaque('loop variable') if key in poison else eng.fresh(loc.ty, str(loc.name or 'o'))
        same_shape(loc, v, pre)
        install(eng, loc, v)
    for t in spec.inv:
        eng.assume(eval_inv(eng, t, entry, contract))
    if eng.decide(eng.ev(s.test)):
        before = eng.spec_eval(spec.decreases, inv_env(eng, entry), contract) if spec.decreases else None
        before_body = capture(eng)
        if spec.hints:
            entry.update(at_start(eng))
        try:
            eng.block(s.body)
        except ContinueEx:
            pass
        except BreakEx:
            prove_here(eng, f'{label} then', spec.then, entry, contract)
            return
        only_changed(eng, before_body, changed)
        prove_here(eng, f'{label} hint', spec.hints, entry, contract)
        for c, t in enumerate(spec.inv):
            goal = eval_inv(eng, t, entry, contract)
            eng.oblige(f'{label} invariant#{c} is kept', goal)
            eng.assume(goal)
        if spec.decreases:
            after = eng.spec_eval(spec.decreases, inv_env(eng, entry), contract)
            eng.oblige(f'{label} terminates', z3.And(before >= 0, after < before))
        raise PathEnd
    prove_here(eng, f'{label} then', spec.then, entry, contract)
    eng.block(s.orelse)
