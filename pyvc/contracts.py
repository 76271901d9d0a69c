"""Contracts, lemmas, and the procedure that turns them into obligations."""
import ast
import builtins
import copy
import functools
import importlib
import inspect
import time
import traceback
import types as pytypes

import z3

from .types import parse, SHAPES, shape, INT, BOOL
from .values import *
from . import core, theory, models
from .core import Engine, Env, Frame, Path, PyRaise, ReturnEx, Infeasible, fn_node
from .loops import LoopSpec


def resolve(path):
    """dotted path -> (function object, owner class or None)"""
    parts = path.split('.')
    obj, owner = None, None
    for k in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:k]))
        except ImportError:
            continue
        try:
            cur, own = obj, None
            for p in parts[k:]:
                own = cur if isinstance(cur, type) else None
                if isinstance(cur, type):
                    a = None
                    for kls in cur.__mro__:
                        if p in kls.__dict__:
                            a = kls.__dict__[p]
                            break
                    if a is None:
                        raise AttributeError(p)
                    cur = a
                else:
                    cur = getattr(cur, p)
            if inspect.ismodule(cur):
                # a function that has the name of its module
                if not inspect.isfunction(getattr(cur, parts[-1], None)):
                    continue
                cur = getattr(cur, parts[-1])
            obj, owner = cur, own
            break
        except AttributeError:
            continue
    else:
        raise ImportError(path)
    if isinstance(obj, functools.cached_property):
        obj = obj.func
    elif isinstance(obj, property):
        obj = obj.fget
    elif isinstance(obj, staticmethod):
        obj = obj.__func__
    return obj, owner


class Contract:
    def __init__(self, target, args=None, requires=(), returns=None, ensures=(), raises=(), modifies=None, loops=None,
                 props=(), case='', inline=False, recursive=False, globals=None, exc_module=None, assumed=None,
                 returns_cls=None, proof=True, gen=None, hints=(), opaque_result=False, timeout=None, note='', check_frame=True, empty=None, pre=(), after=None):
        self.target, self.case = target, case
        self.id = target.replace('discretehelpers.', '') + (f'[{case}]' if case else '')
        self.short = target.split('.')[-1].strip('_')
        self.args = dict(args or {})
        self.requires, self.ensures = list(requires), list(ensures)
        self.returns = parse(returns) if isinstance(returns, str) else returns
        self.raises = [(e, c) for e, c in raises]
        self.modifies = modifies or {}
        self.loops = {k: (v if isinstance(v, LoopSpec) else LoopSpec(**v)) for k, v in (loops or {}).items()}
        self.props, self.inline, self.recursive = list(props), inline, recursive
        self.globals = globals or {}
        self.assumed = assumed  # reason, when the contract is trusted and not proved
        self.returns_cls = returns_cls
        self.proof, self.gen, self.hints = proof, gen, list(hints)
        self.opaque_result = opaque_result
        self.timeout = timeout
        self.note = note
        self.check_frame = check_frame
        self.pre = list(pre)  # consequences of the precondition, proved first
        self.after = dict(after or {})  # variable -> facts proved after each assignment to it
        self.empty = empty  # element type of empty lists that nothing else determines
        self.fn = self.owner = None

    def resolve(self):
        self.fn, self.owner = resolve(self.target)
        return self

    def exc(self, name):
        if isinstance(name, type):
            return name
        import builtins
        if hasattr(builtins, name):
            return getattr(builtins, name)
        g = self.fn.__globals__
        if name in g:
            return g[name]
        mod = importlib.import_module(name.rsplit('.', 1)[0]) if '.' in name else None
        if mod is not None:
            return getattr(mod, name.rsplit('.', 1)[1])
        raise Unsupported(f'exception {name}')

    def params(self):
        return list(inspect.signature(self.fn).parameters.values())

    def try_bind(self, eng, fn, args, kwargs):
        try:
            node = fn_node(fn)
            defaults = tuple(eng.import_value(x) for x in (fn.__defaults__ or ()))
            kwd = {k: eng.import_value(x) for k, x in (fn.__kwdefaults__ or {}).items()}
            env = eng.bind(node, args, kwargs, defaults, kwd, fn.__qualname__)
        except Unsupported:
            return None
        for p in self.params():
            v = env.get(p.name)
            if p.name in self.args:
                if not matches(eng, v, self.args[p.name]):
                    return None
            elif p.default is not inspect.Parameter.empty:
                if not (eng.is_plain(v) and v == p.default and type(v) == type(p.default)):
                    return None
            elif p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
                if v:
                    return None
            else:
                return None
        return env


def matches(eng, v, pat):
    if isinstance(pat, str) and pat.startswith('const:'):
        c = eval(pat[6:])
        return eng.is_plain(v) and type(v) == type(c) and v == c
    if pat == 'new':
        return isinstance(v, VObj)
    if pat == 'any':
        return True
    ty = parse(pat)
    k = ty.kind
    if k == 'none':
        return v is None
    if k == 'opt':
        return v is None or matches(eng, v, str(ty.args[0]))
    if k == 'int':
        return is_sym_int(v) or (isinstance(v, int) and not isinstance(v, bool))
    if k == 'bool':
        return is_sym_bool(v) or isinstance(v, bool)
    if k in ('list', 'tup', 'str'):
        if k == 'str' and isinstance(v, str):
            return True
        if k == 'tup' and isinstance(v, tuple):
            v = VList(items=list(v), kind='tup')
        if not isinstance(v, VList) or v.kind != k:
            return False
        if k == 'str':
            return True
        if v.concrete:
            return all(matches(eng, x, ty.args[0]) for x in v.items)
        return v.ety == ty.args[0]
    if k == 'set':
        if not isinstance(v, VSet):
            return False
        if v.items is not None:
            return all(matches(eng, x, ty.args[0]) for x in v.items)
        return v.ety == ty.args[0]
    if k == 'dict':
        if not isinstance(v, VDict):
            return False
        if v.items is not None:
            return all(matches(eng, x, ty.args[0]) for x in v.items) and all(matches(eng, x, ty.args[1]) for x in v.items.values())
        return v.kty == ty.args[0] and v.vty == ty.args[1]
    if k == 'obj':
        shp = SHAPES[ty.args[0]]
        return isinstance(v, VObj) and v.cls is shp.cls and all(f in v.fields and matches(eng, v.fields[f], t) for f, t in shp.fields.items()) \
            and all(f in v.fields and v.fields[f] == c for f, c in shp.const.items())
    if k == 'tuple':
        return isinstance(v, tuple) and len(v) == len(ty.args) and all(matches(eng, x, a) for x, a in zip(v, ty.args))
    if k == 'U':
        return is_z3(v) and v.sort() == ty.sort
    if k == 'mat':
        return isinstance(v, VMat)
    return False


class Lemma:
    """a statement over the contracts: straight-line code with assertions, executed for arbitrary arguments"""

    def __init__(self, name, args, code, requires=(), ensures=(), props=(), globals=None, timeout=None):
        self.ensures = list(ensures)
        # a conclusion can be used elsewhere, so its proof must not run any code of the repository
        import textwrap
        stmts = ast.parse(textwrap.dedent(code)).body
        assert not ensures or all(isinstance(x, ast.Assert) for x in stmts), name
        self.name, self.id = name, 'lemma ' + name
        self.args, self.requires, self.props = dict(args), list(requires), list(props)
        self.code = code
        self.globals = globals or {}
        self.loops = {}
        self.timeout = timeout
        self.assumed = None


class Registry:
    def __init__(self):
        self.contracts, self.lemmas = [], []
        self.by_fn = {}

    def add(self, c):
        c.resolve()
        self.contracts.append(c)
        self.by_fn.setdefault(c.fn, []).append(c)
        return c

    def for_function(self, fn):
        return self.by_fn.get(fn, [])

    def loops_for(self, node):
        for fn, cs in self.by_fn.items():
            for c in cs:
                if c.loops and fn_node(fn) is node:
                    return c
        return None


REGISTRY = Registry()
MISSING = []  # contracts whose function does not exist any more


def contract(target, **kw):
    c = Contract(target, **kw)
    try:
        REGISTRY.add(c)
    except (ImportError, AttributeError) as e:
        MISSING.append((c, repr(e)))
    return c


def lemma(name, args, code, **kw):
    m = Lemma(name, args, code, **kw)
    REGISTRY.lemmas.append(m)
    return m


class Outcome:
    """result of verifying one contract or lemma"""

    def __init__(self, cid):
        self.id = cid
        self.status = None          # proved | failed | unsupported | assumed
        self.reason = ''
        self.obligations = []       # dicts
        self.paths = 0
        self.seconds = 0.0
        self.inlined, self.used, self.models = [], [], []
        self.backends = {}
        self.files = []

    def as_dict(self):
        return self.__dict__


def make_arg(eng, name, pat, owner):
    if isinstance(pat, str) and pat.startswith('const:'):
        return eng.import_value(eval(pat[6:]))
    if pat == 'new':
        return eng.new(VObj(owner, {}))
    if pat == 'any':
        return VOpaque(name)
    v = eng.fresh(pat, name)
    return v


def verify(c, registry=REGISTRY, timeout=10000, budget=120):
    out = Outcome(c.id)
    t0 = time.time()
    if c.assumed:
        out.status = 'assumed'
        out.reason = c.assumed
        return out
    eng = Engine(registry, timeout)
    theory._sk[0] = 0
    eng.deadline = t0 + budget
    eng.verifying = c
    if isinstance(c, Contract):
        eng.files.add(c.fn.__code__.co_filename)
    try:
        if isinstance(c, Lemma):
            results = run_lemma(eng, c)
        else:
            results = run_contract(eng, c)
        out.paths = len(results)
        if not eng.obligations and not any(True for _ in results):
            raise Unsupported('no path and no obligation: contract is vacuous')
        eng.deadline = None
        discharge(eng, out, c.timeout or timeout, t0 + budget)
        if out.status == 'failed' and isinstance(c, Contract) and c.loops:
            # a proof by invariants that the code has no loops for says nothing when it does not go through
            here = set(core.loop_ordinals(fn_node(c.fn)).values())
            if not set(c.loops) <= here:
                raise Unsupported('the loops that the invariants belong to are gone')
    except Unsupported as e:
        out.status = 'unsupported'
        out.reason = str(e)
    except RecursionError:
        out.status = 'unsupported'
        out.reason = 'recursion limit'
    except (z3.Z3Exception, AttributeError, TypeError, KeyError, ValueError, AssertionError, IndexError, NotImplementedError) as e:
        out.status = 'unsupported'
        out.reason = 'generator: ' + repr(e) + ' ' + traceback.format_exc().strip().split('\n')[-3].strip()
    out.seconds = time.time() - t0
    out.inlined = sorted(eng.inlined)
    out.files = sorted(eng.files)
    out.used = sorted(eng.used_contracts)
    out.models = sorted(str(x) for x in eng.used_models)
    return out


def discharge(eng, out, timeout, until):
    failed = False
    seen = {}
    for ob in eng.obligations:
        key = (ob.goal.get_id(), tuple(p.get_id() for p in ob.premises))
        if key in seen:
            continue
        seen[key] = True
        t = time.time()
        if t > until + 60:
            raise Unsupported('time budget of this function used up')
        r, model, backend = theory.prove(ob.premises, ob.goal, timeout, want_model=True, use_cvc5=True)
        dt = time.time() - t
        rec = {'name': ob.name, 'status': r, 'backend': backend, 'seconds': round(dt, 3)}
        if r != 'proved':
            failed = True
            rec['goal'] = str(ob.goal)[:1500]
            if model is not None:
                rec['model'] = str(model)[:3000]
        out.obligations.append(rec)
        out.backends[backend] = out.backends.get(backend, 0) + 1
    out.status = 'failed' if failed else 'proved'


def free_names(text):
    tree = ast.parse(text.strip(), mode='eval')
    stored = {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    return {x.id for x in ast.walk(tree) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)} - stored


def run_contract(eng, c):
    fn = c.fn
    node = fn_node(fn)

    base = eng.counter

    def thunk():
        # the same names on the common part of the paths, so that its obligations and decisions are settled once
        eng.counter = base
        env = {}
        for p in c.params():
            if p.name in c.args:
                env[p.name] = make_arg(eng, p.name, c.args[p.name], c.owner)
            elif p.default is not inspect.Parameter.empty:
                env[p.name] = eng.import_value(p.default)
            elif p.kind == p.VAR_POSITIONAL:
                env[p.name] = ()
            elif p.kind == p.VAR_KEYWORD:
                env[p.name] = eng.new(VDict(items={}))
            else:
                raise Unsupported(f'argument {p.name} not in contract')
        for r in c.requires:
            eng.assume(eng.spec_bool(r, env, c))
        for k, e in enumerate(c.pre):
            goal = eng.spec_bool(e, env, c)
            eng.oblige(f'initially#{k}: {short(e)}', goal)
            eng.assume(goal)
        old = {f'old_{k}': eng.freeze(v) for k, v in env.items()}
        frames = [(k, v, eng.freeze(v)) for k, v in env.items()]
        fenv = Env()
        fenv.update(env)
        # the function body itself, not its contract
        frame_entry = old
        raised = None
        result = None
        try:
            result = run_top(eng, fn, node, fenv, c, old)
        except PyRaise as e:
            raised = e
        spec_env = {**env, **old}
        if raised is not None:
            conds = [(x, cond) for x, cond in c.raises if issubclass(raised.exc, c.exc(x))]
            if not conds:
                eng.oblige(f'no {raised.exc.__name__} ({raised.where or ""})', z3.BoolVal(False))
            else:
                gs = [eng.spec_bool(cond, {**{k: old['old_' + k] for k in env}, **old}, c) for x, cond in conds if cond is not None]
                if len(gs) == len(conds):
                    eng.oblige(f'{raised.exc.__name__} only when allowed', z3.Or(*gs) if len(gs) > 1 else gs[0])
            return 'raised'
        for k, (x, cond) in enumerate(c.raises):
            if cond is not None:
                calm = z3.Not(eng.spec_bool(cond, {**{k: old['old_' + k] for k in env}, **old}, c))
                eng.oblige(f'raises {x} when required', calm)
                eng.assume(calm)
        if c.opaque_result:
            result = None
        if c.returns is not None:
            result = coerce(eng, result, c.returns)
        for tgt, fields in c.modifies.items():
            if isinstance(env[tgt], VObj):
                for f, t in fields.items():
                    if isinstance(t, str) and (t == 'delete' or t.startswith('const:')):
                        continue
                    if f not in env[tgt].fields:
                        eng.oblige(f'{tgt}.{f} is set', z3.BoolVal(False))
                        return 'returned'
                    env[tgt].fields[f] = coerce(eng, env[tgt].fields[f], parse(t))
        spec_env['result'] = result
        if c.returns is not None:
            if not matches(eng, result, str(c.returns)) and not coercible(eng, result, c.returns):
                eng.oblige(f'result has type {c.returns}', z3.BoolVal(False))
                return 'returned'
        for kind, es in (('hint', c.hints), ('ensures', c.ensures)):
            for k, e in enumerate(es):
                names = spec_env
                if kind == 'hint':
                    # hints may use local variables, where this path has them
                    names = {**fenv, **spec_env}
                    if not free_names(e) <= set(names) | set(fenv) | set(theory.SPEC_GLOBALS) | set(c.globals) | set(dir(builtins)) | set(fn.__globals__):
                        continue
                goal = eng.spec_bool(e, names, c)
                eng.oblige(f'{kind}#{k}: {short(e)}', goal)
                eng.assume(goal)
        if c.check_frame:
            check_frame(eng, c, frames, env)
        return 'returned'

    return eng.explore(thunk)


def short(t):
    t = ' '.join(str(t).split())
    return t if len(t) < 100 else t[:97] + '...'


def coerce(eng, v, ty):
    """give containers the element type that the contract states"""
    k = ty.kind
    if k in ('list', 'tup') and isinstance(v, VList):
        if v.ety is None and v.concrete:
            v.ety = ty.args[0]
    if k == 'tup' and isinstance(v, tuple):
        return VList(items=list(v), kind='tup', ety=ty.args[0])
    if k == 'set' and isinstance(v, VSet) and v.items is not None:
        try:
            eng.make_sym(v, ty.args[0])
        except Unsupported:
            pass
    if k == 'dict' and isinstance(v, VDict) and v.items is not None:
        try:
            d, a = eng.sym_dict(v, *ty.args)
            v.dom, v.val, v.kty, v.vty, v.items = d, a, ty.args[0], ty.args[1], None
        except Unsupported:
            pass
    if k == 'tuple' and isinstance(v, tuple) and len(v) == len(ty.args):
        return tuple(coerce(eng, x, t) for x, t in zip(v, ty.args))
    return v


def coercible(eng, v, ty):
    try:
        eng.unwrap(v, ty)
        return True
    except Unsupported:
        return False


def run_top(eng, fn, node, env, c, old):
    frame = Frame(env, fn.__globals__, fn.__qualname__, c.owner, c, node)
    frame.loop_ids = core.loop_ordinals(node)
    frame.entry = old
    if fn.__closure__:
        outer = Env()
        for nm, cell in zip(fn.__code__.co_freevars, fn.__closure__):
            outer[nm] = eng.import_value(cell.cell_contents)
        env.parent = outer
    saved = eng.frame
    eng.frame = frame
    eng.call_depth += 1
    if isinstance(c, Contract):
        # a call inside the body to the same function uses the contract (recursion)
        eng.verifying = c
    try:
        if eng.is_generator(node):
            frame.yields = eng.new(VList(items=[]))
        try:
            eng.block(node.body)
        except ReturnEx as r:
            return frame.yields if frame.yields is not None else r.value
        return frame.yields
    finally:
        eng.frame = saved
        eng.call_depth -= 1


def check_frame(eng, c, frames, env):
    """arguments are unchanged, except what `modifies` lists"""
    for k, v, before in frames:
        if c.args.get(k) == 'new':
            continue
        if isinstance(v, VObj):
            mod = c.modifies.get(k, {})
            for f, x in before.fields.items():
                if f in mod:
                    continue
                if f not in v.fields:
                    eng.oblige(f'frame: {k}.{f} is kept', z3.BoolVal(False))
                    continue
                y = v.fields[f]
                if x is y:
                    continue
                same = eng.truth(models.eq(SpecEng(eng), x, y)) if not isinstance(x, VOpaque) else True
                if same is not True:
                    eng.oblige(f'frame: {k}.{f} unchanged', same)
        elif isinstance(v, (VList, VSet, VDict)):
            if k in c.modifies:
                continue
            if v.state() == () or all(a is b for a, b in zip(v.state(), before.state())):
                continue
            r = eq_spec(eng, v, before)
            if r is not True:
                eng.oblige(f'frame: argument {k} unchanged', r)


def eq_spec(eng, a, b):
    eng.spec += 1
    try:
        return eng.truth(models.eq(eng, a, b))
    finally:
        eng.spec -= 1


def SpecEng(eng):
    return eng


def run_lemma(eng, c):
    import textwrap
    tree = ast.parse('def lemma():\n' + textwrap.indent(textwrap.dedent(c.code).strip('\n'), '    ') + '\n')
    node = tree.body[0]

    base = eng.counter

    def thunk():
        eng.counter = base
        env = {}
        for k, pat in c.args.items():
            env[k] = make_arg(eng, k, pat, None)
        for r in c.requires:
            eng.assume(eng.spec_bool(r, env, c))
        fenv = Env()
        fenv.update(env)
        frame = Frame(fenv, {**theory.SPEC_GLOBALS, **c.globals}, 'lemma', None, c, node)
        frame.loop_ids = {}
        saved = eng.frame
        eng.frame = frame
        eng.call_depth += 1
        try:
            eng.block(node.body)
            for k, e in enumerate(c.ensures):
                eng.oblige(f'conclusion#{k}: {short(e)}', eng.spec_bool(e, env, c))
        except ReturnEx:
            pass
        except PyRaise as e:
            eng.oblige(f'no {e.exc.__name__} ({e.where or ""})', z3.BoolVal(False))
        finally:
            eng.frame = saved
            eng.call_depth -= 1
        return 'done'
    return eng.explore(thunk)
