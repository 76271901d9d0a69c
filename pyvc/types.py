"""Type descriptors: how Python values of a known shape are represented in z3."""
import z3

_cache = {}


class Ty:
    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args
        self._sort = None

    def __repr__(self):
        if not self.args:
            return self.kind
        return self.kind + '[' + ','.join(str(a) for a in self.args) + ']'

    def __eq__(self, other):
        return isinstance(other, Ty) and repr(self) == repr(other)

    def __hash__(self):
        return hash(repr(self))

    @property
    def mangled(self):
        return repr(self).replace('[', '_').replace(']', '').replace(',', '_').replace(':', '_')

    @property
    def sort(self):
        if self._sort is None:
            self._sort = self._mk()
        return self._sort

    def _mk(self):
        k = self.kind
        if k == 'int':
            return z3.IntSort()
        if k == 'bool':
            return z3.BoolSort()
        if k == 'U':
            return z3.DeclareSort('U_' + self.args[0])
        if k == 'set':
            return z3.ArraySort(self.args[0].sort, z3.BoolSort())
        if k in ('list', 'tup', 'str'):
            ety = self.args[0] if self.args else INT
            d = z3.Datatype('L_' + self.mangled)
            d.declare('mk', ('len', z3.IntSort()), ('arr', z3.ArraySort(z3.IntSort(), ety.sort)))
            return d.create()
        if k == 'dict':
            d = z3.Datatype('D_' + self.mangled)
            d.declare('mk', ('dom', z3.ArraySort(self.args[0].sort, z3.BoolSort())),
                      ('val', z3.ArraySort(self.args[0].sort, self.args[1].sort)))
            return d.create()
        if k == 'tuple':
            d = z3.Datatype('T_' + self.mangled)
            d.declare('mk', *[(f'f{i}', a.sort) for i, a in enumerate(self.args)])
            return d.create()
        if k == 'obj':
            shape = SHAPES[self.args[0]]
            d = z3.Datatype('O_' + self.mangled)
            d.declare('mk', *[(f'fld_{n}', t.sort) for n, t in shape.fields.items()])
            return d.create()
        if k == 'opt':
            d = z3.Datatype('Q_' + self.mangled)
            d.declare('mk', ('some', z3.BoolSort()), ('val', self.args[0].sort))
            return d.create()
        if k == 'mat':
            d = z3.Datatype('M_mat')
            d.declare('mk', ('rows', z3.IntSort()), ('cols', z3.IntSort()),
                      ('arr', z3.ArraySort(z3.IntSort(), z3.ArraySort(z3.IntSort(), z3.IntSort()))))
            return d.create()
        raise TypeError(k)


def parse(s):
    if isinstance(s, Ty):
        return s
    s = s.strip()
    if s in _cache:
        return _cache[s]
    if '[' in s:
        head, rest = s.split('[', 1)
        assert rest.endswith(']')
        rest = rest[:-1]
        parts, depth, cur = [], 0, ''
        for ch in rest:
            if ch == ',' and depth == 0:
                parts.append(cur)
                cur = ''
                continue
            depth += (ch == '[') - (ch == ']')
            cur += ch
        parts.append(cur)
        t = Ty(head, *[parse(x) for x in parts])
    elif s.startswith('U'):
        t = Ty('U', s[2:] if s.startswith('U:') else 'elem')
    elif s.startswith('obj:'):
        t = Ty('obj', s[4:])
    elif s == 'str':
        t = Ty('str')
    else:
        t = Ty(s)
    if repr(t) in _cache:
        t = _cache[repr(t)]
    _cache[repr(t)] = t
    _cache[s] = t
    return t


INT = parse('int')
BOOL = parse('bool')


class Shape:
    """Fields an instance of a repository class has in its abstract state, and its representation invariant."""

    def __init__(self, name, cls, fields, inv=(), const=None, optional=None, derived=None):
        self.name = name
        self.cls = cls
        self.fields = {k: parse(v) for k, v in fields.items()}
        self.inv = list(inv)
        self.const = dict(const or {})
        self.optional = dict(optional or {})
        self.derived = dict(derived or {})


SHAPES = {}


def shape(name, cls, fields, inv=(), const=None, optional=None, derived=None):
    SHAPES[name] = Shape(name, cls, fields, inv, const, optional, derived)
    return SHAPES[name]
