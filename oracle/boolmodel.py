"""Naive Boolean functions: sorted atoms and the list of values, reduced by trying each atom."""
from fractions import Fraction
from lib import *
from discretehelpers.boolf import Boolf
from discretehelpers.binv import Binv


def place(n, atoms):
    """the number with the digits of n at the given places"""
    return sum((n >> a & 1) << i for i, a in enumerate(atoms))


def spread(k, atoms):
    """the number with digit i of k at place atoms[i]"""
    return sum((k >> i & 1) << a for i, a in enumerate(atoms))


class Fn:
    def __init__(self, value, atoms):
        """value: assignment number -> truth value, depending only on the given atoms"""
        atoms = sorted(set(atoms))
        table = [int(bool(value(spread(k, atoms)))) for k in range(1 << len(atoms))]
        i = 0
        while i < len(atoms):
            if all(table[k] == table[k ^ 1 << i] for k in range(len(table))):
                table = [v for k, v in enumerate(table) if not k >> i & 1]
                atoms = atoms[:i] + atoms[i + 1:]
            else:
                i += 1
        self.atoms, self.table = atoms, table

    def __call__(self, n):
        return self.table[place(n, self.atoms)]

    def tt(self, atoms):
        atoms = sorted(atoms)
        return [self(spread(k, atoms)) for k in range(1 << len(atoms))]

    def __eq__(self, other):
        return (self.atoms, self.table) == (other.atoms, other.table)

    @property
    def adicity(self):
        return self.atoms[-1] + 1 if self.atoms else 0

    def key(self):
        return tuple(self.atoms), tuple(self.table)


def fn_of(tt, atoms=None):
    """function of a truth table; the k-th smallest atom belongs to the digit with the rank of atoms[k], as documented in
    boolf/a/reorder_if_atomvals_not_asc/README.md (for atoms in a cyclic order that is not digit i for atoms[i])"""
    if atoms is None:
        atoms = list(range((len(tt) - 1).bit_length()))
    ranks = [sorted(atoms).index(a) for a in atoms]
    digits = [sorted(atoms)[ranks.index(i)] for i in range(len(atoms))]
    return Fn(lambda n: int(tt[place(n, digits)]), atoms)


def bits(x):
    return [int(v) for v in x]


def same(f, g, what):
    """the Boolf f is exactly the naive function g"""
    assert type(f) == Boolf, f'{what}: not a Boolf: {f!r}'
    eq(list(f.atomvals), list(g.atoms), what + ' atomvals')
    assert isinstance(f.root, Binv), what + ' root'
    eq(bits(f.root), g.table, what + ' root')
    eq(f.valency, len(g.atoms), what + ' valency')
    eq(f.adicity, g.adicity, what + ' adicity')
    eq(bool(f.is_constant), not g.atoms, what + ' is_constant')


def to_fn(f):
    root, atoms = bits(f.root), list(f.atomvals)
    return Fn(lambda n: root[place(n, atoms)], atoms)


def tables(rng, tier, arities=(0, 1, 2, 3), full=8, big=5, many=40):
    """truth table strings: all of few places, random ones (also with structure) of more"""
    for n in arities:
        length = 1 << n
        if length <= full:
            for v in itertools.product('01', repeat=length):
                yield ''.join(v)
    for _ in range(many * (4 if tier == 'thorough' else 1)):
        n = rng.randrange(2, big + 1)
        yield random_table(rng, n)


def random_table(rng, n):
    length = 1 << n
    kind = rng.randrange(8)
    if kind == 0:
        v = [int(rng.random() < rng.choice([0.1, 0.9])) for _ in range(length)]
    elif kind == 1:    # redundant atoms
        keep = [i for i in range(n) if rng.random() < 0.5]
        small = [rng.randrange(2) for _ in range(1 << len(keep))]
        v = [small[place(k, keep)] for k in range(length)]
    elif kind == 2:    # symmetric
        w = [rng.randrange(2) for _ in range(n + 1)]
        v = [w[bin(k).count('1')] for k in range(length)]
    elif kind == 3:    # affine
        a, b = rng.randrange(length), rng.randrange(2)
        v = [bin(k & a).count('1') + b & 1 for k in range(length)]
    elif kind == 4:    # conjunction of literals and equations between atoms
        v = [1] * length
        for _ in range(rng.randrange(1, n + 1)):
            i, j, s = rng.randrange(n), rng.randrange(n), rng.randrange(2)
            for k in range(length):
                if (k >> i & 1) ^ (0 if i == j else k >> j & 1) != s:
                    v[k] = 0
    elif kind == 5:    # conjunction of equations with a random function
        v = [rng.randrange(2) for _ in range(length)]
        for _ in range(rng.randrange(1, n + 1)):
            i, j, s = rng.randrange(n), rng.randrange(n), rng.randrange(2)
            for k in range(length):
                if (k >> i & 1) ^ (0 if i == j else k >> j & 1) != s:
                    v[k] = 0
    elif kind == 6:    # few fullspots
        v = [0] * length
        for _ in range(rng.randrange(1, n + 2)):
            v[rng.randrange(length)] = 1
    else:
        v = [rng.randrange(2) for _ in range(length)]
    return ''.join(map(str, v))


def atom_list(rng, n, top=9):
    """n different atoms, more or less in order"""
    kind = rng.randrange(4)
    if kind == 0:
        return list(range(n))
    atoms = rng.sample(range(max(top, n)), n)
    if kind == 1:
        return sorted(atoms)
    if kind == 2:
        return sorted(atoms, reverse=True)
    return atoms


def with_atoms(rng, tier, **kw):
    for tt in tables(rng, tier, **kw):
        n = (len(tt) - 1).bit_length()
        yield tt, atom_list(rng, n)


def functions(rng, tier, **kw):
    """(truth table, sorted or unsorted atoms)"""
    yield from with_atoms(rng, tier, **kw)
