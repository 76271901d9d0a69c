from boolmodel import *


def observe(f, g, what, rng_seed=0):
    """everything that C14 names about one Boolf"""
    same(f, g, what)
    rng = random.Random(f'{rng_seed}{g.key()}')
    top = g.adicity
    keys = list(range(min(1 << (top + 1), 64))) + [rng.randrange(1 << (top + 3)) for _ in range(8)] + [1 << 70, (1 << 70) - 1]
    for n in keys:
        eq(int(f[n]), g(n), what + f' at [{n}]')
    if top <= 12:
        eq(bits(f.tt()), g.tt(range(top)), what + ' tt()')
    for arity in {top, top + 1, top + 2}:
        if arity <= 10:
            got = f.tt(arity)
            assert isinstance(got, Binv)
            eq(bits(got), g.tt(range(arity)), what + f' tt({arity})')
    if top:
        assert raises(lambda: f.tt(top - 1)), what + ' tt of too small arity'
    extra = [a for a in range(top + 2) if a not in g.atoms]
    for k in range(min(len(extra), 3) + 1):
        atoms = sorted(g.atoms + rng.sample(extra, k))
        if len(atoms) <= 9:
            eq(bits(f.tt(atoms)), g.tt(atoms), what + f' tt({atoms})')
            mixed = rng.sample(atoms, len(atoms))
            eq(bits(f.tt(mixed)), g.tt(atoms), what + f' tt({mixed})')
            eq(bits(f.tt(set(atoms))), g.tt(atoms), what + f' tt({set(atoms)})')
    if g.atoms:
        less = g.atoms[:-1] + [g.atoms[-1] + 1]
        assert raises(lambda: f.tt(less)), what + ' tt without a needed atom'
    same(f.complement, Fn(lambda n: 1 - g(n), g.atoms), what + ' complement')
    # the reverse reads the truth table backwards, so all atoms are negated
    same(f.reverse, Fn(lambda n: g(~n), g.atoms), what + ' reverse')
    same(f.root_boolf, fn_of(g.table), what + ' root_boolf')
    eq(bool(f.is_root), g.atoms == list(range(len(g.atoms))), what + ' is_root')
    eq(Fraction(f.weight_fract), Fraction(sum(g.table), len(g.table)), what + ' weight_fract')
    eq(sorted(f.fullspots), [k for k, v in enumerate(g.table) if v], what + ' fullspots')
    same(f, g, what + ' afterwards')


def far_apart(rng, tier):
    for _ in range(60 if tier != 'thorough' else 300):
        n = rng.randrange(1, 8)
        yield random_table(rng, n), sorted(rng.sample(range(rng.choice([12, 40, 300])), n))


@oracle('C14', far_apart)
def big_atoms(tt, atoms):
    g = fn_of(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    f = Boolf(tt, atoms)
    observe(f, g, what)
    eq(f == Boolf(g.table, g.atoms), True, what + ' == its deflated form')
    eq(hash(f), hash(Boolf(g.table, g.atoms)), what + ' hash of its deflated form')


@oracle('C14', functions)
def truth_tables(tt, atoms):
    g = fn_of(tt, atoms)
    f = Boolf(tt, atoms)
    observe(f, g, f'Boolf({tt!r}, {atoms})')
    values = [int(v) for v in tt]
    for arg in (values, [bool(v) for v in values], tuple(values), Binv(tt)):
        same(Boolf(arg, list(atoms)), g, f'Boolf({arg!r}, {atoms})')
    plain = fn_of(tt)
    observe(Boolf(tt), plain, f'Boolf({tt!r})')
    for arg in (values, [bool(v) for v in values], Binv(tt)):
        same(Boolf(arg), plain, f'Boolf({arg!r})')
    if len(atoms) > 1:
        same(Boolf(tt, tuple(atoms)), g, f'Boolf({tt!r}, {tuple(atoms)})')
    number = sum(v << k for k, v in enumerate(values))
    n = (len(tt) - 1).bit_length()
    for arity in {n, n + 1}:
        want = Fn(lambda m: number >> (m & (1 << arity) - 1) & 1, range(arity))
        got = Boolf(number, arity=arity)
        same(got, want, f'Boolf({number}, arity={arity})')
    assert atoms == list(atoms)
    if n and number >> (1 << n - 1):
        assert raises(lambda: Boolf(number, arity=n - 1)), f'Boolf({number}, arity={n - 1}) accepted'


@oracle('C14', lambda rng, tier: [('01001011', [2, 0, 1])])
def atom_order(tt, atoms):
    """digit i of a place of the truth table belongs to atoms[i]"""
    f = Boolf(tt, atoms)
    for n in range(8):
        eq(int(f[n]), int(tt[place(n, atoms)]), f'Boolf({tt!r}, {atoms})[{n}]')


@oracle('C14', functions)
def fullspots(tt, atoms):
    g = fn_of(tt, atoms)
    spots = [k for k, v in enumerate(tt) if v == '1']
    mixed = spots[::-1]
    for s in (spots, mixed, set(spots)):
        same(Boolf(fullspots=s, atomvals=list(atoms)), g, f'Boolf(fullspots={s}, atomvals={atoms})')
    n = len(atoms)
    for arity in {n, n + 1}:
        same(Boolf(fullspots=spots, arity=arity), Fn(lambda m: m & (1 << arity) - 1 in spots, range(arity)), f'Boolf(fullspots={spots}, arity={arity})')
    observe(Boolf(fullspots=spots, atomvals=atoms), g, f'Boolf(fullspots={spots}, atomvals={atoms})')


@oracle('C14', functions)
def transforms(tt, atoms):
    n = (len(tt) - 1).bit_length()
    g = fn_of(tt)
    values = [int(v) for v in tt]
    # coefficient of a monomial: xor of the values below it
    coeffs = [sum(values[k] for k in range(1 << n) if k & m == k) % 2 for m in range(1 << n)]
    zhe = sum(c << m for m, c in enumerate(coeffs))
    same(Boolf(zhe=zhe), g, f'Boolf(zhe={zhe})')
    spectrum = [sum(v * (-1) ** bin(k & m).count('1') for k, v in enumerate(values)) for m in range(1 << n)]
    same(Boolf(walsh_spectrum=spectrum), g, f'Boolf(walsh_spectrum={spectrum})')


def literals(rng, tier):
    yield [],
    for a in list(range(6)) + [13, 40]:
        yield [a],
        yield [~a],
    for _ in range(120):
        n = rng.randrange(2, 6)
        yield [rng.choice([a, ~a]) for a in rng.sample(range(rng.choice([n, n + 1, 12])), n)],


@oracle('C14', literals)
def multi(atoms):
    plain = [max(a, ~a) for a in atoms]
    def value(n, a):
        return (n >> a & 1) if a >= 0 else 1 - (n >> ~a & 1)
    ops = {
        'multi_and': lambda n: all(value(n, a) for a in atoms),
        'multi_or': lambda n: any(value(n, a) for a in atoms),
        'multi_xor': lambda n: sum(value(n, a) for a in atoms) % 2,
        'multi_xand': lambda n: (len(atoms) - sum(value(n, a) for a in atoms)) % 2 == 0,
    }
    for name, op in ops.items():
        what = f'Boolf({name}={atoms})'
        f = Boolf(**{name: list(atoms)})
        g = Fn(op, plain)
        if len(plain) <= 4 and max(plain + [0]) < 8:
            observe(f, g, what)
        else:
            same(f, g, what)
            for n in range(64):
                eq(int(f[n]), g(n), what + f' at [{n}]')
    if len(atoms) == 1:
        g = Fn(lambda n: value(n, atoms[0]), plain)
        same(Boolf(atom=atoms[0]), g, f'Boolf(atom={atoms[0]})')
        if plain[0] < 8:
            observe(Boolf(atom=atoms[0]), g, f'Boolf(atom={atoms[0]})')
    if atoms:
        assert not raises(lambda: same(Boolf(multi_and=list(atoms)).complement, Fn(lambda n: not ops['multi_and'](n), plain), 'complement of multi_and'))


def pairs(rng, tier):
    small = list(itertools.product(['0', '1'], repeat=2))
    for _ in range(150 if tier != 'thorough' else 700):
        n = rng.randrange(0, 6)
        tt = random_table(rng, n) if n else rng.choice('01')
        atoms = atom_list(rng, n)
        yield tt, atoms, rng.randrange(1 << 30)


@oracle('C14', pairs)
def equality(tt, atoms, seed):
    rng = random.Random(seed)
    g = fn_of(tt, atoms)
    a = Boolf(tt, atoms)
    # the same function with other atoms put in, in another order
    more = rng.sample([x for x in range(12) if x not in g.atoms], rng.randrange(3))
    order = rng.sample(g.atoms + more, len(g.atoms) + len(more))
    ranks = [sorted(order).index(x) for x in order]
    digits = [sorted(order)[ranks.index(i)] for i in range(len(order))]
    table = ''.join(str(g(spread(k, digits))) for k in range(1 << len(order)))
    b = Boolf(table, order)
    eq(a == b, True, f'Boolf({tt!r}, {atoms}) == Boolf({table!r}, {order})')
    eq(a != b, False, f'Boolf({tt!r}, {atoms}) != Boolf({table!r}, {order})')
    eq(hash(a), hash(b), 'hash')
    eq(len({a, b}), 1, 'set')
    eq(str(a), str(b), 'string')
    # a function that differs at one place, or in one atom
    k = rng.randrange(len(table))
    other = table[:k] + '10'[int(table[k])] + table[k + 1:]
    c = Boolf(other, order)
    eq(a == c, False, f'Boolf({tt!r}, {atoms}) == Boolf({other!r}, {order})')
    eq(a != c, True, f'Boolf({tt!r}, {atoms}) != Boolf({other!r}, {order})')
    eq(len({a, c}), 2, 'set of different functions')
    if g.atoms:
        moved = [x + (x == g.atoms[-1]) for x in g.atoms]
        d = Boolf(''.join(map(str, g.table)), moved)
        eq(a == d, False, f'other atom {moved}')
        eq(len({a, d}), 2, 'set of functions with other atoms')


def junk(rng, tier):
    for args in ["tt='011'", "tt='', atomvals=[]", "tt='01', atomvals=[0, 1]", "tt='0110', atomvals=[1, 1]", "tt='0110', atomvals=[1]",
                 "arity=3", "atomvals=[0, 1]", "", "atom=1, arity=3", "atom=1, atomvals=[1]", "fullspots=[4], arity=2", "fullspots=[4], atomvals=[0, 3]",
                 "multi_and=[1], multi_or=[2]", "tt='01', atomvals=[-1]", "tt='0110', atomvals=[-1, 1]", "tt=16, arity=2"]:
        yield args,


@oracle('C14', junk)
def rejected(args):
    """notations that name no function"""
    signal.alarm(20)
    assert raises(lambda: eval(f'Boolf({args})')), f'Boolf({args}) accepted'
