from boolmodel import *


def two(rng, tier):
    small = [(''.join(v), a) for n, atoms in ((0, [[]]), (1, [[0], [1], [4]]), (2, [[0, 1], [1, 3], [2, 5]])) for a in atoms for v in itertools.product('01', repeat=1 << n)]
    for x in small:
        for y in small:
            if rng.random() < 0.25 or x == y:
                yield *x, *y
    for _ in range(300 if tier != 'thorough' else 1500):
        out = []
        top = rng.choice([4, 5, 6, 8, 8, 100])
        for _ in range(2):
            n = rng.randrange(0, 5 if rng.random() < 0.8 else 7)
            n = min(n, top)
            out += [random_table(rng, n) if n else rng.choice('01'), sorted(rng.sample(range(top), min(n, top)))]
        yield tuple(out)
    for _ in range(100):    # comparable functions
        n = rng.randrange(1, 7)
        a = random_table(rng, n)
        b = ''.join('1' if v == '1' or rng.random() < 0.2 else '0' for v in a)
        atoms = sorted(rng.sample(range(rng.choice([7, 7, 80])), n))
        yield (a, atoms, b, atoms) if rng.random() < 0.5 else (b, atoms, a, atoms)


@oracle('C15', two)
def pointwise(ta, aa, tb, ab):
    f, g = fn_of(ta, aa), fn_of(tb, ab)
    a, b = Boolf(ta, aa), Boolf(tb, ab)
    atoms = sorted(set(f.atoms + g.atoms))
    what = f'Boolf({ta!r}, {aa}) {{}} Boolf({tb!r}, {ab})'
    for sign, op, val in (('&', lambda: a & b, lambda x, y: x & y), ('|', lambda: a | b, lambda x, y: x | y), ('^', lambda: a ^ b, lambda x, y: x ^ y)):
        same(op(), Fn(lambda n: val(f(n), g(n)), atoms), what.format(sign))
        same(a, f, what.format(sign) + ' left operand')
        same(b, g, what.format(sign) + ' right operand')
    same(~a, Fn(lambda n: 1 - f(n), f.atoms), f'~Boolf({ta!r}, {aa})')
    same(~~a, f, f'~~Boolf({ta!r}, {aa})')
    x, y = f.tt(atoms), g.tt(atoms)
    le = all(u <= v for u, v in zip(x, y))
    ge = all(u >= v for u, v in zip(x, y))
    eq(bool(a.bitwise_le(b)), le, what.format('bitwise_le'))
    eq(bool(a.bitwise_lt(b)), le and x != y, what.format('bitwise_lt'))
    eq(bool(a.bitwise_ge(b)), ge, what.format('bitwise_ge'))
    eq(bool(a.bitwise_gt(b)), ge and x != y, what.format('bitwise_gt'))
    eq(a == b, x == y, what.format('=='))
    eq([bool(a < b), bool(a == b), bool(a > b)].count(True), 1, what.format('<, ==, >'))
    eq(bool(a <= b), bool(a < b) or a == b, what.format('<='))
    eq(bool(a >= b), bool(a > b) or a == b, what.format('>='))
    eq(bool(a < b), bool(b > a), what.format('< against >'))
    eq(bool(a <= b), bool(b >= a), what.format('<= against >='))
    same(a, f, what.format('compared with') + ' left operand')
    same(b, g, what.format('compared with') + ' right operand')


def three(rng, tier):
    for _ in range(200 if tier != 'thorough' else 1000):
        out = []
        for _ in range(3):
            n = rng.randrange(0, 6)
            out.append([random_table(rng, n) if n else rng.choice('01'), sorted(rng.sample(range(7), n))])
        yield tuple(out)


@oracle('C15', three)
def laws(x, y, z):
    f, g, h = (fn_of(*v) for v in (x, y, z))
    a, b, c = (Boolf(*v) for v in (x, y, z))
    atoms = sorted(set(f.atoms + g.atoms + h.atoms))
    same(a & (b | c), Fn(lambda n: f(n) & (g(n) | h(n)), atoms), f'{x} & ({y} | {z})')
    same(~(a ^ b) | c, Fn(lambda n: (1 - (f(n) ^ g(n))) | h(n), atoms), f'~({x} ^ {y}) | {z}')
    assert a ^ b ^ b == a
    if a < b and b < c:
        assert a < c, 'order is not transitive'
    if a < b:
        assert not b < a, 'order is not antisymmetric'
    assert not a < a and not a > a and a <= a and a >= a
    assert not a.bitwise_lt(a) and not a.bitwise_gt(a) and a.bitwise_le(a) and a.bitwise_ge(a)
    three = sorted([a, b, c])
    assert not three[1] < three[0] and not three[2] < three[1] and not three[2] < three[0]
