from boolmodel import *
from discretehelpers.sig_perm import SigPerm
from discretehelpers.perm import Perm
from discretehelpers.boolf.a import mod_tt_neg, mod_tt_perm, spread_sigperm_to_sigvar


def literal(n, a):
    return (n >> a & 1) if a >= 0 else 1 - (n >> ~a & 1)


def renamed(g, args):
    """the function with its i-th atom replaced by the literal args[i]"""
    return Fn(lambda n: g.table[sum(literal(n, a) << i for i, a in enumerate(args))], [max(a, ~a) for a in args])


def moved(g, sequence):
    """atom a replaced by the literal sequence[a]"""
    return renamed(g, [sequence[a] if a < len(sequence) else a for a in g.atoms])


def seeded(rng, tier):
    for tt, atoms in functions(rng, tier):
        for _ in range(1 if len(tt) < 8 else 2):
            yield tt, sorted(atoms), rng.randrange(1 << 30)


@oracle('C16', seeded)
def values(tt, atoms, seed):
    rng = random.Random(seed)
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    k = len(g.atoms)
    what = f'Boolf({tt!r}, {atoms})'
    if k:
        for n in range(1 << k):
            args = [n >> i & 1 for i in range(k)]
            eq(int(f.val(*args)), g.table[n], what + f'.val{tuple(args)}')
            eq(int(f.val(*[bool(x) for x in args])), g.table[n], what + f'.val{tuple(args)}')
        for length in (1, 2, 5):
            keys = [rng.randrange(1 << k) for _ in range(length)]
            rows = [[n >> i & 1 for n in keys] for i in range(k)]
            want = [g.table[n] for n in keys]
            eq(bits(f.val(*rows)), want, what + f'.val{tuple(rows)}')
            eq(bits(f.val(*[Binv(r) for r in rows])), want, what + f'.val of Binvs {rows}')
        assert raises(lambda: f.val(*[0] * (k + 1))), what + ' val with too many arguments'
        assert raises(lambda: f.val(*[2] * k)), what + ' val with other values'
        if k > 1:
            assert raises(lambda: f.val(*[0] * (k - 1))), what + ' val with too few arguments'
            assert raises(lambda: f.vals(*[0] * k)), what + ' vals with repeated atoms'
        assert raises(lambda: f.vals(*range(1, k + 1))), what + ' vals with other atoms'
        for _ in range(4):
            perm = rng.sample(range(k), k)
            args = [rng.choice([a, ~a]) for a in perm]
            got = f.vals(*args)
            eq(bits(got), [g.table[sum(literal(n, a) << i for i, a in enumerate(args))] for n in range(1 << k)], what + f'.vals{tuple(args)}')
    top = g.adicity
    digits = ''.join(map(str, g.tt(range(top))))
    eq(Fraction(f.value_fract()), Fraction(int(digits, 2), 2 ** len(digits) - 1), what + ' value_fract')
    same(f, g, what + ' afterwards')


@oracle('C16', seeded)
def application(tt, atoms, seed):
    rng = random.Random(seed)
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    k = len(g.atoms)
    what = f'Boolf({tt!r}, {atoms})'
    if k:
        for top in (k, k + 2, 11, 70, 1000):
            args = [rng.choice([a, ~a]) for a in rng.sample(range(top), k)]
            same(f.apply(*args), renamed(g, args), what + f'.apply{tuple(args)}')
        assert raises(lambda: f.apply(*range(k + 1))), what + ' apply with too many arguments'
        same(f.apply(*g.atoms), g, what + ' applied on its own atoms')
    for length in {max(g.adicity - 1, 1), max(g.adicity, 1), g.adicity + 1, g.adicity + 2}:
        seqs = []
        for signs in (False, True, True):
            p = rng.sample(range(length), length)
            seqs.append([rng.choice([a, ~a]) if signs else a for a in p])
        for s in seqs:
            arg = SigPerm(sequence=s)
            r = f.apply_sigperm(arg)
            same(r, moved(g, s), what + f'.apply_sigperm({s})')
            same(f.apply_sigperm(s), moved(g, s), what + f'.apply_sigperm({s}) as list')
            same(f.apply_sigperm(tuple(s)), moved(g, s), what + f'.apply_sigperm({s}) as tuple')
            same(r.apply_sigperm(arg.inverse), g, what + f' apply_sigperm({s}) and its inverse')
        if all(x >= 0 for x in seqs[0]):
            same(f.apply_sigperm(Perm(seqs[0])), moved(g, seqs[0]), what + f'.apply_sigperm(Perm({seqs[0]}))')
        a, b = SigPerm(sequence=seqs[1]), SigPerm(sequence=seqs[2])
        left = f.apply_sigperm(a).apply_sigperm(b)
        eq(left == f.apply_sigperm(b * a), True, what + f' product {seqs[1]} {seqs[2]}')
    assert raises(lambda: f.apply_sigperm(3)) or not k
    same(f, g, what + ' afterwards')


def vectors(rng, tier):
    for n in range(1, 6):
        for _ in range(25):
            yield [rng.randrange(2) for _ in range(1 << n)], rng.sample(range(n), n), rng.randrange(1 << n)


@oracle('C16', vectors)
def tables_moved(tt, perm, neg):
    n = len(perm)
    eq(bits(mod_tt_neg(tt, neg)), [tt[k ^ neg] for k in range(1 << n)], f'mod_tt_neg({tt}, {neg})')
    signet = [neg >> i & 1 for i in range(n)]
    eq(bits(mod_tt_neg(tt, signet)), [tt[k ^ neg] for k in range(1 << n)], f'mod_tt_neg({tt}, {signet})')
    eq(bits(mod_tt_neg(tt, Binv(signet))), [tt[k ^ neg] for k in range(1 << n)], f'mod_tt_neg({tt}, Binv({signet}))')
    # digit i of the place is read from digit perm[i], so the atoms are moved by the inverse permutation
    want = [tt[sum((k >> i & 1) << p for i, p in enumerate(perm))] for k in range(1 << n)]
    eq(bits(mod_tt_perm(tt, perm)), want, f'mod_tt_perm({tt}, {perm})')
    f = Boolf(tt)
    eq(f.apply_sigperm([perm.index(i) for i in range(n)]) == Boolf(mod_tt_perm(tt, perm)), True, f'mod_tt_perm({tt}, {perm}) against apply_sigperm')
    eq(f.apply_sigperm([~i if neg >> i & 1 else i for i in range(n)]) == Boolf(mod_tt_neg(tt, neg)), True, f'mod_tt_neg({tt}, {neg}) against apply_sigperm')
    spread = sorted(random.Random(neg).sample(range(12), n))
    sig = [~p if neg >> i & 1 else p for i, p in enumerate(perm)]
    eq(list(spread_sigperm_to_sigvar(sig, spread)), [~(p + spread[p]) if neg >> i & 1 else p + spread[p] for i, p in enumerate(perm)], f'spread_sigperm_to_sigvar({sig}, {spread})')
