from math import factorial
from boolmodel import *
from o_c06 import rev_colex_rank
from o_c08 import act
from o_c16 import renamed
from o_c17 import coefficients, number
from discretehelpers.a import schoute_coset_gen


def ranked(n):
    """all permutations of n places by their reverse colexicographic rank"""
    out = [None] * factorial(n)
    for p in itertools.permutations(range(n)):
        out[rev_colex_rank(p)] = list(p)
    return out


RANKED = {n: ranked(n) for n in range(6)}


def signs(seq, m):
    """value negations: the values with a one in m are negated"""
    return [~a if m >> a & 1 else a for a in seq]


def moved(g, seq):
    return renamed(g, [seq[a] for a in g.atoms])


def zhe_of(g):
    return number(coefficients(g.tt(range(g.adicity))))


def partition(part, want, what):
    """part: SetPart of indices labelled with Boolfs; want: dict index -> naive function"""
    groups = {}
    for i, g in want.items():
        groups.setdefault(g.key(), []).append(i)
    got = {tuple(b): to_fn(l).key() for b, l in part.block_labels.items()}
    for l in part.block_labels.values():
        same(l, to_fn(l), what + ' label')
    eq(got, {tuple(sorted(b)): k for k, b in groups.items()}, what)
    eq(sorted(part.domain), sorted(want), what + ' domain')
    for k, b in groups.items():
        f = Boolf(list(k[1]), list(k[0]))
        eq(part.get_block_from_label(f), sorted(b), what + ' get_block_from_label')
        eq(part.get_label_from_element(b[-1]) == f, True, what + ' get_label_from_element')


def small(rng, tier, top=4):
    for n in range(0, 3):
        for v in itertools.product('01', repeat=1 << n):
            yield ''.join(v), sorted(rng.sample(range(n + rng.choice([0, 0, 1])), n))
    for _ in range(40):
        yield random_table(rng, 3), rng.choice([[0, 1, 2], [0, 1, 2], [0, 1, 3], [1, 2, 3]])
    for _ in range(12 if tier != 'thorough' else 60):
        yield random_table(rng, 4), [0, 1, 2, 3]


def wide(rng, tier):
    for _ in range(3 if tier != 'thorough' else 12):
        n = rng.choice([2, 3, 4, 4])
        yield random_table(rng, n), sorted(rng.sample(range(4), n - 1)) + [4]
    yield random_table(rng, 5), [0, 1, 2, 3, 4]


@oracle('C18', wide)
def classes_of_five(tt, atoms):
    """functions that reach the fifth atom: indices, labels at every index, representatives"""
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    k = len(g.atoms)
    if g.adicity != 5:
        return
    partition(f.ec_family(), {m: renamed(g, [~a if m >> i & 1 else a for i, a in enumerate(g.atoms)]) for m in range(1 << k)}, what + ' ec_family')
    if k == 5:
        partition(f.ec_faction(), {i: moved(g, p) for i, p in enumerate(RANKED[5])}, what + ' ec_faction')
        return
    combos = list(itertools.combinations(range(5), k))
    want = {(i, c): renamed(g, act(perm, list(combo))) for i, perm in enumerate(RANKED[k]) for c, combo in enumerate(combos)}
    partition(f.ec_faction(), want, what + ' ec_faction')
    want = {(m, i, c): renamed(g, act(signs(perm, m), list(combo))) for i, perm in enumerate(RANKED[k]) for m in range(1 << k) for c, combo in enumerate(combos)}
    partition(f.ec_clan(), want, what + ' ec_clan')


@oracle('C18', small)
def classes(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    k, n = len(g.atoms), g.adicity
    partition(f.ec_family(), {m: renamed(g, [~a if m >> i & 1 else a for i, a in enumerate(g.atoms)]) for m in range(1 << k)}, what + ' ec_family')
    if not k:
        return
    for arity in {n, n + 1}:
        if arity > 4:
            continue
        if arity == k:
            partition(f.ec_faction(arity), {i: moved(g, p) for i, p in enumerate(RANKED[arity])}, what + f' ec_faction({arity})')
            partition(f.ec_clan(arity), {(m, i): moved(g, signs(p, m)) for i, p in enumerate(RANKED[arity]) for m in range(1 << arity)}, what + f' ec_clan({arity})')
        else:
            partition(f.ec_faction(arity, suppress_abbreviation=True), {i: moved(g, p) for i, p in enumerate(RANKED[arity])}, what + f' ec_faction({arity}, suppressed)')
            combos = list(itertools.combinations(range(arity), k))
            want = {(i, c): renamed(g, act(perm, list(combo))) for i, perm in enumerate(RANKED[k]) for c, combo in enumerate(combos)}
            partition(f.ec_faction(arity), want, what + f' ec_faction({arity})')
            if arity < 4:
                partition(f.ec_clan(arity, suppress_abbreviation=True), {(m, i): moved(g, signs(p, m)) for i, p in enumerate(RANKED[arity]) for m in range(1 << arity)}, what + f' ec_clan({arity}, suppressed)')
            want = {(m, i, c): renamed(g, act(signs(perm, m), list(combo))) for i, perm in enumerate(RANKED[k]) for m in range(1 << k) for c, combo in enumerate(combos)}
            part = f.ec_clan(arity)
            partition(part, want, what + f' ec_clan({arity})')
            eq([tuple(c) for c in part.glove_compartment], combos, what + ' combinations of atoms')
    if n == k:
        partition(f.ec_faction(), {i: moved(g, p) for i, p in enumerate(RANKED[n])}, what + ' ec_faction()')
        partition(f.ec_clan(), {(m, i): moved(g, signs(p, m)) for i, p in enumerate(RANKED[n]) for m in range(1 << n)}, what + ' ec_clan()')
    same(f, g, what + ' afterwards')


def class_members(g, n, kind):
    if kind == 'family':
        return [moved(g, signs(range(n), m)) for m in range(1 << n)]
    if kind == 'faction':
        return [moved(g, p) for p in RANKED[n]]
    return [moved(g, signs(p, m)) for p in RANKED[n] for m in range(1 << n)]


def for_minreps(rng, tier):
    for n in range(0, 4):
        for v in itertools.product('01', repeat=1 << n):
            if n < 3 or rng.random() < (0.35 if tier != 'thorough' else 1):
                yield ''.join(v), list(range(n))
    for _ in range(60 if tier != 'thorough' else 400):
        yield random_table(rng, 4), [0, 1, 2, 3]
    for _ in range(25):
        n = rng.randrange(1, 4)
        yield random_table(rng, n), sorted(rng.sample(range(4), n))
    for _ in range(3 if tier != 'thorough' else 15):
        yield random_table(rng, 5), [0, 1, 2, 3, 4]


@oracle('C18', for_minreps)
def minimal(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    n = g.adicity
    rng = random.Random(tt)
    for kind in ('family', 'faction', 'clan'):
        if n == 5 and kind == 'clan':
            continue
        members = class_members(g, n, kind)
        best = min(members, key=zhe_of)
        same(getattr(f, kind + '_minrep'), best, what + f' {kind}_minrep')
        for other in rng.sample(members, min(2, len(members))):
            if other.adicity == n:
                b = Boolf(other.table, other.atoms)
                same(getattr(b, kind + '_minrep'), best, what + f' {kind}_minrep of another member Boolf({other.table}, {other.atoms})')
    if 0 < n < 4:
        same(f._clan_minrep_prototype, min(class_members(g, n, 'clan'), key=zhe_of), what + ' clan_minrep prototype')
    same(f, g, what + ' afterwards')


@oracle('C18', small)
def symmetries(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    root = fn_of(g.table)
    n = len(g.atoms)
    if not n:
        return
    def image(seq, spot):
        """where the signed permutation moves a spot: digit i to place |s_i|, flipped if negative"""
        return sum(((spot >> i & 1) ^ (s < 0)) << (s if s >= 0 else ~s) for i, s in enumerate(seq))
    def orbits(spots, maps, related):
        out, left = [], set(spots)
        while left:
            block, todo = set(), [min(left)]
            while todo:
                x = todo.pop()
                if x not in block:
                    block.add(x)
                    todo += [y for y in (image(s, x) for s in maps) if related(x, y)]
            out.append(sorted(block))
            left -= block
        return sorted(b for b in out if len(b) > 1)
    sym = [signs(p, m) for p in RANKED[n] for m in range(1 << n) if moved(root, signs(p, m)) == root]
    spots = [k for k, v in enumerate(g.table) if v]
    got = f.symmetric_spots
    eq([list(b) for b in got.blocks], orbits(spots, sym, lambda x, y: True), what + ' symmetric_spots')
    eq(sorted(got.domain), spots, what + ' symmetric_spots domain')
    if g.adicity == n:
        perms = [p for p in RANKED[n] if moved(root, p) == root]
        got = f.perm_symmetry_partition
        eq([list(b) for b in got.blocks], orbits(range(1 << n), perms, lambda x, y: root(x) == root(y)), what + ' perm_symmetry_partition')
        eq(sorted(got.domain), list(range(1 << n)), what + ' perm_symmetry_partition domain')


def cosets(rng, tier):
    for n in range(1, 5):
        for a in range(1 << n):
            for b in range(1 << n):
                if bin(a).count('1') == bin(b).count('1'):
                    yield a, b, n


@oracle('C18', cosets)
def coset(key, val, n):
    """the permutations that move the ones of the key to the ones of the value"""
    want = [i for i, p in enumerate(RANKED[n]) if sum(1 << p[j] for j in range(n) if key >> j & 1) == val]
    eq(sorted(schoute_coset_gen(key, val, n)), want, f'schoute_coset_gen({key}, {val}, {n})')
