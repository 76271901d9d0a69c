from boolmodel import *
from discretehelpers.boolf.a import spotints_to_splits, count_split_regions
from discretehelpers.set_part_comp import SetPartComp


def cases(rng, tier):
    for n in range(0, 4):
        for v in itertools.product('01', repeat=1 << n):
            if n < 3 or rng.random() < (0.5 if tier != 'thorough' else 1):
                yield ''.join(v), sorted(rng.sample(range(n + rng.choice([0, 2])), n))
    for _ in range(150 if tier != 'thorough' else 800):
        n = rng.choice([3, 4, 5, 3, 4, 5, 6])
        yield random_table(rng, n), sorted(rng.sample(range(n + rng.choice([0, 3, 50])), n))
    for _ in range(80):    # few fullspots, so that atoms coincide
        n = rng.randrange(2, 6)
        v = ['0'] * (1 << n)
        for _ in range(rng.randrange(1, 4)):
            v[rng.randrange(1 << n)] = '1'
        yield ''.join(v), list(range(n))


def project(g, atoms):
    """true where some assignment of the other atoms makes g true"""
    rest = [a for a in g.atoms if a not in atoms]
    def value(n):
        base = n & sum(1 << a for a in atoms)
        return any(g(base | spread(k, rest)) for k in range(1 << len(rest)))
    return Fn(value, atoms)


@oracle('C19', cases)
def separation(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    k = len(g.atoms)
    spots = [i for i, v in enumerate(g.table) if v]
    splits = [({s for s in spots if s >> i & 1}, {s for s in spots if not s >> i & 1}) for i in range(k)]
    eq([tuple(x) for x in f.splits], splits, what + ' splits')
    eq([tuple(x) for x in spotints_to_splits(spots, k)], splits, what + ' spotints_to_splits')
    pairs = list(itertools.combinations(range(k), 2))
    counts = {(a, b): len({(s >> a & 1, s >> b & 1) for s in spots}) for a, b in pairs}
    eq(f.splits_overlap_counts, counts, what + ' splits_overlap_counts')
    for a, b in pairs:
        eq(count_split_regions(splits[a], splits[b]), counts[a, b], what + ' count_split_regions')
    def partition(a):
        return {frozenset(x) for x in splits[a]}
    eq({p: bool(v) for p, v in f.splits_equal.items()}, {(a, b): partition(a) == partition(b) for a, b in pairs}, what + ' splits_equal')
    onesided = [set() in splits[a] for a in range(k)]
    eq([bool(v) for v in f.splits_onesided], onesided, what + ' splits_onesided')
    eq(sorted(f.onesided_atomkeys), [a for a in range(k) if onesided[a]], what + ' onesided_atomkeys')
    eq({a: bool(v) for a, v in dict(f.onesided_is_universe).items()}, {a: splits[a][1] == set() for a in range(k) if onesided[a]}, what + ' onesided_is_universe')
    eq(sorted(tuple(p) for p in f.split_pairs_with_3_overlaps), [p for p in pairs if counts[p] == 3], what + ' split_pairs_with_3_overlaps')
    # bloat, blot, blight
    def relation(a, b):
        same_ = all((s >> a & 1) == (s >> b & 1) for s in spots)
        other = all((s >> a & 1) != (s >> b & 1) for s in spots)
        return 'equal' if same_ else 'comp' if other else None
    relations = {(a, b): relation(a, b) for a, b in pairs}
    for (a, b), r in relations.items():
        eq(bool(f.bloat.are_equal(a, b)), r == 'equal', what + f' bloat.are_equal({a}, {b})')
        eq(bool(f.bloat.are_comp(a, b)), r == 'comp', what + f' bloat.are_comp({a}, {b})')
        eq(bool(f.blight.are_equal(a, b)), r == 'equal', what + f' blight.are_equal({a}, {b})')
        eq(bool(f.blight.are_comp(a, b)), r == 'comp', what + f' blight.are_comp({a}, {b})')
    for a in range(k):
        for name in ('blot', 'blight'):
            p = getattr(f, name)
            eq(bool(p.are_equal(a, -1)), onesided[a] and splits[a][1] == set(), what + f' {name}.are_equal({a}, -1)')
            eq(bool(p.are_comp(a, -1)), onesided[a] and splits[a][0] == set(), what + f' {name}.are_comp({a}, -1)')
    eq(bool(f.is_bloatless), not any(relations.values()), what + ' is_bloatless')
    eq(bool(f.is_blotless), not any(onesided), what + ' is_blotless')
    eq(bool(f.is_blightless), not any(onesided) and not any(relations.values()), what + ' is_blightless')
    classes = []
    for a in range(k):
        for c in classes:
            if relations[c[0], a]:
                c.append(a)
                break
        else:
            classes.append([a])
    eq(f.number_of_distinct_splits, len(classes), what + ' number_of_distinct_splits')
    eq(sorted(sorted(b) for b in f.splits_equality_blocks), classes, what + ' splits_equality_blocks')
    # the parts
    def bloat_value(n):
        return all(((n >> g.atoms[a] & 1) == (n >> g.atoms[b] & 1)) == (r == 'equal') for (a, b), r in relations.items() if r)
    def blot_value(n):
        return all((n >> g.atoms[a] & 1) == int(splits[a][1] == set()) for a in range(k) if onesided[a])
    same(f.bloat_boolf, Fn(bloat_value, g.atoms), what + ' bloat_boolf')
    same(f.blot_boolf, Fn(blot_value, g.atoms), what + ' blot_boolf')
    same(f.blight_boolf, Fn(lambda n: bloat_value(n) and blot_value(n), g.atoms), what + ' blight_boolf')
    eq(f.bloatless_boolf & f.bloat_boolf == f, True, what + ' == bloatless & bloat')
    eq(f.blightless_boolf & f.blight_boolf == f, True, what + ' == blightless & blight')
    for c in classes:
        used = [a for a in c if g.atoms[a] in f.bloatless_boolf.atomvals]
        assert len(used) <= 1, what + f' bloatless_boolf has the related atoms {used}'
        used = [a for a in c if g.atoms[a] in f.blightless_boolf.atomvals]
        assert len(used) <= 1, what + f' blightless_boolf has the related atoms {used}'
    for a in range(k):
        if onesided[a]:
            assert g.atoms[a] not in f.blightless_boolf.atomvals, what + f' blightless_boolf has the fixed atom {g.atoms[a]}'
    assert set(f.bloatless_boolf.atomvals) <= set(g.atoms) and set(f.blightless_boolf.atomvals) <= set(g.atoms)
    if k and f.bloatless_boolf.valency:
        same(f.bloatless_boolf, project(g, f.bloatless_boolf.atomvals), what + ' bloatless_boolf')
    if k and f.blightless_boolf.valency:
        same(f.blightless_boolf, project(g, f.blightless_boolf.atomvals), what + ' blightless_boolf')
    same(f, g, what + ' afterwards')


@oracle('C19', cases)
def filtration(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    k = len(g.atoms)
    rng = random.Random(tt)
    for size in range(k + 1):
        for _ in range(3):
            chosen = rng.sample(g.atoms, size)
            for arg in (sorted(chosen), chosen):
                same(f.filtrated_boolf(list(arg)), project(g, chosen), what + f'.filtrated_boolf({arg})')
    other = max(g.atoms + [0]) + 1
    assert raises(lambda: f.filtrated_boolf([other])), what + ' filtrated to an atom it does not have'
    for a in range(k):
        for b in range(k):
            if a != b:
                p = project(g, [g.atoms[a], g.atoms[b]])
                want = ''.join(str(p(x << g.atoms[a] | y << g.atoms[b])) for y in (0, 1) for x in (0, 1))
                eq(f.filtrated_pair(a, b), want, what + f'.filtrated_pair({a}, {b})')
                if a < b:
                    eq(f.filtrated_pairs[a, b], want, what + f' filtrated_pairs[{a}, {b}]')
    same(f, g, what + ' afterwards')
