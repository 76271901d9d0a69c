from boolmodel import *
from discretehelpers.boolf.a import (vector_to_twin_gen, exposet_to_twin_gen, twin_int, zhe_vector_to_prefect_gen, zhe_exposet_to_prefect_gen,
                                     zhe_to_prefect, sierpinski_twin, flat_to_layered, intval_to_arity, intval_to_tt_length,
                                     atoms_to_and_gen, atoms_to_xand_gen, atoms_to_or_gen, atoms_to_xor_gen, atoms_to_eq_gen,
                                     atoms_to_sand_gen, atoms_to_gand_gen, atoms_to_esand_gen, atoms_to_osand_gen, atom_indices_to_sequence)


def weight(n):
    return bin(n).count('1')


def coefficients(tt):
    """algebraic normal form: xor of the values at the subsets"""
    return [sum(tt[k] for k in range(len(tt)) if k & m == k) % 2 for m in range(len(tt))]


def walsh(tt):
    return tuple(sum(v * (-1) ** weight(k & m) for k, v in enumerate(tt)) for m in range(len(tt)))


def linear_part(coeffs):
    """each monomial replaced by the parity of its negated atoms"""
    return [sum(c * (1 - weight(m & ~n) % 2) for m, c in enumerate(coeffs)) % 2 for n in range(len(coeffs))]


def number(vector):
    return sum(int(v) << i for i, v in enumerate(vector))


def layers(vector):
    top = (len(vector) - 1).bit_length()
    return tuple(tuple(v for k, v in enumerate(vector) if weight(k) == w) for w in range(top + 1))


def index_pair(tt):
    oddness = tt[0]
    w = sum(1 << i for i in range((len(tt) - 1).bit_length()) if tt[1 << i] != tt[0])
    return w, oddness


def split(vector, atoms):
    """the entries by the digits of their place at the given atoms"""
    return [[v for k, v in enumerate(vector) if place(k, atoms) == part] for part in range(1 << len(atoms))]


def cases(rng, tier):
    for tt, atoms in functions(rng, tier, big=6 if tier == 'thorough' else 5):
        yield tt, sorted(a if len(tt) < 16 else a % 7 for a in atoms) if len(set(a % 7 for a in atoms)) == len(atoms) and len(tt) >= 16 else sorted(atoms) if max(atoms + [0]) < 7 else list(range(len(atoms)))


@oracle('C17', cases)
def normal_form(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    n = g.adicity
    full = g.tt(range(n))
    co = coefficients(full)
    eq(f.zhe, number(co), what + ' zhe')
    assert type(f.zhe) == int
    same(Boolf(zhe=f.zhe), g, what + ' from its zhe')
    same(f.twin(), fn_of(co), what + ' twin()')
    for arity in {n, n + 1, n + 2}:
        if arity > 8:
            continue
        table = g.tt(range(arity))
        co = coefficients(table)
        t = f.twin(arity)
        same(t, fn_of(co), what + f' twin({arity})')
        same(t.twin(arity), g, what + f' twin({arity}) twice')
        eq([int(v) for v in vector_to_twin_gen(table, arity)], co, what + f' vector_to_twin_gen arity {arity}')
        eq([int(v) for v in vector_to_twin_gen(Binv(table), arity)], co, what + f' vector_to_twin_gen of Binv, arity {arity}')
        eq(twin_int(number(table), arity), number(co), what + f' twin_int arity {arity}')
        spots = [k for k, v in enumerate(table) if v]
        eq(list(exposet_to_twin_gen(spots, arity)), [k for k, v in enumerate(co) if v], what + f' exposet_to_twin_gen arity {arity}')
        eq(f.walsh_spectrum(arity), walsh(table), what + f' walsh_spectrum({arity})')
        if arity:
            lp = linear_part(table)
            eq([int(v) for v in zhe_vector_to_prefect_gen(table, arity)], lp, what + f' zhe_vector_to_prefect_gen arity {arity}')
            eq(list(zhe_exposet_to_prefect_gen(spots, arity)), [k for k, v in enumerate(lp) if v], what + f' zhe_exposet_to_prefect_gen arity {arity}')
            eq(tuple(zhe_to_prefect(number(table), arity)), index_pair(lp), what + f' zhe_to_prefect arity {arity}')
    if n:
        assert raises(lambda: f.twin(n - 1)), what + ' twin of too small arity'
    assert raises(lambda: vector_to_twin_gen(full + full, n).__next__())
    same(f, g, what + ' afterwards')


@oracle('C17', cases)
def spectra(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    n = g.adicity
    full = g.tt(range(n))
    w = walsh(full)
    eq(f.walsh_spectrum(), w, what + ' walsh_spectrum')
    assert all(type(v) == int for v in f.walsh_spectrum())
    eq(f.walsh_spectrum_abs(), tuple(map(abs, w)), what + ' walsh_spectrum_abs')
    eq(f.walsh_spectrum_layered(), layers(w), what + ' walsh_spectrum_layered')
    eq(f.walsh_spectrum_abs_layered(), layers([abs(v) for v in w]), what + ' walsh_spectrum_abs_layered')
    same(Boolf(walsh_spectrum=list(w)), g, what + ' from its Walsh spectrum')
    if n < 6:
        same(Boolf(walsh_spectrum=list(f.walsh_spectrum(n + 1))), g, what + ' from its Walsh spectrum of higher arity')
    if g.atoms:
        eq(f.walsh_spectrum(g.atoms), walsh(g.table), what + ' walsh_spectrum of the atoms')
    for add in (1, 2 * len(w)):
        changed = list(w)
        changed[-1] += add
        if len(w) > 1 or add > 1:
            assert raises(lambda: Boolf(walsh_spectrum=changed)), what + f' wrong Walsh spectrum {changed}'
    eq(f.layered_tt, layers(g.table), what + ' layered_tt')
    eq(f.layered_weight, tuple(sum(x) for x in layers(g.table)), what + ' layered_weight')
    eq(flat_to_layered(full), layers(full), what + ' flat_to_layered')
    eq(flat_to_layered(Binv(full)), layers(full), what + ' flat_to_layered of Binv')
    want = {l: ([k for k, v in enumerate(full) if weight(k) == l and not v], [k for k, v in enumerate(full) if weight(k) == l and v]) for l in range(n + 1)}
    eq(flat_to_layered(full, True), want, what + ' flat_to_layered(…, True)')
    lp = linear_part(coefficients(full))
    eq(bits(f.prefect_tt), lp, what + ' prefect_tt')
    same(f.prefect_boolf, fn_of(lp), what + ' prefect_boolf')
    if n:
        w, odd = index_pair(lp)
        eq(lp, [(weight(k & w) + odd) % 2 for k in range(len(lp))], 'linear')
        eq(tuple(f.prefect_walsh_and_oddness), (w, odd), what + ' prefect_walsh_and_oddness')
        leader = sum(1 for k in range(w) if weight(k) % 2 == weight(w) % 2)
        eq(tuple(f.prefect_leader_and_quadrant), (leader, odd + 2 * (weight(w) % 2 ^ odd)), what + ' prefect_leader_and_quadrant')
    same(f, g, what + ' afterwards')


@oracle('C17', cases)
def fissions(tt, atoms):
    g, f = fn_of(tt, atoms), Boolf(tt, atoms)
    what = f'Boolf({tt!r}, {atoms})'
    n = g.adicity
    full = g.tt(range(n))
    eq([bits(x) for x in f.hyperfission([])], [full], what + ' hyperfission([])')
    if not n:
        return
    parts = [split(full, [i]) for i in range(n)]
    eq([[bits(x) for x in pair] for pair in f.fissions], parts, what + ' fissions')
    eq(f.fissions_layered, [[layers(x) for x in pair] for pair in parts], what + ' fissions_layered')
    eq(f.fissions_weight, [[sum(x) for x in pair] for pair in parts], what + ' fissions_weight')
    eq(f.fissions_weight_layered, [[tuple(sum(y) for y in layers(x)) for x in pair] for pair in parts], what + ' fissions_weight_layered')
    ws = [[walsh(x) for x in pair] for pair in parts]
    wsa = [[tuple(map(abs, x)) for x in pair] for pair in ws]
    eq(f.fission_walsh_spectra, ws, what + ' fission_walsh_spectra')
    eq(f.fission_walsh_spectra_abs, wsa, what + ' fission_walsh_spectra_abs')
    eq(f.fission_walsh_spectra_layered, [[layers(x) for x in pair] for pair in ws], what + ' fission_walsh_spectra_layered')
    eq(f.fission_walsh_spectra_layered_abs, [[layers(x) for x in pair] for pair in wsa], what + ' fission_walsh_spectra_layered_abs')
    zipped = [tuple(pair[k >> i & 1][(k & (1 << i) - 1) + (k >> i + 1 << i)] for k in range(1 << n)) for i, pair in enumerate(ws)]
    eq(f.fission_walsh_spectra_zipped, zipped, what + ' fission_walsh_spectra_zipped')
    eq(f.fission_walsh_spectra_abs_zipped, [tuple(map(abs, x)) for x in zipped], what + ' fission_walsh_spectra_abs_zipped')
    rng = random.Random(tt)
    for size in range(n + 1):
        for _ in range(2):
            dims = rng.sample(range(n), size)
            parts = split(full, dims)
            call = what + f' hyperfission({dims})'
            eq([bits(x) for x in f.hyperfission(dims)], parts, call)
            ws = [walsh(x) for x in parts]
            eq(list(f.hyperfission_walsh_spectra(dims)), ws, call + ' walsh_spectra')
            eq(list(f.hyperfission_walsh_spectra_abs(dims)), [tuple(map(abs, x)) for x in ws], call + ' walsh_spectra_abs')
            eq(list(f.hyperfission_walsh_spectra_layered_abs(dims)), [layers([abs(v) for v in x]) for x in ws], call + ' walsh_spectra_layered_abs')
            if size:
                places = split(list(range(1 << n)), dims)
                want = [None] * (1 << n)
                for p, x in zip(places, ws):
                    for k, v in zip(p, x):
                        want[k] = v
                eq(list(f.hyperfission_walsh_spectra_zipped(dims)), want, call + ' walsh_spectra_zipped')
                eq(f.hyperfission_walsh_spectra_labeled(dims), {tuple(p): list(x) for p, x in zip(places, ws)}, call + ' walsh_spectra_labeled')
                eq(list(atom_indices_to_sequence(dims, 1 << n)), [place(k, dims) for k in range(1 << n)], f'atom_indices_to_sequence({dims}, {1 << n})')
                top = max(dims) + 1
                eq(list(atom_indices_to_sequence(dims)), [place(k, dims) for k in range(1 << top)], f'atom_indices_to_sequence({dims})')
    same(f, g, what + ' afterwards')


def twos(rng, tier):
    for _ in range(120):
        n = rng.randrange(0, 6)
        yield ''.join(rng.choice('01') for _ in range(1 << n)), ''.join(rng.choice('01') for _ in range(1 << n)), n


@oracle('C17', twos)
def xor_linear(a, b, n):
    x, y = Boolf(a), Boolf(b)
    eq((x ^ y).twin(n) == x.twin(n) ^ y.twin(n), True, f'twin of {a} ^ {b}')
    if n:
        both = Boolf((x ^ y).tt(n))
        eq(both.zhe, x.zhe ^ y.zhe, f'zhe of {a} ^ {b}')


def indices(rng, tier):
    for z in range(300):
        yield z,
    for k in (3, 4, 7, 8, 15, 16, 17, 31, 32, 33):
        for d in (-1, 0, 1):
            yield (1 << k) + d,
    for _ in range(60):
        yield rng.getrandbits(rng.choice([12, 16, 20, 32, 33, 40])),


@oracle('C17', indices)
def from_index(z):
    n = 0
    while z >> (1 << n):
        n += 1
    eq(intval_to_arity(z), n, f'intval_to_arity({z})')
    eq(intval_to_tt_length(z), 1 << n, f'intval_to_tt_length({z})')
    f = Boolf(zhe=z)
    g = fn_of(coefficients([z >> k & 1 for k in range(1 << n)]))
    same(f, g, f'Boolf(zhe={z})')
    eq(f.zhe, z, f'zhe of Boolf(zhe={z})')


def small_tables(rng, tier):
    for n in range(0, 5):
        for index in range(1 << n):
            for _ in range(3):
                small = n - weight(index)
                yield [rng.randrange(2) for _ in range(1 << small)], index, n


@oracle('C17', small_tables)
def twin_of_places(small, index, n):
    free = [i for i in range(n) if not index >> i & 1]
    co = coefficients(small)
    want = [co[place(k, free)] for k in range(1 << n)]
    eq([int(v) for v in sierpinski_twin(small, index, n)], want, f'sierpinski_twin({small}, {index}, {n})')
    assert raises(lambda: sierpinski_twin(small, index, n + 1))


def literals(rng, tier):
    for n in range(0, 5):
        for size in range(0, n + 1):
            for atoms in itertools.combinations(range(n), size):
                yield [rng.choice([a, ~a]) if rng.random() < 0.5 else a for a in rng.sample(atoms, size)], n


@oracle('C17', literals)
def generators(atoms, n):
    def rows():
        for k in range(1 << n):
            yield [(k >> a & 1) if a >= 0 else 1 - (k >> ~a & 1) for a in atoms]
    m = len(atoms)
    gand = [sum(r) >= m - 1 for r in rows()]
    sand = [sum(r) == m - 1 for r in rows()]
    want = {
        'and': [all(r) for r in rows()],
        'xand': [(m - sum(r)) % 2 == 0 for r in rows()],
        'or': [any(r) for r in rows()],
        'xor': [sum(r) % 2 == 1 for r in rows()],
        'eq': [len(set(r)) == 1 for r in rows()],
        'sand': sand, 'gand': gand, 'esand': sand if m % 2 else gand, 'osand': gand if m % 2 else sand,
    }
    for name, w in want.items():
        gen = globals()[f'atoms_to_{name}_gen']
        eq([bool(v) for v in gen(list(atoms), n)], w, f'atoms_to_{name}_gen({atoms}, {n})')
