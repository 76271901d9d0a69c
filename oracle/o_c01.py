from lib import *
from discretehelpers.binv import Binv
from discretehelpers.binv.a import binary_length


def views(b, bits, what):
    n = len(bits)
    val = sum(1 << i for i, x in enumerate(bits) if x)
    pos = {i for i, x in enumerate(bits) if x}
    eq(b.vector, [bool(x) for x in bits], what + ' vector')
    assert all(type(x) is bool for x in b.vector), what
    eq(b.length, n, what + ' length')
    eq(len(b), n, what + ' len')
    eq(b.intval, val, what + ' intval')
    eq(b.exposet, pos, what + ' exposet')
    eq(b.string, ''.join('1' if x else '0' for x in bits), what + ' string')
    eq(b.weight, len(pos), what + ' weight')
    eq(b.changes, sum(1 for i in range(n - 1) if bool(bits[i]) != bool(bits[i + 1])), what + ' changes')
    eq(b.required_length, max(pos) + 1 if pos else 0, what + ' required length')
    eq(b.reverse.vector, [bool(x) for x in bits[::-1]], what + ' reverse')
    eq(b.complement.vector, [not x for x in bits], what + ' complement')
    eq(list(b), [bool(x) for x in bits], what + ' iteration')
    for i in range(n + 3):
        eq(bool(b.has_index(i)), i in pos, what + ' has_index')
    for i in range(-n, n):
        eq(b[i], bool(bits[i]), what + ' []')
    eq(b[1:n:2], [bool(x) for x in bits[1:n:2]], what + ' slice')
    if n in (1, 2, 4, 8, 16, 32, 64):
        s = ''
        for i, x in enumerate(bits):
            if i and i % 16 == 0:
                s += '  '
            elif i and i % 4 == 0:
                s += ' '
            s += '1' if x else '0'
        eq(b.pretty, s, what + ' pretty')
    if n > 0:
        assert str(b).count(str(n)) >= 1 or n <= 16
    if n <= 16:
        eq(str(b), "Binv('" + b.string + "')", what + ' str')
    else:
        e = eval(str(b), {'Binv': Binv})
        eq(e.vector, b.vector, what + ' str')
    eq(repr(b), str(b), what)


@oracle('C01', one(lambda r, t: bit_lists(r, t, small=7)))
def all_descriptions_agree(bits):
    n = len(bits)
    val = sum(1 << i for i, x in enumerate(bits) if x)
    pos = [i for i, x in enumerate(bits) if x]
    made = {'list': Binv(list(bits)), 'bools': Binv([bool(x) for x in bits]), 'tuple': Binv(tuple(bits)),
            'string': Binv(''.join(map(str, bits))), 'intval': Binv(intval=val, length=n), 'exposet': Binv(exposet=set(pos), length=n),
            'exposet list': Binv(exposet=pos[::-1], length=n), 'exposet tuple': Binv(exposet=tuple(pos), length=n)}
    made['copy'] = Binv(made['list'])
    made['spaced string'] = Binv(' '.join(map(str, bits)))
    made['minimal intval'] = Binv(intval=val, minimal_length=n)
    made['minimal exposet'] = Binv(exposet=set(pos), minimal_length=n)
    for what, b in made.items():
        views(b, bits, what)
    ref = made['list']
    for what, b in made.items():
        assert b == ref and ref == b and hash(b) == hash(ref), what
    views(ref.reverse, bits[::-1], 'reverse')
    views(ref.complement, [1 - x for x in bits], 'complement')
    req = max(pos) + 1 if pos else 0
    views(Binv(intval=val), bits[:req], 'intval only')
    views(Binv(exposet=set(pos)), bits[:req], 'exposet only')
    shuffled = list(pos)
    random.Random(val).shuffle(shuffled)
    for e in (pos, pos[::-1], shuffled):
        for box in (list, tuple, set, frozenset):
            if box is frozenset and raises(lambda: Binv(exposet=frozenset([1]))):
                continue
            views(Binv(exposet=box(e)), bits[:req], 'exposet ' + box.__name__)
            views(Binv(exposet=box(e), length=n), bits, 'exposet with length ' + box.__name__)
            views(Binv(exposet=box(e), minimal_length=n), bits, 'exposet with minimal length ' + box.__name__)
            views(Binv(exposet=box(e), minimal_length=req // 2), bits[:req], 'exposet with small minimal length ' + box.__name__)
            if req:
                assert raises(lambda: Binv(exposet=box(e), length=req - 1), ValueError), 'length too short for exposet accepted'
    views(Binv(intval=val, minimal_length=max(req - 1, 0)), bits[:req], 'too small minimal length')
    for d in (1, 2, 40):
        views(Binv(intval=val, length=n + d), list(bits) + [0] * d, 'longer intval')
        views(Binv(exposet=set(pos), length=n + d), list(bits) + [0] * d, 'longer exposet')
        views(Binv(intval=val, minimal_length=n + d), list(bits) + [0] * d, 'longer intval')
    # views of views: caches filled in one object must not leak wrong values into derived ones
    a, b = made['intval'], made['exposet']
    views(a.complement.complement, bits, 'complement twice')
    views(b.reverse.reverse, bits, 'reverse twice')
    views(a.reverse.complement, [1 - x for x in bits[::-1]], 'reverse complement')
    views(b.complement.reverse, [1 - x for x in bits[::-1]], 'complement reverse')
    assert a.complement == Binv([1 - x for x in bits]) and hash(a.complement) == hash(Binv([1 - x for x in bits]))
    assert a.reverse == Binv(bits[::-1]) and hash(a.reverse) == hash(Binv(bits[::-1]))
    views(Binv(exposet=pos, minimal_length=max(req - 1, 0)), bits[:req], 'too small minimal length')
    for short in {0, req - 1, req // 2}:
        if 0 <= short < req:
            assert raises(lambda: Binv(intval=val, length=short), ValueError), 'length too short for intval accepted'
            assert raises(lambda: Binv(exposet=pos, length=short), ValueError), 'length too short for exposet accepted'


@oracle('C01', one(naturals))
def integers_of_every_size(n):
    b = Binv(intval=n)
    eq(b.intval, n, 'intval')
    eq(b.length, n.bit_length(), 'length')
    eq(b.exposet, {i for i in range(n.bit_length()) if n >> i & 1}, 'exposet')
    c = Binv(exposet=b.exposet)
    eq(c.intval, n, 'intval from exposet')
    assert c == b
    eq(binary_length(n), n.bit_length(), 'binary_length')
    d = Binv(intval=n, length=n.bit_length() + 3)
    eq((d.intval, d.length, d.required_length), (n, n.bit_length() + 3, n.bit_length()), 'with length')
    eq(d.exposet, b.exposet, 'with length')
    if n:
        assert raises(lambda: Binv(intval=n, length=n.bit_length() - 1), ValueError), 'short length accepted'


def bad(rng, tier):
    for base in ([], [0], [1, 0], [1, 0, 1, 1], [0] * 20, [1] * 40):
        for k in range(len(base) + 1):
            for e in (2, -1, 3, 17):
                yield ('vector', base[:k] + [e] + base[k:])
                yield ('tuple', tuple(base[:k] + [e] + base[k:]))
            for e in '2', '9', 'x', '-':
                yield ('string', ''.join(map(str, base[:k])) + e + ''.join(map(str, base[k:])))
    for e in (-1, -5, -100):
        yield ('intval', e)
        for p in ([], [3], [0, 7], [2, 40]):
            yield ('exposet', p + [e])
            yield ('exposet', [e] + p)


@oracle('C01', bad)
def wrong_entries_are_rejected(kind, x):
    if kind == 'intval':
        assert raises(lambda: Binv(intval=x)) and raises(lambda: Binv(intval=x, length=5))
    elif kind == 'exposet':
        assert raises(lambda: Binv(exposet=x)) and raises(lambda: Binv(exposet=set(x))) and raises(lambda: Binv(exposet=x, length=50))
    else:
        assert raises(lambda: Binv(x))
