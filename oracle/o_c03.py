from lib import *
from math import gcd, factorial
from discretehelpers import a as A
from discretehelpers.binv.a import binary_length
from discretehelpers.a.prime_factors.ex import UnexpectedFactorError


@oracle('C03', one(naturals))
def digits(n):
    pos = [i for i in range(n.bit_length()) if n >> i & 1]
    eq(list(A.int_to_exposet(n)), pos, 'int_to_exposet')
    eq(A.exposet_to_int(pos), n, 'exposet_to_int')
    eq(A.exposet_to_int(set(pos)), n, 'exposet_to_int')
    eq(A.exposet_to_int(pos[::-1]), n, 'exposet_to_int')
    vec = [n >> i & 1 for i in range(n.bit_length())]
    eq(A.vector_to_int(vec), n, 'vector_to_int')
    eq(A.vector_to_int([bool(v) for v in vec] + [False, False]), n, 'vector_to_int')
    eq(A.int_to_weight(n), len(pos), 'int_to_weight')
    eq(binary_length(n), len(vec), 'binary_length')
    eq(A.decimal_length(n), len(str(n)) if n else 0, 'decimal_length')
    if n:
        f = n.bit_length() - 1
        power = n == 2 ** f
        eq(A.log_floor(n), f, 'log_floor')
        eq(A.log_ceil(n), f if power else f + 1, 'log_ceil')
        eq(bool(A.is_power_of_two(n)), power, 'is_power_of_two')
        if power:
            eq(A.log_int(n), f, 'log_int')
        else:
            assert raises(lambda: A.log_int(n), ValueError), 'log_int of a non-power'
    else:
        assert not A.is_power_of_two(0)
        for f in (A.log_floor, A.log_ceil, A.log_int):
            assert raises(lambda: f(0), ValueError), 'logarithm of zero'
    eq(bool(A.is_natural(n)), True, 'is_natural')
    eq(bool(A.is_natural(-n - 1)), False, 'is_natural')
    eq(bool(A.is_power_of_two(-n)), False, 'is_power_of_two')
    for f in (A.log_floor, A.log_ceil, A.log_int):
        assert raises(lambda: f(-n), ValueError), 'logarithm of a negative number'


@oracle('C03', one(naturals))
def evil_and_odious(n):
    w = bin(n).count('1') % 2
    e, o = A.index_to_evil(n), A.index_to_odious(n)
    eq(e >> 1, n, 'index_to_evil')
    eq(o >> 1, n, 'index_to_odious')
    eq(bin(e).count('1') % 2, 0, 'index_to_evil')
    eq(bin(o).count('1') % 2, 1, 'index_to_odious')
    eq(A.evil_to_index(e), n, 'evil_to_index')
    eq(A.odious_to_index(o), n, 'odious_to_index')
    if w:
        eq(A.odious_to_index(n), n >> 1, 'odious_to_index')
        eq(A.index_to_odious(n >> 1), n, 'index_to_odious')
        assert raises(lambda: A.evil_to_index(n), ValueError), 'evil_to_index of an odious number'
    else:
        eq(A.evil_to_index(n), n >> 1, 'evil_to_index')
        assert raises(lambda: A.odious_to_index(n), ValueError), 'odious_to_index of an evil number'
    for f in (A.index_to_evil, A.index_to_odious, A.evil_to_index, A.odious_to_index):
        assert raises(lambda: f(-n - 1), ValueError), 'negative argument'


@oracle('C03', one(lambda r, t: itertools.chain(naturals(r, t), [factorial(k) + d for k in range(2, 40) for d in (-1, 0, 1)])))
def factorial_digits(n):
    d = A.int_to_factoradic(n)
    eq(sum(x * factorial(k) for k, x in enumerate(d)), n, 'value')
    assert all(0 <= x <= k for k, x in enumerate(d)), 'digit range'
    assert not d or d[-1] > 0, 'leading digit'
    assert type(d) is tuple


def int_lists(rng, tier):
    for a in range(1, 13):
        for b in range(1, 13):
            yield [a, b]
    for _ in range(150):
        yield [rng.randrange(1, rng.choice([7, 40, 10 ** 6, 10 ** 20])) for _ in range(rng.randrange(1, 7))]
    yield [2 ** 70, 3 ** 50, 6 ** 40]


@oracle('C03', one(int_lists))
def least_common_multiple(xs):
    r = 1
    for x in xs:
        r = r * x // gcd(r, x)
    eq(A.multi_lcm(list(xs)), r, 'multi_lcm')
    eq(A.multi_lcm(tuple(xs)), r, 'multi_lcm')


def nk(rng, tier):
    for n in range(0, 22):
        for k in range(n + 1):
            yield n, k
    for _ in range(60):
        n = rng.randrange(22, 150)
        yield n, rng.randrange(n + 1)


@oracle('C03', nk)
def binomial(n, k):
    r = 1
    for i in range(k):
        r = r * (n - i) // (i + 1)
    eq(A.binom(n, k), r, 'binom')


def factor_cases(rng, tier):
    yield from range(1, 1200)
    for p in (2, 3, 5, 7, 11, 13, 997, 1009):
        for e in range(1, 9):
            if p ** e < 10 ** 14:
                yield p ** e
        for q in (2, 3, 17, 1009, 10007):
            yield p * q
            yield p * p * q
    for _ in range(100):
        n = 1
        while n < 10 ** rng.randrange(2, 10):
            n *= rng.choice([2, 2, 3, 5, 7, 11, 13, 101])
        yield n
    yield from (2 ** 60, 3 ** 30, 999983, 999983 * 2, 999983 * 999979)


@oracle('C03', one(factor_cases))
def primes(n):
    d = A.prime_factors(n)
    r = 1
    for p, e in d.items():
        assert e >= 1 and p >= 2 and all(p % q for q in range(2, int(p ** 0.5) + 1)), f'{p} is not prime'
        r *= p ** e
    eq(r, n, 'product')
    ps = sorted(d)
    eq(list(A.prime_factors(n, expected_factors=ps)), [d[p] for p in ps], 'expected factors')
    q = next(p for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31) if p not in d)
    ex = sorted(ps + [q])
    eq(list(A.prime_factors(n, expected_factors=set(ex))), [d.get(p, 0) for p in ex], 'more expected factors')
    if ps:
        assert raises(lambda: A.prime_factors(n, expected_factors=ps[1:] + [q]), UnexpectedFactorError), 'unexpected factor'


def signed(rng, tier):
    for a in range(-6, 7):
        for b in range(-6, 7):
            yield a, b
    for _ in range(100):
        yield rng.randrange(-10 ** 20, 10 ** 20), rng.randrange(-10 ** 20, 10 ** 20)


@oracle('C03', signed)
def logic_integers(a, b):
    ab = a if a >= 0 else -a - 1
    eq(A.logic_abs(a), ab, 'logic_abs')
    eq(A.logic_negate(a), -a - 1, 'logic_negate')
    eq(A.logic_negate(a, do_it=False), a, 'logic_negate')
    eq(A.logic_negate(a, True), -a - 1, 'logic_negate')
    s = lambda n: str(n) if n >= 0 else '~' + str(-n - 1)
    eq(A.logic_str(a), s(a), 'logic_str')
    eq(A.logic_negate(a, want_string=True), s(-a - 1), 'logic_negate')
    eq(A.logic_negate(a, do_it=False, want_string=True), s(a), 'logic_negate')
    if ab + b >= 0:
        r = ab + b if a >= 0 else -(ab + b) - 1
        eq(A.logic_abs_increase(a, b), r, 'logic_abs_increase')
        eq(A.logic_abs_increase(a, b, want_string=True), s(r), 'logic_abs_increase')
        eq(A.logic_abs_increase_vector([a, a], [b, 0]), [r, a], 'logic_abs_increase_vector')
        eq(A.logic_abs_increase_vector([a, a], [b, 0], want_string=True), f'[{s(r)}, {s(a)}]', 'logic_abs_increase_vector')
    else:
        assert raises(lambda: A.logic_abs_increase(a, b), ValueError)
        assert raises(lambda: A.logic_abs_increase_vector([a, 5], [b, 1]), ValueError)
    eq(A.logic_abs_vector([a, b]), [ab, b if b >= 0 else -b - 1], 'logic_abs_vector')
    eq(A.logic_negate_vector([a, b], where=[1, 0]), [-a - 1, b], 'logic_negate_vector')
    eq(A.logic_negate_vector([a, b], where=[False, True]), [a, -b - 1], 'logic_negate_vector')
    eq(A.logic_negate_vector([a, b], where=[1, 1], want_string=True), f'[{s(-a - 1)}, {s(-b - 1)}]', 'logic_negate_vector')
    same = A.logic_abs(b) == ab
    eq(A.logic_negate_vector([a, b], which=[ab]), [-a - 1, -b - 1 if same else b], 'logic_negate_vector')
    eq(A.logic_negate_vector([a, b], which={ab}, want_string=True), f'[{s(-a - 1)}, {s(-b - 1 if same else b)}]', 'logic_negate_vector')
    eq(A.logic_str_vector([a, b]), f'[{s(a)}, {s(b)}]', 'logic_str_vector')
    assert raises(lambda: A.logic_negate_vector([a], which=[ab + 1]), ValueError, TypeError)
    assert raises(lambda: A.logic_negate_vector([a, b], where=[1]), ValueError, TypeError)
