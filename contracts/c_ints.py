"""Integer helper functions."""
from pyvc.contracts import contract, lemma
from discretehelpers import a as _a

A = 'discretehelpers.a.'
P = ['C03']
N = {'n': 'int'}

contract(A + 'is_natural', args={'candidate': 'int'}, props=P, returns='bool', ensures=['iff(result, candidate >= 0)'])
contract(A + '_binary.int_to_exposet', args=N, props=P, requires=['n >= 0'], returns='list[int]',
         ensures=['n == psum([pow2(e) for e in result])',
                  'all(0 <= result[i] and bit(n, result[i]) for i in range(len(result)))',
                  'all(result[i] < result[j] for i in range(len(result)) for j in range(i + 1, len(result)))',
                  'all(implies(bit(n, i), any(result[j] == i for j in range(len(result)))) for i in NAT)'],
         loops={0: dict(inv=['n >= 0 and count >= 0',
                             'old_n == n * pow2(count) + psum([pow2(e) for e in exposet])',
                             'all(bit(n, i) == bit(old_n, i + count) for i in NAT)',
                             'all(implies(i >= count, bit(old_n, i) == bit(n, i - count)) for i in NAT)',
                             'bit(n, 0) == bit(old_n, count)',
                             'all(0 <= exposet[i] and exposet[i] < count and bit(old_n, exposet[i]) for i in range(len(exposet)))',
                             'all(exposet[i] < exposet[j] for i in range(len(exposet)) for j in range(i + 1, len(exposet)))',
                             'all(implies(i < count and bit(old_n, i), any(exposet[j] == i for j in range(len(exposet)))) for i in NAT)'],
                        then=['implies(n == 0, all(implies(i >= count, not bit(old_n, i)) for i in NAT))'],
                        decreases='n', types={'exposet': 'list[int]'})})
contract(A + '_binary.exposet_to_int', case='list', args={'exposet': 'list[int]'}, props=P,
         requires=['all(exposet[i] >= 0 for i in range(len(exposet)))'], returns='int',
         ensures=['result == psum([pow2(e) for e in exposet])'])
contract(A + '_binary.vector_to_int', args={'vector': 'list[bool]'}, props=P, returns='int', ensures=['result == dval(vector)'],
         loops={0: dict(inv=['place == _i', 'result == dval(vector, _i)'])})
contract(A + '_binary.int_to_weight', args=N, props=P, requires=['n >= 0'], returns='int', ensures=['result == wgt(n)'])
contract(A + 'decimal_length', args=N, props=P, returns='int', raises=[('NotNaturalError', 'n < 0')],
         ensures=['implies(n == 0, result == 0)', 'implies(n > 0, result == declen(n))'])
contract(A + '_log.log_floor', args={'x': 'int'}, props=P, returns='int', raises=[('ArgValueError', 'x < 1')],
         ensures=['result >= 0', 'pow2(result) <= x and x < 2 * pow2(result)'])
contract(A + '_log.log_ceil', args={'x': 'int'}, props=P, returns='int', raises=[('ArgValueError', 'x < 1')],
         ensures=['result >= 0', 'x <= pow2(result)', 'implies(result > 0, pow2(result - 1) < x)'])
contract(A + '_log.log_int', args={'x': 'int'}, props=P, returns='int',
         raises=[('ArgValueError', 'x < 1 or x != pow2(binlen(x) - 1)')], ensures=['result >= 0 and x == pow2(result)'])
contract(A + 'is_power_of_two', args=N, props=P, returns='bool',
         ensures=['iff(result, n > 0 and n == pow2(binlen(n) - 1))'],
         hints=['implies(n > 0, bit(n, binlen(n) - 1))',
                'implies(n > 0 and n > pow2(binlen(n) - 1), bit(n - 1, binlen(n) - 1))',
                'implies(n > 0 and n > pow2(binlen(n) - 1), bit(band(n, n - 1), binlen(n) - 1))',
                'implies(n > 0 and n == pow2(binlen(n) - 1) and band(n, n - 1) != 0, not bit(band(n, n - 1), bdiff(band(n, n - 1), 0)))'])
contract(A + 'evil_odious.index_to_evil', args={'i': 'int'}, props=P, returns='int', raises=[('ArgValueError', 'i < 0')],
         ensures=['result == 2 * i + wgt(i) % 2', 'wgt(result) % 2 == 0'])
contract(A + 'evil_odious.index_to_odious', args={'i': 'int'}, props=P, returns='int', raises=[('ArgValueError', 'i < 0')],
         ensures=['result == 2 * i + 1 - wgt(i) % 2', 'wgt(result) % 2 == 1'])
contract(A + 'evil_odious.evil_to_index', args={'evil': 'int'}, props=P, returns='int',
         raises=[('ArgValueError', 'evil < 0 or wgt(evil) % 2 == 1')], ensures=['result == evil // 2'])
contract(A + 'evil_odious.odious_to_index', args={'odious': 'int'}, props=P, returns='int',
         raises=[('ArgValueError', 'odious < 0 or wgt(odious) % 2 == 0')], ensures=['result == odious // 2'])
contract(A + 'int_to_factoradic', args=N, props=['C03', 'C06'], requires=['n >= 0'], returns='tup[int]',
         ensures=['n == psum([result[k] * fact(k) for k in range(len(result))])',
                  'all(0 <= result[k] and result[k] <= k for k in range(len(result)))',
                  'implies(n == 0, len(result) == 0)', 'implies(n > 0, len(result) >= 2 and result[len(result) - 1] > 0)'],
         loops={0: dict(inv=['value >= 0 and divisor == len(result) + 1',
                             'n == value * fact(len(result)) + psum([result[k] * fact(k) for k in range(len(result))])',
                             'all(0 <= result[k] and result[k] <= k for k in range(len(result)))',
                             'implies(len(result) == 0, value == n)', 'implies(len(result) == 1, value == n)', 'implies(n == 0, len(result) == 0)',
                             'implies(value == 0 and n > 0, len(result) >= 2 and result[len(result) - 1] > 0)'],
                        decreases='value + (1 if divisor == 1 else 0)', types={'result': 'list[int]'})})
contract(A + 'logic_abs', args=N, props=P, returns='int', ensures=['result == (n if n >= 0 else -n - 1)'])
contract(A + 'logic_negate', case='negate', args={'value': 'int'}, props=P, returns='int', ensures=['result == -value - 1'])
contract(A + 'logic_negate', case='flag', args={'value': 'int', 'do_it': 'bool'}, props=P, returns='int',
         ensures=['result == (-value - 1 if do_it else value)'])
contract(A + 'logic_abs.logic_abs_vector', args={'vector': 'list[int]'}, props=P, returns='list[int]',
         ensures=['len(result) == len(vector)', 'all(result[i] == (vector[i] if vector[i] >= 0 else -vector[i] - 1) for i in range(len(vector)))'])
contract(A + 'logic_negate.logic_negate_vector', case='where', args={'values': 'list[int]', 'where': 'list[bool]'}, props=P, returns='list[int]',
         raises=[('ArgMismatchError', 'len(values) != len(where)')],
         ensures=['len(result) == len(values)',
                  'all(result[i] == (-values[i] - 1 if where[i] else values[i]) for i in range(len(values)))'])
contract(A + 'logic_negate.logic_negate_vector', case='which', args={'values': 'list[int]', 'which': 'list[int]'}, props=P, returns='list[int]',
         raises=[('ArgValueError', 'any(which[i] < 0 for i in range(len(which)))'),
                 ('ArgMismatchError', 'all(which[i] >= 0 for i in range(len(which))) and '
                  'any(all(values[j] != which[i] and -values[j] - 1 != which[i] for j in range(len(values))) for i in range(len(which)))')],
         ensures=['len(result) == len(values)',
                  'all(result[i] == (-values[i] - 1 if any(which[j] == values[i] or which[j] == -values[i] - 1 for j in range(len(which))) else values[i]) for i in range(len(values)))'])
contract(A + 'logic_abs_increase', args={'a': 'int', 'b': 'int'}, props=P, returns='int',
         raises=[('ArgValueError', '(a if a >= 0 else -a - 1) + b < 0')],
         ensures=['iff(result < 0, a < 0)', '(result if result >= 0 else -result - 1) == (a if a >= 0 else -a - 1) + b'])
contract(A + 'logic_abs_increase.logic_abs_increase_vector', args={'a': 'list[int]', 'b': 'list[int]'}, props=P, returns='list[int]',
         raises=[('ArgValueError', 'len(a) != len(b) or any((a[i] if a[i] >= 0 else -a[i] - 1) + b[i] < 0 for i in range(len(a)))')],
         ensures=['len(result) == len(a)', 'all(iff(result[i] < 0, a[i] < 0) and '
                  '(result[i] if result[i] >= 0 else -result[i] - 1) == (a[i] if a[i] >= 0 else -a[i] - 1) + b[i] for i in range(len(a)))'])

G = {k: getattr(_a, k) for k in ('int_to_exposet', 'exposet_to_int', 'index_to_evil', 'index_to_odious', 'evil_to_index', 'odious_to_index',
                                 'logic_negate', 'logic_abs', 'log_floor', 'log_ceil', 'is_power_of_two', 'log_int')}
lemma('exponent list of a number gives the number back', N, '''
m = exposet_to_int(int_to_exposet(n))
assert m == n
''', requires=['n >= 0'], props=P, globals=G)
lemma('evil numbers are enumerated in order and without gaps', {'i': 'int', 'j': 'int', 'e': 'int'}, '''
a = index_to_evil(i)
b = index_to_evil(j)
assert a < b
c = evil_to_index(a)
assert c == i
d = index_to_evil(evil_to_index(e))
assert d == e
''', requires=['0 <= i and i < j', 'e >= 0 and wgt(e) % 2 == 0'], props=P, globals=G)
lemma('odious numbers are enumerated in order and without gaps', {'i': 'int', 'j': 'int', 'e': 'int'}, '''
a = index_to_odious(i)
b = index_to_odious(j)
assert a < b
c = odious_to_index(a)
assert c == i
d = index_to_odious(odious_to_index(e))
assert d == e
''', requires=['0 <= i and i < j', 'e >= 0 and wgt(e) % 2 == 1'], props=P, globals=G)
lemma('every number is evil or odious', {'e': 'int'}, '''
i = e // 2
a = index_to_evil(i)
b = index_to_odious(i)
assert (e == a) != (e == b)
''', requires=['e >= 0'], props=P, globals=G)
lemma('powers of two are recognised', {'k': 'int'}, '''
n = pow2(k)
assert binlen(n) == k + 1
b = is_power_of_two(n)
assert b
r = log_int(n)
assert r == k
f = log_floor(n)
c = log_ceil(n)
assert f == k and c == k
''', requires=['k >= 0'], props=P, globals=G)
lemma('negation is an involution', N, '''
m = logic_negate(logic_negate(n))
assert m == n
x = logic_abs(logic_negate(n))
y = logic_abs(n)
assert x == y and x >= 0
''', props=P, globals=G)
