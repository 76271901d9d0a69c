"""Binary vectors."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.binv import Binv

INV = ['0 <= self.required_length and self.required_length <= len(self.vector)',
       'all(not self.vector[i] for i in range(self.required_length, len(self.vector)))',
       'implies(self.required_length > 0, self.vector[self.required_length - 1])']

shape('Binv', Binv, {'vector': 'list[bool]', 'required_length': 'int'}, inv=INV,
      derived={'length': 'len(self.vector)', 'intval': 'dval(self.vector)'})

NEWSELF = {'self': {'vector': 'list[bool]', 'required_length': 'int'}}
B = 'discretehelpers.binv.Binv.'
SELF = {'self': 'obj:Binv'}
INIT = dict(props=['C01'], modifies=NEWSELF)

contract(B + '__init__', case='vector of bool', args={'self': 'new', 'vector': 'list[bool]'},
         ensures=['len(self.vector) == len(vector)', 'all(self.vector[i] == vector[i] for i in range(len(vector)))'] + INV, **INIT)
for kind in ('list', 'tup'):
    contract(B + '__init__', case=f'vector: {kind} of int', args={'self': 'new', 'vector': f'{kind}[int]'},
             raises=[('VectorEntryError', 'any(vector[i] != 0 and vector[i] != 1 for i in range(len(vector)))')],
             ensures=['len(self.vector) == len(vector)', 'all(self.vector[i] == (vector[i] == 1) for i in range(len(vector)))'] + INV, **INIT)
contract(B + '__init__', case='string of digits', args={'self': 'new', 'vector': 'str'},
         requires=["all(vector[i] != ' ' for i in range(len(vector)))"],
         raises=[('VectorEntryError', "any(vector[i] != '0' and vector[i] != '1' for i in range(len(vector)))")],
         ensures=['len(self.vector) == len(vector)', "all(iff(self.vector[i], vector[i] == '1') for i in range(len(vector)))"] + INV, **INIT)
contract(B + '__init__', case='copy', args={'self': 'new', 'vector': 'obj:Binv'},
         ensures=['len(self.vector) == len(vector.vector)', 'all(self.vector[i] == vector.vector[i] for i in range(len(vector.vector)))'] + INV, **INIT)
contract(B + '__init__', case='intval', args={'self': 'new', 'intval': 'int'},
         raises=[('IntvalError', 'intval < 0')],
         ensures=['len(self.vector) == binlen(intval)', 'all(self.vector[i] == bit(intval, i) for i in range(len(self.vector)))',
                  'all(implies(i >= len(self.vector), not bit(intval, i)) for i in NAT)',
                  'self.required_length == len(self.vector)'] + INV,
         hints=['implies(len(self.vector) > 0, self.vector[len(self.vector) - 1])'], **INIT)
contract(B + '__init__', case='intval and length', args={'self': 'new', 'intval': 'int', 'length': 'int'},
         raises=[('IntvalError', 'intval < 0'), ('LengthError', 'intval >= 0 and length < binlen(intval)')],
         ensures=['len(self.vector) == length', 'all(self.vector[i] == bit(intval, i) for i in range(length))',
                  'all(implies(i >= length, not bit(intval, i)) for i in NAT)'] + INV, **INIT)
contract(B + '__init__', case='intval and minimal length', args={'self': 'new', 'intval': 'int', 'minimal_length': 'int'},
         raises=[('IntvalError', 'intval < 0')],
         ensures=['len(self.vector) >= minimal_length', 'len(self.vector) == minimal_length or len(self.vector) == binlen(intval)',
                  'all(self.vector[i] == bit(intval, i) for i in range(len(self.vector)))',
                  'all(implies(i >= len(self.vector), not bit(intval, i)) for i in NAT)'] + INV, **INIT)
contract(B + '__init__', case='exposet', args={'self': 'new', 'exposet': 'set[int]'},
         raises=[('IndicesEntryError', 'any(x < 0 for x in exposet)')],
         ensures=['all(iff(i in exposet, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)',
                  'self.required_length == len(self.vector)'] + INV,
         hints=['implies(len(self.vector) > 0, self.vector[len(self.vector) - 1])'], **INIT)
contract(B + '__init__', case='exposet as list', args={'self': 'new', 'exposet': 'list[int]'},
         requires=['all(0 <= exposet[i] for i in range(len(exposet)))'],
         ensures=['all(iff(any(exposet[j] == i for j in range(len(exposet))), 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)',
                  'all(exposet[j] < len(self.vector) and self.vector[exposet[j]] for j in range(len(exposet)))'] + INV, **INIT)
contract(B + '__init__', case='exposet and length', args={'self': 'new', 'exposet': 'set[int]', 'length': 'int'},
         requires=['length >= 0'],
         raises=[('IndicesEntryError', 'any(x < 0 for x in exposet)'),
                 ('LengthError', 'all(x >= 0 for x in exposet) and any(x >= length for x in exposet)')],
         ensures=['len(self.vector) == length', 'all(iff(i in exposet, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)'] + INV, **INIT)
IN = 'any(exposet[j] == i for j in range(len(exposet)))'
contract(B + '__init__', case='exposet as tuple', args={'self': 'new', 'exposet': 'tup[int]'},
         requires=['all(0 <= exposet[i] for i in range(len(exposet)))'],
         ensures=[f'all(iff({IN}, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)',
                  'all(exposet[j] < len(self.vector) and self.vector[exposet[j]] for j in range(len(exposet)))'] + INV, **INIT)
for KIND in ('list', 'tup'):
    contract(B + '__init__', case=f'exposet as {KIND} and length', args={'self': 'new', 'exposet': f'{KIND}[int]', 'length': 'int'},
             requires=['all(0 <= exposet[i] for i in range(len(exposet)))', 'length >= 0'],
             raises=[('LengthError', 'any(x >= length for x in exposet)')],
             ensures=['len(self.vector) == length', f'all(iff({IN}, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)'] + INV, **INIT)
contract(B + '__init__', case='exposet and minimal length', args={'self': 'new', 'exposet': 'set[int]', 'minimal_length': 'int'},
         requires=['minimal_length >= 0'],
         raises=[('IndicesEntryError', 'any(x < 0 for x in exposet)')],
         ensures=['len(self.vector) >= minimal_length', 'len(self.vector) == minimal_length or len(self.vector) - 1 in exposet',
                  'all(iff(i in exposet, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)'] + INV, **INIT)

# views
V = dict(args=SELF, props=['C01'])
contract('discretehelpers.binv.a.binary_length', args={'n': 'int'}, props=['C01', 'C03'], returns='int',
         raises=[('NotNaturalError', 'n < 0')], ensures=['result == binlen(n)'])
contract('discretehelpers.binv.a.to_string', case='bools', args={'v': 'list[bool]'}, props=['C01'], returns='str',
         ensures=['len(result) == len(v)', "all(iff(result[i] == '1', v[i]) and iff(result[i] == '0', not v[i]) for i in range(len(v)))"])
contract(B + 'length', returns='int', ensures=['result == len(self.vector)'], **V)
contract(B + '__len__', returns='int', ensures=['result == len(self.vector)'], **V)
contract(B + 'string', returns='str', ensures=['len(result) == len(self.vector)',
         "all(iff(result[i] == '1', self.vector[i]) and iff(result[i] == '0', not self.vector[i]) for i in range(len(self.vector)))"], **V)
contract(B + 'intval', returns='int', ensures=['result == dval(self.vector)', 'binlen(result) == self.required_length'],
         hints=['result == dval(self.vector)', 'all(bit(result, i) == (i < len(self.vector) and self.vector[i]) for i in NAT)',
                'implies(binlen(result) > self.required_length, bit(result, binlen(result) - 1))', 'binlen(result) <= self.required_length',
                'implies(self.required_length > 0, bit(result, self.required_length - 1))',
                'implies(self.required_length > 0, result >= pow2(self.required_length - 1))'], **V)
contract(B + 'weight', returns='int', ensures=['result == psum([1 if v else 0 for v in self.vector])'], **V)
contract(B + 'changes', returns='int',
         ensures=['result == psum([1 if self.vector[i] != self.vector[i + 1] else 0 for i in range(max(len(self.vector) - 1, 0))])'], **V)
contract(B + 'exposet', returns='set[int]',
         ensures=['all(iff(i in result, 0 <= i and i < len(self.vector) and self.vector[i]) for i in INTS)'], **V)
contract(B + 'complement', returns='obj:Binv', ensures=['len(result.vector) == len(self.vector)',
         'all(result.vector[i] == (not self.vector[i]) for i in range(len(self.vector)))'], **V)
contract(B + 'reverse', returns='obj:Binv', ensures=['len(result.vector) == len(self.vector)',
         'all(result.vector[i] == self.vector[len(self.vector) - 1 - i] for i in range(len(self.vector)))'], **V)
contract(B + 'has_index', args={'self': 'obj:Binv', 'key': 'int'}, props=['C01'], returns='bool',
         ensures=['iff(result, 0 <= key and key < len(self.vector) and self.vector[key])'])

# operations
PAIR = {'self': 'obj:Binv', 'other': 'obj:Binv'}
for nm, expr in (('and', 'x and y'), ('or', 'x or y'), ('xor', 'x != y')):
    e = expr.replace('x', 'self.vector[i]').replace('y', 'other.vector[i]')
    post = ['len(result.vector) == len(self.vector)', f'all(iff(result.vector[i], {e}) for i in range(len(self.vector)))']
    contract('discretehelpers.binv.methods.bitwise._bitwise', case=nm, args={'self': 'obj:Binv', 'name': f'const:{nm!r}', 'other': 'obj:Binv'},
             props=['C02'], requires=['len(self.vector) == len(other.vector)'], returns='obj:Binv', ensures=post)
    contract(B + f'__{nm}__', args=PAIR, props=['C02'], requires=['len(self.vector) == len(other.vector)'], returns='obj:Binv', ensures=post)
contract(B + '__invert__', args=SELF, props=['C02'], returns='obj:Binv', ensures=['len(result.vector) == len(self.vector)',
         'all(result.vector[i] == (not self.vector[i]) for i in range(len(self.vector)))'])
contract(B + '__eq__', args=PAIR, props=['C01', 'C02'], returns='bool',
         ensures=['iff(result, len(self.vector) == len(other.vector) and all(self.vector[i] == other.vector[i] for i in range(len(self.vector))))'])
contract(B + 'bitwise_smaller', args=PAIR, props=['C02'], requires=['len(self.vector) == len(other.vector)'], returns='bool',
         ensures=['iff(result, all(implies(self.vector[i], other.vector[i]) for i in range(len(self.vector))) and '
                  'any(self.vector[i] != other.vector[i] for i in range(len(self.vector))))'])
LESS = ('any(k <= len(a.vector) and k <= len(b.vector) and all(a.vector[j] == b.vector[j] for j in range(k)) and '
        '((k == len(a.vector) and k < len(b.vector)) or (k < len(a.vector) and k < len(b.vector) and not a.vector[k] and b.vector[k])) for k in NAT)')
EQ = '(len(a.vector) == len(b.vector) and all(a.vector[j] == b.vector[j] for j in range(len(a.vector))))'


def ab(t, a, b):
    return t.replace('a.vector', a + '.vector').replace('b.vector', b + '.vector')


contract(B + '__lt__', args=PAIR, props=['C02'], returns='bool', ensures=[f"iff(result, {ab(LESS, 'self', 'other')})"])
contract(B + '__gt__', args=PAIR, props=['C02'], returns='bool', ensures=[f"iff(result, {ab(LESS, 'other', 'self')})"])
contract(B + '__le__', args=PAIR, props=['C02'], returns='bool', ensures=[f"iff(result, {ab(LESS, 'self', 'other')} or {ab(EQ, 'self', 'other')})"])
contract(B + '__ge__', args=PAIR, props=['C02'], returns='bool', ensures=[f"iff(result, {ab(LESS, 'other', 'self')} or {ab(EQ, 'other', 'self')})"])
contract(B + 'flip_bit', args={'self': 'obj:Binv', 'position': 'int'}, props=['C02'], requires=['0 <= position'],
         raises=[('AssertionError', 'position >= len(self.vector)')], returns='obj:Binv',
         ensures=['len(result.vector) == len(self.vector)',
                  'all(result.vector[i] == (self.vector[i] != (i == position)) for i in range(len(self.vector)))'])
contract(B + '__add__', args=PAIR, props=['C02'], returns='obj:Binv',
         ensures=['len(result.vector) == len(self.vector) + len(other.vector)',
                  'all(result.vector[i] == self.vector[i] for i in range(len(self.vector)))',
                  'all(result.vector[len(self.vector) + i] == other.vector[i] for i in range(len(other.vector)))'])
contract(B + '__getitem__', case='index', args={'self': 'obj:Binv', 'key': 'int'}, props=['C01'], returns='bool',
         raises=[('IndexError', 'key >= len(self.vector) or key < -len(self.vector)')],
         ensures=['result == self.vector[key if key >= 0 else key + len(self.vector)]'])

# the property statements
G = {'Binv': Binv}
lemma('Binv from its integer value and length', {'b': 'obj:Binv'}, '''
n = b.intval
c = Binv(intval=n, length=b.length)
eq = c == b
assert eq
''', props=['C01'], globals=G)
lemma('Binv from its exponent set and length', {'b': 'obj:Binv'}, '''
c = Binv(exposet=b.exposet, length=b.length)
eq = c == b
assert eq
''', props=['C01'], globals=G)
lemma('Binv from its string', {'b': 'obj:Binv'}, '''
s = b.string
assert len(s) == len(b.vector)
c = Binv(s)
eq = c == b
assert eq
''', props=['C01'], globals=G)
lemma('integer value and exponent set determine each other', {'n': 'int'}, '''
b = Binv(intval=n)
m = b.intval
assert all(bit(m, i) == bit(n, i) for i in NAT)
assert bit(m, bdiff(m, n)) == bit(n, bdiff(m, n))
assert m == n
s = b.exposet
assert all(iff(i in s, i >= 0 and bit(n, i)) for i in INTS)
c = Binv(exposet=s)
eq = c == b
assert eq
''', requires=['n >= 0'], props=['C01'], globals=G)
lemma('complement and reverse are involutions', {'b': 'obj:Binv'}, '''
x = b.complement.complement == b
assert x
y = b.reverse.reverse == b
assert y
''', props=['C01'], globals=G)
lemma('lexicographic order is total', {'a': 'obj:Binv', 'b': 'obj:Binv'}, '''
x = a < b
y = b > a
e = a == b
le = a <= b
assert x == y
assert le == (x or e)
''', props=['C02'], globals=G)
contract(B + '__init__', case='vector: tup of bool', args={'self': 'new', 'vector': 'tup[bool]'},
         ensures=['len(self.vector) == len(vector)', 'all(self.vector[i] == vector[i] for i in range(len(vector)))'] + INV, **INIT)
