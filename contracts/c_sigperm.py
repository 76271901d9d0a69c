"""Signed permutations."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.sig_perm import SigPerm
from c_perm import within
import c_binv

S = 'discretehelpers.sig_perm.'
VALID = ['all((sequence[i] if sequence[i] >= 0 else -sequence[i] - 1) < len(sequence) for i in range(len(sequence)))',
         'all(implies((sequence[i] if sequence[i] >= 0 else -sequence[i] - 1) == (sequence[j] if sequence[j] >= 0 else -sequence[j] - 1), i == j)'
         ' for i in range(len(sequence)) for j in range(len(sequence)))']
ENTRY = '(0 if r != (sequence[c] if sequence[c] >= 0 else -sequence[c] - 1) else (1 if sequence[c] >= 0 else -1))'
contract(S + 'a.sequence_to_matrix', case='plain', args={'sequence': 'list[int]'}, props=['C07'], returns='mat', requires=VALID,
         ensures=['result.shape[0] == len(sequence) and result.shape[1] == len(sequence)',
                  f'all(result[r, c] == {ENTRY} for r in range(len(sequence)) for c in range(len(sequence)))'])
contract(S + 'a.sequence_to_matrix', case='inverse', args={'sequence': 'list[int]', 'inverse': 'const:True'}, props=['C08'], returns='mat', requires=VALID,
         ensures=['result.shape[0] == len(sequence) and result.shape[1] == len(sequence)',
                  f'all(result[c, r] == {ENTRY} for r in range(len(sequence)) for c in range(len(sequence)))'])

INV = ['self.perm.perilen is None', 'len(self.binv.vector) == self.length', 'self.perm.length <= self.length',
       'self.length == 0 or self.length == self.perm.length or self.binv.vector[self.length - 1]',
       'iff(self.unsigned, all(not self.binv.vector[i] for i in range(self.length)))', 'iff(self.unmoved, self.perm.neutral)',
       'iff(self.neutral, self.unsigned and self.unmoved)']
FIELDS = {'perm': 'obj:Perm', 'binv': 'obj:Binv', 'length': 'int', 'unsigned': 'bool', 'unmoved': 'bool', 'neutral': 'bool'}
shape('SigPerm', SigPerm, FIELDS, inv=INV)
SELF = {'self': 'obj:SigPerm'}
P = S + 'SigPerm.'
NEW = dict(props=['C07'], modifies={'self': FIELDS})


def signed(o, i):
    """image of the natural number i under the signed permutation o"""
    p = within(o + '.perm', i)
    return f'(-{p} - 1 if {p} < {o}.length and {o}.binv.vector[{p}] else {p})'


contract('discretehelpers.a.logic_negate.logic_negate_vector', case='which set', args={'values': 'list[int]', 'which': 'set[int]'}, props=['C03', 'C07'], returns='list[int]',
         raises=[('ArgValueError', 'any(x < 0 for x in which)'),
                 ('ArgMismatchError', 'all(x >= 0 for x in which) and any(all(values[j] != x and -values[j] - 1 != x for j in range(len(values))) for x in which)')],
         ensures=['len(result) == len(values)',
                  'all(result[i] == (-values[i] - 1 if (values[i] if values[i] >= 0 else -values[i] - 1) in which else values[i]) for i in range(len(values)))'])
contract(S + 'metributes.sequence_minimal.sequence_minimal', args=SELF, props=['C07', 'C16'], returns='list[int]',
         ensures=['len(result) == self.length', f'all(result[i] == {signed("self", "i")} for i in range(self.length))'])
contract(P + 'sequence', case='default', args=SELF, props=['C07'], returns='list[int]',
         ensures=['len(result) == self.length', f'all(result[i] == {signed("self", "i")} for i in range(self.length))'])
contract(P + 'sequence', case='length', args={'self': 'obj:SigPerm', 'length': 'int'}, props=['C07', 'C16'], returns='list[int]',
         raises=[('ValueError', 'length < self.length')],
         ensures=['len(result) == length', f'all(result[i] == {signed("self", "i")} for i in range(length))'])
contract(P + '__init__', case='sequence', args={'self': 'new', 'sequence': 'list[int]'},
         requires=VALID, ensures=INV + [f'all({signed("self", "i")} == (sequence[i] if i < len(sequence) else i) for i in NAT)'], **NEW)


def mag(x):
    return f'({x} if {x} >= 0 else -{x} - 1)'


def at(seq, m):
    """the entries of a matrix agree with the signed sequence"""
    return f'all({mag(seq + "[c]")} < {m}.shape[0] and {m}[{mag(seq + "[c]")}, c] == (1 if {seq}[c] >= 0 else -1) for c in range({m}.shape[0]))'


MAT = ['matrix.shape[0] == matrix.shape[1]',
       'all(-1 <= matrix[r, c] and matrix[r, c] <= 1 for r in range(matrix.shape[0]) for c in range(matrix.shape[0]))',
       'all(any(matrix[r, c] != 0 for r in range(matrix.shape[0])) for c in range(matrix.shape[0]))',
       'all(implies(matrix[r, c] != 0 and matrix[s, c] != 0, r == s) for r in range(matrix.shape[0]) for s in range(matrix.shape[0]) for c in range(matrix.shape[0]))']
ROWS = ['all(implies(matrix[r, c] != 0 and matrix[r, d] != 0, c == d) for r in range(matrix.shape[0]) for c in range(matrix.shape[0]) for d in range(matrix.shape[0]))']
contract(S + 'a.matrix_to_sequence', args={'matrix': 'mat'}, props=['C07'], returns='list[int]', requires=MAT,
         ensures=['len(result) == matrix.shape[0]', at('result', 'matrix')],
         loops={0: dict(inv=['len(sequence) == _i', at('sequence', 'matrix').replace('range(matrix.shape[0])', 'range(_i)')], types={'sequence': 'list[int]'}),
                1: dict(inv=['len(sequence) == n + (1 if any(matrix[r, n] != 0 for r in range(_i)) else 0)',
                             at('sequence', 'matrix').replace('range(matrix.shape[0])', 'range(len(sequence))')], types={'sequence': 'list[int]'})})


def negated(o, p):
    return f'({p} < {o}.length and {o}.binv.vector[{p}])'


def sign(o, i):
    """sign of the image of i"""
    return f'(-1 if {negated(o, within(o + ".perm", i))} else 1)'


SIGNEDMAT = f'all(result[r, c] == (0 if r != {within("self.perm", "c")} else {sign("self", "c")}) for r in range(result.shape[0]) for c in range(result.shape[0]))'
contract(P + 'matrix', case='default', args=SELF, props=['C07'], returns='mat', ensures=['result.shape[0] == self.length and result.shape[1] == self.length', SIGNEDMAT])
contract(P + 'matrix', case='size', args={'self': 'obj:SigPerm', 'size': 'int'}, props=['C07'], returns='mat', raises=[('ValueError', 'size < self.length')],
         ensures=['result.shape[0] == size and result.shape[1] == size', SIGNEDMAT])
contract(P + '__init__', case='matrix', args={'self': 'new', 'matrix': 'mat'}, requires=MAT + ROWS,
         ensures=INV + [f'all(implies(i >= matrix.shape[0], {within("self.perm", "i")} == i) for i in NAT)', 'self.length <= matrix.shape[0]',
                        f'all({within("self.perm", "c")} < matrix.shape[0] and matrix[{within("self.perm", "c")}, c] == {sign("self", "c")} for c in range(matrix.shape[0]))'], **NEW)

contract(S + 'metributes.inverse.inverse', args=SELF, props=['C08'], returns='obj:SigPerm',
         after={'inverse_matrix': [f'all(any({within("self.perm", "r")} == c for r in range(self.length)) for c in range(self.length))',
                                   f'all(inverse_matrix[r, {within("self.perm", "r")}] != 0 for r in range(self.length))',
                                   'all(any(inverse_matrix[r, c] != 0 for r in range(self.length)) for c in range(self.length))']},
         hints=['result.length <= self.length',
                f'all({within("result.perm", within("self.perm", "i"))} == i for i in NAT)',
                f'all({sign("result", within("self.perm", "i"))} == {sign("self", "i")} for i in NAT)',
                f'implies(result.length < self.length, {within("result.perm", "self.length - 1")} == self.length - 1)',
                f'implies(result.length < self.length, {within("self.perm", "self.length - 1")} == self.length - 1)',
                f'implies(result.length < self.length, {sign("result", "self.length - 1")} == 1)',
                f'implies(result.length < self.length, {sign("self", "self.length - 1")} == 1)'],
         ensures=['result.length == self.length',
                  f'all({within("result.perm", within("self.perm", "i"))} == i and {within("self.perm", within("result.perm", "i"))} == i for i in NAT)',
                  f'all({sign("result", within("self.perm", "i"))} == {sign("self", "i")} for i in NAT)'])
BOTH = {'self': 'obj:SigPerm', 'other': 'obj:SigPerm'}
TWO = within('self.perm', within('other.perm', 'i'))
contract(P + '__mul__', args=BOTH, props=['C08'], returns='obj:SigPerm',
         after={'matrix': [f'all({within("other.perm", "i")} < size for i in range(size))', f'all({TWO} < size for i in range(size))',
                           f'all(_left[{TWO}, {within("other.perm", "i")}] == {sign("self", within("other.perm", "i"))} and _right[{within("other.perm", "i")}, i] == {sign("other", "i")} for i in range(size))',
                           f'all(matrix[{TWO}, i] == {sign("other", "i")} * {sign("self", within("other.perm", "i"))} for i in range(size))',
                           f'all({TWO} < size and matrix[{TWO}, i] == {sign("other", "i")} * {sign("self", within("other.perm", "i"))} for i in range(size))',
                           f'all(implies(r != {TWO}, matrix[r, i] == 0) for i in range(size) for r in range(size))']},
         ensures=[f'all({within("result.perm", "i")} == {TWO} for i in NAT)', f'all(({sign("result", "i")} == 1) == ({sign("other", "i")} == {sign("self", within("other.perm", "i"))}) for i in NAT)',
                  'result.length <= max(self.length, other.length)'])
LIKE = f'all({within("self.perm", "i")} == {within("other.perm", "i")} and {sign("self", "i")} == {sign("other", "i")} for i in NAT)'
AB = LIKE.replace('self', 'a').replace('other', 'b')
lemma('equal signed permutations have equal length', {'a': 'obj:SigPerm', 'b': 'obj:SigPerm'}, f"""
assert all(any({within("a.perm", "i")} == x for i in range(a.length)) for x in range(a.length))
assert implies({AB} and a.length > b.length, a.perm.length < a.length)
assert implies({AB}, a.length <= b.length)
assert implies({AB}, all(implies(a.binv.vector[x], b.binv.vector[x]) for x in range(a.length)))
""", ensures=[f'implies({AB}, a.length <= b.length)', f'implies({AB}, all(implies(a.binv.vector[x], b.binv.vector[x]) for x in range(a.length)))'], props=['C07'])
ACTS = 'all(result[{0}] == ({1} if {2} == 1 else -{1} - 1) for i in range(len(vector)))'
for T, V in (('int', 'vector[{}]'), ('bool', '(1 if vector[{}] else 0)')):
    E, VJ = 'inverse_sequence[j]', V.format(mag('inverse_sequence[j]'))
    contract(P + 'apply_on_vector', case=f'list of {T}', args={'self': 'obj:SigPerm', 'vector': f'list[{T}]'}, props=['C08'], returns='list[int]',
             raises=[('ValueError', 'len(vector) < self.length')],
             ensures=['len(result) == len(vector)', ACTS.format(within('self.perm', 'i'), V.format('i'), sign('self', 'i'))],
             loops={0: dict(types={'result_vector': 'list[int]'}, inv=['len(result_vector) == _i', f'all(result_vector[j] == (-{VJ} - 1 if {E} < 0 else {VJ}) for j in range(_i))'])},
             after={'inverse_sequence': [f'all({within("self.perm", "i")} < len(vector) for i in range(len(vector)))',
                                         f'all({mag("inverse_sequence[j]")} < len(vector) for j in range(len(vector)))',
                                         f'all(inverse_sequence[{within("self.perm", "i")}] == (i if {sign("self", "i")} == 1 else -i - 1) for i in range(len(vector)))']})
contract(P + 'apply_on_natural_number', args={'self': 'obj:SigPerm', 'n': 'int'}, props=['C08'], returns='int', requires=['n >= 0'],
         ensures=['result >= 0', f'all(bit(result, {within("self.perm", "i")}) == (bit(n, i) != ({sign("self", "i")} == -1)) for i in NAT)'])
contract(P + '__eq__', args=BOTH, props=['C07'], returns='bool',
         hints=["use('equal signed permutations have equal length', self, other)", "use('equal signed permutations have equal length', other, self)", f'implies({LIKE}, self.length == other.length)', f'implies({LIKE}, all(self.binv.vector[i] == other.binv.vector[i] for i in range(self.length)))'],
         ensures=[f'iff(result, all({within("self.perm", "i")} == {within("other.perm", "i")} and {sign("self", "i")} == {sign("other", "i")} for i in NAT))'])
PERM = f'all({within("self.perm", "i")} == {within("perm", "i")} for i in NAT)'
contract(P + '__init__', case='valneg and perm', args={'self': 'new', 'valneg': 'obj:Binv', 'perm': 'obj:Perm'}, requires=['perm.perilen is None'],
         ensures=INV + [PERM, f'all(({sign("self", "i")} == -1) == ({within("perm", "i")} < len(valneg.vector) and valneg.vector[{within("perm", "i")}]) for i in NAT)'], **NEW)
contract(P + '__init__', case='keyneg and perm', args={'self': 'new', 'keyneg': 'obj:Binv', 'perm': 'obj:Perm'}, requires=['perm.perilen is None'],
         ensures=INV + [PERM, f'all(({sign("self", "i")} == -1) == (i < len(keyneg.vector) and keyneg.vector[i]) for i in NAT)'],
         hints=[f'all(iff(any(negator_exposet[j] == {within("perm", "i")} for j in range(len(negator_exposet))), i < len(keyneg.vector) and keyneg.vector[i]) for i in range(length))'],
         loops={0: dict(types={'sequence': 'list[int]'}, inv=['len(sequence) == _i', f'all(sequence[j] == (-{within("perm", "j")} - 1 if j < len(keyneg.vector) and keyneg.vector[j] else {within("perm", "j")}) for j in range(_i))'],
                        then=[f'all({within("perm", "i")} < length for i in range(length))', f'all(implies(i >= length, {within("perm", "i")} == i) for i in NAT)', 'all(implies(i >= length, not (i < len(keyneg.vector) and keyneg.vector[i])) for i in NAT)'])}, **NEW)
contract(S + 'metributes._indices.valneg_index.valneg_index', args=SELF, props=['C07'], returns='int',
         ensures=['result >= 0', f'all(bit(result, {within("self.perm", "i")}) == ({sign("self", "i")} == -1) for i in NAT)'])
contract(S + 'metributes._indices.keyneg_index.keyneg_index', args=SELF, props=['C07'], returns='int',
         ensures=['result >= 0', f'all(bit(result, i) == ({sign("self", "i")} == -1) for i in NAT)'],
         loops={0: dict(inv=[f'result == dval([{sign("self", "i")} == -1 for i in range(self.length)], _i)'],
                        hints=[f'(val < 0) == ({sign("self", "key")} == -1)'],
                        then=[f'all(implies(i >= self.length, {within("self.perm", "i")} == i) for i in NAT)'])})
lemma('a signed permutation times its inverse is neutral', {'a': 'obj:SigPerm', 'n': 'obj:SigPerm'}, f"""
b = a.inverse
p = a * b
q = b * a
assert all({within('p.perm', 'i')} == i and {sign('p', 'i')} == 1 for i in NAT)
assert all({within('q.perm', 'i')} == i and {sign('q', 'i')} == 1 for i in NAT)
assert all({within('n.perm', 'i')} == i and {sign('n', 'i')} == 1 for i in NAT)
assert {LIKE.replace('self', 'p').replace('other', 'n')}
assert {LIKE.replace('self', 'q').replace('other', 'n')}
x = p == n
y = q == n
assert x
assert y
""", requires=['n.neutral'], props=['C08'])
lemma('multiplication of signed permutations is associative', {'a': 'obj:SigPerm', 'b': 'obj:SigPerm', 'c': 'obj:SigPerm'}, f"""
p = a * b
q = b * c
x = p * c
y = a * q
assert all({within('x.perm', 'i')} == {within('y.perm', 'i')} for i in NAT)
assert all({sign('x', 'i')} == {sign('y', 'i')} for i in NAT)
assert {LIKE.replace('self', 'x').replace('other', 'y')}
e = x == y
assert e
""", props=['C08'])
lemma('a product acts on vectors like its factors in turn', {'a': 'obj:SigPerm', 'b': 'obj:SigPerm', 'v': 'list[int]'}, f"""
p = a * b
x = p.apply_on_vector(v)
w = b.apply_on_vector(v)
y = a.apply_on_vector(w)
assert all(x[{within('p.perm', 'i')}] == y[{within('p.perm', 'i')}] for i in range(len(v)))
assert all({within('p.perm', 'i')} < len(v) for i in range(len(v)))
assert all(any({within('p.perm', 'i')} == j for i in range(len(v))) for j in range(len(v)))
assert all(x[j] == y[j] for j in range(len(v)))
""", requires=['a.length <= len(v)', 'b.length <= len(v)'], props=['C08'])
