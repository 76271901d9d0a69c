"""Walsh permutations: linear maps of bit vectors."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.walsh_perm.a.vector_class import Vector

W = 'discretehelpers.walsh_perm.'
P = ['C09']
BINARY = ['matrix.shape[0] == matrix.shape[1]',
          'all(matrix[r, c] == 0 or matrix[r, c] == 1 for r in range(matrix.shape[0]) for c in range(matrix.shape[1]))']
contract(W + 'a.matrix_to_vector', case='columns', args={'matrix': 'mat'}, props=P, requires=BINARY, returns='list[int]',
         ensures=['len(result) == matrix.shape[0]',
                  'all(bit(result[c], r) == (matrix[r, c] == 1) for c in range(len(result)) for r in range(len(result)))',
                  'all(0 <= result[c] and result[c] < pow2(len(result)) for c in range(len(result)))'])
contract(W + 'a.matrix_to_vector', case='rows', args={'matrix': 'mat', 'by_row': 'const:True'}, props=P, requires=BINARY, returns='list[int]',
         ensures=['len(result) == matrix.shape[0]',
                  'all(bit(result[r], c) == (matrix[r, c] == 1) for c in range(len(result)) for r in range(len(result)))',
                  'all(0 <= result[c] and result[c] < pow2(len(result)) for c in range(len(result)))'])
contract(W + 'a.vector_to_matrix', args={'vector': 'list[int]'}, props=P, returns='mat',
         requires=['all(0 <= vector[i] and vector[i] < pow2(len(vector)) for i in range(len(vector)))'],
         raises=[('IsNeutralFail', 'len(vector) == 0 or (len(vector) == 1 and vector[0] == 1)')],
         ensures=['result.shape[0] == len(vector) and result.shape[1] == len(vector)',
                  'all(result[r, c] == (1 if bit(vector[c], r) else 0) for c in range(len(vector)) for r in range(len(vector)))'])

VFIELDS = {'mapping': 'dict[int,int]', 'keys': 'list[int]', 'length': 'int'}
VINV = ['all(implies(k in self.mapping, k >= 0 and self.mapping[k] >= 0 and self.mapping[k] != pow2(k) and k < self.length) for k in INTS)',
        'all(self.keys[i] in self.mapping for i in range(len(self.keys)))',
        'all(implies(k in self.mapping, any(self.keys[i] == k for i in range(len(self.keys)))) for k in INTS)',
        'self.length == 0 or self.length - 1 in self.mapping', 'self.length >= 0']
shape('Vector', Vector, VFIELDS, inv=VINV)
V = W + 'a.vector_class.Vector.'
NEW = dict(props=P, modifies={'self': VFIELDS})


def entry(o, i):
    return f'({o}.mapping[{i}] if {i} in {o}.mapping else pow2({i}))'


contract(V + '__init__', case='list', args={'self': 'new', 'arg': 'list[int]'},
         raises=[('TypeError', 'any(arg[i] < 0 for i in range(len(arg)))')],
         ensures=[f"all({entry('self', 'i')} == (arg[i] if i < len(arg) else pow2(i)) for i in NAT)"] + VINV, **NEW)
contract(V + '__getitem__', case='index', args={'self': 'obj:Vector', 'arg': 'int'}, requires=['arg >= 0'], props=P, returns='int',
         ensures=[f"result == {entry('self', 'arg')}"])
contract(V + '__eq__', args={'self': 'obj:Vector', 'other': 'obj:Vector'}, props=P, returns='bool',
         ensures=[f"iff(result, all({entry('self', 'i')} == {entry('other', 'i')} for i in NAT))"])
contract(V + 'extend_to_length', args={'self': 'obj:Vector', 'length': 'int'}, props=P, returns='tup[int]',
         raises=[('ExtendedLengthTooSmallError', 'length < self.length')],
         ensures=['len(result) == length', f"all(result[i] == {entry('self', 'i')} for i in range(length))"])
