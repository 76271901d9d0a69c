"""Helper functions: atom patterns, zips, sorted rearrangements."""
from pyvc.contracts import contract, lemma

A = 'discretehelpers.a.'
P = ['C20']
contract(A + '_atompatterns.make_atompattern_gen', args={'signed_atomval': 'int', 'arity': 'int', 'negate': 'bool'}, props=P,
         requires=['0 <= (signed_atomval if signed_atomval >= 0 else -signed_atomval - 1)',
                   '(signed_atomval if signed_atomval >= 0 else -signed_atomval - 1) < arity'], returns='list[bool]',
         ensures=['len(result) == pow2(arity)',
                  'all(result[i] == (bit(i, signed_atomval if signed_atomval >= 0 else -signed_atomval - 1) != (negate != (signed_atomval < 0)))'
                  ' for i in range(len(result)))'])
contract(A + 'repeat_sequence', case='list', args={'short_sequence': 'list[int]', 'target_length': 'int'}, props=P, returns='list[int]',
         requires=['len(short_sequence) > 0', 'target_length >= 0', 'target_length % len(short_sequence) == 0'],
         ensures=['len(result) == target_length', 'all(result[i] == short_sequence[i % len(short_sequence)] for i in range(target_length))'])
for _t in ('int', 'bool'):
    contract(A + 'vector_zip_apart', case=f'list of {_t}', args={'vector': f'list[{_t}]', 'pattern': 'list[int]'}, props=P + (['C14'] if _t == 'bool' else []),
             returns=f'list[list[{_t}]]', empty=_t,
             raises=[('LengthError', 'len(vector) != len(pattern)'),
                     ('NotNaturalError', 'len(vector) == len(pattern) and any(pattern[i] < 0 for i in range(len(pattern)))')],
             ensures=['all(pattern[i] < len(result) for i in range(len(pattern)))',
                      'implies(len(result) > 0, any(pattern[i] == len(result) - 1 for i in range(len(pattern))))',
                      'all(len(result[v]) == cnt(pattern, v) for v in range(len(result)))',
                      'all(result[pattern[k]][cnt(pattern, pattern[k], k)] == vector[k] for k in range(len(vector)))'],
             loops={1: dict(types={'result': f'list[list[{_t}]]'}, inv=['len(result) == result_length', 'all(len(result[v]) == cnt(pattern, v, _i) for v in range(len(result)))',
                                 'all(result[pattern[k]][cnt(pattern, pattern[k], k)] == vector[k] for k in range(_i))'])})
contract(A + 'inventory_dict', case='list', args={'arg': 'list[int]'}, props=P, returns='dict[int,int]',
         ensures=['all(iff(x in result, any(arg[i] == x for i in range(len(arg)))) for x in INTS)',
                  'all(implies(x in result, result[x] == psum([1 if arg[i] == x else 0 for i in range(len(arg))])) for x in INTS)'])
contract(A + 'other_entry_in_pair', args={'pair': 'list[int]', 'entry': 'int'}, props=P, returns='int',
         requires=['len(pair) == 2', 'pair[0] != pair[1]', 'entry == pair[0] or entry == pair[1]'],
         ensures=['result == (pair[1] if entry == pair[0] else pair[0])'])
contract(A + 'swap_matrix_rows', args={'matrix': 'mat', 'a': 'int', 'b': 'int'}, props=P, returns='mat',
         requires=['0 <= a and 0 <= b'],
         raises=[('ArgMismatchError', 'a >= matrix.shape[0] or b >= matrix.shape[0]')],
         ensures=['result.shape[0] == matrix.shape[0] and result.shape[1] == matrix.shape[1]',
                  'all(result[i, j] == matrix[(b if i == a else (a if i == b else i)), j] for i in range(matrix.shape[0]) for j in range(matrix.shape[1]))'])
contract(A + 'sequence_element_counts.sequence_to_entry_counts', args={'sequence': 'list[int]'}, props=P, returns='list[int]',
         ensures=['len(result) == len(sequence)',
                  'all(result[i] == psum([1 if sequence[j] == sequence[i] else 0 for j in range(i)]) for i in range(len(sequence)))'])
contract(A + 'is_multisubset.is_multisubset', args={'a': 'dict[int,int]', 'b': 'dict[int,int]'}, props=P, returns='bool',
         ensures=['iff(result, all(implies(a[x] > 0, x in b and a[x] <= b[x]) for x in a))'])
lemma('one digit picked', {'n': 'int', 'w': 'int'}, """
assert bit(band(pow2(n), w), n) == bit(w, n)
assert implies(bit(w, n), band(pow2(n), w) > 0)
assert implies(not bit(w, n), all(not bit(band(pow2(n), w), j) for j in NAT))
assert implies(not bit(w, n), bdiff(band(pow2(n), w), 0) < 0 or band(pow2(n), w) == 0)
assert implies(not bit(w, n), band(pow2(n), w) == 0)
""", requires=['n >= 0', 'w >= 0'], ensures=['(band(pow2(n), w) != 0) == bit(w, n)'], props=['C20'])
EVIL, ODIOUS = '(2 * leader + wgt(leader) % 2)', '(2 * leader + 1 - wgt(leader) % 2)'
LINEAR = [(f'walsh index, {"odd" if ODD else "even"}', {'walsh': 'int', 'arity': 'int', 'parity': f'const:{ODD}'}, 'walsh', 'walsh', ODD) for ODD in (0, 1)]
LINEAR += [(f'leader in quadrant {QUAD}', {'arity': 'int', 'leader': 'int', 'quadrant': f'const:{QUAD}'}, 'leader', EVIL if QUAD in (0, 3) else ODIOUS, QUAD in (1, 3))
           for QUAD in range(4)]
for CASE, ARGS, GIVEN, INDEX, ODD in LINEAR:
    contract('discretehelpers.a.make_linear_binv.make_linear_binv', case=CASE, args=ARGS, props=['C20'], returns='obj:Binv',
             requires=[f'{GIVEN} >= 0', 'arity > 0'], raises=[('ArgTooBigError', f'{INDEX} >= pow2(arity)')],
             ensures=['len(result.vector) == pow2(arity)', f'all(result.vector[i] {"!=" if ODD else "=="} parb({INDEX}, i, arity) for i in range(pow2(arity)))'],
             loops={0: dict(inv=['len(binv.vector) == pow2(arity)', 'all(binv.vector[i] == parb(walsh_index, i, _i) for i in range(pow2(arity)))'],
                            hints=["use('one digit picked', n, walsh_index)", 'all(atom_patterns[n].vector[i] == bit(i, n) for i in range(pow2(arity)))',
                                   'all(binv.vector[i] == (prev_binv.vector[i] != (bit(walsh_index, n) and bit(i, n))) for i in range(pow2(arity)))',
                                   'all(parb(walsh_index, i, n + 1) == (parb(walsh_index, i, n) != (bit(walsh_index, n) and bit(i, n))) for i in range(pow2(arity)))'])})
