"""Set partitions."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.set_part import SetPart

INV = ['all(iff(x in self.non_singletons, x in self.non_singleton_to_block_index) for x in INTS)',
       'all(implies(x in self.non_singletons, 0 <= self.non_singleton_to_block_index[x] and self.non_singleton_to_block_index[x] < len(self.blocks)'
       ' and any(self.blocks[self.non_singleton_to_block_index[x]][j] == x for j in range(len(self.blocks[self.non_singleton_to_block_index[x]])))) for x in INTS)',
       'all(self.blocks[b][j] in self.non_singletons and self.non_singleton_to_block_index[self.blocks[b][j]] == b'
       ' for b in range(len(self.blocks)) for j in range(len(self.blocks[b])))',
       'all(len(self.blocks[b]) >= 2 for b in range(len(self.blocks)))',
       'all(self.blocks[b][j] < self.blocks[b][k] for b in range(len(self.blocks)) for j in range(len(self.blocks[b])) for k in range(j + 1, len(self.blocks[b])))',
       'all(self.blocks[b][0] < self.blocks[c][0] for b in range(len(self.blocks)) for c in range(b + 1, len(self.blocks)))']
FIELDS = {'blocks': 'list[list[int]]', 'non_singleton_to_block_index': 'dict[int,int]', 'non_singletons': 'set[int]'}
shape('SetPart', SetPart, FIELDS, inv=INV, const={'domain': 'N'})
shape('SetPartZ', SetPart, FIELDS, inv=INV, const={'domain': 'Z'})
shape('SetPartS', SetPart, {**FIELDS, 'domain': 'set[int]'}, inv=INV)
Q = 'discretehelpers.set_part.'
P = Q + 'SetPart.'


def same(o, x, y):
    return (f'({x} == {y} or ({x} in {o}.non_singletons and {y} in {o}.non_singletons and '
            f'{o}.non_singleton_to_block_index[{x}] == {o}.non_singleton_to_block_index[{y}]))')


DOMAINS = (('naturals', 'SetPart', '{} >= 0'), ('integers', 'SetPartZ', 'True'), ('set', 'SetPartS', '{} in self.domain'))
for CASE, SHP, IN in DOMAINS:
    contract(P + 'pair_in_same_block', case=CASE, args={'self': f'obj:{SHP}', 'a': 'int', 'b': 'int'}, props=['C10'], returns='bool', requires=['a != b'],
             ensures=[f"iff(result, {same('self', 'a', 'b')})"])
    contract(P + 'element_to_block', case=CASE, args={'self': f'obj:{SHP}', 'element': 'int'}, props=['C10', 'C11'], returns='list[int]',
             ensures=[f"all(iff(any(result[j] == x for j in range(len(result))), {same('self', 'element', 'x')}) for x in INTS)",
                      'all(result[j] < result[k] for j in range(len(result)) for k in range(j + 1, len(result)))'])
    contract(P + 'element_in_domain', case=CASE, args={'self': f'obj:{SHP}', 'element': 'int'}, props=['C10'], returns='bool',
             ensures=[f"iff(result, {IN.format('element')})"])
contract(Q + 'metributes.singletons.singletons', case='set', args={'self': 'obj:SetPartS'}, props=['C10'], returns='set[int]',
         ensures=['all(iff(x in result, x in self.domain and not (x in self.non_singletons)) for x in INTS)'])
for case, shp in (('naturals', 'SetPart'), ('integers', 'SetPartZ')):
    contract(P + '__eq__', case=case, args={'self': f'obj:{shp}', 'other': f'obj:{shp}'}, props=['C10', 'C12'], returns='bool',
             ensures=['iff(result, self.blocks == other.blocks)'])
contract(P + '__eq__', case='sets', args={'self': 'obj:SetPartS', 'other': 'obj:SetPartS'}, props=['C10', 'C12'], returns='bool',
         raises=[('DomainsNotEqualError', 'not all(iff(x in self.domain, x in other.domain) for x in INTS)')],
         ensures=['iff(result, self.blocks == other.blocks)'])
contract(P + '__eq__', case='naturals and integers', args={'self': 'obj:SetPart', 'other': 'obj:SetPartZ'}, props=['C12'], returns='bool',
         raises=[('DomainsNotEqualError', 'True')])
contract(P + '__eq__', case='naturals and set', args={'self': 'obj:SetPart', 'other': 'obj:SetPartS'}, props=['C12'], returns='bool',
         raises=[('DomainsNotEqualError', 'True')])
