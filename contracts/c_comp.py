"""Set partitions with complements."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.set_part_comp import SetPartComp
import c_setpart

shape('SetPartComp', SetPartComp, {'equal_part': 'obj:SetPartZ', 'comp_pairs': 'set[tuple[int,int]]'},
      inv=['all(implies((x, y) in self.comp_pairs, x < y) for x in INTS for y in INTS)'])
Q = 'discretehelpers.set_part_comp.'
P = Q + 'SetPartComp.'
contract(P + 'are_equal', args={'self': 'obj:SetPartComp', 'a': 'int', 'b': 'int'}, props=['C13'], returns='bool',
         ensures=[f"iff(result, {c_setpart.same('self.equal_part', 'a', 'b')})"])
contract(P + 'get_repr', args={'self': 'obj:SetPartComp', 'element': 'int'}, props=['C13'], returns='int',
         ensures=[c_setpart.same('self.equal_part', 'element', 'result'),
                  f"all(implies({c_setpart.same('self.equal_part', 'element', 'x')}, result <= x) for x in INTS)"])
contract(Q + 'helpers._pair', args={'a': 'int', 'b': 'int'}, props=['C13'], returns='tuple[int,int]',
         ensures=['result[0] == (a if a <= b else b) and result[1] == (b if a <= b else a)'])
LEAST = '(self.equal_part.blocks[self.equal_part.non_singleton_to_block_index[{0}]][0] if {0} in self.equal_part.non_singletons else {0})'
contract(P + 'get_block', args={'self': 'obj:SetPartComp', 'element': 'int'}, props=['C13'], returns='list[int]',
         ensures=[f"all(iff(any(result[j] == x for j in range(len(result))), {c_setpart.same('self.equal_part', 'element', 'x')}) for x in INTS)"])
contract(Q + 'helpers._representative', args={'self': 'obj:SetPartComp', 'a': 'int'}, props=['C13'], returns='int',
         ensures=[c_setpart.same('self.equal_part', 'a', 'result'),
                  f"all(implies({c_setpart.same('self.equal_part', 'a', 'x')}, result <= x) for x in INTS)", f"result == {LEAST.format('a')}"])
contract(P + 'are_comp', args={'self': 'obj:SetPartComp', 'a': 'int', 'b': 'int'}, props=['C13'], returns='bool',
         ensures=[f"iff(result, ({LEAST.format('a')}, {LEAST.format('b')}) in self.comp_pairs or ({LEAST.format('b')}, {LEAST.format('a')}) in self.comp_pairs)"])
