"""Boolean functions."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.boolf import Boolf
import c_binv

F = 'discretehelpers.boolf.'
B = F + 'Boolf.'
FIELDS = {'root': 'obj:Binv', 'atomvals': 'list[int]', 'valency': 'int', 'adicity': 'int', 'is_constant': 'bool'}
INV = ['self.valency == len(self.atomvals)', 'len(self.root.vector) == pow2(len(self.atomvals))',
       'all(0 <= self.atomvals[i] and self.atomvals[i] < self.adicity for i in range(len(self.atomvals)))',
       'asc(self.atomvals)',
       'self.adicity == (0 if len(self.atomvals) == 0 else self.atomvals[len(self.atomvals) - 1] + 1)',
       'iff(self.is_constant, self.valency == 0)']
shape('Boolf', Boolf, FIELDS, inv=INV)
SELF = {'self': 'obj:Boolf'}
NEW = dict(props=['C14'], modifies={'self': FIELDS})


def key(o, k):
    """the row of the truth table of o that the assignment k selects"""
    return f'gath({o}.atomvals, {k})'


def mag(x):
    return f'({x} if {x} >= 0 else -{x} - 1)'


def value(o, k):
    return f'{o}.root.vector[{key(o, k)}]'


contract(B + 'set_unary', args={'self': 'new', 'arg': 'int'},
         ensures=['len(self.atomvals) == 1 and self.atomvals[0] == (arg if arg >= 0 else -arg - 1)', 'self.valency == 1', 'self.adicity == self.atomvals[0] + 1',
                  'len(self.root.vector) == 2', 'self.root.vector[0] == (arg < 0) and self.root.vector[1] == (arg >= 0)'],
         props=['C14'], modifies={'self': {k: v for k, v in FIELDS.items() if k != 'is_constant'}})
contract(B + 'set_constant', args={'self': 'new', 'val': 'bool'},
         ensures=['len(self.atomvals) == 0', 'len(self.root.vector) == 1', 'self.root.vector[0] == val', 'self.is_constant', 'self.adicity == 0', 'self.valency == 0'], **NEW)
SIERP = ['len(result) == pow2(len({0}))', 'all(result[k] == sprd({0}, k) for k in range(len(result)))']
contract('discretehelpers.a.int_to_sierpinski_row', case='exposet', args={'exposet': 'list[int]'}, props=['C14', 'C20'], returns='list[int]',
         requires=['all(0 <= exposet[i] for i in range(len(exposet)))', 'asc(exposet)'],
         ensures=[t.format('exposet') for t in SIERP],
         loops={0: dict(inv=['len(result) == pow2(len(exposet))', 'all(result[k] == sprd(exposet, k) for k in range(_i))',
                             'all(result[k] == 0 for k in range(_i, len(result)))']),
                1: dict(inv=['len(result) == pow2(len(exposet))', 'all(result[k] == sprd(exposet, k) for k in range(i))',
                             'all(result[k] == 0 for k in range(i + 1, len(result)))', 'result[i] == sprd(exposet, i, _i)'])})
contract(F + 'metributes.atomvals_sierpinski.atomvals_sierpinski', args=SELF, props=['C14'], returns='list[int]', ensures=[t.format('self.atomvals') for t in SIERP])
contract(F + 'metributes.atomvals_integer.atomvals_integer', args=SELF, props=['C14'], returns='int',
         ensures=['result >= 0', 'all(bit(result, i) == any(self.atomvals[j] == i for j in range(len(self.atomvals))) for i in NAT)'])
contract(F + 'a.intval_to_arity.intval_to_arity', args={'x': 'int'}, props=['C17'], returns='int', raises=[('ArgValueError', 'x < 0')],
         ensures=['result >= 0', 'x < pow2(pow2(result))', 'implies(result > 0, x >= pow2(pow2(result - 1)))'])
contract(F + 'metributes.quadrant.quadrant', args=SELF, props=['C14'], returns='int',
         ensures=['result == (1 if self.root.vector[0] else 0) + (2 if self.root.vector[len(self.root.vector) - 1] else 0)'])
contract(F + 'metributes.is_root.is_root', args=SELF, props=['C14'], returns='bool',
         ensures=['iff(result, all(self.atomvals[i] == i for i in range(len(self.atomvals))))'])
contract(F + 'a.spread_sigperm_to_sigvar', args={'sigperm': 'list[int]', 'spread': 'list[int]'}, props=['C16', 'C18'], returns='list[int]',
         requires=['all((sigperm[i] if sigperm[i] >= 0 else -sigperm[i] - 1) < len(spread) for i in range(len(sigperm)))',
                   'all(spread[i] >= 0 for i in range(len(spread)))'],
         raises=[('ArgValueError', 'len(sigperm) != len(spread)')],
         ensures=['len(result) == len(sigperm)', 'all(iff(result[i] < 0, sigperm[i] < 0) for i in range(len(sigperm)))',
                  f"all({mag('result[i]')} == {mag('sigperm[i]')} + spread[{mag('sigperm[i]')}] for i in range(len(sigperm)))"])
contract(F + 'a.count_split_regions', args={'split1': 'tuple[set[int],set[int]]', 'split2': 'tuple[set[int],set[int]]'}, props=['C19'], returns='int',
         ensures=['result == (1 if any(x in split1[0] and x in split2[0] for x in INTS) else 0) + (1 if any(x in split1[0] and x in split2[1] for x in INTS) else 0)'
                  ' + (1 if any(x in split1[1] and x in split2[0] for x in INTS) else 0) + (1 if any(x in split1[1] and x in split2[1] for x in INTS) else 0)'])
contract(F + 'a._mod_tt.mod_tt_neg', case='number', args={'tt': 'obj:Binv', 'signet': 'int'}, props=['C16'], returns='obj:Binv',
         requires=['signet >= 0', 'len(tt.vector) == pow2(binlen(len(tt.vector)) - 1)', 'signet < len(tt.vector)'],
         ensures=['len(result.vector) == len(tt.vector)', 'all(result.vector[i] == tt.vector[bxor(i, signet)] for i in range(len(tt.vector)))'])
contract(F + 'a.spotints_to_splits', args={'spotints': 'set[int]', 'valency': 'int'}, props=['C19'], returns='list[tuple[set[int],set[int]]]',
         requires=['valency >= 0', 'all(0 <= x and x < pow2(valency) for x in spotints)'],
         ensures=['len(result) == valency',
                  'all(iff(x in result[a][0], x in spotints and bit(x, a)) for a in range(valency) for x in INTS)',
                  'all(iff(x in result[a][1], x in spotints and not bit(x, a)) for a in range(valency) for x in INTS)'])
FULL = '0 <= x and x < len(self.root.vector) and self.root.vector[x]'
contract(F + 'metributes.fullspots.fullspots', args=SELF, props=['C19'], returns='set[int]', ensures=[f'all(iff(x in result, {FULL}) for x in INTS)'])
contract(F + 'metributes._splits.splits.splits', args=SELF, props=['C19'], returns='list[tuple[set[int],set[int]]]',
         ensures=['len(result) == self.valency',
                  f'all(iff(x in result[a][0], {FULL} and bit(x, a)) for a in range(self.valency) for x in INTS)',
                  f'all(iff(x in result[a][1], {FULL} and not bit(x, a)) for a in range(self.valency) for x in INTS)'])
contract(F + 'metributes.spread_vector.spread_vector', args=SELF, props=['C18'], returns='list[int]',
         ensures=['len(result) == self.valency', 'all(result[i] == self.atomvals[i] - i for i in range(self.valency))'])
contract(B + '__eq__', args={'self': 'obj:Boolf', 'other': 'obj:Boolf'}, props=['C14', 'C15'], returns='bool',
         ensures=['iff(result, self.root.vector == other.root.vector and self.atomvals == other.atomvals)'])
contract(B + '__getitem__', args={'self': 'obj:Boolf', 'key': 'int'}, props=['C14'], requires=['key >= 0'], returns='bool',
         pre=['sprd(self.atomvals, gath(self.atomvals, key)) >= 0'], ensures=[f"result == {value('self', 'key')}"])
contract(F + 'methods.tt.tt', case='own atoms', args=SELF, props=['C14'], returns='obj:Binv',
         ensures=['len(result.vector) == pow2(self.adicity)', f"all(result.vector[k] == {value('self', 'k')} for k in range(len(result.vector)))"])
contract(F + 'methods.tt.tt', case='arity', args={'self': 'obj:Boolf', 'arg': 'int'}, props=['C14'], returns='obj:Binv',
         requires=['arg >= 0'], raises=[('ArgTooSmallError', 'arg < self.adicity')],
         ensures=['len(result.vector) == pow2(arg)', f"all(result.vector[k] == {value('self', 'k')} for k in range(len(result.vector)))"])
contract(F + 'methods.tt.tt', case='atoms', args={'self': 'obj:Boolf', 'arg': 'list[int]'}, props=['C14'], returns='obj:Binv',
         requires=['asc(arg)', 'all(0 <= arg[i] for i in range(len(arg)))'],
         raises=[('ArgMismatchError', 'not all(any(arg[i] == self.atomvals[j] for i in range(len(arg))) for j in range(len(self.atomvals)))')],
         ensures=['len(result.vector) == pow2(len(arg))', f"all(result.vector[gath(arg, k)] == {value('self', 'k')} for k in NAT)"],
         loops={0: dict(inv=['len(work_atomvals) == len(self.atomvals)', 'len(alien_atomvals) == 0 or alien_atomvals[0] >= 0',
                             'all(work_atomvals[c] == c + (_i if _i < below(arg_atomvals_set - self_atomvals_set, self.atomvals[c]) else'
                             ' below(arg_atomvals_set - self_atomvals_set, self.atomvals[c])) for c in range(len(self.atomvals)))'],
                        then=['all(work_atomvals[c] == c + below(arg_atomvals_set - self_atomvals_set, self.atomvals[c]) for c in range(len(self.atomvals)))',
                              'all(c == below(self_atomvals_set, self.atomvals[c]) for c in range(len(self.atomvals)))',
                              'all(work_atomvals[c] == below(arg_atomvals_set, self.atomvals[c]) for c in range(len(self.atomvals)))',
                              'all(below(arg_atomvals_set, self.atomvals[c] + 1) == below(arg_atomvals_set, self.atomvals[c]) + 1 for c in range(len(self.atomvals)))',
                              'all(work_atomvals[c] < len(arg) and arg[work_atomvals[c]] == self.atomvals[c] for c in range(len(self.atomvals)))',
                              'asc(work_atomvals)', 'all(gath(work_atomvals, gath(arg, k)) == gath(self.atomvals, k) for k in NAT)'])},
         hints=['all(result.vector[m] == self.root.vector[gath(work_atomvals, m)] for m in range(len(result.vector)))'],
         after={'atomvals_integer': ['all(sprd(work_atomvals, gath(work_atomvals, k)) == band(k, atomvals_integer) for k in NAT)']})
ESSENTIAL = 'all(any({v}[insb(m, j, False)] != {v}[insb(m, j, True)] for m in range(pow2({n} - 1))) for j in range({p}))'


def canonical(o):
    """the value depends on every atom"""
    return ESSENTIAL.format(v=f'{o}.root.vector', n=f'len({o}.atomvals)', p=f'len({o}.atomvals)')


contract(F + 'a.deflate.deflate', args={'binv': 'obj:Binv', 'atomvals': 'list[int]'}, props=['C14'], returns='tuple[obj:Binv,list[int]]',
         requires=['asc(atomvals)', 'all(0 <= atomvals[i] for i in range(len(atomvals)))', 'len(binv.vector) == pow2(len(atomvals))'],
         ensures=['len(result[0].vector) == pow2(len(result[1]))', 'asc(result[1])', 'all(0 <= result[1][i] for i in range(len(result[1])))',
                  'all(any(atomvals[j] == result[1][i] for j in range(len(atomvals))) for i in range(len(result[1])))',
                  'all(result[0].vector[gath(result[1], k)] == binv.vector[gath(atomvals, k)] for k in NAT)',
                  ESSENTIAL.format(v='result[0].vector', n='len(result[1])', p='len(result[1])'),
                  'implies(len(result[1]) == 0, all(binv.vector[m] == result[0].vector[0] for m in range(len(binv.vector))))'],
         hints=['all(result[0].vector[gath(result[1], sprd(old_atomvals, m))] == binv.vector[m] for m in range(len(binv.vector)))'],
         loops={0: dict(inv=['valency == len(atomvals)', '0 <= pattern_index and pattern_index <= valency', 'len(vector) == pow2(valency)', 'asc(atomvals)',
                             'all(0 <= atomvals[i] for i in range(len(atomvals)))',
                             'all(any(old_atomvals[j] == atomvals[i] for j in range(len(old_atomvals))) for i in range(len(atomvals)))',
                             'all(vector[gath(atomvals, k)] == binv.vector[gath(old_atomvals, k)] for k in NAT)',
                             ESSENTIAL.format(v='vector', n='valency', p='pattern_index')],
                        decreases='2 * pow2(valency) + valency - pattern_index',
                        hints=['implies(len(atomvals) < len(prev_atomvals), all(gath(atomvals, k) == delb(gath(prev_atomvals, k), prev_pattern_index) for k in NAT))',
                               'implies(pattern_index > prev_pattern_index, any(first_half[m] != second_half[m] for m in range(len(first_half))))',
                               'implies(pattern_index > prev_pattern_index, any(vector[insb(m, prev_pattern_index, False)] != vector[insb(m, prev_pattern_index, True)] for m in range(pow2(valency - 1))))'])},
         after={'pattern': ['len(pattern) == pow2(valency)', 'all(pattern[k] == (1 if bit(k, pattern_index) else 0) for k in range(len(pattern)))',
                            'pattern[pow2(pattern_index)] == 1', 'delb(pow2(valency), pattern_index) == pow2(valency - 1)'],
                'second_half': ['len(first_half) == pow2(valency - 1)', 'len(second_half) == pow2(valency - 1)',
                                'all((second_half if bit(k, pattern_index) else first_half)[delb(k, pattern_index)] == vector[k] for k in range(len(vector)))',
                                'all(first_half[m] == vector[insb(m, pattern_index, False)] for m in range(len(first_half)))',
                                'all(second_half[m] == vector[insb(m, pattern_index, True)] for m in range(len(second_half)))',
                                'all(insb(m, pattern_index, True) < len(vector) for m in range(len(second_half)))',
                                'all(insb(m, pattern_index, True) == insb(m, pattern_index, False) + pow2(pattern_index) for m in NAT)']})
MADE = ['self.is_constant == (len(self.atomvals) == 0)', 'self.valency == len(self.atomvals)', 'len(self.root.vector) == pow2(len(self.atomvals))', 'asc(self.atomvals)',
        'all(0 <= self.atomvals[i] and self.atomvals[i] < self.adicity for i in range(len(self.atomvals)))',
        'self.adicity == (0 if len(self.atomvals) == 0 else self.atomvals[len(self.atomvals) - 1] + 1)',
        canonical('self')]
contract(F + 'a.reorder_if_atomvals_not_asc.reorder_if_atomvals_not_asc', case='ascending', args={'binv': 'obj:Binv', 'atomvals': 'list[int]'}, props=['C14'], returns='tuple[obj:Binv,list[int]]',
         requires=['asc(atomvals)'], ensures=['result[0].vector == binv.vector', 'result[1] == atomvals'])
for KIND, T in (('list of bool', 'list[bool]'), ('binv', 'obj:Binv')):
    V = 'tt' if T[0] == 'l' else 'tt.vector'
    contract(B + '__init__', case=KIND + ', atomvals', args={'self': 'new', 'tt': T, 'atomvals': 'list[int]'},
             requires=['asc(atomvals)', 'all(0 <= atomvals[i] for i in range(len(atomvals)))'],
             raises=[('SarityVectorMismatchError', f'len({V}) != pow2(len(atomvals))')],
             hints=['all(0 <= gath(atomvals, k) and gath(atomvals, k) < pow2(len(atomvals)) for k in NAT)'],
             ensures=MADE + ['all(any(atomvals[j] == self.atomvals[i] for j in range(len(atomvals))) for i in range(len(self.atomvals)))',
                             f'all({value("self", "k")} == {V}[gath(atomvals, k)] for k in NAT)'], **NEW)
CANON = canonical('result')
KEEPS = 'all(any(self.atomvals[j] == result.atomvals[i] for j in range(len(self.atomvals))) for i in range(len(result.atomvals)))'
contract(F + 'metributes.complement.complement', args=SELF, props=['C14', 'C15'], returns='obj:Boolf',
         ensures=[f'all({value("result", "k")} == (not {value("self", "k")}) for k in NAT)', CANON, KEEPS])
contract(F + 'methods.bitwise.__invert__', args=SELF, props=['C15'], returns='obj:Boolf',
         ensures=[f'all({value("result", "k")} == (not {value("self", "k")}) for k in NAT)', CANON, KEEPS])
contract(F + 'metributes.reverse.reverse', args=SELF, props=['C14'], returns='obj:Boolf',
         ensures=[f'all({value("result", "k")} == self.root.vector[len(self.root.vector) - 1 - {key("self", "k")}] for k in NAT)', CANON, KEEPS])
BOTH = {'self': 'obj:Boolf', 'other': 'obj:Boolf'}
JOINED = {'atomvals': ['asc(atomvals)', 'all(0 <= atomvals[i] for i in range(len(atomvals)))'] + [f'all(any(atomvals[i] == {o}.atomvals[j] for i in range(len(atomvals))) for j in range(len({o}.atomvals)))' for o in BOTH]}
for OP, NAME, REL in (('__and__', 'and', '({0} and {1})'), ('__or__', 'or', '({0} or {1})'), ('__xor__', 'xor', '({0} != {1})')):
    E = [f'all({value("result", "k")} == {REL.format(value("self", "k"), value("other", "k"))} for k in NAT)', CANON]
    contract(F + 'methods.bitwise._bitwise', case=NAME, args={**BOTH, 'name': f'const:{NAME!r}'}, props=['C15'], returns='obj:Boolf', ensures=E, after=JOINED)
    contract(F + f'methods.bitwise.{OP}', args=BOTH, props=['C15'], returns='obj:Boolf', ensures=E)
EVERY = '(all({0} for k in NAT) and any({1} for k in NAT))'
LE = f'all(implies({value("self", "k")}, {value("other", "k")}) for k in NAT)'
LT = f'({LE} and any({value("other", "k")} and not {value("self", "k")} for k in NAT))'
contract(F + 'methods.bitwise._bitwise', case='smaller', args={**BOTH, 'name': "const:'smaller'"}, props=['C15'], returns='bool', ensures=[f'iff(result, {LT})'],
         hints=['implies(result, all(implies(self_vector.vector[gath(atomvals, k)], other_vector.vector[gath(atomvals, k)]) for k in NAT))',
                'implies(result, any(other_vector.vector[i] and not self_vector.vector[i] for i in range(length)))'],
         after={**JOINED, 'length': [f'all({o}_vector.vector[i] == {value(o, "sprd(atomvals, i)")} for i in range(length))' for o in BOTH]})
contract(F + 'methods.bitwise.bitwise_lt', args=BOTH, props=['C15'], returns='bool', ensures=[f'iff(result, {LT})'])


TABLES = {'A': 'list[int]', 'V': 'list[bool]', 'B': 'list[int]', 'W': 'list[bool]'}
TABLE = ['asc({0})', 'all(0 <= {0}[i] for i in range(len({0})))', 'len({1}) == pow2(len({0}))']
AGREE = [t.format(*ab) for ab in ('AV', 'BW') for t in TABLE] + ['all(V[gath(A, k)] == W[gath(B, k)] for k in NAT)']
LOW, HIGH = 'sprd(A, insb(m, j, False))', 'sprd(A, insb(m, j, True))'
SOME = 'all(any({0} for m in range(pow2(len(A) - 1))) for j in range(len(A)))'
lemma('a function keeps the atoms it depends on', TABLES, '\n'.join('assert ' + t for t in [
    'all(insb(m, j, False) < len(V) and insb(m, j, True) < len(V) for j in range(len(A)) for m in range(pow2(len(A) - 1)))',
    f'all(gath(A, {LOW}) == insb(m, j, False) and gath(A, {HIGH}) == insb(m, j, True) for j in range(len(A)) for m in range(pow2(len(A) - 1)))',
    SOME.format(f'V[gath(A, {LOW})] != V[gath(A, {HIGH})]'), SOME.format(f'W[gath(B, {LOW})] != W[gath(B, {HIGH})]'), SOME.format(f'gath(B, {LOW}) != gath(B, {HIGH})'),
    SOME.format(f'any(bit({LOW}, B[w]) != bit({HIGH}, B[w]) for w in range(len(B)))'),
    SOME.format(f'any(B[w] == A[i] and bit({LOW}, A[i]) != bit({HIGH}, A[i]) for w in range(len(B)) for i in range(len(A)))'),
    SOME.format('any(B[w] == A[i] and bit(insb(m, j, False), i) != bit(insb(m, j, True), i) for w in range(len(B)) for i in range(len(A)))'),
    'all(implies(bit(insb(m, j, False), i) != bit(insb(m, j, True), i), i == j) for i in NAT for j in NAT for m in NAT)',
    SOME.format('any(B[w] == A[j] for w in range(len(B)))')]),
    requires=AGREE + [ESSENTIAL.format(v='V', n='len(A)', p='len(A)')], ensures=['all(any(B[w] == A[j] for w in range(len(B))) for j in range(len(A)))'], props=['C14', 'C15'])
lemma('a function has one deflated table', TABLES, """
assert use('a function keeps the atoms it depends on', A, V, B, W)
assert use('a function keeps the atoms it depends on', B, W, A, V)
assert alike(A, B)
assert all(V[m] == V[gath(A, sprd(A, m))] for m in range(len(V)))
assert all(W[m] == W[gath(B, sprd(A, m))] for m in range(len(V)))
""", requires=AGREE + [ESSENTIAL.format(v=v, n=f'len({a})', p=f'len({a})') for a, v in ('AV', 'BW')], ensures=['alike(A, B)', 'len(V) == len(W)', 'all(V[m] == W[m] for m in range(len(V)))'],
    props=['C14', 'C15'])
lemma('the same function is the same Boolf', {'a': 'obj:Boolf', 'b': 'obj:Boolf'}, """
assert use('a function has one deflated table', a.atomvals, a.root.vector, b.atomvals, b.root.vector)
e = a == b
assert e
""", requires=[canonical('a'), canonical('b'), f'all({value("a", "k")} == {value("b", "k")} for k in NAT)'], props=['C14', 'C15'])
lemma('equal Boolfs are the same function', {'a': 'obj:Boolf', 'b': 'obj:Boolf', 'k': 'int'}, f"""
e = a == b
assert implies(e, {value('a', 'k')} == {value('b', 'k')})
""", requires=['k >= 0'], props=['C14', 'C15'])
SAMEFN = f'all({value("self", "k")} == {value("other", "k")} for k in NAT)'
contract(B + '__eq__', case='deflated', args=BOTH, props=['C14', 'C15'], returns='bool', requires=[canonical('self'), canonical('other')],
         hints=["use('a function has one deflated table', self.atomvals, self.root.vector, other.atomvals, other.root.vector)"], ensures=[f'iff(result, {SAMEFN})'])
GE = f'all(implies({value("other", "k")}, {value("self", "k")}) for k in NAT)'
contract(F + 'methods.bitwise.bitwise_gt', args=BOTH, props=['C15'], returns='bool', ensures=[f'iff(result, {GE} and any({value("self", "k")} and not {value("other", "k")} for k in NAT))'])
contract(F + 'methods.bitwise.bitwise_le', args=BOTH, props=['C15'], returns='bool', requires=[canonical('self'), canonical('other')], ensures=[f'iff(result, {LE})'],
         hints=["use('a function has one deflated table', self.atomvals, self.root.vector, other.atomvals, other.root.vector)"])
contract(F + 'methods.bitwise.bitwise_ge', args=BOTH, props=['C15'], returns='bool', requires=[canonical('self'), canonical('other')], ensures=[f'iff(result, {GE})'])
contract(B + '__init__', case='bool', args={'self': 'new', 'tt': 'bool'}, ensures=MADE + [f'all({value("self", "k")} == tt for k in NAT)', 'self.valency == 0'], **NEW)
contract(B + '__init__', case='atom', args={'self': 'new', 'atom': 'int'}, ensures=MADE + [f'all({value("self", "k")} == (bit(k, atom) if atom >= 0 else not bit(k, -atom - 1)) for k in NAT)'], **NEW)
for KIND, T in (('list of bool', 'list[bool]'), ('binv', 'obj:Binv')):
    V = 'tt' if T[0] == 'l' else 'tt.vector'
    contract(B + '__init__', case=KIND, args={'self': 'new', 'tt': T}, requires=[f'len({V}) == pow2(binlen(len({V})) - 1)', f'len({V}) > 0'],
             ensures=MADE + [f'all({value("self", "k")} == {V}[k] for k in range(len({V})))', f'implies(self.adicity > 0, pow2(self.adicity - 1) < len({V}))'], **NEW)
contract(B + '__init__', case='number and arity', args={'self': 'new', 'tt': 'int', 'arity': 'int'}, requires=['arity >= 0', '0 <= tt and tt < pow2(pow2(arity))'],
         ensures=MADE + [f'all({value("self", "k")} == bit(tt, k) for k in range(pow2(arity)))', 'self.adicity <= arity'], **NEW)
VAL = F + 'methods.vals_apply.val.val'
for T, ONE in (('int', 'args[i] == 1'), ('bool', 'args[i]')):
    contract(VAL, case=f'one assignment of {T}', args={'self': 'obj:Boolf', 'args': f'tup[{T}]'}, props=['C16'], returns='bool',
             requires=['len(args) > 0'],
             raises=[('SarityMismatchError', 'len(args) != self.valency')] + ([('UnexpectedArgumentError', 'len(args) == self.valency and any(args[i] != 0 and args[i] != 1 for i in range(len(args)))')] if T == 'int' else []),
             ensures=[f'result == self.root.vector[dval([{ONE} for i in range(len(args))])]'])
contract(VAL, case='many assignments', args={'self': 'obj:Boolf', 'args': 'tup[obj:Binv]'}, props=['C16'], returns='obj:Binv',
         requires=['len(args) > 0', 'all(len(args[j].vector) == len(args[0].vector) for j in range(len(args)))'],
         raises=[('SarityMismatchError', 'len(args) != self.valency')],
         ensures=['len(result.vector) == len(args[0].vector)',
                  'all(result.vector[i] == self.root.vector[dval([args[j].vector[i] for j in range(len(args))])] for i in range(len(result.vector)))'],
         loops={0: dict(inv=['len(vals_list) == _i', 'all(vals_list[i] == self.root.vector[dval([args[j].vector[i] for j in range(len(args))])] for i in range(_i))'], types={'vals_list': 'list[bool]'})})
for KIND in ('list', 'tup'):
    contract('discretehelpers.a._atompatterns.make_atompatterns', case=KIND, args={'arg': f'{KIND}[int]'}, props=['C16', 'C20'], returns='list[obj:Binv]',
             requires=[f"all({mag('arg[i]')} < len(arg) for i in range(len(arg)))"],
             ensures=['len(result) == len(arg)', 'all(len(result[j].vector) == pow2(len(arg)) for j in range(len(arg)))',
                      'all(result[j].vector[i] == (bit(i, arg[j]) if arg[j] >= 0 else not bit(i, -arg[j] - 1)) for j in range(len(arg)) for i in range(pow2(len(arg))))'])
S = 'atomkey_signed_perm'
contract(F + 'methods.vals_apply.vals.vals', args={'self': 'obj:Boolf', S: 'tup[int]'}, props=['C16'], returns='obj:Binv',
         requires=[f'len({S}) > 0', f'all({mag(S + "[i]")} < len({S}) for i in range(len({S})))',
                   f'all(implies(i != j, {mag(S + "[i]")} != {mag(S + "[j]")}) for i in range(len({S})) for j in range(len({S})))'],
         raises=[('SarityMismatchError', f'len({S}) != self.valency')],
         ensures=['len(result.vector) == pow2(self.valency)', f'all(result.vector[k] == self.root.vector[sgat({S}, k)] for k in range(len(result.vector)))'])
S = 'atomval_signed_perm'
contract(F + 'methods.vals_apply.apply.apply', args={'self': 'obj:Boolf', S: 'tup[int]'}, props=['C16'], returns='obj:Boolf',
         requires=[f'len({S}) > 0', f'all(implies(i != j, {mag(S + "[i]")} != {mag(S + "[j]")}) for i in range(len({S})) for j in range(len({S})))'],
         raises=[('SarityMismatchError', f'len({S}) != self.valency')],
         ensures=[f'all({value("result", "k")} == self.root.vector[sgat({S}, k)] for k in NAT)', canonical('result'),
                  f'all(any(result.atomvals[i] == {mag(S + "[j]")} for j in range(len({S}))) for i in range(len(result.atomvals)))'],
         after={'atomkey_signed_perm': [f'all({mag("atomkey_signed_perm[i]")} < len({S}) and atomvals_ordered[{mag("atomkey_signed_perm[i]")}] == {mag(S + "[i]")}'
                                        f' and (atomkey_signed_perm[i] < 0) == ({S}[i] < 0) for i in range(len({S})))',
                                        f'all(sgat(atomkey_signed_perm, gath(atomvals_ordered, k)) == sgat({S}, k) for k in NAT)']})
import c_sigperm
from c_sigperm import within, sign
IMAGE = within('sigperm.perm', 'self.atomvals[i]')
contract(F + 'methods.vals_apply.apply_sigperm.apply_sigperm', args={'self': 'obj:Boolf', 'sigperm': 'obj:SigPerm'}, props=['C16'], returns='obj:Boolf',
         ensures=[f'all({value("result", "k")} == self.root.vector[sgat([({IMAGE} if {sign("sigperm", "self.atomvals[i]")} == 1 else -{IMAGE} - 1) for i in range(len(self.atomvals))], k)] for k in NAT)'])
