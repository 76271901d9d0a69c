"""Permutations."""
from pyvc.contracts import contract, lemma
from pyvc.types import shape
from discretehelpers.perm import Perm

INV = ['all(iff(x in self.mapping, x in self.moved) for x in INTS)',
       'iff(self.neutral, all(not (x in self.moved) for x in INTS))',
       'all(implies(x in self.moved, x >= 0 and self.mapping[x] in self.moved and self.mapping[x] != x) for x in INTS)',
       'all(implies(x in self.moved and y in self.moved and self.mapping[x] == self.mapping[y], x == y) for x in INTS for y in INTS)',
       'all(implies(y in self.moved, any(x in self.moved and self.mapping[x] == y for x in INTS)) for y in INTS)',
       'implies(self.neutral, self.length == 0)', 'self.length >= 0',
       'all(implies(x in self.moved, x < self.length) for x in INTS)',
       'self.perilen is None or (not self.neutral and self.perilen >= 2 and self.length == self.perilen)',
       'not (self.perilen is None) or self.neutral or self.length - 1 in self.moved']
FIELDS = {'neutral': 'bool', 'mapping': 'dict[int,int]', 'moved': 'set[int]', 'perilen': 'opt[int]', 'length': 'int'}
shape('Perm', Perm, FIELDS, inv=INV)
shape('PermF', Perm, {k: v for k, v in FIELDS.items() if k != 'perilen'}, inv=INV, const={'perilen': None})  # without a period

Q = 'discretehelpers.perm.'
P = Q + 'Perm.'
SELF = {'self': 'obj:Perm'}
FINITE = ['self.perilen is None']


def image(o, i):
    """image of the natural number i under the permutation o"""
    return (f'(({o}.mapping[{i}] if {i} in {o}.moved else {i}) if {o}.perilen is None else '
            f'({o}.mapping[({i}) % {o}.perilen] + {i} - ({i}) % {o}.perilen if ({i}) % {o}.perilen in {o}.moved else {i}))')


def within(o, i):
    """image of a number below the period length"""
    return f'({o}.mapping[{i}] if {i} in {o}.moved else {i})'


NEW = dict(props=['C04'], modifies={'self': FIELDS})
VALIDSEQ = ('(all(0 <= arg[i] and arg[i] < len(arg) for i in range(len(arg))) and '
            'all(implies(arg[i] == arg[j], i == j) for i in range(len(arg)) for j in range(len(arg))))')
contract(P + 'set_neutral', args={'self': 'new'}, ensures=['self.neutral', 'self.perilen is None'] + INV, **NEW)
contract(P + '__init__', case='neutral', args={'self': 'new'}, ensures=['self.neutral', 'self.perilen is None'] + INV, **NEW)
for kind in ('list', 'tup'):
    contract(P + '__init__', case=f'finite sequence: {kind}', args={'self': 'new', 'arg': f'{kind}[int]'},
             requires=[] if kind == 'list' else ['len(arg) > 0'],
             raises=[('SequenceError', 'not ' + VALIDSEQ)],
             ensures=['self.perilen is None', f"all({image('self', 'i')} == (arg[i] if i < len(arg) else i) for i in NAT)"] + INV, **NEW)
contract(P + '__getitem__', case='index', args={'self': 'obj:Perm', 'arg': 'int'}, props=['C04'], requires=['arg >= 0'], returns='int',
         ensures=[f"result == {image('self', 'arg')}"])
VALIDDICT = ('(all(k >= 0 and arg[k] in arg for k in arg) and all(implies(arg[k] == arg[l], k == l) for k in arg for l in arg))')
contract(P + '__init__', case='finite dict', args={'self': 'new', 'arg': 'dict[int,int]'},
         raises=[('DictError', 'not ' + VALIDDICT)],
         ensures=['self.perilen is None', f"all({image('self', 'i')} == (arg[i] if i in arg else i) for i in NAT)"] + INV, **NEW)
contract(P + '__getitem__', case='slice', args={'self': 'obj:Perm', 'arg': 'const:slice(None)'}, props=['C04'], returns='list[int]',
         ensures=['len(result) == self.length', f"all(result[i] == {image('self', 'i')} for i in range(self.length))"])
contract(P + 'sequence', case='default', args=SELF, props=['C04'], returns='list[int]',
         ensures=['len(result) == self.length', f"all(result[i] == {image('self', 'i')} for i in range(self.length))"])
contract(P + 'sequence', case='length', args={'self': 'obj:Perm', 'length': 'int'}, props=['C04'], returns='list[int]', requires=['length >= 0'],
         raises=[('LengthTooSmallError', '(self.perilen is None) and length < self.length'),
                 ('LengthMismatchPerilenError', 'not (self.perilen is None) and length % self.length != 0')],
         ensures=['len(result) == length', f"all(result[i] == {image('self', 'i')} for i in range(length))"])
contract(P + '__eq__', case='finite', args={'self': 'obj:Perm', 'other': 'obj:Perm'}, props=['C04'], returns='bool',
         requires=['self.perilen is None and other.perilen is None'],
         ensures=[f"implies(result, all({image('self', 'i')} == {image('other', 'i')} for i in NAT))",
                  f"implies(all({image('self', 'i')} == {image('other', 'i')} for i in NAT), result)"])
contract(P + '__eq__', case='periodic', args={'self': 'obj:Perm', 'other': 'obj:Perm'}, props=['C04'], returns='bool',
         requires=['not (self.perilen is None) and not (other.perilen is None)'],
         ensures=[f"implies(result, self.perilen == other.perilen and all({image('self', 'i')} == {image('other', 'i')} for i in NAT))",
                  f"implies(self.perilen == other.perilen and all({within('self', 'i')} == {within('other', 'i')} for i in range(self.perilen)), result)"])
BOTH = {'self': 'obj:Perm', 'other': 'obj:Perm'}
contract(Q + 'metributes.inverse.inverse', case='finite', args=SELF, props=['C05'], requires=FINITE, returns='obj:PermF',
         ensures=['result.perilen is None', 'all(iff(x in self.moved, x in result.moved) for x in INTS)',
                  'self.length == result.length', f"all(({image('self', 'i')} == j) == ({image('result', 'j')} == i) for i in NAT for j in NAT)"])
contract(P + '__mul__', case='finite', args=BOTH, props=['C05'], requires=FINITE + ['other.perilen is None'], returns='obj:PermF',
         ensures=['result.perilen is None', f"all({image('result', 'i')} == {image('self', image('other', 'i'))} for i in NAT)"])
contract(P + '__mul__', case='mismatch', args=BOTH, props=['C05'], requires=['(self.perilen is None) != (other.perilen is None)'], returns='obj:Perm',
         raises=[('OtherPerilenMismatchError', 'not self.neutral and not other.neutral')],
         ensures=[f"all({image('result', 'i')} == {image('self', image('other', 'i'))} for i in NAT)"])
RESULT = [x.replace('self', 'result') for x in INV]
for CASE, COND, LOOP, MAP, OF, TIMES in (('natural', 'exponent >= 0', 0, 'self', 'self', 'exponent'), ('negative', 'exponent < 0', 1, 'inverse', 'self.inverse', '-exponent')):
    contract(P + '__pow__', case=f'finite, {CASE} exponent', args={'self': 'obj:PermF', 'exponent': 'int'}, props=['C05'], requires=[COND], returns='obj:PermF',
             ensures=[f"all({image('result', 'i')} == iterp({OF}.mapping, {TIMES}, i) for i in NAT)"],
             loops={LOOP: dict(types={'result': 'obj:PermF'}, inv=RESULT + [f"all({image('result', 'i')} == iterp({MAP}.mapping, _i + 1, i) for i in NAT)"])})
contract(Q + 'a.broaden_moved.sub', args={'small_set': 'set[int]', 'perilen': 'int', 'repetitions': 'int'}, props=['C05'], returns='set[int]',
         requires=['perilen >= 1', 'repetitions >= 0', 'all(implies(x in small_set, 0 <= x and x < perilen) for x in INTS)'],
         ensures=['all(iff(x in result, 0 <= x and x < repetitions * perilen and x % perilen in small_set) for x in INTS)'],
         loops={0: dict(types={'big_set': 'set[int]'}, inv=['all(iff(x in big_set, 0 <= x and x < _i * perilen and x % perilen in small_set) for x in INTS)']),
                1: dict(inv=['all(iff(x in big_set, x in entry_big_set or any(_item(k) + addend == x for k in range(_i))) for x in INTS)'])})
contract(P + 'apply_on_vector', case='finite', args={'self': 'obj:Perm', 'vector': 'list[int]'}, props=['C04'],
         requires=FINITE + ['len(vector) >= self.length'], returns='list[int]',
         ensures=['len(result) == len(vector)', f"all(result[{image('self', 'i')}] == vector[i] for i in range(len(vector)))"])
IV = Q + 'a.inversion_related_vectors.'
contract(IV + 'left_inversion_count', args={'p': 'list[int]'}, props=['C06'], returns='list[int]',
         ensures=['len(result) == len(p)', 'all(result[i] == psum([1 if p[k] > p[i] else 0 for k in range(i)]) for i in range(len(p)))'])
contract(IV + 'right_inversion_count', args={'p': 'list[int]'}, props=['C06'], returns='list[int]',
         ensures=['len(result) == len(p)', 'all(result[i] == psum([1 if p[k] < p[i] else 0 for k in range(i, len(p))]) for i in range(len(p)))'])
ONE, TWO, THREE = {'a': 'obj:PermF'}, {'a': 'obj:PermF', 'b': 'obj:PermF'}, {'a': 'obj:PermF', 'b': 'obj:PermF', 'c': 'obj:PermF'}
lemma('multiplication of finite permutations is associative', THREE, f"""
p = a * b
q = b * c
x = p * c
y = a * q
assert all({image('x', 'i')} == {image('y', 'i')} for i in NAT)
e = x == y
assert e
""", props=['C05'])
lemma('finite permutation times its inverse', ONE, f"""
v = a.inverse
x = a * v
y = v * a
assert all({image('x', 'i')} == i for i in NAT)
assert all({image('y', 'i')} == i for i in NAT)
assert x.neutral
assert y.neutral
""", props=['C05'])
lemma('neutral element of finite permutations', ONE, f"""
n = Perm()
x = a * n
y = n * a
e = x == a
f = y == a
assert e
assert f
""", props=['C05'], globals={'Perm': Perm})
lemma('inverse of a product of finite permutations', TWO, f"""
p = a * b
v = a.inverse
w = b.inverse
x = p.inverse
y = w * v
assert all({image('v', image('a', 'i'))} == i for i in NAT)
assert all({image('w', image('b', 'i'))} == i for i in NAT)
assert all({image('v', image('p', 'i'))} == {image('b', 'i')} for i in NAT)
assert all({image('y', image('p', 'i'))} == {image('w', image('v', image('p', 'i')))} for i in NAT)
assert all({image('y', image('p', 'i'))} == i for i in NAT)
assert all({image('x', image('p', 'i'))} == i for i in NAT)
assert all({image('p', image('x', 'i'))} == i for i in NAT)
assert all({image('x', 'i')} == {image('y', 'i')} for i in NAT)
e = x == y
assert e
""", props=['C05'])
