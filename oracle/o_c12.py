from lib import *
from discretehelpers.set_part import SetPart
from setmodel import random_blocks


def rel(blocks):
    return {(a, b) for bl in blocks for a in bl for b in bl if a != b}


def close(pairs):
    classes = []
    for a, b in pairs:
        hit = [c for c in classes if a in c or b in c]
        new = {a, b}.union(*hit)
        classes = [c for c in classes if c not in hit] + [new]
    return sorted(sorted(c) for c in classes)


def state(p):
    return [list(b) for b in p.blocks], p.domain, dict(p.non_singleton_to_block_index), set(p.non_singletons), dict(p.block_labels)


def cases(rng, tier):
    for n in (3, 4):
        every = [[b for b in bl if len(b) > 1] for bl in set_partitions(n)]
        for a in every:
            for b in every:
                if n == 3 or rng.random() < 0.7:
                    yield a, b, rng.choice(['N', 'Z', list(range(n)), list(range(n + 2))])
    for _ in range(300 * (6 if tier == 'thorough' else 1)):
        domain = rng.choice(['N', 'Z', list(range(rng.randrange(2, 12))), ['a', 'b', 'c', 'dd', 'e', 'f'], [(i, j) for i in range(3) for j in range(4)], [-3, 4, 8, 9, 11, 20]])
        els = {'N': list(range(12)), 'Z': list(range(-6, 7))}[domain] if isinstance(domain, str) else domain
        a, b = random_blocks(rng, els), random_blocks(rng, els)
        yield a, b, domain
        # finer and coarser pairs
        if a:
            c = [list(x) for x in a]
            if len(c) > 1:
                c[0] += c.pop()
            yield a, c, domain
            yield c, a, domain
    for _ in range(20):
        n = 60
        els = rand_perm(rng, n)
        yield [els[i:i + 2] for i in range(0, n, 2)], [els[i:i + 2] for i in range(1, n - 1, 2)], list(range(n))
        k = rng.randrange(2, 7)
        yield [els[i:i + k] for i in range(0, n, k)], [els[i:i + 3] for i in range(1, n - 3, 4)], 'N'


@oracle('C12', cases)
def lattice(a, b, domain):
    A, B = SetPart([list(x) for x in a], domain=domain), SetPart([list(x) for x in b], domain=domain)
    ra, rb = rel(a), rel(b)
    before = state(A), state(B)
    dom = domain if isinstance(domain, str) else set(domain)
    for what, f, pairs in (('meet', lambda x, y: x.meet(y), ra & rb), ('join', lambda x, y: x.join(y), ra | rb), ('meet prototype', lambda x, y: x._meet_prototype(y), ra & rb),
                           ('join prototype', lambda x, y: x._join_prototype(y), ra | rb), ('improved join prototype', lambda x, y: x._join_prototype_improved(y), ra | rb)):
        for x, y in ((A, B), (B, A)):
            r = f(x, y)
            assert isinstance(r, SetPart)
            eq([list(z) for z in r.blocks], close(pairs), what)
            eq(r.domain, dom, what + ' domain')
            eq((state(A), state(B)), before, what + ' changed an operand')
    M, J = A.meet(B), A.join(B)
    le = ra <= rb
    ge = rb <= ra
    eq((A <= B, A < B, A >= B, A > B, A == B), (le, le and not ge, ge, ge and not le, le and ge), 'order')
    eq((state(A), state(B)), before, 'order changed an operand')
    assert M <= A and M <= B and A <= J and B <= J, 'bounds'
    assert A.meet(A) == A and A.join(A) == A and A.meet(J) == A and A.join(M) == A, 'absorption'
    # the results do not share state with the operands
    J.merge_pair(*(list(rb or ra)[0] if rb or ra else (sorted(dom)[0], sorted(dom)[-1]) if not isinstance(dom, str) else (0, 1)))
    M.merge_many([0, 1, 2] if isinstance(dom, str) else sorted(dom))
    eq((state(A), state(B)), before, 'changing a result changed an operand')


@oracle('C12', lambda r, t: [(a, d, b, e) for (d, e) in (('N', 'Z'), ('Z', 'N'), ('N', [0, 1, 2, 3]), ([0, 1, 2, 3], [0, 1, 2, 3, 4]), ([0, 1, 2], 'Z'))
                             for a, b in (([], []), ([[0, 1]], [[0, 1]]), ([[0, 1]], [[1, 2]]), ([[0, 1, 2]], []), ([], [[0, 2]]))])
def different_domains_are_rejected(a, d, b, e):
    A, B = SetPart(a, domain=d), SetPart(b, domain=e)
    for f in (lambda: A.meet(B), lambda: A.join(B), lambda: A <= B, lambda: A < B, lambda: A == B, lambda: B.join(A), lambda: B.meet(A),
              lambda: A >= B, lambda: A > B):
        assert raises(f, ValueError), 'accepted'
