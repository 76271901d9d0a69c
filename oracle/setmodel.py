"""naive model of a labelled set partition: a list of disjoint classes (sets) and a list of labels, by history"""
import random


class Reject(Exception):
    pass


class Contradiction(Exception):
    pass


class Model:
    def __init__(self, domain, blocks=()):
        self.domain = domain
        self.classes = []
        self.labels = []
        for b in blocks:
            if any(not self.inside(e) for e in b):
                raise Reject
        seen = [e for b in blocks if len(b) > 1 for e in b]
        if len(seen) != len(set(seen)):
            raise Reject
        for b in blocks:
            if len(b) > 1:
                self.classes.append(set(b))
                self.labels.append(None)

    def inside(self, e):
        if self.domain == 'N':
            return type(e) is int and e >= 0
        if self.domain == 'Z':
            return type(e) is int
        return e in self.domain

    def find(self, e):
        for k, c in enumerate(self.classes):
            if e in c:
                return k
        self.classes.append({e})
        self.labels.append(None)
        return len(self.classes) - 1

    def merge(self, a, b):
        if a == b:
            return
        if not self.inside(a) or not self.inside(b):
            raise Reject
        i, j = self.find(a), self.find(b)
        if i == j:
            return
        if self.labels[i] is not None and self.labels[j] is not None:
            raise Contradiction
        self.labels[i] = self.labels[j] if self.labels[i] is None else self.labels[i]
        self.classes[i] |= self.classes[j]
        del self.classes[j], self.labels[j]

    def refine(self, blocks, labels=None):
        flat = [e for b in blocks for e in b]
        if len(flat) != len(set(flat)) or len(flat) < 2:
            raise Reject
        i = next((k for k, c in enumerate(self.classes) if c == set(flat)), None)
        if i is None:
            raise Reject
        if labels is not None:
            if len(labels) != len(blocks):
                raise Reject
            rest = [x for k, x in enumerate(self.labels) if k != i and x is not None] + list(labels)
            if len(rest) != len(set(rest)):
                raise Contradiction
        del self.classes[i], self.labels[i]
        for k, b in enumerate(blocks):
            self.classes.append(set(b))
            self.labels.append(labels[k] if labels is not None else None)

    def label_element(self, e, label):
        if not self.inside(e):
            raise Reject
        i = self.find(e)
        if self.labels[i] is not None:
            if self.labels[i] != label:
                raise Contradiction
            return
        if label in self.labels:
            self.merge(e, next(iter(self.classes[self.labels.index(label)])))
        else:
            self.labels[i] = label

    def label_block(self, block, label):
        if not block or any(not self.inside(e) for e in block):
            raise Reject
        i = self.find(block[0])
        if list(block) != sorted(self.classes[i]):
            raise Reject
        if self.labels[i] is not None and self.labels[i] != label:
            raise Contradiction
        if self.labels[i] is None and label in self.labels:
            raise Reject
        self.labels[i] = label

    def blocks(self):
        return sorted(sorted(c) for c in self.classes if len(c) > 1)

    def same(self, a, b):
        return a == b or any(a in c and b in c for c in self.classes)

    def block_of(self, e):
        return next((sorted(c) for c in self.classes if e in c), [e])

    def label_of(self, e):
        return next((l for c, l in zip(self.classes, self.labels) if e in c), None)

    def labelled(self):
        return {tuple(sorted(c)): l for c, l in zip(self.classes, self.labels) if l is not None}


def domain_elements(domain):
    if domain == 'N':
        return list(range(14))
    if domain == 'Z':
        return list(range(-7, 8))
    return sorted(domain)


def random_blocks(rng, elements):
    elements = list(elements)
    rng.shuffle(elements)
    out = []
    for _ in range(rng.randrange(0, 4)):
        k = rng.choice([1, 2, 2, 3, 4])
        if len(elements) >= k:
            out.append([elements.pop() for _ in range(k)])
    return out


def random_history(rng, labels=False, length=None):
    """constructor arguments and a list of operations, all literals; the operations are chosen along the model, so that
    refinements hit existing blocks"""
    domain = rng.choice(['N', 'Z', list(range(rng.randrange(2, 10))), [3, 5, 8, 9, 14, 20, 21, -4], ['a', 'b', 'c', 'dd', 'e'],
                         [(i, j) for i in range(3) for j in range(3)]])
    elements = domain_elements(domain)
    blocks = random_blocks(rng, elements)
    m = Model(domain, blocks)
    ops = []
    names = ['red', 'green', 'blue', 0, 7, (1, 2)]
    outside = {'N': -3, 'Z': 'z'}.get(domain if isinstance(domain, str) else None, 999)
    for _ in range(rng.randrange(1, 9) if length is None else length):
        kinds = ['pair'] * 4 + ['many'] * 2 + ['refine'] * 2 + ['look']
        if labels:
            kinds += ['label element'] * 5 + ['label block'] * 2 + ['refine labels'] * 2
        k = rng.choice(kinds)
        if k == 'pair':
            op = ['pair', rng.choice(elements), rng.choice(elements)]
            if rng.random() < 0.05:
                op[rng.choice([1, 2])] = outside
        elif k == 'many':
            op = ['many', [rng.choice(elements) for _ in range(rng.randrange(0, 5))]]
        elif k in ('refine', 'refine labels'):
            bs = [c for c in m.classes if len(c) > 1]
            if not bs:
                continue
            c = sorted(rng.choice(bs))
            rng.shuffle(c)
            parts, n = [], rng.randrange(1, len(c) + 1)
            for e in c:
                if len(parts) < n:
                    parts.append([e])
                else:
                    rng.choice(parts).append(e)
            if rng.random() < 0.1:
                parts[0].append(rng.choice(elements))
            if k == 'refine':
                op = ['refine', parts]
            else:
                ls = rng.sample(names, min(len(parts), len(names)))
                if rng.random() < 0.1:
                    ls = ls[:-1]
                op = ['refine', parts, ls]
        elif k == 'label element':
            op = ['label element', rng.choice(elements if rng.random() < 0.95 else [outside]), rng.choice(names)]
        elif k == 'label block':
            b = rng.choice(m.classes) if m.classes and rng.random() < 0.8 else [rng.choice(elements)]
            op = ['label block', sorted(b), rng.choice(names)]
        else:
            op = ['look']
        ops.append(op)
        run_model(m, op)
    return domain, blocks, ops


def run_model(m, op):
    """returns None or the kind of rejection"""
    try:
        if op[0] == 'pair':
            m.merge(op[1], op[2])
        elif op[0] == 'many':
            for e in op[1][1:]:
                m.merge(op[1][0], e)
        elif op[0] == 'refine':
            m.refine(*op[1:])
        elif op[0] == 'label element':
            m.label_element(op[1], op[2])
        elif op[0] == 'label block':
            m.label_block(op[1], op[2])
    except Reject:
        return 'reject'
    except Contradiction:
        return 'contradiction'
    return None
