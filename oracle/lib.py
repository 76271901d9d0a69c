"""Bounded search for failing inputs: each oracle is a predicate on literal arguments that compares the real code with an
independent, naive computation written from the property text.  Nothing here counts as proved."""
import itertools
import random
import signal
import time
import traceback

ORACLES = {}


class Oracle:
    def __init__(self, pid, gen, fn):
        self.pid, self.gen, self.fn, self.name = pid, gen, fn, fn.__name__


def oracle(pid, gen):
    def deco(fn):
        ORACLES.setdefault(pid, []).append(Oracle(pid, gen, fn))
        return fn
    return deco


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout


CASE_SECONDS = 60


def run_case(fn, args):
    """None, or the reason why the case fails"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_SECONDS)
    try:
        fn(*args)
        return None
    except CaseTimeout:
        return f'no answer within {CASE_SECONDS} s'
    except AssertionError as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if f.filename.startswith('/verif/oracle')]
        return f'{e or "assertion failed"} [{(own or tb)[-1].line}]'
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if f.filename.startswith('/verif/oracle')]
        return f'{type(e).__name__}: {e} [{(own or tb)[-1].line}]'
    finally:
        signal.alarm(0)


def run_oracle(o, tier, seed, budget, extra=0):
    """one pass over the generator, then further passes with other random choices until `extra` seconds are used up"""
    t0 = time.time()
    n, distinct, failures, samples, cut = 0, set(), [], [], False
    for turn in itertools.count():
        rng = random.Random(f'{seed}/{o.pid}/{o.name}' + (f'/{turn}' if turn else ''))
        before, stop = n, False
        for args in o.gen(rng, 'thorough' if turn else tier):
            if time.time() - t0 > (extra if turn else budget):
                cut, stop = cut or not turn, True
                break
            key = repr(args)
            if key in distinct:
                continue
            distinct.add(key)
            n += 1
            if len(samples) < 2 and n % 7 == 1:
                samples.append(f'{o.name}{key}'[:300])
            why = run_case(o.fn, args)
            if why is not None:
                failures.append({'oracle': o.name, 'args': key, 'why': why})
                if len(failures) >= 5 or 'no answer within' in why:
                    stop = True
                    break
        if stop or n == before or failures or time.time() - t0 > extra:
            break
    return {'oracle': o.name, 'evaluations': n, 'distinct': len(distinct), 'failures': failures, 'samples': samples,
            'cut': cut, 'seconds': round(time.time() - t0, 2)}


def raises(f, *exc):
    """does the call raise one of the exceptions?"""
    try:
        f()
    except exc or Exception:
        return True
    return False


def eq(a, b, what=''):
    assert type(a) == type(b) or not isinstance(a, bool) and not isinstance(b, bool) or a == b, f'{what}: {a!r} vs {b!r}'
    assert a == b, f'{what}: got {a!r}, expected {b!r}'


# ---------------------------------------------------------------------- generators

def bit_lists(rng, tier, small=6, many=60, longest=40):
    for n in range(small + 1):
        for v in itertools.product([0, 1], repeat=n):
            yield list(v)
    for _ in range(many * (5 if tier == 'thorough' else 1)):
        n = rng.randrange(small, longest)
        p = rng.choice([0.05, 0.5, 0.95])
        yield [int(rng.random() < p) for _ in range(n)]
    for n in (15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 130):
        for p in (0, 0.1, 0.5, 0.9, 1):
            yield [int(rng.random() < p) for _ in range(n)]


def one(gen):
    """cases with a single argument"""
    def g(rng, tier):
        for x in gen(rng, tier):
            yield (x,)
    return g


def naturals(rng, tier, small=300, many=200, bits=300):
    yield from range(small)
    for k in list(range(1, 70)) + [100, 127, 128, 200, 256, 300, 520, 1024, 1100]:
        for d in (-2, -1, 0, 1, 2):
            if 2 ** k + d >= 0:
                yield 2 ** k + d
    for k in range(1, 40):
        for d in (-1, 0, 1):
            yield 10 ** k + d
    for _ in range(many * (5 if tier == 'thorough' else 1)):
        yield rng.getrandbits(rng.randrange(1, bits))


def perms_small(n):
    for k in range(n + 1):
        yield from itertools.permutations(range(k))


def rand_perm(rng, n):
    p = list(range(n))
    rng.shuffle(p)
    return p


def set_partitions(n):
    """all partitions of range(n) as lists of blocks"""
    def rec(k, blocks):
        if k == n:
            yield [list(b) for b in blocks]
            return
        for b in blocks:
            b.append(k)
            yield from rec(k + 1, blocks)
            b.pop()
        blocks.append([k])
        yield from rec(k + 1, blocks)
        blocks.pop()
    yield from rec(0, [])
