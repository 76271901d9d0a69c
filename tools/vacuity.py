"""vacuity.py [substring …]: try to derive False from the premises of every obligation.

A contract is reported as VACUOUS when the premises of all its obligations are contradictory. Single contradictory
paths are normal (they are infeasible); they are counted. Nothing here shows consistency: it is a search for a
contradiction, ended by a time limit per obligation.
"""
import multiprocessing
import sys

sys.path[:0] = ['/verif', '/verif/tools']
import prover

K = prover.load()
from pyvc import theory


def contradictory(premises):
    import z3
    fs = theory.unstored(list(premises))
    s = z3.SimpleSolver()
    s.set('timeout', 1500)
    s.set('smt.mbqi', False)
    s.set('auto_config', False)
    s.add(*theory.background(fs))
    s.add(*fs)
    return s.check() == z3.unsat


def one(k):
    c = (K.REGISTRY.contracts + K.REGISTRY.lemmas)[k]
    found = {}

    def search(eng, out, timeout, until):
        for ob in eng.obligations:
            found[tuple(p.get_id() for p in ob.premises)] = ob.premises
        sets = list(found.values())
        # the largest sets contain the others: at most 6 of them per contract
        sets.sort(key=len, reverse=True)
        out.tried = min(len(sets), 6)
        out.bad = sum(contradictory(p) for p in sets[:6])
        out.status = 'proved'
    K.discharge = search
    o = K.verify(c, timeout=10000, budget=150)
    return c.id, o.status, getattr(o, 'tried', 0), getattr(o, 'bad', 0), o.reason


if __name__ == '__main__':
    allc = K.REGISTRY.contracts + K.REGISTRY.lemmas
    todo = [k for k, c in enumerate(allc) if not sys.argv[1:] or any(s in c.id for s in sys.argv[1:])]
    none = vacuous = partly = 0
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for cid, status, tried, bad, reason in pool.imap_unordered(one, todo, chunksize=1):
            if status != 'proved':
                print('not tried:', cid, reason, flush=True)
            elif tried and bad == tried:
                vacuous += 1
                print('VACUOUS', cid, tried, flush=True)
            elif bad:
                partly += 1
            else:
                none += 1
    print(f'{len(todo)} contracts and lemmas: {none} without contradiction, {partly} with single infeasible paths, {vacuous} vacuous')
