"""run the oracles of a property: run.py PID OUT.json [--replay FILE]"""
import ast
import glob
import importlib
import json
import multiprocessing
import os
import resource
import sys
import time

sys.path.insert(0, '/verif/oracle')
import lib  # noqa: E402


def load(pid):
    importlib.import_module('o_' + pid.lower())
    return lib.ORACLES.get(pid, [])


def work(a):
    pid, k, tier, seed, budget, extra = a
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(5000)
    return lib.run_oracle(lib.ORACLES[pid][k], tier, seed, budget, extra)


def replay(path):
    d = json.load(open(path))
    load(d['property'])
    o = [o for o in lib.ORACLES[d['property']] if o.name == d['oracle']][0]
    why = lib.run_case(o.fn, ast.literal_eval(d['args']) if isinstance(d['args'], str) else tuple(d['args']))
    print('fails: ' + why if why else 'holds')
    return 1 if why else 0


def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    pid, out = sys.argv[1:3]
    tier, seed = os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))
    budget = float(os.environ.get('ORACLE_BUDGET', '150' if tier == 'quick' else '600'))
    os_ = load(pid)
    extra = float(os.environ.get('ORACLE_EXTRA', '80' if tier == 'quick' else '800')) / max(len(os_), 4)
    t0 = time.time()
    with multiprocessing.Pool(int(os.environ.get('ORACLE_JOBS', '4'))) as pool:
        rs = pool.map(work, [(pid, k, tier, seed, budget, extra) for k in range(len(os_))], chunksize=1)
    with open(out, 'w') as f:
        json.dump({'results': rs, 'seconds': round(time.time() - t0, 2)}, f)
    for r in rs:
        if '-v' in sys.argv or r['failures']:
            print(r['oracle'], r['evaluations'], r['seconds'], 'CUT' if r['cut'] else '', *(f['args'][:200] + ' ' + f['why'][:300] for f in r['failures'][:2]), sep=' | ')
    return 0


if __name__ == '__main__':
    sys.exit(main())
