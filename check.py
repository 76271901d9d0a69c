"""check.py PROPERTY: decide one property on the current tree of /repo (see DESIGN.md)."""
import json
import os
import subprocess
import sys
import time

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ['PYTHONHASHSEED'] = '0'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
HERE = '/verif'
PY = '/opt/venv/bin/python'
ORACLE_RULE = ('inputs are enumerated exhaustively up to a small size and drawn at random (VERIF_SEED) above it; every case is a distinct '
               'argument tuple, compared with an independent computation written from the property text')


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(f'{HERE}/evidence', exist_ok=True)
    os.makedirs(f'{HERE}/evidence/replay', exist_ok=True)
    tmp = f'{HERE}/evidence/.oracle_{pid}.json'
    if os.path.exists(tmp):
        os.remove(tmp)
    # bounded search, in its own process
    orc = subprocess.Popen([PY, f'{HERE}/oracle/run.py', pid, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    sys.path.insert(0, HERE)
    import prover
    K = prover.load()
    info = json.load(open(f'{HERE}/claims.json'))
    claim = info['properties'][pid]
    items = prover.items_of(K, pid)
    missing = [(c.id, why) for c, why in K.MISSING if pid in c.props]
    deadline = 420 if tier == 'quick' else 700
    results, th = prover.run(K, items, jobs=6, timeout=10000 if tier == 'quick' else 20000, budget=100 if tier == 'quick' else 200,
                             deadline=deadline)
    try:
        otext = orc.communicate(timeout=800 - (time.time() - t0))[0]
    except subprocess.TimeoutExpired:
        orc.kill()
        otext = orc.communicate()[0]
    if not os.path.exists(tmp):
        print('the bounded search did not finish:\n' + (otext or '')[-3000:])
        return 3
    oracle = json.load(open(tmp))['results']
    os.remove(tmp)

    base = prover.baseline()
    proved, failed, lost, undecided = [], [], [], []
    obligations = discharged = 0
    backends, z3_s, cvc5_s = {}, 0.0, 0.0
    assumptions = set(info['assumptions'])
    samples = []
    for c, d in results:
        obligations += len(d['obligations'])
        discharged += sum(1 for o in d['obligations'] if o['status'] == 'proved')
        for o in d['obligations']:
            if o['backend']:
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
        z3_s += d.get('stats', {}).get('z3', 0)
        cvc5_s += d.get('stats', {}).get('cvc5', 0)
        if d['status'] == 'proved':
            proved.append(c.id)
            if len(samples) < 3 and d['obligations']:
                samples.append(f"{c.id}: {d['obligations'][-1]['name']}")
        elif d['status'] == 'assumed':
            assumptions.add(f'assumed contract {c.id}: {d["reason"]}')
        elif d['status'] == 'failed':
            b = base.get(c.id, {})
            if b.get('status') == 'proved' and b.get('hash') != d.get('hash'):
                failed.append((c.id, d))
            else:
                # the code that this obligation reads is the code it was proved for: the solver gave up on this run
                undecided.append((c.id, 'solver did not repeat the proof on unchanged code'))
        else:
            lost.append((c.id, d['reason']))
    for cid, why in missing:
        lost.append((cid, why))
    if th is None or 'failed' not in th or th['failed']:
        undecided.append(('background theory', str(th)))
    else:
        obligations += th['obligations']
        discharged += th['obligations']
        backends['z3'] = backends.get('z3', 0) + th['obligations']
        z3_s += th['seconds']

    known = json.load(open(f'{HERE}/known_findings.json'))
    failures, listed = [], set()
    for r in oracle:
        for f in r['failures']:
            hit = [k for k in known['known'] if k['property'] == pid and k['oracle'] == f['oracle'] and k['args'] == f['args']]
            if hit:
                listed.add(hit[0]['what'])
            else:
                failures.append(f)
    for k in known['known']:
        if k['property'] == pid:
            listed.add(k['what'])
    for w in sorted(listed):
        print(f'KNOWN-FINDING: property={pid} {w}')

    lines = []
    if failures:
        for k, f in enumerate(failures[:5]):
            path = f'{HERE}/evidence/replay/{pid}_{k}.json'
            rec = {'property': pid, 'oracle': f['oracle'], 'args': f['args'], 'why': f['why'],
                   'replay': f'{PY} {HERE}/oracle/run.py --replay {path}',
                   'failed_obligations': [{'contract': cid, 'obligations': [o for o in d['obligations'] if o['status'] != 'proved']}
                                          for cid, d in failed][:5]}
            with open(path, 'w') as fh:
                json.dump(rec, fh, indent=1)
            print(f"{f['oracle']}{f['args'][:300]}: {f['why'][:300]}")
            lines.append(f'VIOLATION property={pid} replay={path}')
    elif failed:
        path = f'{HERE}/evidence/replay/{pid}_obligation.json'
        with open(path, 'w') as fh:
            json.dump({'property': pid, 'failed_obligations': [{'contract': cid, 'obligations': [o for o in d['obligations'] if o['status'] != 'proved']}
                                                               for cid, d in failed]}, fh, indent=1)
        for cid, d in failed:
            for o in d['obligations']:
                if o['status'] != 'proved':
                    print(f"obligation not discharged ({o['status']}): {cid}: {o['name']}")
        lines.append(f'VIOLATION property={pid} replay={path} no-failing-input-found')

    evals = sum(r['evaluations'] for r in oracle)
    for cid, why in undecided:
        print(f'undecided on this run: {cid}: {why}')
    for cid, why in lost:
        print(f'bounded only: {cid}: {why}')
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': claim['level'],
        'coverage': {
            'obligations': obligations, 'discharged': discharged,
            'checker_cmd': f'{PY} {HERE}/check.py {pid}',
            'trusted_base': info['trusted_base'],
            'functions_under_contract': sorted({c.target for c, _ in results if hasattr(c, 'target')}),
            'contracts_proved': proved,
            'contracts_not_proved': [x for x, _ in lost + undecided] + [x for x, _ in failed],
            'lemmas': [c.id for c, d in results if not hasattr(c, 'target') and d['status'] == 'proved'],
            'functions_executed_in_place': sorted({f for _, d in results for f in d.get('inlined', [])}),
            'obligations_by_back_end': backends, 'solver_seconds': {'z3': round(z3_s, 1), 'cvc5': round(cvc5_s, 1)},
            'explanation': claim['note'],
            'bounded_stand_in': claim.get('bounded', 'everything in the statement that is not listed under contracts_proved'),
            'evaluations': evals, 'distinct_nontrivial': sum(r['distinct'] for r in oracle), 'rule': ORACLE_RULE,
            'oracles': {r['oracle']: {'evaluations': r['evaluations'], 'seconds': r['seconds'], 'cut_by_time': r['cut']} for r in oracle},
            'samples': samples + [s for r in oracle for s in r['samples'][:1]][:4],
        },
        'assumptions': sorted(assumptions),
        'wall_s': round(time.time() - t0, 2), 'violations': len(lines),
    }
    with open(f'{HERE}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {len(proved)} contracts and lemmas proved, {discharged}/{obligations} obligations, {evals} bounded cases, {ev["wall_s"]} s')
    if obligations == 0 and not failures:
        print('no obligation was generated')
        return 3
    for x in lines:
        print(x)
    return 1 if lines else 0


if __name__ == '__main__':
    sys.exit(main())
