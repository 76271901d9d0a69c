"""Record, for the current tree, which contracts are proved and the syntax-tree hash of the files they read.
baseline.py [property or substring ...] updates only those."""
import json
import sys
sys.path.insert(0, '/verif')
import prover
K = prover.load()
base = prover.baseline()
pats = sys.argv[1:]
items = [c for c in K.REGISTRY.contracts + K.REGISTRY.lemmas if not pats or any(p in c.props or p in c.id for p in pats)]
ids = [c.id for c in K.REGISTRY.contracts + K.REGISTRY.lemmas]
assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
results, th = prover.run(K, items, jobs=7, deadline=3000, budget=100, theory=not pats)
for c, d in results:
    base[c.id] = {'status': d['status'], 'hash': d.get('hash'), 'seconds': round(d['seconds'], 1), 'obligations': len(d['obligations'])}
    if d['status'] != 'proved':
        print(d['status'], c.id, d['reason'], [o['name'] for o in d['obligations'] if o['status'] != 'proved'])
    elif d['seconds'] > 25:
        print('slow', round(d['seconds']), c.id)
base = {k: base[k] for k in sorted(base) if k in ids}
with open(prover.BASELINE, 'w') as f:
    json.dump(base, f, indent=1)
    f.write('\n')
print(th, len(base), sum(1 for x in base.values() if x['status'] == 'proved'), 'proved', K.MISSING)
