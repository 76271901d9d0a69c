"""prove contracts: python prove.py [substring of contract id or property ...]; one process each, VERB=1 for the failing goals"""
import multiprocessing
import os
import sys
import time
sys.path[:0] = ['/verif']
import prover
K = prover.load()


def one(index):
    c = (K.REGISTRY.contracts + K.REGISTRY.lemmas)[index]
    o = K.verify(c)
    out = [f'{o.status:12} {o.seconds:6.1f}s paths={o.paths} obs={len(o.obligations)} {c.id}  {o.reason}']
    if o.status == 'failed':
        for ob in o.obligations:
            if ob['status'] != 'proved':
                out.append(f"      {ob['status']} {ob['seconds']} {ob['name']}")
                if os.environ.get('VERB'):
                    out += [str(ob['goal']), str(ob.get('model'))]
    if os.environ.get('VERB'):
        out.append(f'   inlined {o.inlined} used {o.used} models {o.models}')
    return '\n'.join(out)


if __name__ == '__main__':
    print(K.MISSING)
    pats = sys.argv[1:]
    items = K.REGISTRY.contracts + K.REGISTRY.lemmas
    todo = [k for k, c in enumerate(items) if not pats or any(p in c.id or p in c.props for p in pats)]
    t0 = time.time()
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as pool:
        for line in pool.imap(one, todo, chunksize=1):
            print(line, flush=True)
    print('total', time.time() - t0)
