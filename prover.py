"""Verify the contracts and lemmas of a property in parallel; used by check.py and tools/."""
import ast
import glob
import hashlib
import importlib
import json
import multiprocessing
import os
import sys
import time

sys.path[:0] = ['/verif', '/verif/contracts']
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

BASELINE = '/verif/baseline.json'


def load():
    from pyvc import contracts as K
    for f in sorted(glob.glob('/verif/contracts/c_*.py')):
        importlib.import_module(os.path.basename(f)[:-3])
    return K


def items_of(K, pid):
    return [c for c in K.REGISTRY.contracts + K.REGISTRY.lemmas if pid in c.props]


_hash = {}


def file_hash(path):
    """hash of the syntax tree: comments and layout do not matter"""
    if path not in _hash:
        try:
            with open(path, encoding='utf-8') as f:
                _hash[path] = hashlib.sha256(ast.dump(ast.parse(f.read())).encode()).hexdigest()[:16]
        except OSError:
            _hash[path] = 'missing'
    return _hash[path]


def closure_hash(files):
    return hashlib.sha256(' '.join(f'{f}:{file_hash(f)}' for f in sorted(files)).encode()).hexdigest()[:16]


def theory_task(_=None):
    from pyvc import theory
    t0 = time.time()
    bad = []
    n = 0
    for name, prem, goal in theory.theory_obligations():
        n += 1
        r, _, _ = theory.prove(prem, goal, 20000, raw=True)
        if r != 'proved':
            bad.append(name)
    return {'obligations': n, 'failed': bad, 'seconds': round(time.time() - t0, 2)}


def _child(conn, kind, index, timeout, budget):
    K = sys.modules['pyvc.contracts']
    from pyvc import theory
    if kind == 'theory':
        conn.send(theory_task())
        return
    c = (K.REGISTRY.contracts + K.REGISTRY.lemmas)[index]
    o = K.verify(c, timeout=timeout, budget=budget)
    d = o.as_dict()
    d['stats'] = dict(theory.STATS)
    d['hash'] = closure_hash(o.files)
    conn.send(d)


def run(K, items, jobs=6, timeout=10000, budget=120, deadline=600, theory=True):
    """[(contract, outcome dict)], theory result; one process per contract, ended when it overruns"""
    allc = K.REGISTRY.contracts + K.REGISTRY.lemmas
    index = {id(c): k for k, c in enumerate(allc)}
    todo = [('item', c) for c in items]
    if theory:
        todo.insert(0, ('theory', None))
    ctx = multiprocessing.get_context('fork')
    running, out, th = [], {}, None
    end = time.time() + deadline
    while todo or running:
        while todo and len(running) < jobs and time.time() < end:
            kind, c = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(b, kind, index.get(id(c)), timeout, budget), daemon=True)
            p.start()
            b.close()
            running.append((kind, c, p, a, time.time()))
        if time.time() >= end:
            for kind, c in todo:
                if c is not None:
                    out[id(c)] = {'id': c.id, 'status': 'unsupported', 'reason': 'no time left', 'obligations': [], 'seconds': 0}
            todo = []
        still = []
        for kind, c, p, a, t0 in running:
            d = None
            if a.poll(0.01):
                try:
                    d = a.recv()
                except EOFError:
                    d = {'id': c.id if c else 'theory', 'status': 'unsupported', 'reason': 'prover process ended', 'obligations': [], 'seconds': 0}
            elif time.time() - t0 > budget * 2 + 60 or time.time() > end + 60:
                d = {'id': c.id if c else 'theory', 'status': 'unsupported', 'reason': 'time budget of this function used up', 'obligations': [], 'seconds': time.time() - t0}
                p.kill()
            if d is None:
                still.append((kind, c, p, a, t0))
                continue
            p.join(5)
            a.close()
            if kind == 'theory':
                th = d
            else:
                out[id(c)] = d
        running = still
    return [(c, out[id(c)]) for c in items], th


def baseline():
    try:
        with open(BASELINE) as f:
            return json.load(f)
    except OSError:
        return {}
