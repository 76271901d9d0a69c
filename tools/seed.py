"""Make and confirm planted bugs: seed.py SPEC.py [id ...].  SPEC.py defines BUGS = [dict(id, property, needs, breaks, file, old, new, demo)].
Works in a scratch copy of /repo; prints what fails to hold."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

BASE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def make(b):
    d = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    root = d + '/repo'
    try:
        shutil.copytree('/repo', root, symlinks=True)
        edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
        for f, old, new in edits:
            p = f'{root}/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                return f'{f}: text occurs {s.count(old)} times'
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], cwd=root).stdout
        out = f"/verif/seeded/{b['id']}"
        os.makedirs(d + '/demo')
        demo = b['demo'].strip('\n') + '\n'
        open(d + '/demo/demo.py', 'w').write(demo)

        def rundemo(r):
            return sh(['/opt/venv/bin/python', d + '/demo/demo.py'], cwd=r, env={**os.environ, 'PYTHONPATH': r, 'PYTHONDONTWRITEBYTECODE': '1'}, timeout=250)
        ok, bad = rundemo('/repo'), rundemo(root)
        if ok.returncode != 0:
            return 'demo fails on the unchanged tree: ' + ok.stderr[-400:]
        if bad.returncode == 0:
            return 'demo passes with the change'
        # the repository's own tests
        shutil.copy('/opt/vp/test.sh', d + '/test.sh')
        t = open(d + '/test.sh').read().replace('/repo', root).replace('unset PYTHONPATH', f'export PYTHONPATH={root}; unset')
        open(d + '/test.sh', 'w').write(t)
        r = sh(['bash', d + '/test.sh', d + '/out.json'], env={**os.environ, 'PYTHONPATH': root, 'PYTHONDONTWRITEBYTECODE': '1'})
        res = json.load(open(d + '/out.json'))
        lost = BASE - set(res['passed'])
        if lost:
            return f'{len(lost)} tests lost: {sorted(lost)[:3]}'
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(d)


spec = runpy.run_path(sys.argv[1])
for b in spec['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    why = make(b)
    print(b['id'], 'kept' if why is None else 'NOT KEPT: ' + why, flush=True)
