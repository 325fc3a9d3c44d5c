#!/usr/bin/env python3
"""Development tool: makes /verif/seeded/<id> from a specification after
confirming in a scratch copy that the change builds, passes the stable tests
and is shown by its demonstration.

  plant.py SPEC.py [id ...]     SPEC defines BUGS: list of dicts with
  id, prop, file, edits [(old, new[, count])], needs, breaks, demo
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
STABLE = json.load(open('/opt/vp/BASELINE.json'))

SH = '''#!/bin/bash
# exit 0: the property holds on the demonstrated case
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **k)


def tests_ok(d):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               PYTHONPATH=d)
    x = os.path.join(d, 'junit_tmp.xml')
    p = run([PY, '-m', 'pytest', '-q', '--no-cov', '-p', 'no:cacheprovider',
             '-x', '--timeout=300', 'tests'], d, env=env)
    return p.returncode == 0, p.stdout[-600:]


def make(b):
    d = tempfile.mkdtemp(prefix='plant_')
    try:
        w = os.path.join(d, 'repo')
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        for ed in b['edits']:
            f = os.path.join(w, ed[2] if len(ed) > 2 else b['file'])
            s = open(f).read()
            n = s.count(ed[0])
            if n != 1:
                return f'edit matches {n} times: {ed[0][:60]!r}'
            open(f, 'w').write(s.replace(ed[0], ed[1]))
        diff = run(['git', 'diff'], w).stdout
        dd = os.path.join(d, 'demo')
        os.makedirs(dd)
        open(os.path.join(dd, 'demo.sh'), 'w').write(SH)
        open(os.path.join(dd, 'demo.py'), 'w').write(b['demo'].lstrip('\n'))
        p0 = run(['bash', os.path.join(dd, 'demo.sh')], '/repo')
        p1 = run(['bash', os.path.join(dd, 'demo.sh')], w)
        if p0.returncode != 0:
            return 'demo fails on the clean tree: ' + p0.stderr[-400:]
        if p1.returncode == 0:
            return 'demo passes with the change'
        ok, out = tests_ok(w)
        if not ok:
            return 'tests notice: ' + out[-300:]
        o = os.path.join(BASE, 'seeded', b['id'])
        if os.path.isdir(o):
            shutil.rmtree(o)
        shutil.copytree(dd, o)
        open(os.path.join(o, 'patch.diff'), 'w').write(diff)
        json.dump(dict(property=b['prop'], needs=b['needs'],
                       what_it_breaks=b['breaks']),
                  open(os.path.join(o, 'meta.json'), 'w'), indent=1)
        return 'ok'
    finally:
        shutil.rmtree(d)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = set(sys.argv[2:])
    from concurrent.futures import ThreadPoolExecutor
    bs = [b for b in ns['BUGS'] if not want or b['id'] in want]
    with ThreadPoolExecutor(6) as ex:
        for b, r in zip(bs, ex.map(make, bs)):
            print(b['id'], b['prop'], r, flush=True)


if __name__ == '__main__':
    main()
