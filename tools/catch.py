#!/usr/bin/env python3
"""Development tool: runs the check of every planted bug's property against
it (on a scratch copy of /repo) and prints which are caught.

  catch.py [--tier T] [id ...]
"""
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil
import time

BASE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    tier = 'quick'
    prop = None
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i:i + 2]
    if '--prop' in args:
        i = args.index('--prop')
        prop = args[i + 1]
        del args[i:i + 2]
    sd = os.path.join(BASE, 'seeded')
    for b in sorted(os.listdir(sd)):
        if args and b not in args:
            continue
        m = json.load(open(os.path.join(sd, b, 'meta.json')))
        d = tempfile.mkdtemp(prefix='catch_')
        try:
            w = os.path.join(d, 'repo')
            subprocess.run(['cp', '-a', '/repo', w], check=True)
            subprocess.run(['git', 'apply',
                            os.path.join(sd, b, 'patch.diff')], cwd=w,
                           check=True)
            t = time.time()
            p = prop or m['property']
            r = subprocess.run(
                ['python3-vt', '-B', os.path.join(BASE, 'run.py'),
                 '--property', p, '--tier', tier], cwd=BASE,
                env=dict(os.environ, PYORB_REPO=w, VERIF_TIER=tier,
                         VERIF_NOEVIDENCE='1'),
                capture_output=True, text=True)
            v = re.search(rf'^VIOLATION property={p} ', r.stdout, re.M)
            lines = [x for x in r.stdout.splitlines()
                     if not x.startswith('INCONCLUSIVE')]
            print(f"{b:28s} {p} exit={r.returncode} "
                  f"{'CAUGHT' if v and r.returncode == 1 else 'MISSED'} "
                  f"{time.time() - t:.0f}s  "
                  + (lines[-2][:150] if v and len(lines) > 1 else
                     ' | '.join(lines[-3:])[:200] + r.stderr[-200:]),
                  flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
