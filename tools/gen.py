#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from table.py."""
import json
import os
import sys

B = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [B, os.path.join(B, 'tools')]
sys.dont_write_bytecode = True
from table import T  # noqa
from symx import reg  # noqa

claimed = {h.prop for h in reg.load_all()}
skip = set(sys.argv[1:])

with open(os.path.join(B, 'properties.jsonl'), 'w') as f:
    for t in T:
        assert len(t['title']) <= 80, t['id']
        f.write(json.dumps(dict(
            id=t['id'], title=t['title'], statement=t['statement'],
            quantifier=dict(over=t['over'], text=t['text']),
            why_tests_cant=t['why'],
            anchors=dict(files=t['files'], mechanism=[
                dict(name=n, where=w) for n, w in t['mech']]))) + '\n')

TECH = ('symbolic execution of the real source over exact reals, each '
        'obligation decided by z3 (SMT), counterexamples replayed')
NOTE = ('Bounded solver-based check: holds for all values within the bounds '
        'of the evidence file, over exact real arithmetic (float rounding '
        'and infinities are outside); trusts z3, the numpy stand-in '
        '(validated by replaying paths on the real code) and the exact '
        'identities of the trigonometric functions. ')
checks, na = [], []
for t in T:
    if t['id'] in claimed and t['id'] not in skip:
        cmd = f"python3-vt run.py --property {t['id']} --tier "
        checks.append(dict(
            property=t['id'], quick_cmd=cmd + 'quick',
            thorough_cmd=cmd + 'thorough',
            technique=t['technique'] or TECH, level='model_checking',
            level_note=NOTE + t['note'][0].upper() + t['note'][1:] + '.'))
    else:
        na.append(dict(property=t['id'],
                       reason='check not built yet in this revision'))
with open(os.path.join(B, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py',
                   checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
print(len(checks), 'claimed', [n['property'] for n in na])
