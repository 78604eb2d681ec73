#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py (one source for both)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from spec import SPEC, NA
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
ids = [s['id'] for s in SPEC]
assert len(set(ids + [n['id'] for n in NA])) == len(ids) + len(NA)
assert set(ids) == set(PROPS), set(ids) ^ set(PROPS)
def line(s):
    assert len(s['title']) <= 80, s['id']
    return dict(id=s['id'], title=s['title'], statement=s['statement'], quantifier=dict(over=s['over'], text=s['quant']), why_tests_cant=s['why'],
                anchors=dict(files=s['files'], mechanism=[dict(name=n, where=w) for n, w in s['mech']], observe_at=s.get('observe', []), hook_needed=None))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for s in SPEC + NA:
        f.write(json.dumps(line(s)) + '\n')
checks = [dict(property=s['id'], quick_cmd='VERIF_TIER=quick python3 run.py check ' + s['id'], thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + s['id'],
               technique='deterministic simulation: ' + s['technique'], level=PROPS[s['id']].get('level', 'exploration'), level_note=s['note']) for s in SPEC]
m = dict(version=1, setup_cmd='python3 run.py build', checks=checks, not_applicable=[dict(property=s['id'], reason=s['reason']) for s in NA],
         notes='No hooks in /repo: every seam is taken at the libc/pthread/loader interface of the linked harness and through compiler instrumentation. Replay a violation with: python3 run.py replay replays/<file>. known-findings.txt lists repaired defects and open findings.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print('%d claimed, %d not applicable' % (len(SPEC), len(NA)))
