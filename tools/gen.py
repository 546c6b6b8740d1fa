"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, NA, NOTES

NOTE = ('For every harness, the real functions are executed symbolically and z3 decides each claim for '
        'all values within the stated bounds; counterexamples are replayed on the unpatched code. '
        'Trusted: z3, the lifted NumPy semantics in vlib/, real instead of float arithmetic. ')
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p.get('over', ['inputs']), text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p.get('observe', []), hook_needed=None))) + '\n')
na = dict(NA)
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    checks.append(dict(property=p['id'], quick_cmd='./run.py ' + p['id'],
                       thorough_cmd='VERIF_TIER=thorough ./run.py ' + p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p.get('technique', 'symbolic execution of the real Python functions, claims decided by z3 (SMT)'),
                       level='model_checking', level_note=NOTE + p.get('note', '')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); from vlib import harness"',
         checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA],
         notes=NOTES)
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['id'] in na or os.path.exists(os.path.join(ROOT, 'checks', p['id'] + '.py')), p['id']
    for f in p['files']:
        assert os.path.exists('/repo/' + f), f
print(len(PROPS), 'properties,', len(checks), 'claimed')
