"""Fills DESIGN.md's generated sections from tools/ and seeded/."""
import json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, NA
from design_parts import METHOD, LEFT
na = dict(NA)
t = open(os.path.join(ROOT, 'tools', 'DESIGN.in.md')).read()
ps = []
for p in PROPS:
    if p['id'] in na:
        ps.append('* **%s %s** - not applicable: %s' % (p['id'], p['title'], na[p['id']]))
    else:
        ps.append('* **%s %s** (%s). %s Quantified over: %s. Why tests cannot: %s.' % (
            p['id'], p['title'], ', '.join('`%s`' % f for f in p['files']), METHOD[p['id']], p['quant'], p['why'].rstrip('.')))
k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
ds = ['* %s' % e['what'] if e['status'] == 'fixed' else '* known finding, property %s: %s' % (e['property'], e['what']) for e in k]
ss = ['| bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    ss.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
for key, v in (('PROPS', ps), ('DEFECTS', ds), ('LEFT', ['* ' + x for x in LEFT]), ('SEEDED', ss)):
    t = t.replace('@@%s@@' % key, '\n'.join(v))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
