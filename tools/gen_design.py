#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design/, the evidence of the last runs and tools/design/catches.json"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools/design')
from notes import N
out = open(V + '/tools/design/head.md').read()
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    g, o, b = N[i]
    out += f"### {i} {p['title']}\n\n* Generated: {g}.\n* Oracle: {o}.\n"
    if b != '-':
        out += f"* Bounds: {b}.\n"
    try:
        e = json.load(open(f'{V}/evidence/{i}.json'))
    except Exception:
        e = None
    if e:
        rules = dict(x.split(': ', 1) for x in e['coverage']['rule'].split('; ') if ': ' in x)
        for s in e['coverage']['scenarios']:
            r = rules.get(s['scenario'])
            out += f"* Scenario `{s['scenario']}`: {s['evaluations']} cases, {s['nontrivial']} non-trivial" + (f" ({r})" if r else '') + ".\n"
    out += '\n'
out += open(V + '/tools/design/tail.md').read()
out += '\n## Planted bugs\n\nEach was verified in a scratch copy: builds, the 24 stable tests pass, the demonstration exits 0 without and 1 with it.\n\n| planted bug | property | needs | caught by |\n|---|---|---|---|\n'
c = json.load(open(V + '/tools/design/catches.json')) if os.path.exists(V + '/tools/design/catches.json') else {}
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = d.split('/')[-2]
    out += f"| {i} | {m['property']} | {m['needs']} | {c.get(i, '?')} |\n"
extra = V + '/tools/design/mutants.md'
if os.path.exists(extra):
    out += '\n' + open(extra).read()
open(V + '/DESIGN.md', 'w').write(out)
