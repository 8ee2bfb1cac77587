#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_general.md, the properties, the oracles, the last evidence and the planted bugs."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
from oracles import O
general = open(f'{root}/tools/design_general.md').read()
out = []
for p in PROPS:
    i = p['id']
    ev = {}
    f = f'{root}/evidence/{i}.json'
    if os.path.exists(f):
        ev = json.load(open(f))
    c = ev.get('coverage', {})
    out.append(f"### {i} {p['title']}\n")
    if not p.get('bin'):
        out.append(f"Not claimed: {p['na']}\n")
        continue
    out.append(f"- **Statement**: {p['statement']}")
    out.append(f"- **Quantified over**: {p['qtext']}.")
    out.append(f"- **Deciding method**: {p['tech']}.")
    out.append(f"- **Oracle**: {O[i]}")
    if c.get('rule'):
        out.append(f"- **Workload**: {c['rule']}")
    b = p['note']
    if ev.get('assumptions'):
        b += ' Assumes: ' + '; '.join(ev['assumptions']) + '.'
    out.append(f"- **Bounds**: {b}")
    g = c.get('groups')
    if g and ev.get('tier') == 'quick':
        out.append(f"- **Quick run** (seed {ev['seed']}): " + ', '.join(f"{k} {v['cases']}" for k, v in g.items()) + f" cases; {c.get('oracle_evaluations')} oracle evaluations in {max(ev['wall_s'], 0.1):.0f} s after the build.")
    out.append(f"- **Why the tests cannot**: {p['why']}")
    out.append(f"- **Anchors**: " + ', '.join(f'`{x}`' for x in p['files']) + '\n')
fixed = ['- ' + m[1] + ' `' + m[2] + '` ' + m[3] for m in re.finditer(r'^fixed: property=(\S+) (\S+) (.*)$', open(f'{root}/known_findings.txt').read(), re.M)]
found = ['- ' + m[1] + ' `' + m[2] + '`: ' + m[3] for m in re.finditer(r'^finding: property=(\S+) case=(\S+) (.*)$', open(f'{root}/known_findings.txt').read(), re.M)]
seeds = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(f'{root}/tools/caught.json'))
for s in sorted(os.listdir(f'{root}/seeded')):
    m = json.load(open(f'{root}/seeded/{s}/meta.json'))
    seeds.append(f"| `{s}` | {m['property']} | {m['needs']} | {caught.get(s, '?')} |")
d = general.replace('@@PROPERTIES@@', '\n'.join(out)).replace('@@FIXED@@', '\n'.join(fixed)).replace('@@FINDINGS@@', '\n'.join(found)).replace('@@SEEDS@@', '\n'.join(seeds)).replace('@@NFIXED@@', str(len(fixed)))
assert '@@' not in d
open(f'{root}/DESIGN.md', 'w').write(d)
