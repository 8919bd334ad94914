#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the properties, the oracles, the evidence and the planted bugs."""
import glob, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(HERE + '/tools/design/oracles.py').read())
o = open(HERE + '/tools/design/head.md').read().rstrip() + '\n\n'
for l in open(HERE + '/properties.jsonl'):
    p = json.loads(l)
    cost = ''
    try:
        e = json.load(open(f'{HERE}/evidence/{p["id"]}.json'))
        if e['tier'] == 'quick' and e['coverage']['exhaustive']:
            cost = f'{e["coverage"]["cases_enumerated"]:,} cases, about {max(1, round(e["coverage"]["explore_s"]))} s (quick).'
    except OSError:
        pass
    o += f'### {p["id"]} {p["title"]}\n\n{p["statement"]}\n\n* Enumerated: {p["quantifier"]["text"]}.\n* Oracle: {ORACLE[p["id"]]}\n'
    if cost:
        o += f'* Cost: {cost}\n'
    else:
        print('no complete quick evidence for', p['id'])
    o += f'* Why tests cannot: {p["why_tests_cant"]}.\n\n'
o += open(HERE + '/tools/design/tail.md').read().rstrip() + '\n\n## 7. Planted bugs\n\n'
o += open(HERE + '/tools/design/planted.md').read().rstrip() + '\n\n| bug | property | what it needs | caught by |\n|---|---|---|---|\n'
res = json.load(open(HERE + '/tools/design/caught.json'))
for d in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    o += f'| {i} | {m["property"]} | {m["needs"]} | {res.get(i, "not tried")} |\n'
open(HERE + '/DESIGN.md', 'w').write(o)
