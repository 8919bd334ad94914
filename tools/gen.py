#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (run after editing)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note, level='model_checking', state=None, hook=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why, anchors=a), technique, note, level))


exec(open(HERE + '/tools/props.py').read())

have = {os.path.basename(p)[:3].upper() for p in glob.glob(HERE + '/checks/c[0-9][0-9]_*.cpp')}
P.sort(key=lambda e: e[0]['id'])
with open(HERE + '/properties.jsonl', 'w') as f:
    for e in P:
        f.write(json.dumps(e[0]) + '\n')
NA = globals().get('NOT_APPLICABLE', [])
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[dict(property=p, reason=r) for p, r in NA], notes=globals().get('NOTES', ''))
for e, technique, note, level in P:
    if e['id'] in have:
        m['checks'].append(dict(property=e['id'], quick_cmd=f'python3 run.py {e["id"]}', thorough_cmd=f'python3 run.py {e["id"]} --thorough',
                                evidence_file=f'evidence/{e["id"]}.json', technique=technique, level=level, level_note=note))
    elif e['id'] not in [p for p, _ in NA]:
        print('no check for', e['id'])
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')
