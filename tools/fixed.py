#!/usr/bin/env python3
"""Adds 'fixed:' lines for fix commits of /repo that KNOWN_FINDINGS.txt does not list yet.
usage: fixed.py [PROPERTY]   (property for new commits; default by changed file)"""
import subprocess, sys, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = HERE + '/KNOWN_FINDINGS.txt'
BY = {'input-pnm': 'C01', 'input-bmp': 'C02', 'input-tga': 'C03', 'input-png': 'C04', 'input-gf': 'C05', 'pxl-outline': 'C07', 'fit.c': 'C08'}
g = lambda *a: subprocess.check_output(['git', '-C', '/repo', *a], text=True)
txt = open(K).read()
for l in reversed(g('log', '--format=%h %s').splitlines()):
    h, s = l.split(' ', 1)
    if not s.startswith('fix: ') or h in txt:
        continue
    files = g('show', '--name-only', '--format=', h)
    p = sys.argv[1] if len(sys.argv) > 1 else next((v for k, v in BY.items() if k in files), '?')
    if 'without pixels' in s or 'does not fit an int' in s or 'end before' in s:
        p = 'C06'
    assert p != '?', l
    txt += f'fixed: property={p} {h} before the repair this failed: {s[5:]}\n'
open(K, 'w').write(txt)
