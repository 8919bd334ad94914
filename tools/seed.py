#!/usr/bin/env python3
"""Planted bugs: tools/seeds_def.py describes them, this writes seeded/<id>/ and tries them out.
  seed.py write [id...]   regenerate patch.diff, demo.sh, demo.c, meta.json against /repo HEAD
  seed.py try [id...]     apply, build, test, demo, check; then undo and see the demo pass
"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = {}
PRE = '''#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "autotrace.h"
static int fatal, warned;
static void msg(const char *m, at_msg_type t, void *d) { if (t == AT_MSG_FATAL) fatal++; else warned++; }
static at_bitmap *load(const char *suffix, const void *data, size_t n) {
  FILE *f = fopen("in.bin", "wb"); fwrite(data, 1, n, f); fclose(f);
  fatal = warned = 0;
  return at_bitmap_read(at_input_get_handler_by_suffix((char *)suffix), (char *)"in.bin", NULL, msg, NULL);
}
static int pix(const at_bitmap *b, int row, int col) { at_color c; at_bitmap_get_color(b, row, col, &c); return c.r << 16 | c.g << 8 | c.b; }
#define CHECK(x) do { if (!(x)) { fprintf(stderr, "demo failed: %s\\n", #x); return 1; } } while (0)
int demo(void);
int main(void) { autotrace_init(); return demo(); }
'''
SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s'''
SH_C = SH % '''gcc -w -o "$tmp/demo" "$here/demo.c" -I/repo/src /repo/_build/repo/libautotrace.a -lpng -lz -lm -lstdc++ || exit 2
cd "$tmp" || exit 2
AT_DATE_ZERO=yes timeout 60 ./demo
'''


def seed(id, prop, edits, needs, breaks, c=None, sh=None, files=None):
    assert id not in S
    S[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, c=c, sh=sh, files=files or {})


exec(open(HERE + '/tools/seeds_def.py').read())


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    r = sh('git -C /repo status --porcelain')
    assert r.stdout == '', 'repo not clean: ' + r.stdout


def write(id):
    s = S[id]
    clean()
    try:
        for f, a, b in s['edits']:
            p = '/repo/' + f
            t = open(p, encoding='latin-1', newline='').read()
            assert t.count(a) == 1, (id, f, a, t.count(a))
            open(p, 'w', encoding='latin-1', newline='').write(t.replace(a, b))
        d = subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout
    finally:
        sh('git -C /repo checkout -- .')
    o = f'{HERE}/seeded/{id}'
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'wb').write(d)
    if s['c']:
        open(o + '/demo.c', 'w').write(PRE + s['c'])
    open(o + '/demo.sh', 'w').write(SH % s['sh'] if s['sh'] else SH_C)
    os.chmod(o + '/demo.sh', 0o755)
    for n, t in s['files'].items():
        open(o + '/' + n, 'w').write(t)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(o + '/meta.json', 'w'), indent=1)


def build():
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        return 'BUILD FAILED ' + r.stdout[-800:]
    return ''


def attempt(id):
    clean()
    s = S[id]
    out = []
    r = sh(f'git -C /repo apply {HERE}/seeded/{id}/patch.diff')
    if r.returncode:
        return 'does not apply: ' + r.stdout
    try:
        e = build()
        if e:
            return e
        sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        d = json.load(open('/tmp/seedtest.json'))
        out.append(f"tests {len(d['passed'])}/{len(d['passed']) + len(d['failed'])}")
        r = sh(f'bash {HERE}/seeded/{id}/demo.sh', cwd='/repo')
        out.append(f'demo-with {r.returncode}' + ('' if r.returncode else ' !!!'))
        t = time.time()
        if os.environ.get('NOCHECK'):
            return '; '.join(out)
        r = sh(f"VERIF_OUT=/tmp/seedout MC_MAXVIOL=40 python3 run.py {s['prop']}", cwd=HERE)
        hit = r.returncode == 1 and f"VIOLATION property={s['prop']}" in r.stdout
        c = HERE + '/tools/design/caught.json'
        d = json.load(open(c))
        d[id] = s['prop'] if hit else 'missed by ' + s['prop']
        json.dump(d, open(c, 'w'), indent=1, sort_keys=True)
        out.append(f"check {'CAUGHT' if hit else 'MISSED rc=%d' % r.returncode} {time.time() - t:.0f}s " + ' '.join(l.strip()[:150] for l in r.stdout.splitlines() if l.startswith('  [') or 'ERROR' in l)[:300])
    finally:
        sh('git -C /repo checkout -- .')
    e = build()
    r = sh(f'bash {HERE}/seeded/{id}/demo.sh', cwd='/repo')
    out.append(f'demo-without {r.returncode}' + (' !!! ' + r.stdout[-300:] if r.returncode else ''))
    return '; '.join(out)


ids = sys.argv[2:] or list(S)
for i in ids:
    if sys.argv[1] in ('write', 'both'):
        write(i)
    if sys.argv[1] in ('try', 'both'):
        print(i, S[i]['prop'], attempt(i), flush=True)
