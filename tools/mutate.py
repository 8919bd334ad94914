#!/usr/bin/env python3
"""Mutation campaign: every small change of a source file, run against the checks in charge of it.
  mutate.py FILE CHECKS [--step N] [--workers N] [--from L --to L] [--ops a,b]
Writes /tmp/m/<file>.log: one line per mutant, survivors marked SURVIVED."""
import sys, os, re, subprocess, shutil, threading, queue, time
HERE = os.environ.get('VERIF_HOME', '/verif')
def opt(n, d):
    return sys.argv[sys.argv.index(n) + 1] if n in sys.argv else d
FILE = sys.argv[1]; CHECKS = sys.argv[2].split(',')
STEP = int(opt('--step', '1')); W = int(opt('--workers', '8')); LO = int(opt('--from', '1')); HI = int(opt('--to', '999999')); OFF = int(opt('--off', '0'))
OPS = opt('--ops', '')
src = open('/repo/' + FILE, encoding='latin-1', newline='').read()
lines = src.split('\n')

# mask comments and strings
mask = list(src)
for m in re.finditer(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', src, re.S):
    for i in range(m.start(), m.end()):
        if mask[i] != '\n':
            mask[i] = ' '
mask = ''.join(mask)
for m in re.finditer(r'(?m)^[ \t]*#.*(?:\\\n.*)*$', mask):
    mask = mask[:m.start()] + re.sub(r'[^\n]', ' ', m.group()) + mask[m.end():]
mask = re.sub(r'LOG\s*\([^;]*;', lambda m: re.sub(r'[^\n]', ' ', m.group()), mask)
mask = re.sub(r'assert\s*\([^;]*;', lambda m: re.sub(r'[^\n]', ' ', m.group()), mask)
muts = []  # (start, end, text, kind)
def add(kind, pat, f):
    if OPS and kind not in OPS.split(','):
        return
    for m in re.finditer(pat, mask):
        t = f(m)
        if t is not None and t != src[m.start():m.end()]:
            muts.append((m.start(), m.end(), t, kind))
add('rel', r'(?<![<>=!\-])(<=|>=|<|>)(?![<>=])', lambda m: {'<': '<=', '<=': '<', '>': '>=', '>=': '>'}[m.group()] if src[m.start()-1] == ' ' else None)
add('eq', r'==|!=', lambda m: {'==': '!=', '!=': '=='}[m.group()])
add('ari', r'(?<= )[+\-](?= )', lambda m: {'+': '-', '-': '+'}[m.group()])
add('mul', r'(?<= )[*/](?= \w|  ?\()', lambda m: {'*': '/', '/': '*'}[m.group()] if re.search(r'[\w)\]] $', mask[max(0, m.start()-3):m.start()]) and not re.search(r'\b(at_\w+|char|FILE|void|int|unsigned|_type|spline_list_type) $', mask[max(0, m.start()-30):m.start()]) else None)
add('asg', r'\+=|-=', lambda m: {'+=': '-=', '-=': '+='}[m.group()])
add('inc', r'\+\+|--', lambda m: {'++': '--', '--': '++'}[m.group()])
add('log', r'&&|\|\|', lambda m: {'&&': '||', '||': '&&'}[m.group()])
add('num+', r'(?<![\w.])\d+(?![\w.xX])', lambda m: str(int(m.group()) + 1))
add('num-', r'(?<![\w.])\d+(?![\w.xX])', lambda m: str(int(m.group()) - 1) if int(m.group()) > 1 else None)
add('del', r'(?m)^[ \t]+(?!return|break|continue|case|default|goto|else|if|for|while|do\b|static|const|extern|struct|unsigned|int\b|char|float|double|bool|FILE|at_\w+ \w|gboolean|signed|long|short)[A-Za-z_*(][^;{}\n]*;[ \t]*(?=\n|\r|$| )', lambda m: ' ;')
add('ret', r'(?m)^[ \t]+(break|continue)\s*;', lambda m: ' ;')
add('if0', r'\bif \(', lambda m: 'if (0 && ')
add('if1', r'\bif \(', lambda m: 'if (1 || ')
def lineno(p): return src.count('\n', 0, p) + 1
muts = [m for m in sorted(muts) if LO <= lineno(m[0]) <= HI]
muts = muts[OFF::STEP]
print(len(muts), 'mutants')
log = open('/tmp/m/' + os.path.basename(FILE) + opt('--tag', '') + '.log', 'w')
q = queue.Queue()
for n, m in enumerate(muts): q.put((n, m))
lock = threading.Lock()
stat = {}
def worker(w):
    d = f'/tmp/m/w{w}'
    if not os.path.exists(d):
        shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build', '.git'))
    else:
        subprocess.run(['rsync', '-a', '--delete', '--exclude=_build', '--exclude=.git', '/repo/', d + '/']) if shutil.which('rsync') else (shutil.rmtree(d), shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('_build', '.git')))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=f'/tmp/m/b{w}', MC_MAXVIOL='1', VERIF_OUT=f'/tmp/m/b{w}/out')
    while True:
        try: n, (a, b, t, kind) = q.get_nowait()
        except queue.Empty: return
        open(d + '/' + FILE, 'w', encoding='latin-1', newline='').write(src[:a] + t + src[b:])
        res = 'SURVIVED'; t0 = time.time()
        for c in CHECKS:
            try:
                r = subprocess.run(['python3', HERE + '/run.py', c.split(':')[0], '--jobs', opt('--jobs', '1')] + (['--only', c.split(':')[1]] if ':' in c else []), env=env, capture_output=True, text=True, errors='replace', timeout=900)
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT ' + c; break
            if r.returncode == 1: res = 'killed ' + c; break
            if r.returncode == 2:
                res = ('nocompile' if 'compiling' in r.stdout or 'linking' in r.stdout else 'ERROR ' + c + ' ' + r.stdout[-200:].replace('\n', ' ')); break
        ln = lineno(a)
        with lock:
            log.write(f'{n} {FILE}:{ln} {kind} {res} {time.time()-t0:.0f}s | {lines[ln-1].strip()} | {src[a:b].strip()} -> {t}\n'); log.flush()
            k = res.split()[0]; stat[k] = stat.get(k, 0) + 1
        open(d + '/' + FILE, 'w', encoding='latin-1', newline='').write(src)
        for p in os.listdir(f'/tmp/m/b{w}') if os.path.isdir(f'/tmp/m/b{w}') else []:
            fp = f'/tmp/m/b{w}/{p}'
            if os.path.isfile(fp): os.unlink(fp)
        od = f'/tmp/m/b{w}/obj'
        if os.path.isdir(od):
            for p in os.listdir(od):
                if p.startswith(os.path.basename(FILE) + '.') : os.unlink(od + '/' + p)
ts = [threading.Thread(target=worker, args=(w,)) for w in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
print(FILE, stat); log.write(f'# {stat}\n')
