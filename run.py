#!/usr/bin/env python3
"""Builds one explorer from /repo's current working tree, runs it, and reports.

  run.py C01 [--thorough]            run the check of property C01
  run.py C01 --replay FILE           replay a recorded violation
  run.py C01 --case SPACE:INDEX      run one case verbosely
"""
import sys, os, json, subprocess, hashlib, time, re, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
OUT = os.environ.get('VERIF_OUT', HERE)
KNOWN = os.path.join(HERE, 'KNOWN_FINDINGS.txt')

# sources of the repository that its build (without ImageMagick, swf, pstoedit) does not compile into the library
NOT_LIB = {'input-magick.c', 'output-swf.c', 'output-pstoedit.c', 'datetime.c', 'main.c', 'atou.c'}
DEFS = ['-DHAVE_LIBPNG', '-DAUTOTRACE_VERSION="1.0"', '-DAUTOTRACE_WEB="http://autotrace.sourceforge.net"', '-DPACKAGE="autotrace"']
INC = ['-I' + REPO, '-I' + REPO + '/src']
SAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
COMMON = ['-g1', '-w', '-ftrivial-auto-var-init=pattern'] + SAN
JSON11 = '/opt/vp/wrapper/json11'


def die(msg):
    print('CHECK-ERROR: ' + msg)
    sys.exit(2)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def header_hash(roots):
    """everything a source may include: all files but sources that no other file includes"""
    files = sorted(p for r in roots for p in glob.glob(r + '/**/*', recursive=True) if os.path.isfile(p)) + sorted(glob.glob(REPO + '/*.h'))
    text = {p: rd(p) for p in files}
    included = set(os.path.basename(n) for t in text.values() for n in re.findall(rb'^[ \t]*#[ \t]*include[ \t]*["<]([^">\n]+)[">]', t, re.M))
    parts = []
    for p in files:
        if not re.search(r'\.(c|cc|cpp|cxx|md|txt)$', p) or os.path.basename(p).encode() in included:
            parts += [p, text[p]]
    return sha(*parts)


def compile_all(jobs, hh):
    """jobs: (source, flags); returns object paths"""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    objs, todo = [], []
    for src, cmd in jobs:
        key = sha(src, rd(src), hh, ' '.join(cmd))
        obj = f'{BUILD}/obj/{os.path.basename(src)}.{key}.o'
        objs.append(obj)
        if not os.path.exists(obj):
            todo.append((src, cmd, obj))

    def one(t):
        src, cmd, obj = t
        tmp = f'{obj}.{os.getpid()}.tmp'
        r = subprocess.run(cmd + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if r.returncode == 0:
            os.replace(tmp, obj)
        return r.returncode, src, r.stderr

    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        for rc, src, err in ex.map(one, todo):
            if rc:
                die(f'compiling {src} failed:\n{err[:3000]}')
    return objs


def link(name, objs, libs):
    out = f'{BUILD}/{name}.{sha(*objs, *libs)}'
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}.tmp'
        r = subprocess.run(['g++'] + SAN + objs + ['-o', tmp] + libs, capture_output=True, text=True)
        if r.returncode:
            die(f'linking {name} failed:\n{r.stderr[:3000]}')
        os.replace(tmp, out)
    return out


def lib_jobs(opt):
    jobs = []
    for p in sorted(glob.glob(REPO + '/src/*.c')):
        if os.path.basename(p) not in NOT_LIB:
            jobs.append((p, ['gcc', opt] + COMMON + DEFS + INC))
    for p in sorted(glob.glob(REPO + '/src/*.cpp')):
        jobs.append((p, ['g++', '-std=c++11', opt] + COMMON + DEFS + INC))
    return jobs


def wrapper_jobs():
    w = REPO + '/src/wrapper'
    flags = ['g++', '-std=c++17', '-O1', '-include', 'stdexcept'] + COMMON + DEFS + INC + ['-I' + w, '-I' + w + '/Json', '-I' + JSON11, '-I' + os.path.dirname(JSON11)]
    jobs = [(p, flags) for p in sorted(glob.glob(w + '/*.cpp') + glob.glob(w + '/Json/*.cpp')) if os.path.basename(p) != 'autotraceMain.cpp']
    jobs.append((JSON11 + '/json11.cpp', flags))
    return jobs, flags


def build(check_src):
    """compiles the explorer and everything it declares with // USES: lines"""
    text = open(check_src).read()
    uses = set(' '.join(re.findall(r'^// USES:(.*)$', text, re.M)).split())
    hh = header_hash([REPO + '/src', HERE + '/mc', HERE + '/checks'])
    opt = '-O1'
    jobs = lib_jobs(opt)
    eng = ['g++', '-std=c++17', '-O1'] + COMMON + DEFS + INC + ['-I' + HERE + '/mc']
    jobs.append((HERE + '/mc/mc.cpp', eng))
    if 'wrapper' in uses:
        wj, wf = wrapper_jobs()
        jobs += wj
        eng = wf + ['-I' + HERE + '/mc']
    flaky = [(HERE + '/checks/flaky.c', ['gcc', opt] + COMMON)] if 'flaky' in uses else []
    if 'wrapper' in uses:
        jobs += flaky
    cli_jobs = [(REPO + '/src/main.c', ['gcc', opt] + COMMON + DEFS + INC), (REPO + '/src/atou.c', ['gcc', opt] + COMMON + DEFS + INC)] if 'cli' in uses else []
    nlib = len(lib_jobs(opt))
    jobs.append((check_src, eng))
    objs = compile_all(jobs + cli_jobs + (flaky if cli_jobs else []), hh)
    libs = ['-lpng', '-lz', '-lm'] + [('-Wl,--wrap=' + u[5:]) for u in sorted(uses) if u.startswith('wrap=')]
    env = {}
    if cli_jobs:
        ncli = len(jobs) + len(cli_jobs)
        env['MC_CLI'] = link('autotrace', objs[:nlib] + objs[len(jobs):ncli], ['-lpng', '-lz', '-lm'])
        if flaky:
            env['MC_CLI_FLAKY'] = link('autotrace-flaky', objs[:nlib] + objs[len(jobs):], ['-lpng', '-lz', '-lm', '-Wl,--wrap=fopen'])
        objs = objs[:len(jobs)]
    return link(os.path.basename(check_src)[:-4], objs, libs), env


def known_for(pid):
    """finding: property=<id> key=<key> | what fails   (a trailing * in key matches any suffix)"""
    res = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(.*?) \| (.*)$', line.strip())
            if m and m.group(1) == pid:
                res.append((m.group(2), m.group(3)))
    return res


def key_matches(pat, key):
    return key.startswith(pat[:-1]) if pat.endswith('*') else key == pat


def main():
    args = sys.argv[1:]
    if not args:
        die('usage')
    pid = args[0]
    thorough = '--thorough' in args or (os.environ.get('VERIF_TIER') == 'thorough' and '--quick' not in args)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    srcs = glob.glob(f'{HERE}/checks/{pid.lower()}_*.cpp')
    if len(srcs) != 1:
        die(f'no explorer for {pid}')
    t0 = time.time()
    exe, env = build(srcs[0])
    t_build = time.time() - t0
    e = dict(os.environ, **env)
    e.update(AT_DATE_ZERO='yes', LC_ALL='C', MC_REPO=REPO)
    e.pop('ASAN_OPTIONS', None)
    if '--replay' in args:
        rep = json.load(open(args[args.index('--replay') + 1]))
        case = rep['case_from_worker_start'] if rep.get('alone') == 2 and rep.get('case_from_worker_start') else rep['case']
        sys.exit(subprocess.run([exe] + (['--thorough'] if rep.get('tier') == 'thorough' else []) + ['--case', case], env=e).returncode)
    if '--case' in args:
        sys.exit(subprocess.run([exe] + (['--thorough'] if thorough else []) + ['--case', args[args.index('--case') + 1]], env=e).returncode)
    known = known_for(pid)
    out = f'{BUILD}/{pid}.{os.getpid()}.json'
    cmd = [exe, '--out', out] + (['--thorough'] if thorough else []) + ['--budget', '7000' if thorough else '700']
    for o in ('--only', '--jobs'):
        if o in args:
            cmd += [o, args[args.index(o) + 1]]
    for k, _ in known:
        cmd += ['--known', k]
    r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    if r.returncode not in (0, 1) or not os.path.exists(out):
        die(f'explorer ended with {r.returncode}: {r.stderr[-2000:]}')
    res = json.load(open(out))
    os.unlink(out)
    listed, unlisted = {}, []
    for v in res['viol']:
        for k, what in known:
            if key_matches(k, v['key']):
                listed.setdefault(k, (what, []))[1].append(v)
                break
        else:
            unlisted.append(v)
    for k, (what, vs) in listed.items():
        print(f'KNOWN-FINDING: property={pid} {what} [{k}; e.g. {vs[0]["space"]}:{vs[0]["index"]}]')
    # a violation is reported once it was seen again (alone, or after the same preceding cases)
    man = json.load(open(HERE + '/MANIFEST.json')) if os.path.exists(HERE + '/MANIFEST.json') else {'checks': []}
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'model_checking')
    cov = dict(states=res['states'], transitions=res['steps'], traces_validated_against_impl=res['traces'], samples=res['samples'][:8] or ['none'],
               exhaustive=(not res['capped']) and res['cases'] == res['total'],
               cases_enumerated=res['cases'], cases_in_bound=res['total'], bounds=res['bounds'], spaces=[{'name': n, 'cases': c} for n, c in res['spaces']],
               counters=res['counters'], explore_s=res['wall'], build_s=round(t_build, 2))
    if level in ('exploration', 'fault_enumeration'):
        cov['evaluations'] = cov.pop('traces_validated_against_impl')
        cov['distinct_nontrivial'] = res['nontrivial']
        cov['rule'] = next((c.get('level_note', '') for c in man['checks'] if c['property'] == pid), '')
    elif res['nontrivial']:
        cov['distinct_nontrivial'] = res['nontrivial']
    if res['table_full']:
        cov['states_is_lower_bound'] = True
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 2),
              assumptions=['seed is not used: the exploration is a complete enumeration without random choices'], violations=sum(1 for _ in unlisted))
    os.makedirs(OUT + '/evidence', exist_ok=True)
    with open(f'{OUT}/evidence/{pid}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {res["cases"]}/{res["total"]} cases, {res["states"]} states, {res["steps"]} transitions, {res["traces"]} traces compared, '
          f'{res["violations"]} violating, explore {res["wall"]:.1f}s build {t_build:.1f}s exhaustive={cov["exhaustive"]}')
    for n in sorted(res['counters']):
        print(f'   {n} = {res["counters"][n]}')
    if unlisted:
        os.makedirs(OUT + '/replays', exist_ok=True)
        seen = {}
        for v in unlisted:
            seen.setdefault(v['key'], v)
        bases, off = {}, 0
        for n, c in res['spaces']:
            bases[n] = off
            off += c
        first = None
        for i, (k, v) in enumerate(seen.items()):
            rp = f'{OUT}/replays/{pid}-{i}.json'
            lo = max(v['first'] - bases[v['space']], 0)
            json.dump(dict(property=pid, tier=ev['tier'], case=f'{v["space"]}:{v["index"]}', case_from_worker_start=f'{v["space"]}:{lo}-{v["index"]}',
                           alone=v['alone'], key=k, message=v['msg'], how=f'python3 run.py {pid} --replay {rp}'), open(rp, 'w'), indent=1)
            first = first or rp
            if i < 14:
                print(f'  [{k}] {v["space"]}:{v["index"]}{" (history-dependent)" if v["alone"] == 2 else ""}: {v["msg"][:300]}')
        print(f'VIOLATION property={pid} replay={first}')
        sys.exit(1)
    if res['cases'] != res['total'] and not thorough:
        print(f'{pid}: NOTE exploration was capped at {res["cases"]} of {res["total"]} cases')
    sys.exit(0)


main()
