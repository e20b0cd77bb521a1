#!/usr/bin/env python3
"""Driver: run.py <property> [--tier quick|thorough] [--replay FILE] [-v]

Builds the harness units of one property against /repo's current working tree, runs them, writes
evidence/<property>.json, prints VIOLATION / KNOWN-FINDING lines.  Exit 0 held, 1 violated, 2 error."""
import sys, os, json, subprocess, time, hashlib, tempfile, shutil, re, resource
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VH_REPO', '/repo')
BUILD = os.environ.get('VH_BUILD', os.path.join(VERIF, '.build'))
OUT = os.environ.get('VH_OUT', VERIF)
sys.path.insert(0, VERIF)
from checks import CHECKS, LIBS  # noqa: E402

GENERAL_ASSUMPTIONS = [
    "rapidjson is the distribution's 1.1.0 plus shim/rapidjson/reader.h (three upstream functions the submodule would supply)",
    "gcc 13 on x86-64 Linux; results cover the stated bounds only",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lib_sources():
    """Library sources as /repo's own build file lists them (so added files are picked up)."""
    files = []
    try:
        txt = open(f'{REPO}/CMakeLists.txt').read()
        for m in re.finditer(r'add_library\s*\(\s*(abieos|abieos_module)\s+(?:STATIC|MODULE|SHARED)?\s*([^)]*)\)', txt):
            for f in m.group(2).split():
                if f.endswith(('.cpp', '.c', '.cc')) and os.path.exists(f'{REPO}/{f}') and f not in files:
                    files.append(f)
    except OSError:
        pass
    for f in ('src/abi.cpp', 'src/abieos.cpp', 'src/crypto.cpp', 'include/eosio/fpconv.c'):
        if f not in files and os.path.exists(f'{REPO}/{f}'):
            files.append(f)
    return files


def tree_hash():
    h = hashlib.sha256()
    for root in (f'{REPO}/include', f'{REPO}/src', f'{REPO}/tools', f'{VERIF}/shim', f'{VERIF}/harness'):
        for d, dirs, fs in os.walk(root):
            dirs.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
    h.update(open(f'{REPO}/CMakeLists.txt', 'rb').read())
    return h.hexdigest()[:16]


INCL = ['-I' + f'{VERIF}/harness/common', '-I' + f'{VERIF}/shim', '-I' + f'{REPO}/include', '-I' + f'{REPO}/src']
COV = ['--coverage', '-DVH_COV'] if os.environ.get('VH_COV') else []
CXXBASE = ['-std=gnu++17', '-g1', '-include', 'cstdint', '-include', 'limits', '-fno-access-control', '-w', '-pthread']


def compile_obj(src, obj, flags):
    if os.path.exists(obj):
        return None
    tmp = obj + f'.{os.getpid()}.tmp'
    if src.endswith('.c'):
        cmd = ['gcc', '-g1', '-w', '-c', src, '-o', tmp] + INCL + [f for f in flags if not f.startswith('-std')] + COV
    else:
        cmd = ['g++', '-c', src, '-o', tmp] + CXXBASE + INCL + flags + COV
    r = sh(cmd)
    if r.returncode:
        return f'{" ".join(cmd)}\n{r.stdout[-6000:]}'
    os.rename(tmp, obj)
    return None


def build(prop, units):
    th = tree_hash()
    bdir = os.path.join(BUILD, th)
    if os.path.isdir(BUILD):
        for d in os.listdir(BUILD):  # drop stale trees
            if d != th:
                try:
                    if time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 6 * 3600 or len(os.listdir(BUILD)) > 6:
                        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
                except OSError:
                    pass
    os.makedirs(bdir, exist_ok=True)
    jobs, links, seen = [], [], set()
    for u in units:
        lib = u.get('lib')
        flags = list(LIBS[lib or 'opt']['flags'])
        hflags = flags if not u.get('hflags') else list(u['hflags'])
        objs = []
        for s in [u['src']] + u.get('extra', []):
            s, own = s if isinstance(s, tuple) else (s, None)
            p = s if s.startswith('/') else (f'{REPO}/{s[5:]}' if s.startswith('repo:') else f'{VERIF}/harness/{s}')
            fl = own if own is not None else hflags + u.get('cflags', [])
            key = hashlib.sha256(repr((p, fl)).encode()).hexdigest()[:10]
            o = f'{bdir}/{os.path.basename(p)}.{key}.o'
            objs.append(o)
            if o not in seen:
                seen.add(o)
                jobs.append((p, o, fl))
        if lib:
            lf = flags + u.get('libcflags', [])
            for s in u.get('libsrc') or lib_sources():
                p = f'{REPO}/{s}'
                key = hashlib.sha256(repr((p, lf)).encode()).hexdigest()[:10]
                o = f'{bdir}/{os.path.basename(p)}.{key}.o'
                objs.append(o)
                if o not in seen:
                    seen.add(o)
                    jobs.append((p, o, lf))
        exe = f'{bdir}/{prop}_{u["name"]}'
        links.append((exe, objs, u.get('linkflags', flags), u.get('ldflags', [])))
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(lambda j: compile_obj(*j), jobs) if e]
    if errs:
        for e in errs:
            log('BUILD FAILED', e)
        return None
    exes = []
    for exe, objs, flags, ld in links:
        if not os.path.exists(exe):
            tmp = exe + f'.{os.getpid()}.tmp'
            r = sh(['g++', '-o', tmp] + objs + [f for f in flags if f.startswith(('-fsanitize', '-O'))] + ['-pthread'] + COV + ld)
            if r.returncode:
                log('LINK FAILED', r.stdout[-4000:])
                return None
            os.rename(tmp, exe)
        exes.append(exe)
    return exes


def env_for_run():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0:handle_abort=1:max_allocation_size_mb=2000'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    e['TZ'] = 'UTC'
    e['LC_ALL'] = 'C'
    e['VH_REPO'] = REPO
    e['VH_VERIF'] = VERIF
    return e


def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limits_plain():
    limits()
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))


def known_findings(prop):
    out = []
    p = f'{VERIF}/known_findings.txt'
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == prop and d.get('status') == 'known':
                    out.append(d)
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':  # every check builds what it needs itself; only confirm the tools are there
        for tool in ('g++', 'gcc'):
            if not shutil.which(tool):
                log('missing', tool)
                return 1
        return 0
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    verbose = '-v' in a
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if '--replay' in a:
        replay = json.load(open(a[a.index('--replay') + 1]))
    chk = CHECKS[prop]
    units = chk['units'] + (chk.get('thorough_units', []) if tier == 'thorough' else [])
    if replay:
        units = [u for u in chk['units'] + chk.get('thorough_units', []) if u['name'] == replay['unit']]
        tier = replay['tier']
    t0 = time.time()
    exes = build(prop, units)
    if exes is None:
        return 2
    tbuild = time.time() - t0
    work = tempfile.mkdtemp(prefix=f'vh_{prop}_')
    try:
        if replay:
            r = subprocess.run([exes[0], '--work', work, '--tier', tier, '--only', str(replay['case']), '-v'] + units[0].get('args', []),
                               env=env_for_run(), preexec_fn=limits, cwd=work)
            return 1 if r.returncode else 0
        total = {'counters': {}, 'distinct': {}, 'samples': [], 'violations': [], 'nviolations': 0, 'ncases': 0}
        err = False
        per_unit = {}
        for u, exe in zip(units, exes):
            out = f'{work}/out_{u["name"]}.json'
            t1 = time.time()
            cmd = [exe, '--work', work, '--out', out, '--tier', tier, '--shards', str(u.get('shards', 8)),
                   '--case-limit', str(u.get('case_limit', 60))] + (['-v'] if verbose else []) + u.get('args', [])
            if u.get('noaslr') and subprocess.run(['setarch', '-R', 'true'], stderr=subprocess.DEVNULL).returncode == 0:
                cmd = ['setarch', '-R'] + cmd
            r = subprocess.run(cmd, env=env_for_run(), preexec_fn=limits if u['lib'] in ('asan', 'tsan') else limits_plain, cwd=work)
            if not os.path.exists(out):
                log(f'unit {u["name"]} produced no result (rc {r.returncode})')
                return 2
            d = json.load(open(out))
            err |= bool(d['error'])
            per_unit[u['name']] = {'cases': d['ncases'], 'wall_s': round(time.time() - t1, 2)}
            total['ncases'] += d['ncases']
            total['nviolations'] += d['nviolations']
            for k, v in d['counters'].items():
                total['counters'][k] = total['counters'].get(k, 0) + v
            for k, v in d['distinct'].items():
                total['distinct'][k] = total['distinct'].get(k, 0) + v
            total['samples'] += [x for x in dict.fromkeys(d['samples']) if x not in total['samples']][:6]
            for v in d['violations']:
                v['unit'] = u['name']
                total['violations'].append(v)
            if any(v['key'].startswith(('hang:', 'memory:')) for v in d['violations']):
                break  # further units would only wait for the same loop
        known = {k['key']: k for k in known_findings(prop)}
        new, hit = [], {}
        for v in total['violations']:
            if v['key'] in known:
                hit[v['key']] = v
            else:
                new.append(v)
        level = chk['level']
        c = total['counters']
        cov = {}
        if level == 'model_checking':
            cov['states'] = total['distinct'].get('states', c.get('states', 0))
            cov['transitions'] = c.get('transitions', 0)
            cov['traces_validated_against_impl'] = c.get('traces', 0)
        else:
            cov['evaluations'] = c.get('evaluations', c.get('cases', 0))
            cov['distinct_nontrivial'] = total['distinct'].get('nontrivial', c.get('nontrivial', 0))
            cov['rule'] = chk['rule']
        cov['samples'] = total['samples'][:8] or ['(none)']
        skip = {'states', 'transitions', 'traces', 'evaluations', 'nontrivial', 'cases'}
        extra = {f'{k}': v for k, v in c.items() if k not in skip}
        extra.update({f'distinct_{k}': v for k, v in total['distinct'].items() if k not in ('states', 'nontrivial')})
        if extra:
            cov['detail'] = extra
        cov['units'] = per_unit
        cov['bounds'] = chk['bounds'][1 if tier == 'thorough' else 0] if isinstance(chk['bounds'], (list, tuple)) else chk['bounds']
        cov['build_s'] = round(tbuild, 1)
        if not err and not total['violations']:
            cov['exhaustive'] = True
        ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': cov, 'assumptions': GENERAL_ASSUMPTIONS + chk.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        os.makedirs(f'{OUT}/evidence', exist_ok=True)
        tmp = f'{OUT}/evidence/.{prop}.{os.getpid()}'
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, f'{OUT}/evidence/{prop}.json')
        for k in hit:
            print(f'KNOWN-FINDING: property={prop} {known[k]["what"]}')
        if new:
            os.makedirs(f'{OUT}/replays', exist_ok=True)
            for i, v in enumerate(new[:10]):
                rp = f'{OUT}/replays/{prop}_{i}.json'
                json.dump({'property': prop, 'unit': v['unit'], 'tier': tier, 'case': v['case'], 'key': v['key'], 'msg': v['msg'],
                           'cmd': f'python3 run.py {prop} --replay {rp}'}, open(rp, 'w'), indent=1)
                print(f'VIOLATION property={prop} replay={rp}')
                print(f'  [{v["unit"]} case {v["case"]}] {v["key"]}: {v["msg"]}'[:1000])
            log(f'{prop}: {len(new)} distinct violations ({total["nviolations"]} in all)')
            return 1
        if err:
            log(f'{prop}: ERROR (a worker failed without a reproducible cause)')
            return 2
        log(f'{prop}: held; {cov.get("states", cov.get("evaluations"))} states/evaluations, '
            f'{cov.get("transitions", cov.get("distinct_nontrivial"))} transitions/distinct, build {tbuild:.1f}s total {time.time()-t0:.1f}s')
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
