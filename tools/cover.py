#!/usr/bin/env python3
# Line coverage of /repo's sources by the checks' own explorations: cover.py OUTDIR C01 C02 ...
# A line never executed by any check is one where no change can be noticed.  Not a check; a way of finding holes.
import os, subprocess, sys, glob, json, collections, shutil
out, pids = sys.argv[1], sys.argv[2:]
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
cov = collections.defaultdict(dict)
if os.path.exists(out + '/cov.json'):
    for f, d in json.load(open(out + '/cov.json')).items():
        cov[f] = {int(k): v for k, v in d.items()}
for p in pids:
    b = f'{out}/b'
    shutil.rmtree(b, ignore_errors=True)
    e = dict(os.environ, VH_COV='1', VH_BUILD=b, VH_OUT=out, VH_JOBS='4')
    r = subprocess.run(['python3', f'{V}/run.py', p], env=e, capture_output=True, text=True)
    print(p, r.returncode, r.stdout[-150:].strip(), flush=True)
    for g in glob.glob(f'{b}/*/*.gcda'):
        j = subprocess.run(['gcov', '--json-format', '--stdout', g], capture_output=True, text=True, cwd=b).stdout
        for line in j.splitlines():
            try:
                d = json.loads(line)
            except ValueError:
                continue
            for f in d['files']:
                if '/repo/' in f['file'] and '/external/' not in f['file']:
                    n = f['file'].split('/repo/')[1]
                    for l in f['lines']:
                        k = l['line_number']
                        cov[n][k] = cov[n].get(k, 0) + l['count']
    json.dump(cov, open(out + '/cov.json', 'w'))
    shutil.rmtree(b, ignore_errors=True)
for f in sorted(cov):
    src = open('/repo/' + f).read().splitlines()
    miss = [k for k in sorted(cov[f]) if not cov[f][k]]
    print(f'== {f}: {len(cov[f]) - len(miss)}/{len(cov[f])}')
    for k in miss:
        print(f'   {k}: {src[k - 1]}')
