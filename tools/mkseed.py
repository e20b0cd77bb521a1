#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.py and verifies each: the change applies, builds, keeps the stable tests
passing, the demo passes without and fails with it; then reports whether the property's quick check catches it.
usage: mkseed.py [--no-verify] [--only-check] id...   (no ids: all)"""
import sys, os, json, subprocess, shutil, importlib.util, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDS = {}


def seed(id, prop, edits, demo, needs, breaks, flags='', kind='cpp', libs=True):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, kind=kind, libs=libs)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


DEMO = '''#!/bin/bash
# Builds demo.cpp against the sources in the current directory and runs it: 0 = the property holds in this scenario.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
set -e
%s
timeout 120 "$w/demo"
'''
LIBS = '''for f in src/abi.cpp src/abieos.cpp src/crypto.cpp "$d/demo.cpp"; do
  g++ -std=gnu++17 -O1 -w -fno-access-control -include cstdint -include limits -I"$d/shim" -Iinclude -Isrc %(flags)s -c "$f" -o "$w/$(basename "$f").o" &
  pids="$pids $!"
done
gcc -O1 -w -Iinclude %(flags)s -c include/eosio/fpconv.c -o "$w/fpconv.o"
for p in $pids; do wait $p; done
g++ "$w"/*.o %(flags)s -pthread -o "$w/demo"'''
NOLIBS = '''gcc -O1 -w -Iinclude -c include/eosio/fpconv.c -o "$w/fpconv.o"
g++ -std=gnu++17 -O1 -w -fno-access-control -include cstdint -include limits -I"$d/shim" -Iinclude -Isrc %(flags)s "$d/demo.cpp" "$w/fpconv.o" -pthread -o "$w/demo"'''

CAPI = r'''
#include "eosio/abieos.h"
#include <cstdio>
#include <cstring>
#include <string>
struct C {
   abieos_context* c = abieos_create();
   ~C() { abieos_destroy(c); }
   bool abi(const char* a) { return abieos_set_abi(c, 1, a); }
   std::string enc(const char* t, const std::string& j, bool r = false) {
      if (!(r ? abieos_json_to_bin_reorderable(c, 1, t, j.c_str()) : abieos_json_to_bin(c, 1, t, j.c_str())))
         return std::string("error ") + abieos_get_error(c);
      return abieos_get_bin_hex(c);
   }
   std::string dec(const char* t, const char* hex) {
      auto p = abieos_hex_to_json(c, 1, t, hex);
      return p ? p : std::string("error ") + abieos_get_error(c);
   }
};
static int bad = 0;
static void want(const std::string& got, const std::string& w) {
   if (got != w) {
      printf("got %s want %s\n", got.substr(0, 200).c_str(), w.substr(0, 200).c_str());
      bad = 1;
   }
}
static void refused(const std::string& got) {
   if (got.compare(0, 6, "error ")) {
      printf("accepted: %s\n", got.substr(0, 200).c_str());
      bad = 1;
   }
}
'''


def load():
    g = {'seed': seed, 'CAPI': CAPI}
    for f in sorted(glob.glob(f'{V}/tools/seeds/*.py')):
        src = open(f).read()
        exec(compile(src, f, 'exec'), g)


def write(i, s):
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    tmp = f'/tmp/mkseed_{os.getpid()}'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    sh(f'git -C {REPO} archive HEAD | tar x -C {tmp}')
    sh('git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x', cwd=tmp)
    for f, old, new in s['edits']:
        p = f'{tmp}/{f}'
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = sh('git diff', cwd=tmp).stdout
    shutil.rmtree(tmp)
    open(f'{d}/patch.diff', 'w').write(diff)
    shutil.copytree(f'{V}/shim', f'{d}/shim', dirs_exist_ok=True)
    open(f'{d}/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(f'{d}/demo.sh', 'w').write(DEMO % ((LIBS if s['libs'] else NOLIBS) % dict(flags=s['flags'])))
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)


def verify(i, s, only_check):
    d = f'{V}/seeded/{i}'
    w = f'/tmp/seedwork_{i}'
    shutil.rmtree(w, ignore_errors=True)
    sh(f'git -C {REPO} worktree prune; mkdir -p {w}; git -C {REPO} archive HEAD | tar x -C {w}')
    res = {}
    try:
        if not only_check:
            r = sh(f'bash {d}/demo.sh', cwd=w)
            res['clean'] = r.returncode
            if r.returncode:
                print(r.stdout[-3000:])
        r = sh(f'git init -q . ; git apply {d}/patch.diff', cwd=w)
        assert r.returncode == 0, r.stdout
        if not only_check:
            r = sh('export CC=gcc CXX=g++; cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DSKIP_SUBMODULE_CHECK=1 '
                   '"-DCMAKE_CXX_FLAGS=-Wno-error -include cstdint -include limits" -DCMAKE_C_FLAGS=-Wno-error && '
                   'ninja -C _build test_abieos_reflect CMakeFiles/abieos.dir/include/eosio/fpconv.c.o tools/CMakeFiles/name.dir/name.cpp.o && '
                   "ctest --test-dir _build -R '^test_abieos_reflect$' --timeout 300", cwd=w)
            res['tests'] = 'ok' if r.returncode == 0 else 'FAIL'
            if r.returncode:
                print(r.stdout[-2000:])
            r = sh(f'bash {d}/demo.sh', cwd=w)
            res['patched'] = r.returncode
            res['demo_says'] = r.stdout[-160:].strip()
        r = sh(f'python3 run.py {s["prop"]} --tier quick', cwd=V, env=dict(os.environ, VH_REPO=w, VH_OUT=f'{w}/_out', VH_BUILD=f'{w}/_vbuild'))
        res['check'] = r.returncode
        res['violation'] = f'VIOLATION property={s["prop"]}' in r.stdout
        if not res['violation']:
            print(r.stdout[-1500:])
        else:
            ls = r.stdout.splitlines()
            k = [n for n, l in enumerate(ls) if l.startswith('VIOLATION')]
            res['first'] = ls[k[0] + 1][:200] if k and k[0] + 1 < len(ls) else ''
    finally:
        shutil.rmtree(w, ignore_errors=True)
    good = res.get('clean', 0) == 0 and res.get('patched', 1) != 0 and res.get('tests', 'ok') == 'ok'
    print(('GOOD ' if good else 'BAD  ') + ('caught ' if res['violation'] and res['check'] == 1 else 'MISSED ') + i, res, flush=True)


if __name__ == '__main__':
    load()
    ids = [a for a in sys.argv[1:] if not a.startswith('-')] or list(SEEDS)
    for i in ids:
        write(i, SEEDS[i])
        if '--no-verify' not in sys.argv:
            verify(i, SEEDS[i], '--only-check' in sys.argv)
