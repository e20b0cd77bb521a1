#!/usr/bin/env python3
"""Mutation campaign (not part of any check): systematic small changes of the sources, each run against the checks of
the file it is in until one reports a violation.  mutate.py N [SEED] [FILE...] appends to /tmp/mut/log."""
import os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO, W = '/repo', '/tmp/mut'
MAP = {
    'src/abi.cpp': 'C08 C09 C24 C10', 'src/abieos.cpp': 'C10 C03 C09 C01 C11 C17', 'src/abieos.hpp': 'C01 C02 C05 C04 C06 C03 C07 C31 C13 C09 C29 C15',
    'src/crypto.cpp': 'C21', 'include/eosio/abi.hpp': 'C08 C09 C24 C26', 'include/eosio/abieos_numeric.hpp': 'C29 C21 C13',
    'include/eosio/abieos_ripemd160.hpp': 'C27', 'include/eosio/asset.hpp': 'C19 C18', 'include/eosio/chain_conversions.hpp': 'C17 C18 C20 C28',
    'include/eosio/check.hpp': 'C32', 'include/eosio/convert.hpp': 'C30', 'include/eosio/fixed_bytes.hpp': 'C22', 'include/eosio/for_each_field.hpp': 'C24 C30',
    'include/eosio/fpconv.c': 'C15', 'include/eosio/from_bin.hpp': 'C14 C24 C03 C26', 'include/eosio/from_json.hpp': 'C05 C13 C16 C24 C15',
    'include/eosio/from_string.hpp': 'C18', 'include/eosio/murmur.hpp': 'C27', 'include/eosio/name.hpp': 'C17', 'include/eosio/opaque.hpp': 'C30',
    'include/eosio/operators.hpp': 'C30 C32', 'include/eosio/reflection.hpp': 'C24', 'include/eosio/ship_protocol.hpp': 'C26', 'include/eosio/stream.hpp': 'C25 C03 C24',
    'include/eosio/symbol.hpp': 'C18 C32', 'include/eosio/time.hpp': 'C32 C20', 'include/eosio/to_bin.hpp': 'C24 C14', 'include/eosio/to_json.hpp': 'C16 C13 C24 C15',
    'include/eosio/to_key.hpp': 'C23', 'include/eosio/types.hpp': 'C24 C26', 'include/eosio/varint.hpp': 'C14 C32 C23', 'tools/name.cpp': 'C28',
    'include/eosio/crypto.hpp': 'C32 C21', 'include/eosio/bytes.hpp': 'C24 C32',
}
RULES = [(r'(?<=\s)<(?=\s)', ['<=']), (r'(?<=\s)>(?=\s)', ['>=']), (r'<=(?!>)', ['<']), (r'>=', ['>']), (r'==', ['!=']), (r'!=', ['==']),
         (r'&&', ['||']), (r'\|\|', ['&&']), (r'!(?=[a-z(])', ['']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
         (r'(?<=[\w)]) \+ (?=[\w(])', [' - ']), (r'(?<=[\w)]) - (?=[\w(])', [' + ']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'\*=', ['=']), (r'\|=', ['=']),
         (r'<<', ['>>']), (r'(?<=\w) >> (?=\w)', [' << ']), (r'(?<![\w.])(\d+)(?![\w.])', ['+1', '-1']), (r'\b0x[0-9a-fA-F]+', ['h+1', 'h>>1']),
         (r"(?<=')([A-Za-z0-9])(?=')", ['c+1']), (r'\breturn\b(?= [a-z])', ['DEL'])]

def mutants(f):
    out, skip, blk = [], False, False
    lines = open(f'{REPO}/{f}').read().split('\n')
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#ifdef __eosio_cdt__'): skip = True
        if s.startswith('#else') or s.startswith('#endif'): skip = False
        if s.startswith('/*'): blk = True
        b = blk
        if '*/' in s: blk = False
        if skip or b or not s or s.startswith(('//', '*', '#', 'template', 'static_assert', 'using', 'namespace')) or 'trace_' in s or 'printf(' in s: continue
        code = re.sub(r'//.*', '', l)
        lits = [(m.start(), m.end()) for m in re.finditer(r'"(\\.|[^"\\])*"', code)]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                if any(a <= m.start() < e for a, e in lits): continue
                for r in reps:
                    t = m.group(0)
                    if r in ('+1', '-1'): t2 = str(int(t) + int(r))
                    elif r == 'h+1': t2 = hex(int(t, 16) + 1)
                    elif r == 'h>>1': t2 = hex(int(t, 16) >> 1)
                    elif r == 'c+1': t2 = chr(ord(t) + 1)
                    elif r == 'DEL': continue
                    else: t2 = r
                    if t2 == t: continue
                    out.append((f, i, code[:m.start()] + t2 + code[m.end():]))
        if re.match(r'^\s*[\w.>\-+*\[\]()]+(\(|\s*[+\-|*]?=|\+\+|--).*;\s*$', code) and not re.match(r'^\s*(return|const|auto|static|typedef|EOSIO_|friend|inline|throw|case|for|if|while)', code) and not re.match(r'^\s*[\w:<>,]+ +[\w]+ *(=|\(|;)', code):
            out.append((f, i, ''))
        if re.match(r'^\s*(return|break|continue)\b.*;\s*$', code) and 'return' not in code:
            out.append((f, i, ''))
        m = re.match(r'^(\s*(?:\} else )?if \()(.*)(\)\s*\{?)$', code)
        if m:
            out.append((f, i, m[1] + 'false && (' + m[2] + ')' + m[3]))
            out.append((f, i, m[1] + 'true || (' + m[2] + ')' + m[3]))
    return out, lines

lock = threading.Lock()
def work(n, todo):
    d = f'{W}/r{n}'
    while True:
        with lock:
            if not todo: return
            f, i, new = todo.pop()
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*', '_build', 'external'))
        if os.path.isdir(f'{REPO}/external'): os.symlink(f'{REPO}/external', f'{d}/external')
        lines = open(f'{d}/{f}').read().split('\n')
        old, lines[i] = lines[i], new
        open(f'{d}/{f}', 'w').write('\n'.join(lines))
        res = 'SURVIVED'
        for c in MAP[f].split():
            env = dict(os.environ, VH_REPO=d, VH_OUT=f'{d}/_out', VH_BUILD=f'{d}/_b')
            try:
                p = subprocess.run(['python3', 'run.py', c, '--tier', 'quick'], cwd=V, env=env, capture_output=True, text=True, timeout=600)
                o = p.stdout + p.stderr
                if p.returncode == 1 and 'VIOLATION property=' in o: res = 'killed ' + c; break
                if p.returncode not in (0, 1): res = ('nobuild ' if 'error:' in o or 'rror' in o else f'rc{p.returncode} ') + c; break
            except subprocess.TimeoutExpired:
                res = 'timeout ' + c; break
        with lock:
            open(f'{W}/log', 'a').write(f'{res} | {f}:{i + 1} | {old.strip()} => {new.strip() or "(deleted)"}\n')
    
if __name__ == '__main__':
    n, seed = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1
    files = sys.argv[3:] or list(MAP)
    random.seed(seed)
    todo = []
    for f in files:
        m, _ = mutants(f)
        random.shuffle(m)
        todo += m if len(sys.argv) > 3 else m[:max(6, len(m) * n // 3000)]
    random.shuffle(todo)
    todo = todo[:n]
    print(len(todo))
    th = [threading.Thread(target=work, args=(k, todo)) for k in range(int(os.environ.get('MUT_J', '3')))]
    [t.start() for t in th]; [t.join() for t in th]
    [shutil.rmtree(f'{W}/r{k}', ignore_errors=True) for k in range(8)]
