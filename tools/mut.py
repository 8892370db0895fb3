#!/usr/bin/env python3
"""Apply small edits to a scratch copy of /repo and see which checks notice.

usage: mut.py [-p PROP,..] [-k name-substring]
Entries: (name, expected property or "" for an edit which keeps the behaviour,
[(file, old, new), ..]).  Development aid; no registered check runs it.
"""
import subprocess, sys, os, shutil, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(__file__))
from mutants import M
args = sys.argv[1:]
props = sub = None
while args:
    a = args.pop(0)
    if a == '-p': props = args.pop(0).split(',')
    elif a == '-k': sub = args.pop(0)
CHK = os.environ.get('CHK', '/tmp/vchk')
allp = subprocess.run([CHK, '-list'], capture_output=True, text=True).stdout.split()
allp = [p for p in allp if p[0].isalpha() and p[1:].isdigit()]
def one(i):
    name, exp, edits = M[i]
    d = f'/tmp/mut/{os.getpid()}_{i}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    try:
        for f, old, new in edits:
            p = f'{d}/{f}'
            s = open(p).read()
            if s.count(old) < 1: return f'BADEDIT {name}: {f}: not found: {old[:60]!r}'
            open(p, 'w').write(s.replace(old, new, 1))
        b = subprocess.run('. /opt/vp/env.sh 2>/dev/null; go vet ./... 2>&1 | grep -v "^#" | head -5; go build ./... 2>&1 | head -5', shell=True, cwd=d, capture_output=True, text=True, executable='/bin/bash')
        if 'vet:' in b.stdout or '.go:' in b.stdout:
            if 'cannot' in b.stdout or 'undefined' in b.stdout or 'declared' in b.stdout or 'vet:' in b.stdout:
                return f'NOBUILD {name}: {b.stdout[:300]}'
        hit, bad = [], []
        run = props or allp
        if os.environ.get('ONE') and exp: run = [exp]
        for p in run:
            r = subprocess.run([CHK, '-prop', p, '-out', f'{d}/.o', '-repo', d], capture_output=True, text=True, timeout=1200)
            if f'VIOLATION property={p}' in r.stdout and r.returncode == 1:
                hit.append(p)
                if os.environ.get('V'): bad.append(r.stdout)
            elif r.returncode != 0: bad.append(f'{p} rc={r.returncode} {r.stdout[-300:]} {r.stderr[-300:]}')
        ok = (exp in hit) if exp else not hit
        if props and exp and exp not in props: ok = True
        return f"{'ok  ' if ok else 'MISS' if exp else 'ALARM'} {name} exp={exp or '-'} hit={','.join(hit)}" + ''.join('\n' + x for x in bad)
    finally:
        shutil.rmtree(d, ignore_errors=True)
idx = [i for i in range(len(M)) if (not sub or sub in M[i][0]) and (not props or not M[i][1] or M[i][1] in props)]
with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for r in ex.map(one, idx): print(r, flush=True)
