#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the entries of seeds.py and confirms them.

usage: seed.py [-n] [ID-substring ..]      -n: do not run the repository's tests
For every entry: the edit is applied to a scratch copy of /repo, must build,
must pass the stable tests, and the demonstration must fail with it and pass
without it.  Development aid; no registered check runs it.
"""
import subprocess, sys, os, shutil, json, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here); sys.dont_write_bytecode = True
from seeds import SEEDS
args = sys.argv[1:]
runtests = '-n' not in args
subs = [a for a in args if a != '-n']
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s of the repository in the working directory.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/overlay.json"
timeout 250 go test %(flags)s -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, executable='/bin/bash', **k)
stable = json.load(open('/opt/vp/BASELINE.json'))
for sid, s in SEEDS.items():
    if subs and not any(x in sid for x in subs): continue
    d = f'/tmp/seed/{sid}'
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d] if os.path.isdir('/tmp/seed') or not os.makedirs('/tmp/seed') else [])
    out = f'{root}/seeded/{sid}'
    os.makedirs(out, exist_ok=True)
    bad = ''
    for f, old, new in s['edits']:
        t = open(f'{d}/{f}').read()
        if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches of {old[:50]!r}'; break
        open(f'{d}/{f}', 'w').write(t.replace(old, new))
    if bad: print('BADEDIT', sid, bad); continue
    open(f'{out}/patch.diff', 'w').write(sh('git diff', d).stdout)
    open(f'{out}/demo.sh', 'w').write(DEMO % dict(pkg=s['pkg'], flags=s.get('flags', '')))
    os.chmod(f'{out}/demo.sh', 0o755)
    open(f'{out}/demo_test.go', 'w').write(s['test'].lstrip())
    json.dump({"property": s['prop'], "needs": " ".join(s['needs'].split()), "what_it_breaks": " ".join(s['breaks'].split())}, open(f'{out}/meta.json', 'w'), indent=1)
    env = '. /opt/vp/env.sh; '
    b = sh(env + 'go build ./... && go vet ./...', d)
    if b.returncode: print('NOBUILD', sid, (b.stdout + b.stderr)[:600]); continue
    r = sh(f'bash {out}/demo.sh', d)
    if r.returncode == 0: print('DEMO PASSES WITH BUG', sid, r.stdout[-500:]); continue
    why = [l for l in (r.stdout+r.stderr).splitlines() if l.strip()][:6]
    g = sh(f'bash {out}/demo.sh', '/repo')
    if g.returncode: print('DEMO FAILS WITHOUT BUG', sid, (g.stdout+g.stderr)[-900:]); continue
    tests = ''
    if runtests:
        for attempt in range(2):
            t = sh(env + 'go test -json -vet=off -count=1 -p 1 -timeout 10m -tags "small medium large" ./... > /tmp/seed/log.json; python3 /opt/vp/results.py /tmp/seed/res.json gojson:/tmp/seed/log.json', d)
            res = json.load(open('/tmp/seed/res.json'))
            passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else {k for k, v in res.items() if v in ('pass', 'passed', True)}
            want = stable.get('stable') or stable.get('tests') or stable.get('passed') or stable
            miss = [x for x in want if x not in passed]
            if not miss: break
        tests = ' tests ok' if not miss else f' TESTS FAIL {miss[:4]}'
    print('ok' if not tests or 'ok' in tests else 'BAD', sid, tests, '|', ' / '.join(why)[:300], flush=True)
    shutil.rmtree(d, ignore_errors=True)
