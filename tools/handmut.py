#!/usr/bin/env python3
"""Dev tool: hand-written mutants (tools/mutants/*.py: M = [(name, file, old, new, [checks] or None)]) in a scratch copy /tmp/hm.
usage: handmut.py LOG FILE [NAME...]   Logs KILLED / SURVIVED / NOBUILD per mutant; checks run with VH_SCALE of the environment."""
import sys, os, re, subprocess, shutil
S = os.environ.get('HM', '/tmp/hm'); R = S + '/repo'; H = S + '/h'; T = S + '/t'; OUT = S + '/out'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log, src = sys.argv[1], sys.argv[2]
names = sys.argv[3:]
MAP = eval(re.search(r'^A = (\[.*\])', open(V + '/tools/mutate.py').read(), re.M).group(1) and re.search(r'MAP = (\[.*?\)\])', open(V + '/tools/mutate.py').read(), re.S).group(1), {'A': eval(re.search(r'^A = (\[.*\])', open(V + '/tools/mutate.py').read(), re.M).group(1))})
g = {}; exec(open(src).read(), g)
for d in (R, H): shutil.rmtree(d, ignore_errors=True)
os.makedirs(OUT + '/replays', exist_ok=True)
shutil.copytree(os.environ.get('HMREPO', '/repo'), R, ignore=shutil.ignore_patterns('target', '.git'))
shutil.copytree(V + '/harness', H, ignore=shutil.ignore_patterns('target'))
c = open(H + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{R}"'); open(H + '/Cargo.toml', 'w').write(c)
env = dict(os.environ, CARGO_TARGET_DIR=T, CARGO_NET_OFFLINE='true', VH_DIR=OUT, VERIF_SEED='1', VERIF_TIER='quick', RUST_BACKTRACE='0', RUSTC_WRAPPER='')
L = open(log, 'a')
for m in g['M']:
    name, f, old, new = m[:4]
    if names and name not in names: continue
    p = R + '/src/' + f; s = open(p).read()
    if s.count(old) != 1: L.write(f'BADEDIT {name} {s.count(old)}\n'); L.flush(); continue
    n = s.replace(old, new)
    for a, b in (m[5] if len(m) > 5 else []):
        if n.count(a) != 1: L.write(f'BADEDIT2 {name} {n.count(a)}\n'); L.flush()
        n = n.replace(a, b)
    open(p, 'w').write(n)
    try:
        b = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=H, env=env, capture_output=True, text=True)
        res = ''
        if b.returncode: res = 'NOBUILD ' + ' '.join(re.findall(r'^error.*', b.stderr, re.M))[:200]
        else:
            checks = m[4] if len(m) > 4 and m[4] else next(c for k, c in MAP if k in f)
            res = 'SURVIVED ' + ','.join(checks)
            for c in checks:
                try:
                    r = subprocess.run([T + '/debug/vharness', c], env=env, capture_output=True, text=True, timeout=400)
                    if r.returncode == 1 and 'VIOLATION' in r.stdout:
                        res = 'KILLED ' + c + ' ' + ' '.join(re.findall(r'^(?:\[\S+\] \d+ cases|scenario.*)', r.stdout, re.M))[-160:]; break
                    if r.returncode: res = f'ERROR {c} rc={r.returncode}'; break
                except subprocess.TimeoutExpired:
                    res = 'TIMEOUT ' + c; break
    finally:
        open(p, 'w').write(s)
    L.write(f'{res} | {name}\n'); L.flush()
