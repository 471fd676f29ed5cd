#!/usr/bin/env python3
"""Confirms that each repaired defect is reported again when its fix is taken back, in a scratch copy.
usage: revert.py [COMMIT..]"""
import sys, re, subprocess, os
sys.argv0 = sys.argv[0]
sys.path.insert(0, '/verif/tools')
from plant import *
scratch()
h = W + '/harness'; sh(f'mkdir -p {h}; cp -r {V}/harness/src {V}/harness/Cargo.lock {h}/')
open(h + '/Cargo.toml', 'w').write(open(V + '/harness/Cargo.toml').read().replace('/repo/', R + '/'))
for l in open(V + '/known_findings.txt'):
    m = re.match(r'fixed: property=(C\d\d) (\w+) .*?(?:; also (.*))?$', l.strip())
    if not m or (sys.argv[1:] and m[2] not in sys.argv[1:]): continue
    scratch(); r = sh(f'git revert -n {m[2]}', R)
    if r.returncode:
        sh('git revert --abort; git checkout -q -- .', R); print(m[2], m[1], 'does not revert alone', r.stderr[-200:]); continue
    r = sh(ENV + f'CARGO_TARGET_DIR={W}/target-h cargo build --release --offline --locked --bins', h)
    if r.returncode: print(m[2], 'build', r.stderr[-400:])
    else:
        for p in [m[1]] + (m[3].split(', ') if m[3] else []):
            b = 'libmon' if p in ('C26', 'C27', 'C28', 'C29') else 'cykmon'
            r = sh(f'mkdir -p {W}/out; cp {V}/known_findings.txt {W}/out/; CYKMON_ROOT={W}/out VERIF_SEED=1 VERIF_TIER=quick timeout 600 {W}/target-h/release/{b} check {p}', h)
            v = (r.stdout + r.stderr).splitlines(); k = [i for i, x in enumerate(v) if 'VIOLATION' in x]
            print(m[2], p, 'exit', r.returncode, v[k[0] + 1].strip()[:160] if k else '', flush=True)
    sh('git reset -q --hard', R)
