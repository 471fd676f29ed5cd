#!/usr/bin/env python3
"""Assembles planted bugs (tools/bugs/*.py) into seeded/<id>/ and confirms them in a scratch copy.
usage: plant.py make [ID..] | confirm [ID..] | hunt PROP=auto [ID..]
scratch: /tmp/w (repo copy, shared build folders)"""
import sys, os, re, json, subprocess, shutil, glob, importlib.util
V = '/verif'; W = '/tmp/w'; R = W + '/repo'
def specs():
    out = {}
    for f in sorted(glob.glob(V + '/tools/bugs/*.py')):
        s = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS: out[b['id']] = b
    return out
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def scratch():
    if not os.path.isdir(R):
        os.makedirs(W, exist_ok=True)
        sh(f'cp -a /repo {R}')
    head = sh('git rev-parse HEAD', '/repo').stdout.strip()
    sh('git checkout -q -- .', R)
    if sh('git rev-parse HEAD', R).stdout.strip() != head: sh(f'git fetch -q /repo HEAD && git checkout -q {head}', R)
def apply(b):
    for f, old, new in b['edits']:
        p = f'{R}/programs/core/src/{f}'; s = open(p).read()
        n = s.count(old)
        assert n == 1, f'{b["id"]}: {f}: {n} matches of {old[:60]!r}'
        open(p, 'w').write(s.replace(old, new))
def original(b):
    base = sh('git rev-list --max-parents=0 HEAD', R).stdout.strip()
    d = sh('git diff -U0', R).stdout
    f = None; bad = []; removed = 0
    for l in d.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                removed += n
                for x in sh(f'git blame -s -l -L {a},{a+n-1} HEAD -- {f}', R).stdout.splitlines():
                    if not x.lstrip('^').startswith(base[:38]): bad.append(x[:120])
    return removed, bad
def make(ids):
    sp = specs(); scratch()
    for i in ids or sp:
        b = sp[i]; sh('git checkout -q -- .', R); apply(b)
        rem, bad = original(b)
        if bad or not rem: print(i, 'NOT ORIGINAL', rem, bad)
        d = f'{V}/seeded/{i}'; os.makedirs(d + '/demo/src', exist_ok=True)
        open(d + '/patch.diff', 'w').write(sh('git diff', R).stdout)
        sh('git checkout -q -- .', R)
        shutil.copy(V + '/tools/demo/demo.sh', d + '/demo.sh'); os.chmod(d + '/demo.sh', 0o755)
        shutil.copy(V + '/tools/demo/Cargo.toml.in', d + '/demo/Cargo.toml.in')
        shutil.copy(V + '/tools/demo/src/kit.rs', d + '/demo/src/kit.rs')
        for f in ('vm.rs', 'ix.rs'): shutil.copy(f'{V}/harness/src/{f}', d + '/demo/src/' + f)
        lock = open(V + '/harness/Cargo.lock').read().replace('name = "cykmon"', 'name = "demo"')
        open(d + '/demo/Cargo.lock', 'w').write(lock)
        open(d + '/demo/src/main.rs', 'w').write(main_rs(b))
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
def main_rs(b):
    return '#![allow(unused)]\nmod ix;\nmod kit;\nmod vm;\nuse ix::*;\nuse kit::*;\nuse vm::*;\n\n' + b['demo'].strip() + '\n'
ENV = 'export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=; '
def demo(i):
    d = f'{W}/demo'; os.makedirs(d, exist_ok=True)
    sh(f'rm -rf {d}/src; cp -r {V}/seeded/{i}/demo/. {d}/')
    t = open(d + '/Cargo.toml.in').read().replace('@REPO@', R); open(d + '/Cargo.toml', 'w').write(t)
    r = sh(ENV + f'CARGO_TARGET_DIR={W}/target-demo cargo build --release --offline', d)
    if r.returncode: return 2, r.stderr[-3000:]
    r = sh(f'timeout 200 {W}/target-demo/release/demo', d)
    return r.returncode, (r.stdout + r.stderr)[-600:]
def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    r = sh(ENV + 'export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_PROFILE_DEV_OVERFLOW_CHECKS=false; cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8 2>&1', R)
    ok = set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. ok$', r.stdout, re.M))
    bad = set(re.findall(r'^test (\S+)(?: - should panic)? \.\.\. FAILED$', r.stdout, re.M))
    return ok, bad, r.stdout[-1500:] if not ok else ''
def confirm(ids):
    sp = specs(); scratch()
    ok0, bad0, _ = tests(); print('baseline ok', len(ok0), 'failed', len(bad0), flush=True)
    st = json.load(open(W + '/state.json')) if os.path.exists(W + '/state.json') else {}
    for i in ids or [x for x in sp if st.get(x) != 'ok']:
        scratch()
        c0, o0 = demo(i)
        if c0: print(i, 'DEMO FAILS ON UNCHANGED', c0, o0, flush=True); st[i] = 'demo'; continue
        r = sh(f'git apply {V}/seeded/{i}/patch.diff', R)
        if r.returncode: print(i, 'patch does not apply', r.stderr); continue
        ok, bad, tail = tests()
        miss = ok0 - ok
        c1, o1 = demo(i)
        st[i] = 'ok' if not miss and c1 and c1 != 2 else 'no'
        print(i, sp[i]['prop'], 'tests lost:', sorted(miss)[:5], tail[-300:] if miss else '', 'demo:', c1, o1.strip()[-200:] if c1 else 'PASSES WITH BUG', '=>', st[i], flush=True)
        scratch()
        json.dump(st, open(W + '/state.json', 'w'))
def hunt(ids):
    """runs the bug's own property's check (and with ALL=1 every check) against the patched scratch copy"""
    sp = specs(); scratch()
    h = W + '/harness'; sh(f'mkdir -p {h}; cp -r {V}/harness/src {V}/harness/Cargo.lock {h}/')
    t = open(V + '/harness/Cargo.toml').read().replace('/repo/', R + '/'); open(h + '/Cargo.toml', 'w').write(t)
    res = json.load(open(W + '/hunt.json')) if os.path.exists(W + '/hunt.json') else {}
    for i in ids or [x for x in sp if x not in res]:
        scratch(); r = sh(f'git apply {V}/seeded/{i}/patch.diff', R)
        r = sh(ENV + f'CARGO_TARGET_DIR={W}/target-h cargo build --release --offline --locked --bins', h)
        if r.returncode: print(i, 'build', r.stderr[-500:]); continue
        props = os.environ.get('PROPS', sp[i]['prop']).split(',')
        if props == ['ALL']: props = ['C%02d' % k for k in range(1, 34)]
        for p in props:
            b = 'libmon' if p in ('C26', 'C27', 'C28', 'C29') else 'cykmon'
            sh(f'mkdir -p {W}/out; cp {V}/known_findings.txt {W}/out/')
            r = sh(f'CYKMON_ROOT={W}/out VERIF_SEED=1 VERIF_TIER=quick timeout 600 {W}/target-h/release/{b} check {p}', h)
            v = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l or 'INCONCL' in l]
            print(i, p, 'exit', r.returncode, (v or [''])[0][:200], flush=True)
            m = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            if r.returncode == 1:
                k = [n for n, l in enumerate(m) if 'VIOLATION' in l]
                print('    ', ' | '.join(x.strip()[:300] for x in m[k[0]+1:k[0]+3]) if k else '', flush=True)
            res.setdefault(i, {})[p] = r.returncode
            json.dump(res, open(W + '/hunt.json', 'w'))
    scratch()
def table(ids):
    """fills the table of planted bugs in DESIGN.md from the last hunt"""
    sp = specs(); res = json.load(open(W + '/hunt.json')); d = open(V + '/DESIGN.md').read()
    rows = ['| bug | property | what it breaks | caught by |', '|---|---|---|---|']
    for i in sorted(sp, key=lambda i: (sp[i]['prop'], i)):
        if not os.path.isdir(f'{V}/seeded/{i}'): continue
        c = ', '.join(p for p, r in sorted(res.get(i, {}).items()) if r == 1)
        rows.append(f"| {i} | {sp[i]['prop']} | {sp[i]['breaks']} | {c or 'missed'} |")
    a, b = d.index('<!-- table -->'), d.index('<!-- end -->')
    open(V + '/DESIGN.md', 'w').write(d[:a] + '<!-- table -->\n' + '\n'.join(rows) + '\n' + d[b:])
if __name__ == '__main__':
    {'make': make, 'confirm': confirm, 'hunt': hunt, 'table': table}[sys.argv[1]](sys.argv[2:])
