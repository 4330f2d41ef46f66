#!/usr/bin/env python3
"""plant.py confirm ID...|all   confirms planted bugs in a scratch copy and writes seeded/<id>/
   plant.py try ID...|all       applies each kept bug to /repo, runs its property's check (or CHECKS=C01,C02), undoes it"""
import sys, os, subprocess, shutil, json, re
sys.path.insert(0, os.path.dirname(__file__))
from bugs import BUGS
S = '/tmp/plant'
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# cwd: the repository. Compiles the crate and the small program beside this file into a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -O -A warnings --crate-type rlib --crate-name skillratings -o "$t/libskillratings.rlib" src/lib.rs || exit 3
rustc --edition 2021 -O -A warnings --extern skillratings="$t/libskillratings.rlib" -o "$t/demo" "$here/demo.rs" || exit 3
( ulimit -c 0; timeout 60 "$t/demo" )
'''
DEMO_SERDE = '''#!/bin/bash
# cwd: the repository. Builds the program beside this file with the serde feature in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
skillratings = { path = "$repo", features = ["serde"] }
serde_json = { version = "1", features = ["float_roundtrip"] }
[workspace]
X
cd "$t" && CARGO_TARGET_DIR=$t/target CARGO_NET_OFFLINE=true cargo build --offline -q || exit 3
timeout 60 "$t/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def fresh():
    if not os.path.exists(S):
        sh(f'cp -a /repo {S}')
    sh(f'git -C {S} checkout -q -- . && git -C {S} fetch -q /repo HEAD && git -C {S} reset -q --hard FETCH_HEAD')
def confirm(b):
    fresh()
    for f, old, new in b['edits']:
        p = f'{S}/src/{f}'; s = open(p).read()
        cut = s.index('#[cfg(test)]\nmod tests') if '#[cfg(test)]\nmod tests' in s else len(s)
        n = s[:cut].count(old)
        if n < 1 or (n > 1 and not b.get('multi')): return f'edit matches {n} times in {f}: {old[:60]!r}'
        s = s[:cut].replace(old, new) + s[cut:]
        open(p, 'w').write(s)
    d = f"{SEED}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(sh(f'git -C {S} diff').stdout)
    open(f'{d}/demo.sh', 'w').write(DEMO_SERDE if b.get('serde') else DEMO); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo.rs', 'w').write(b['demo'].strip() + '\n')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    env = 'export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true;'
    for feat in ('', '--all-features'):
        r = sh(f'{env} cd {S} && cargo test --offline {feat} -- --test-threads 8')
        if r.returncode:
            m = re.findall(r'^(test .* FAILED|error.*|.*panicked.*)$', r.stdout + r.stderr, re.M)
            shutil.rmtree(d); return 'TESTS FAIL ' + ' | '.join(m[:6])
    r = sh(f'cd {S} && bash {d}/demo.sh')
    if r.returncode == 0: shutil.rmtree(d); return 'demo passes with the patch ' + r.stdout[-300:]
    if r.returncode == 3: shutil.rmtree(d); return 'demo does not build ' + r.stderr[-800:]
    bad = (r.stdout + r.stderr).strip()[-160:]
    fresh()
    r = sh(f'cd {S} && bash {d}/demo.sh')
    if r.returncode: shutil.rmtree(d); return f'demo fails without the patch {r.returncode} ' + (r.stdout+r.stderr)[-500:]
    return 'confirmed: ' + bad.replace('\n', ' / ')
P = '/tmp/ps'
def scratch(i):
    """the same in a scratch copy of /repo and of the monitors (no sanitizers)"""
    d = f'{SEED}/{i}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    sh(f'mkdir -p {P}/harness; rm -rf {P}/repo; cp -r /repo {P}/repo; rm -rf {P}/repo/target; cp -r /verif/harness/. {P}/harness/; cp /verif/known_findings.txt {P}/; sed -i "s#/repo#{P}/repo#" {P}/harness/Cargo.toml')
    r = sh(f'git -C {P}/repo apply {d}/patch.diff')
    if r.returncode: return 'does not apply ' + r.stderr
    out = []
    for c in os.environ.get('CHECKS', prop).split(','):
        env = f'export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR={P}/target VP_ROOT={P} VP_REPO={P}/repo VP_NO_SAN=1;'
        r = sh(f"{env} cd {P}/harness && cargo build --release --offline -q {'--features serde' if c == 'C20' else ''}")
        if r.returncode: return 'does not build ' + r.stderr[-300:]
        r = sh(f'{env} {P}/target/release/vp run {c}')
        line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        first = [l for l in r.stdout.splitlines() if l.startswith('  [')]
        out.append(f"{c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and line else 'MISSED'} {first[0][:170] if first else (r.stdout+r.stderr)[-200:].strip()}")
    return ' || '.join(out)
def tryit(i):
    d = f'{SEED}/{i}'
    meta = json.load(open(f'{d}/meta.json'))
    if sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip(): sys.exit('/repo is dirty')
    checks = os.environ.get('CHECKS', meta['property']).split(',')
    out = []
    r = sh(f'git -C /repo apply {d}/patch.diff')
    if r.returncode: return 'does not apply ' + r.stderr
    try:
        for c in checks:
            r = sh(f'cd /verif && bash run.sh {c}')
            line = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            first = [l for l in r.stdout.splitlines() if l.startswith('  [')]
            out.append(f"{c} rc={r.returncode} {'CAUGHT' if r.returncode == 1 and line else 'MISSED'} {first[0][:170] if first else (r.stdout+r.stderr)[-200:].strip()}")
    finally:
        sh('git -C /repo checkout -q -- .')
    return ' || '.join(out)
if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'confirm':
        for b in BUGS:
            if ids == ['all'] or b['id'] in ids or (ids == ['new'] and not os.path.exists(f"{SEED}/{b['id']}/meta.json")): print(b['id'], b['prop'], confirm(b), flush=True)
        shutil.rmtree(S, ignore_errors=True)
    elif cmd == 'scratch':
        for i in (sorted(os.listdir(SEED)) if ids == ['all'] else ids): print(i, scratch(i), flush=True)
        shutil.rmtree(P, ignore_errors=True)
    else:
        for i in (sorted(os.listdir(SEED)) if ids == ['all'] else ids): print(i, tryit(i), flush=True)
