#!/usr/bin/env python3
"""plant.py SPEC.py...: confirms planted bugs in a scratch copy of /repo and files them under /verif/seeded.

SPEC.py defines id, prop, needs, breaks, edits=[(file, old, new)], main (the demonstration's main.rs).
A bug is kept when it builds, the stable tests pass, and the demonstration exits 0 without and
nonzero with it. `--check` then runs the property's quick check against the scratch copy with the change.
`check [ID...]` does only that, for bugs filed already.
"""
import json, os, subprocess, sys, shutil, runpy
WT = '/tmp/plant-wt'
SEED = '/verif/seeded'
def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
def copy():
    if os.path.exists(WT): return
    assert sh(f'cp -a /repo {WT}').returncode == 0
    for n in ('env', 'build', 'test'):
        s = open(f'/opt/vp/{n}.sh').read().replace('/repo', WT).replace('/opt/vp/env.sh', f'{WT}/target/vp-env.sh')
        open(f'{WT}/target/vp-{n}.sh', 'w').write(s)
def sync():
    sh(f'cd {WT} && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
DEMO = r'''#!/bin/bash
# Run with cwd = the repository. Builds main.rs (beside this file) against it in a scratch directory.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
d="$(mktemp -d)" || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src" && cp "$here/main.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock" || exit 3
cat >"$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
cfg-grammar = { path = "$repo/cfg-grammar" }
cfg-symbol = { path = "$repo/cfg-symbol", features = ["nanoserde", "serde"] }
cfg-history = { path = "$repo/cfg-history", features = ["nanoserde", "serde"] }
cfg-symbol-bit-matrix = { path = "$repo/cfg-symbol-bit-matrix" }
cfg-sequence = { path = "$repo/cfg-sequence" }
cfg-classify = { path = "$repo/cfg-classify", features = ["ll", "lr"] }
cfg-predict-sets = { path = "$repo/cfg-predict-sets" }
cfg-predict-distance = { path = "$repo/cfg-predict-distance" }
cfg-generate = { path = "$repo/cfg-generate", features = ["weighted"] }
cfg-load = { path = "$repo/cfg-load" }
cfg-regexp-logic = { path = "$repo/cfg-regexp-logic" }
miniserde = "0.1"
nanoserde = "0.2"
rand = { version = "0.9", features = ["small_rng"] }
T
cd "$d" || exit 3
export RUSTUP_TOOLCHAIN="${RUSTUP_TOOLCHAIN:-1.88.0}" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" RUSTC_WRAPPER=
unset RUSTFLAGS
cargo build --offline -q || exit 3
timeout 60 "$d/target/debug/demo"
'''
def demo(folder):
    r = sh(f'bash {folder}/demo.sh', cwd=WT)
    return r.returncode, (r.stdout + r.stderr)[-1500:]
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    check = '--check' in sys.argv
    copy(); sync()
    base = sh("git rev-list --max-parents=0 HEAD", cwd='/repo').stdout.strip()
    for f in args:
        s = runpy.run_path(f)
        bid = s['id']; out = f'{SEED}/{bid}'
        sh('git checkout -q -- .', cwd=WT)
        for path, old, new in s['edits']:
            p = f'{WT}/{path}'; t = open(p).read()
            if t.count(old) != 1:
                print(bid, 'EDIT', path, 'matches', t.count(old)); break
            open(p, 'w').write(t.replace(old, new))
        else:
            patch = sh('git diff', cwd=WT).stdout
            b = sh(f'bash {WT}/target/vp-build.sh')
            if b.returncode: print(bid, 'NO BUILD', b.stderr[-2500:]); continue
            sh(f'bash {WT}/target/vp-test.sh /tmp/plant-o.json')
            o = json.load(open('/tmp/plant-o.json'))
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad = [t for t in stable if t not in o['passed']]
            if bad: print(bid, 'TESTS FAIL', bad[:5]); continue
            os.makedirs(out, exist_ok=True)
            open(f'{out}/main.rs', 'w').write(s['main'].lstrip('\n'))
            open(f'{out}/demo.sh', 'w').write(DEMO); os.chmod(f'{out}/demo.sh', 0o755)
            open(f'{out}/patch.diff', 'w').write(patch)
            json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(f'{out}/meta.json', 'w'), indent=1)
            rb, tb = demo(out)
            sh('git checkout -q -- .', cwd=WT)
            rc, tc = demo(out)
            ok = rc == 0 and rb not in (0, 3)
            print(bid, s['prop'], 'demo clean', rc, 'patched', rb, 'KEPT' if ok else 'REJECTED')
            if not ok:
                print('clean:', tc, '\npatched:', tb); shutil.rmtree(out); continue
            if check: run_check(bid, s['prop'])
        sh('git checkout -q -- .', cwd=WT)
VW = '/tmp/plant-verif'
def mirror():
    # the checks, pointed at the scratch copy instead of /repo
    copy()
    os.makedirs(VW, exist_ok=True)
    sh(f'rsync -a --exclude target --exclude seeded --exclude .git --exclude evidence --exclude replays --exclude work /verif/ {VW}/ || (cd /verif && tar c --exclude=target --exclude=./seeded --exclude=./.git --exclude=./evidence --exclude=./replays --exclude=./work . | tar x -C {VW})')
    sh(f"mkdir -p {VW}/evidence {VW}/replays {VW}/work; sed -i 's#\\(path = \"\\)/repo/#\\1{WT}/#' {VW}/sim/Cargo.toml; sed -i 's#cd /repo#cd {WT}#' {VW}/build.sh")
def run_check(bid, prop):
    mirror()
    sh('git checkout -q -- .', cwd=WT)
    a = sh(f'git apply {SEED}/{bid}/patch.diff', cwd=WT)
    if a.returncode: print(bid, 'patch does not apply', a.stderr); return
    try:
        r = sh(f'VERIF_SEED={os.environ.get("VERIF_SEED", "1")} VERIF_TIER=quick ./check.sh {prop} quick', cwd=VW)
        v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l or 'exit' in l]
        print('  check', prop, 'exit', r.returncode, '| '.join(v)[:600], '' if r.returncode in (0,1) else r.stderr[-800:], flush=True)
    finally:
        sh('git checkout -q -- .', cwd=WT)
if __name__ == '__main__':
    if sys.argv[1:2] == ['check']:
        copy(); sync()
        for b in sys.argv[2:] or sorted(os.listdir(SEED)):
            print(b); run_check(b, json.load(open(f'{SEED}/{b}/meta.json'))['property'])
    else: main()
