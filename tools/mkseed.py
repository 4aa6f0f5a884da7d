#!/usr/bin/env python3
"""Confirms planted bugs in a scratch copy and writes them to /verif/seeded.
usage: mkseed.py DEFS.py [id ...]
DEFS.py defines BUGS = [dict(id, prop, edits=[(file, old, new)..], demo=<rust>, needs, breaks)].
A bug is kept if it applies, changes a line of the original repository, builds, passes the
stable tests, and its demonstration passes without it and fails with it."""
import json, os, re, runpy, shutil, subprocess, sys

SEEDED = '/verif/seeded'
WORK = '/tmp/plantwork'
REPO = f'{WORK}/repo'
BASE = 'f623232'
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='line-tables-only',
           CARGO_PROFILE_DEV_OPT_LEVEL='2', CARGO_TERM_COLOR='never', PROPTEST_RNG_SEED='20240607',
           PROPTEST_DISABLE_FAILURE_PERSISTENCE='1', CARGO_INCREMENTAL='1',
           RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')
DEMO_SH = '''#!/bin/bash
# Runs demo.rs (beside this file) against the library in the current directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$t/Cargo.lock"
cat >"$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
linfa-linalg = { path = "$repo" }
ndarray = "0.16"
rand = "0.8"
rand_xoshiro = "0.6"
[workspace]
TOML
cd "$t" || exit 2
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline -q || exit 2
timeout 120 "$t/target/debug/demo"
'''

def sh(cmd, cwd=REPO, timeout=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=timeout)

def tests():
    o = sh('timeout 240 cargo test --workspace --all-features --no-fail-fast --offline -- --test-threads 8').stdout
    names = [re.sub(r' \(line \d+\)', '', n) for n in re.findall(r'^test (.*?) \.\.\. ok', o, re.M)]
    # doc-tests are named by line, which moves: number them
    return {f'{n}#{names[:i].count(n)}' for i, n in enumerate(names)}, o

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = set(sys.argv[2:])
    os.makedirs(WORK, exist_ok=True)
    if not os.path.isdir(REPO):
        shutil.copytree('/repo', REPO, symlinks=True)
    sh('git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    good, o = tests()
    print('unpatched passes', len(good), flush=True)
    for b in bugs:
        if want and b['id'] not in want:
            continue
        sh('git checkout -q -- .')
        ok = True
        for f, old, new in b['edits']:
            p = f'{REPO}/src/{f}'
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT MATCHES', s.count(old), repr(old[:60])); ok = False; break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff').stdout
        # is an original line removed or changed?
        orig = False
        for f in {e[0] for e in b['edits']}:
            blame = sh(f'git blame -s -l HEAD -- src/{f}').stdout.splitlines()
            cur = None
            for l in sh(f'git diff -U0 -- src/{f}').stdout.splitlines():
                m = re.match(r'@@ -(\d+)', l)
                if m: cur = int(m.group(1))
                elif l.startswith('-') and not l.startswith('---'):
                    if blame[cur-1].lstrip('^').startswith(BASE): orig = True
                    cur += 1
        if not orig:
            print(b['id'], 'NO ORIGINAL LINE CHANGED'); continue
        ran, o = tests()
        miss = good - ran
        if miss:
            e = re.findall(r'^error.*(?:\n.*){0,8}', o, re.M)
            print(b['id'], 'TESTS FAIL', sorted(miss)[:5], ''.join(e[:2])[:600], flush=True); continue
        d = f'{WORK}/seed'
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(f'{d}/demo.sh', 'w').write(DEMO_SH.replace('build --offline', 'build --release --offline').replace('target/debug', 'target/release') if b.get('release') else DEMO_SH); os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.rs', 'w').write(b['demo'].strip() + '\n')
        with_bug = sh(f'bash {d}/demo.sh')
        sh('git checkout -q -- .')
        without = sh(f'bash {d}/demo.sh')
        if with_bug.returncode in (0, 2) or without.returncode != 0:
            print(b['id'], 'DEMO with', with_bug.returncode, 'without', without.returncode,
                  with_bug.stdout[-500:], without.stdout[-500:], flush=True); continue
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        out = f'{SEEDED}/{b["id"]}'
        shutil.rmtree(out, ignore_errors=True); os.makedirs(SEEDED, exist_ok=True); shutil.move(d, out)
        print(b['id'], 'KEPT', with_bug.stdout.strip()[-200:].replace('\n', ' '), flush=True)

main()
