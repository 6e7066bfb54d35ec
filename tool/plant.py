#!/usr/bin/env python3
"""Development aid (no check uses it): turn the entries of a Python file into
/verif/seeded/<id>/ and confirm each in a scratch copy of /repo.
usage: plant.py FILE [id...]"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEED = HERE + '/seeded'
W = '/tmp/plant'
RUN = '''#!/bin/sh
# cwd: the crate's tree. Exit 0 when the behaviour is there, nonzero when it is not.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
printf '[package]\\nname = "demo"\\nversion = "0.0.0"\\nedition = "2021"\\n\\n[workspace]\\n\\n[dependencies]\\ntagged-box = { path = "%%s" }\\n' "$repo" > "$t/Cargo.toml"
cd "$t" || exit 2
export RUSTFLAGS="-A semicolon_in_expressions_from_macros"
export CARGO_TARGET_DIR="$t/target" RUST_BACKTRACE=0
%s
'''
HEAD = '#![allow(unused, non_camel_case_types, dead_code)]\n'


def sh(c, cwd, **k):
    return subprocess.run(c, cwd=cwd, shell=True, capture_output=True, text=True, errors='replace', **k)


def main():
    bugs = {}
    exec(open(sys.argv[1]).read(), bugs)
    want = sys.argv[2:]
    for b in bugs['BUGS']:
        if want and b['id'] not in want:
            continue
        d = os.path.join(SEED, b['id'])
        wd = W + '/' + b['id']
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(W, exist_ok=True)
        sh('git worktree prune; cp -a /repo %s' % wd, '/repo')
        ok = True
        for f, old, new, *n in b['edits']:
            p = os.path.join(wd, f)
            s = open(p).read()
            c = s.count(old)
            wantn = n[0] if n else 1
            if c != wantn:
                print(b['id'], 'EDIT', f, 'matches', c, 'of', wantn)
                ok = False
            s = s.replace(old, new)
            open(p, 'w').write(s)
        if not ok:
            continue
        diff = sh('git diff', wd).stdout
        r = sh('env -u TAGGED_BOX_RESERVED_WIDTH CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=%s/target RUSTFLAGS="-A semicolon_in_expressions_from_macros" cargo +stable test --workspace --offline' % wd, wd, timeout=900)
        if r.returncode != 0:
            print(b['id'], 'TESTS FAIL', [l for l in (r.stdout + r.stderr).splitlines() if 'FAILED' in l or 'panicked' in l or l.startswith('error')][:6])
            shutil.rmtree(wd)
            continue
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/patch.diff', 'w').write(diff)
        cmd = b.get('cmd') or '%scargo run --offline -q%s' % (b.get('env', '') and b['env'] + ' ', ' --release' if b.get('release') else '')
        open(d + '/demo.sh', 'w').write(RUN % cmd)
        open(d + '/main.rs', 'w').write((b.get('head') if b.get('head') is not None else HEAD) + b['demo'])
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = sh('%s/demo.sh' % d, '/repo', timeout=300)
        bad = sh('%s/demo.sh' % d, wd, timeout=300)
        shutil.rmtree(wd)
        st = 'ok' if good.returncode == 0 and bad.returncode != 0 else 'DEMO WRONG (clean %d, patched %d)' % (good.returncode, bad.returncode)
        print(b['id'], st, (bad.stderr or '').strip().splitlines()[-2:] if st == 'ok' else (good.stderr + bad.stderr)[-1500:], flush=True)
        if st != 'ok':
            shutil.rmtree(d)


main()
