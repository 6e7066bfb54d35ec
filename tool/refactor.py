#!/usr/bin/env python3
"""Development aid: apply behaviour-preserving edits to scratch copies and see that every check stays quiet.
Analyses at a few widths only, unless TB_WIDTHS says otherwise (TB_WIDTHS= for all).
usage: refactor.py FILE [-p C01,C02] [id...]   FILE defines REF=[(id, [(file, old, new[, count])])]"""
import os
import re
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

a = sys.argv[1:]
props = ['C%02d' % i for i in list(range(1, 26)) + [29, 30, 31, 32, 33, 34]]
if '-p' in a:
    i = a.index('-p')
    props = a[i + 1].split(',')
    del a[i:i + 2]
ns = {}
exec(open(a[0]).read(), ns)
for rid, edits in ns['REF']:
    if a[1:] and rid not in a[1:]:
        continue
    d = '/tmp/refactor/' + rid
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/refactor', exist_ok=True)
    subprocess.run('cp -a /repo %s; rm -rf %s/target' % (d, d), shell=True)
    ok = True
    for e in edits:
        f, old, new = e[:3]
        s = open(d + '/' + f).read()
        n = s.count(old)
        if n == 0 or (len(e) > 3 and n != e[3]) or (len(e) == 3 and n != 1):
            print(rid, 'edit does not apply (%d times): %s' % (n, old[:80]))
            ok = False
            continue
        open(d + '/' + f, 'w').write(s.replace(old, new))
    if not ok:
        continue
    r = subprocess.run('cargo test --offline -q 2>&1', shell=True, cwd=d, env=dict(os.environ, RUSTFLAGS='-A semicolon_in_expressions_from_macros'), capture_output=True, text=True)
    bad = re.findall(r'^test .* FAILED|^error.*(?:\n.*-->.*)?', r.stdout, re.M)
    if r.returncode != 0:
        print(rid, 'tests:', bad[:6])
        if any('error' in b for b in bad):
            continue
    shutil.rmtree(d + '/target', ignore_errors=True)
    quiet = []
    for p in props:
        r = subprocess.run([HERE + '/check', p, 'quick'], cwd=HERE, env=dict({'TB_WIDTHS': '63,60,55,48'}, **os.environ, TB_REPO=d), capture_output=True, text=True)
        if r.returncode != 0:
            l = [x.strip() for x in r.stdout.splitlines() if x.startswith('  ')]
            print(rid, p, 'rc=%d' % r.returncode, '\n      '.join([''] + [x[:400] for x in l[:4]]), r.stderr[-500:], flush=True)
        else:
            quiet.append(p)
    print(rid, 'quiet: %d of %d' % (len(quiet), len(props)), flush=True)
    shutil.rmtree(d)
