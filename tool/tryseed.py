#!/usr/bin/env python3
"""Development aid: run checks against scratch copies with a seeded change.
usage: tryseed.py [--all] [id...]"""
import json
import os
import shutil
import subprocess
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SEED = HERE + '/seeded'
a = sys.argv[1:]
full = '--all' in a
a = [x for x in a if x != '--all'] or sorted(os.listdir(SEED))
for b in a:
    m = json.load(open('%s/%s/meta.json' % (SEED, b)))
    d = '/tmp/tryseed/' + b
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs('/tmp/tryseed', exist_ok=True)
    subprocess.run('cp -a /repo %s; rm -rf %s/target' % (d, d), shell=True)
    r = subprocess.run('git apply %s/%s/patch.diff' % (SEED, b), shell=True, cwd=d)
    assert r.returncode == 0
    props = ['C%02d' % i for i in list(range(1, 26)) + [29, 30, 31, 32, 33, 34]] if full else [m['property']]
    out = []
    for p in props:
        r = subprocess.run([HERE + '/check', p, 'quick'], cwd=HERE, env=dict(os.environ, TB_REPO=d), capture_output=True, text=True)
        c = r.returncode == 1 and 'VIOLATION property=%s ' % p in r.stdout
        if c or p == m['property'] or r.returncode not in (0, 1):
            l = [x.strip() for x in r.stdout.splitlines() if x.startswith('  ')]
            out.append('%s %s' % (p, 'caught: ' + (l[0][:220] if l else '') if c else 'MISSED rc=%d %s' % (r.returncode, r.stderr[-300:])))
    shutil.rmtree(d)
    print(b, '[%s]' % m['property'], '\n    '.join([''] + out), flush=True)
