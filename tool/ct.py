"""Compile-time witnesses: small programs the compiler has to accept or refuse.

Each witness is compiled (never run) against tagged-box as built from the
current tree. A witness that has to be refused comes with a twin that differs
only in the offending construct and has to be accepted, so that a refusal for
an unrelated reason is noticed.
"""
import json
import os
import shutil
import subprocess
import threading

import tb

_lock = threading.Lock()
_libs = {}


class Lib:
    """tagged-box's metadata for one width: type-checked, not code-generated"""

    def __init__(self, width):
        self.width = width
        name = 'lib_%s' % (width,)
        d = tb.crate(name, '')
        env = tb.base_env(width)
        env.pop('RUSTFLAGS')
        env['CARGO_TARGET_DIR'] = os.path.join(d, 'target')
        p = subprocess.run(['cargo', 'check', '--offline', '--message-format=json'], cwd=d, env=env, capture_output=True, text=True, errors='replace')
        self.error = None
        self.rmeta = None
        for l in p.stdout.splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact' and m['target']['name'].replace('-', '_') == 'tagged_box':
                for f in m['filenames']:
                    if f.endswith('.rmeta'):
                        self.rmeta = f
        if p.returncode != 0 or not self.rmeta:
            self.error = 'tagged-box does not build at %s: %s' % (width, '; '.join(tb.errors_of(p.stderr))[:400] or p.returncode)
        self.dir = d


def lib(width):
    with _lock:
        ev = _libs.get(width)
        if ev is None:
            ev = _libs[width] = [threading.Event(), None]
            mine = True
        else:
            mine = False
    if mine:
        ev[1] = Lib(width)
        ev[0].set()
    ev[0].wait()
    return ev[1]


_n = [0]


def rustc(lb, src, edition='2021', extern='tagged_box', name='witness', extra=(), lints=False):
    """the errors of one compilation: [(code, message, file, line, text)]"""
    with _lock:
        _n[0] += 1
        n = _n[0]
    d = os.path.join(tb.scratch(), 'w%d' % n)
    os.makedirs(d)
    f = os.path.join(d, 'lib.rs')
    with open(f, 'w') as h:
        h.write(src)
    cmd = ['rustc', '--crate-name', name, '--crate-type', 'lib', '--edition', edition, '--emit=metadata', '-o', os.path.join(d, 'out.rmeta'),
           '--error-format=json', *([] if lints else ['-Awarnings', '--cap-lints=warn']), '--extern', '%s=%s' % (extern, lb.rmeta), '-L', 'dependency=' + os.path.dirname(lb.rmeta)] + list(extra) + [f]
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', env=tb.base_env(None))
    errs = []
    for l in p.stderr.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('level') != 'error' or m['message'].startswith('aborting due to'):
            continue
        sp = next((s for s in m['spans'] if s['is_primary']), None)
        # where in the witness the error comes from, through macro expansions
        line = 0
        s = sp
        while s:
            if s['file_name'] == f:
                line = s['line_start']
            s = (s.get('expansion') or {}).get('span')
        errs.append(((m.get('code') or {}).get('code') or '', m['message'], line))
    if p.returncode != 0 and not errs:
        errs.append(('', 'compiler failed: ' + p.stderr[-300:], 0))
    shutil.rmtree(d, ignore_errors=True)
    return errs


class W:
    """one witness"""

    def __init__(self, name, src, refuse=None, twin=None, edition='2021', widths=None, extern='tagged_box', why='', lints=False):
        self.lints = lints
        self.name, self.src, self.refuse, self.twin, self.edition, self.widths, self.extern, self.why = name, src, refuse, twin, edition, widths, extern, why

    def run(self, width):
        """[] or the reasons it fails"""
        lb = lib(width)
        if lb.error:
            return [lb.error]
        if self.refuse is None:
            e = rustc(lb, self.src, self.edition, self.extern, lints=self.lints)
            return ['%s: not accepted: %s' % (self.why or 'has to compile', fmt(e))] if e else []
        e = rustc(lb, self.src, self.edition, self.extern, lints=self.lints)
        bad = []
        if not e:
            bad.append('%s: accepted by the compiler' % (self.why or 'must not compile'))
        elif not all(c in self.refuse for c, _, _ in e):
            bad.append('%s: refused for another reason: %s' % (self.why, fmt([x for x in e if x[0] not in self.refuse])))
        if self.twin is not None:
            e = rustc(lb, self.twin, self.edition, self.extern, lints=self.lints)
            if e:
                bad.append('%s: the permitted counterpart is not accepted: %s' % (self.why, fmt(e)))
        return bad


def fmt(errs):
    return '; '.join('%s%s (line %d)' % (c + ' ' if c else '', m.split('\n')[0], l) for c, m, l in errs[:3])


def split(name, tmpl, good, bad, codes, why, **k):
    """a refused witness and its accepted twin from one text with @@"""
    return W(name, tmpl.replace('@@', bad), refuse=set(codes), twin=tmpl.replace('@@', good), why=why, **k)
