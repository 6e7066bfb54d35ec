"""Building probes against /repo and running the analysis on them."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TB_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'release', 'tbcheck')
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = os.path.join(VERIF, 'build')
        os.makedirs(base, exist_ok=True)
        SCRATCH = tempfile.mkdtemp(prefix='run', dir=base)
    return SCRATCH


def cleanup():
    if SCRATCH and os.path.isdir(SCRATCH):
        shutil.rmtree(SCRATCH, ignore_errors=True)


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()
    return _sysroot


def build_driver():
    src = os.path.join(VERIF, 'driver')
    newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(src, 'src')) for f in fs)
    if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= newest:
        return
    env = dict(os.environ)
    env.pop('RUSTFLAGS', None)
    p = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '-q'], cwd=src, env=env, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(DRIVER):
        raise SystemExit('cannot build the analysis driver:\n' + p.stderr[-3000:])
    os.utime(DRIVER)


def base_env(width, dbg=True):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUSTFLAGS', 'RUSTC', 'TAGGED_BOX')) or k in ('CARGO_HOME', 'RUSTUP_HOME', 'RUSTUP_TOOLCHAIN')}
    if 'CARGO_HOME' in os.environ:
        env['CARGO_HOME'] = os.environ['CARGO_HOME']
    if width is not None:
        env['TAGGED_BOX_RESERVED_WIDTH'] = width if isinstance(width, str) else '%dbits' % width
    onoff = 'on' if dbg else 'off'
    env['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Cdebug-assertions=%s -Coverflow-checks=%s --cap-lints=warn -Awarnings' % (onoff, onoff)
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_INCREMENTAL'] = '0'
    return env


def crate(name, src, edition='2021', extra=''):
    d = os.path.join(scratch(), name)
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "probe"\nversion = "0.0.0"\nedition = "%s"\n\n[workspace]\n\n[dependencies]\ntagged-box = { path = "%s" }\n%s' % (edition, REPO, extra))
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)
    return d


def errors_of(stderr):
    """the first compiler error, without positions"""
    out = []
    lines = stderr.splitlines()
    for i, l in enumerate(lines):
        if re.match(r'error(\[E\d+\])?:', l) and 'could not compile' not in l and 'aborting due to' not in l:
            loc = next((x.strip() for x in lines[i + 1:i + 4] if '-->' in x), '')
            out.append(l + ' ' + loc)
    if not out:
        i = stderr.find('panicked at')
        out = [stderr[i:i + 600] if i >= 0 else stderr.strip()[-500:]]
    return out


def analyse(prop, width, dbg, src, tag='', fit=None):
    """compile the probe crate under the analysis; its report, or an error"""
    name = '%s_%s_%s%s' % (prop, width if isinstance(width, int) else 'x', 'd' if dbg else 'r', tag)
    d = crate(name, src)
    env = base_env(width, dbg)
    out = os.path.join(d, 'report.json')
    env.update(RUSTC_WORKSPACE_WRAPPER=DRIVER, TBCHECK_CRATE='probe', TBCHECK_OUT=out, TBCHECK_PROP=prop.lower(), TBCHECK_REPO=os.path.realpath(REPO),
               TBCHECK_FIT=str(fit or 47), CARGO_TARGET_DIR=os.path.join(d, 'target'))
    p = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q'], cwd=d, env=env, capture_output=True, text=True, errors='replace')
    r = {'width': width, 'dbg': dbg}
    if os.path.exists(out):
        r.update(json.load(open(out)))
        r['stderr'] = ''
    else:
        r['error'] = errors_of(p.stderr)
    shutil.rmtree(d, ignore_errors=True)
    return r


def pmap(fn, items, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))
