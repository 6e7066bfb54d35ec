#!/usr/bin/env python3
"""Development aid: systematic mutants of the crate. Those which compile and pass the tests and that no check reports are listed to be looked at.
usage: mutate.py gen|filter|check   (state in /tmp/mut)"""
import json
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

M = '/tmp/mut'
FILES = ['src/tagged_pointer.rs', 'src/tagged_box.rs', 'src/discriminant.rs', 'src/lib.rs', 'src/taggable.rs', 'src/tagged_box_macro/mod.rs', 'src/tagged_box_macro/meta_macros.rs', 'build.rs']
TEXT = [(r' <= ', [' < ', ' != ', ' >= ']), (r' < ', [' <= ']), (r' == ', [' != ', ' >= ', ' <= ']), (r' != ', [' == ']), (r' \| ', [' & ', ' ^ ', ' + ']), (r'(?<=\w) & (?=\w)', [' | ', ' ^ ']),
        (r' << ', [' >> ']), (r' >> ', [' << ']), (r'!DISC', ['DISC']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bpub (const |unsafe |fn)', ['\\1', 'pub(crate) \\1']),
        (r'unsafe fn', ['fn']), (r'const fn', ['fn']), (r'#\[repr\(\w+\)\]', ['']), (r'\.read\(\)', ['.read_unaligned()', '.read_volatile()']), (r'&mut self', ['&self']),
        (r'mem::forget\(val\);', ['']), (r'mem::size_of::<U>\(\)', ['mem::align_of::<U>()', 'mem::size_of::<&U>()', 'mem::size_of::<usize>()']), (r'Layout::new::<U>\(\)', ['Layout::new::<u64>()', 'Layout::new::<[U; 2]>()', 'Layout::new::<(U, u8)>()', 'Layout::for_value(&val)', 'Layout::for_value(&&val)']),
        (r'align_of::<T>\(\)', ['size_of::<T>()', 'align_of::<usize>()', 'align_of::<u8>()', 'align_of::<&T>()']),
        (r'ManuallyDrop::new\(([^()]*(?:\([^()]*\))?[^()]*)\)', ['(\\1)']), (r'ManuallyDrop::<\$enum>::new', ['']), (r'\.write\(val\);', ['.write_unaligned(val);', '.write_volatile(val);', '.replace(val);', ';']),
        (r'alloc::alloc::alloc\(', ['alloc::alloc::alloc_zeroed(']), (r'POINTER_WIDTH', ['DISCRIMINANT_BITS', '(POINTER_WIDTH - 1)', '(POINTER_WIDTH + 1)', '60', '64']), (r'DISCRIMINANT_MASK', ['MAX_POINTER_VALUE', '(MAX_DISCRIMINANT as u64)', '(DISCRIMINANT_MASK >> 1)', '(DISCRIMINANT_MASK << 1)', '0x0000_FFFF_FFFF_FFFF']),
        (r'MAX_DISCRIMINANT', ['(MAX_DISCRIMINANT - 1)', 'Discriminant::MAX', '(MAX_DISCRIMINANT / 2)']), (r'MAX_POINTER_VALUE', ['u64::MAX', '(MAX_POINTER_VALUE - 1)', '(MAX_POINTER_VALUE >> 1)']),
        (r'T: TaggableInner \+ [\w:<>]+( \+ Clone)?,', ['T: TaggableInner,', 'T: TaggableInner + Clone,']), (r'T: TaggableInner', ['T']), (r'fmt::Debug::fmt', ['fmt::Display::fmt']), (r'fmt::Display::fmt', ['fmt::Debug::fmt']),
        (r'PhantomData<T>', ['PhantomData<*const T>', 'PhantomData<fn() -> T>', 'PhantomData<&\'static T>', 'PhantomData<core::sync::atomic::AtomicPtr<T>>']), (r'PhantomData,', []),
        (r'this == other', ['other == this', 'this != other', 'core::ptr::eq(this, other)']), (r'this\.partial_cmp\(other\)', ['other.partial_cmp(this)']), (r'this\.cmp\(other\)', ['other.cmp(this)', 'this.cmp(this)']),
        (r'\$crate::', ['']), (r'::core::', ['core::', '']), (r'as \$crate::Discriminant', ['as u8 as $crate::Discriminant', 'as i8 as $crate::Discriminant', 'as u8 as _']), (r'\bself\b', ['other']), (r'\bu16\b', ['u8', 'u32']), (r'\bu8\b', ['u16']),
        (r'u64', ['u32 as u64', 'usize']), (r'\(\$\( \$ty, \)\*\)', ['($( $ty ),*)']), (r'\$\(', []), (r'as_raw_u64\(\)', ['as_u64()']), (r'as_u64\(\)', ['as_raw_u64()']), (r'\.discriminant\(\)', ['.discriminant() & 7', '.discriminant() % 16']),
        (r'\$counter::\$variant', []), (r'- 1', ['- 2', '- 0', '+ 1']), (r'"(\d\d)bits" =>', ['"\\1bit" =>', '"\\1bits" | "\\1" =>']), (r'reserve_(\d\d)bits"\)', ['reserve_60bits")', 'reserve_48bits")']),
        (r'Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord', ['Copy, Clone, PartialEq, Eq, Hash', 'Clone, PartialEq, Eq, Hash, PartialOrd, Ord', 'Copy, Clone, Hash']), (r'let mut output = None', ['let mut output: Option<T> = None']),
        (r'&\*variant', ['&::core::mem::ManuallyDrop::into_inner(variant)']), (r'\bvar\b', [])]
NUM = r'(?<![\w.{$])\d+(?![\w.])'


def lines_of(f):
    ls = open('/repo/' + f).read().split('\n')
    n = len(ls)
    for i, l in enumerate(ls):
        if l.startswith('#[cfg(test)]'):
            n = i
            break
    return ls, n


def gen():
    out = []

    def add(f, ls, i, new, why):
        if '\n'.join(new) == ls[i] if new else False:
            return
        out.append({'file': f, 'line': i, 'old': ls[i], 'new': new, 'why': why})
    for f in FILES:
        ls, n = lines_of(f)
        for i in range(n):
            l = ls[i]
            s = l.strip()
            if not s or s.startswith('//') or s.startswith('"') or s.startswith('use '):
                continue
            code = l.split(' // ')[0]
            for pat, reps in TEXT:
                for m in re.finditer(pat, code):
                    for r in reps:
                        x = code[:m.start()] + m.expand(r) + code[m.end():]
                        if x != code:
                            add(f, ls, i, [x], '%s -> %s' % (m.group(0), r))
            if f.endswith('discriminant.rs') or f.endswith('lib.rs') or f.endswith('tagged_pointer.rs') or f.endswith('tagged_box.rs'):
                for m in re.finditer(NUM, code):
                    for d in (-1, 1):
                        v = int(m.group(0)) + d
                        if v >= 0:
                            add(f, ls, i, [code[:m.start()] + str(v) + code[m.end():]], 'number')
            if s.endswith(';') and not s.startswith(('pub use', 'mod', 'pub mod', 'extern')):
                add(f, ls, i, [], 'delete line')
            if s.startswith('#[') and 'inline' not in s and 'clippy' not in s and 'doc' not in s:
                add(f, ls, i, [], 'delete attribute')
            # swap with the next line
            if i + 1 < n and s.endswith((';', ',')) and ls[i + 1].strip().endswith((';', ',')) and len(l) - len(l.lstrip()) == len(ls[i + 1]) - len(ls[i + 1].lstrip()):
                out.append({'file': f, 'line': i, 'old': l, 'new': [ls[i + 1], l], 'skip': 1, 'why': 'swap lines'})
        # delete a whole block that starts and ends at the same indentation
        for i in range(n):
            l = ls[i]
            if l.rstrip().endswith('{') and l.strip().startswith(('impl', 'assert!', '(', '$', 'if ')) or l.strip().startswith('assert!('):
                ind = len(l) - len(l.lstrip())
                for j in range(i + 1, min(n, i + 60)):
                    t = ls[j]
                    if t.strip() and len(t) - len(t.lstrip()) == ind and t.strip()[0] in '})':
                        out.append({'file': f, 'line': i, 'old': l, 'new': [], 'skip': j - i, 'why': 'delete block'})
                        break
    seen, r = set(), []
    for m in out:
        k = json.dumps(m, sort_keys=True)
        if k not in seen:
            seen.add(k)
            m['id'] = 'm%04d' % len(r)
            r.append(m)
    json.dump(r, open(M + '/all.json', 'w'), indent=0)
    print(len(r), 'mutants')


def write(d, m):
    ls, _ = lines_of(m['file'])
    assert ls[m['line']] == m['old']
    ls[m['line']:m['line'] + 1 + m.get('skip', 0)] = m['new']
    open(d + '/' + m['file'], 'w').write('\n'.join(ls))


def filt(n=4):
    r = json.load(open(M + '/all.json'))
    done = json.load(open(M + '/filter.json')) if os.path.exists(M + '/filter.json') else {}
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    q = queue.Queue()
    env = dict(os.environ, RUSTFLAGS='-A semicolon_in_expressions_from_macros', RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='0')
    for w in range(n):
        d = '%s/w%d' % (M, w)
        if not os.path.exists(d):
            subprocess.run('cp -a /repo %s; rm -r %s/target; rm -r %s/.git' % (d, d, d), shell=True)
        q.put(d)

    def one(m):
        if m['id'] in done:
            return
        d = q.get()
        try:
            write(d, m)
            p = subprocess.run('timeout 60 cargo check --offline -q 2>&1', shell=True, cwd=d, env=env, capture_output=True, text=True)
            if p.returncode:
                done[m['id']] = 'build'
                return
            p = subprocess.run('timeout 120 cargo test --offline -q --lib --tests 2>&1', shell=True, cwd=d, env=env, capture_output=True, text=True)
            if p.returncode:
                done[m['id']] = 'test'
                return
            p = subprocess.run('timeout 120 cargo test --offline -q --doc 2>&1', shell=True, cwd=d, env=env, capture_output=True, text=True)
            done[m['id']] = 'doctest' if p.returncode else 'survives'
        finally:
            shutil.copy('/repo/' + m['file'], d + '/' + m['file'])
            q.put(d)
    with ThreadPoolExecutor(n) as ex:
        for i, _ in enumerate(ex.map(one, r)):
            if i % 50 == 0:
                json.dump(done, open(M + '/filter.json', 'w'))
                print(i, flush=True)
    json.dump(done, open(M + '/filter.json', 'w'))
    from collections import Counter
    print(Counter(done.values()))


GUESS = {'src/tagged_pointer.rs': 'C01 C02 C24 C22 C18 C31 C17 C23 C21', 'src/tagged_box.rs': 'C10 C21 C11 C14 C15 C13 C17 C23 C24 C18 C31 C16 C22', 'src/discriminant.rs': 'C03 C01 C08', 'src/lib.rs': 'C24 C19 C17',
         'src/taggable.rs': 'C29 C17 C20', 'src/tagged_box_macro/mod.rs': 'C04 C05 C06 C07 C08 C09 C11 C20 C19 C17', 'src/tagged_box_macro/meta_macros.rs': 'C04 C20 C07', 'build.rs': 'C03'}


def check():
    r = json.load(open(M + '/all.json'))
    f = json.load(open(M + '/filter.json'))
    res = json.load(open(M + '/check.json')) if os.path.exists(M + '/check.json') else {}
    everything = ['C%02d' % i for i in list(range(1, 26)) + [29, 30, 31]]
    for m in r:
        if f.get(m['id']) != 'survives' or m['id'] in res:
            continue
        d = M + '/c'
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run('cp -a /repo %s; rm -r %s/target' % (d, d), shell=True)
        write(d, m)
        order = GUESS[m['file']].split()
        if ' as ' in m['why']:
            order = ['C08'] + order
        ws = re.findall(r'_(\d\d)bits', m['old']) + ['60', '55'] if '_reserve_' in m['old'] else ['60', '55']
        order += [p for p in everything if p not in order]
        caught = None
        for p in order:
            w = ws if p in GUESS[m['file']] or '_reserve_' in m['old'] else ws[:1]
            c = subprocess.run([HERE + '/check', p, 'quick'], cwd=HERE, env=dict(os.environ, TB_WIDTHS=','.join(dict.fromkeys(w)), TB_REPO=d), capture_output=True, text=True)
            if c.returncode:
                t = [x.strip() for x in c.stdout.splitlines() if x.startswith('  ')]
                caught = p + ' rc=%d ' % c.returncode + ' / '.join(x[:300] for x in t[:2])
                break
        res[m['id']] = caught
        json.dump(res, open(M + '/check.json', 'w'), indent=0)
        print(m['id'], m['file'], m['line'] + 1, m['why'], '|', m['old'].strip()[:100], '=>', (m['new'] or ['-'])[0].strip()[:100], '|', caught[:200] if caught else '*** NOT CAUGHT', flush=True)


globals()[{'gen': 'gen', 'filter': 'filt', 'check': 'check'}[sys.argv[1]]]()
