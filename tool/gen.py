"""Writes the probe crates: for a property and a reserved width, a Rust source
whose functions state, case by case, what the property demands."""
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
VP = open(os.path.join(HERE, '..', 'probes', 'vp.rs')).read()
HEAD = '#![recursion_limit = "4096"]\n#![allow(unused, non_snake_case, non_camel_case_types, clippy::all)]\n'


def maxd(w):
    return (1 << (64 - w)) - 1


def dty(w):
    return 'u8' if w >= 56 else 'u16'


def dbits(w):
    return 8 if w >= 56 else 16


# ---------------------------------------------------------------- variant shapes
# (name, kind, fields); kinds: unit, empty, one, tuple, struct, structc
ONE = ['u8', 'u32', 'u128', 'bool', 'char', 'f64', '[u8; 3]', '[u64; 9]', '(u8, u32)', 'A64', 'D',
       'DZ', 'Z32', 'String', 'Vec<u16>', 'Option<u32>', "&'static u32", 'fn(u8) -> u8', 'Packed', 'Box<u32>',
       '[u64; 0]', 'usize', 'A4096', 'Option<Box<u8>>', 'Sym']
POOL = ['u8', 'u32', 'u16', 'u64', 'bool', 'D', 'u8', '[u8; 3]', 'u128', 'String', 'DZ', 'u16', 'f32', 'A64', 'i64',
        'Option<u32>', 'u32', 'u8', '(u8, u32)', 'char']


# a deeper run repeats the analysis with other field types, orders and groupings
SALT = 0
MORE = ['i8', 'u16', 'i128', '[bool; 5]', '(u64, u8, u16)', '[[u8; 3]; 3]', 'core::ptr::NonNull<u8>', 'core::num::NonZeroU32', "Option<&'static u8>", 'Result<u8, u16>', '(D, u8)', '[D; 2]',
        'core::cell::Cell<u32>', 'core::marker::PhantomData<u8>', '*mut u8', 'Option<Option<bool>>', 'Vec<Vec<u8>>', '(u8, A64)', '[Z32; 3]', 'f32', 'Box<u64>', "&'static [u8; 7]", '[u16; 100]', '((), DZ, u8)', 'Option<D>']


def tuple_fields(n, salt=None):
    if salt is None:
        salt = SALT
    return [POOL[(i * (1 + salt % 3) + salt * 7 + n) % len(POOL)] for i in range(n)]


def shapes():
    v = [('Unit', 'unit', []), ('Empty', 'empty', [])]
    v += [('One%d' % i, 'one', [t]) for i, t in enumerate(ONE)]
    v += [('Tup%d' % n, 'tuple', tuple_fields(n)) for n in range(2, 33)]
    v += [('Rep', 'tuple', ['u8'] * 4), ('Zst', 'tuple', ['()', 'DZ']), ('Pad', 'tuple', ['u8', 'u64', 'u8', 'u32', 'u8']),
          ('Big', 'tuple', ['[u64; 9]', 'u8', 'A64', 'u16'])]
    v += [('St1', 'struct', ['u64']), ('St3', 'struct', ['u8', 'u32', 'u16']), ('Stc1', 'structc', ['D']),
          ('Stc5', 'structc', ['bool', 'String', 'u8', 'u8', 'A64']), ('StZ', 'struct', ['DZ', 'Z32']),
          ('St40', 'structc', [POOL[i % len(POOL)] for i in range(40)]), ('StRep', 'struct', ['u16', 'u8', 'u16', 'u8', 'u32']),
          ('Unit2', 'unit', [])]
    if SALT:
        # other types in the same places, other variants first
        v = [(n, k, [MORE[(SALT * 11 + i) % len(MORE)]] if k == 'one' and n not in ('One10', 'One11', 'One24') else f) for i, (n, k, f) in enumerate(v)]
        v = [(n, k, tuple_fields(len(f)) if n in ('St3', 'Stc5', 'St40', 'Pad', 'Big') else f) for n, k, f in v]
        r = SALT * 17 % len(v)
        v = v[r:] + v[:r]
        v = v[::2] + v[1::2]
    return v


def light_shapes():
    """a few shapes of every kind, for the probes whose cost grows with the number of cases"""
    keep = {'Unit', 'Empty', 'One0', 'One10', 'One11', 'One9', 'One13', 'One24', 'Tup2', 'Tup5', 'Tup12', 'Zst', 'Pad', 'St3', 'Stc5', 'Stc1', 'StZ'}
    return [s for s in shapes() if s[0] in keep]


def vdecl(s):
    n, k, f = s
    if k == 'unit':
        return n
    if k == 'empty':
        return n + '()'
    if k in ('one', 'tuple'):
        return '%s(%s)' % (n, ', '.join(f))
    body = ', '.join('f%d: %s' % (i, t) for i, t in enumerate(f))
    return '%s { %s%s }' % (n, body, ',' if k == 'structc' else '')


def vpat(s, e):
    n, k, f = s
    if k == 'unit':
        return '%s::%s' % (e, n)
    if k == 'empty':
        return '%s::%s()' % (e, n)
    if k in ('one', 'tuple'):
        return '%s::%s(%s)' % (e, n, ', '.join('f%d' % i for i in range(len(f))))
    return '%s::%s { %s }' % (e, n, ', '.join('f%d' % i for i in range(len(f))))


def vany(s, e):
    n, k, f = s
    return '%s::%s%s' % (e, n, '' if k == 'unit' else '(..)' if k in ('one', 'tuple', 'empty') else ' { .. }')


def chunks(ss, w, size=8, spare=0):
    """enums of at most `size` variants, fewer where the width allows fewer;
    single-field and tuple variants of one enum have distinct types"""
    cap = max(1, min(size, maxd(w) + 1 - spare))
    out = []
    for s in ss:
        for c in out:
            if len(c) < cap and (s[1] not in ('one', 'tuple', 'empty') or all(x[1] not in ('one', 'tuple', 'empty') or (x[1], x[2]) != (s[1], s[2]) for x in c)):
                c.append(s)
                break
        else:
            out.append([s])
    return out


def enums(ss, w, size=8, spare=0, derive='', pre='E'):
    """[(enum name, container name, shapes, source)]"""
    r = []
    for i, c in enumerate(chunks(ss, w, size, spare)):
        e, k = '%s%d' % (pre, i), '%sC%d' % (pre, i)
        # rotate so that every kind is first somewhere
        c = c[i % len(c):] + c[:i % len(c)]
        src = 'tagged_box::tagged_box! {\n    %s\n    pub struct %s, pub enum %s {\n        %s,\n    }\n}\n' % (derive, k, e, ',\n        '.join(vdecl(s) for s in c))
        r.append((e, k, c, src))
    return r


def many(w, n=300):
    """an enum of as many variants as the width allows (up to n), of every kind"""
    n = min(maxd(w) + 1, n)
    c = []
    for i in range(n):
        c.append([('V%d' % i, 'unit', []), ('V%d' % i, 'struct', [['u8', 'u16', 'u32'][i % 3]]), ('V%d' % i, 'one', ['[u8; %d]' % (i // 5 + 1)]),
                  ('V%d' % i, 'structc', ['u8', 'u32']), ('V%d' % i, 'tuple', ['u16', '[u16; %d]' % (i // 5)])][i % 5])
    return ('Many', 'ManyC', c, 'tagged_box::tagged_box! {\n    pub struct ManyC, pub enum Many {\n        %s,\n    }\n}\n' % ',\n        '.join(vdecl(s) for s in c))


# ---------------------------------------------------------------- probes
def c01(w):
    o = ['''
pub enum Any {}
pub fn c01__r__pointer(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let t = TaggedPointer::new(p, d);
    vp::check(t.discriminant() == d, "discriminant read back");
    vp::check(t.as_u64() == p, "address read back by as_u64");
    vp::check(t.as_ptr::<u8>() as u64 == p, "address read back by as_ptr");
    vp::check(t.as_ptr::<A64>() as u64 == p, "address read back by as_ptr");
    vp::check(t.as_mut_ptr::<u64>() as u64 == p, "address read back by as_mut_ptr");
    let raw = t.as_raw_u64();
    vp::check(TaggedPointer::strip_discriminant(raw) == p, "address split from the raw word");
    vp::check(TaggedPointer::fetch_discriminant(raw) == d, "discriminant split from the raw word");
    vp::check(TaggedPointer::store_discriminant(p, d) == raw, "raw word is the packed pair");
}
pub fn c01__r__split(raw: u64) {
    let p = TaggedPointer::strip_discriminant(raw);
    let d = TaggedPointer::fetch_discriminant(raw);
    vp::check(TaggedPointer::store_discriminant(p, d) == raw, "recombined word");
    vp::check(p <= MAX_POINTER_VALUE, "address within the limit");
    vp::check(d <= MAX_DISCRIMINANT, "discriminant within the limit");
}
pub fn c01__r__const_pointer(d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let t = TaggedPointer::dangling::<u16>(d);
    vp::check(t.discriminant() == d, "discriminant of a dangling pointer");
    vp::check(t.as_ptr::<u16>() as u64 == t.as_u64(), "accessors agree");
    vp::check(TaggedPointer::store_discriminant(t.as_u64(), d) == t.as_raw_u64(), "raw word of a dangling pointer");
}
pub fn c01__r__refs(x: u32, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut x = x;
    let a = &mut x as *mut u32 as u64;
    let mut t = TaggedPointer::new(a, d);
    unsafe {
        vp::check(t.as_ref::<u32>() as *const u32 as u64 == a, "address of as_ref");
        vp::check(t.as_mut_ref::<u32>() as *mut u32 as u64 == a, "address of as_mut_ref");
    }
    vp::check(t.discriminant() == d, "discriminant after borrowing");
}
pub fn c01__r__copies(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let t = TaggedPointer::new(p, d);
    let c = Clone::clone(&t);
    let mut e = TaggedPointer::dangling::<u64>(0);
    Clone::clone_from(&mut e, &t);
    let m = t;
    vp::check(c.as_raw_u64() == m.as_raw_u64() && e.as_raw_u64() == m.as_raw_u64(), "a copy is the same word");
    vp::check(c.discriminant() == d && e.discriminant() == d && m.discriminant() == d, "discriminant of a copy");
    vp::check(c.as_u64() == p && e.as_u64() == p && m.as_u64() == p, "address of a copy");
    vp::check(t.as_u64() == p && t.discriminant() == d, "the original after copying");
}
pub fn c01__r__any_type(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let t = TaggedPointer::new(p, d);
    vp::check(t.as_ptr::<Sym>() as u64 == p, "address read back by as_ptr");
    vp::check(t.as_mut_ptr::<Sym>() as u64 == p, "address read back by as_mut_ptr");
    vp::check(t.as_ptr::<()>() as u64 == p, "address read back by as_ptr");
    vp::check(t.as_mut_ptr::<Z32>() as u64 == p, "address read back by as_mut_ptr");
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut Sym, d) };
    vp::check(h.as_ptr::<Sym>() as u64 == p, "address read back by as_ptr");
    vp::check(h.as_mut_ptr::<Sym>() as u64 == p, "address read back by as_mut_ptr");
    vp::check(h.as_ptr::<()>() as u64 == p, "address read back by as_ptr");
    vp::check(h.as_mut_ptr::<DZ>() as u64 == p, "address read back by as_mut_ptr");
    vp::check(TaggedBox::into_raw::<Sym>(h) as u64 == p, "address read back by into_raw");
}
pub fn c01__r__from_raw(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut u8, d) };
    vp::check(h.discriminant() == d, "discriminant read back");
    vp::check(h.as_ptr::<u8>() as u64 == p, "address read back by as_ptr");
    vp::check(h.as_ptr::<u64>() as u64 == p, "address read back by as_ptr");
    vp::check(h.as_mut_ptr::<u32>() as u64 == p, "address read back by as_mut_ptr");
    vp::check(h.discriminant() == d, "discriminant read twice");
    vp::check(TaggedBox::into_raw::<u8>(h) as u64 == p, "address read back by into_raw");
}
''']
    for i, t in enumerate(['u8', 'u64', 'A64', 'D', 'Sym', 'Packed', '[u64; 9]']):
        for f in ('new', 'new_unchecked'):
            o.append('''
pub fn c01__r__%s_%d(v: %s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::%s(v, d) };
    vp::check(h.discriminant() == d, "discriminant read back");
    vp::block_of(h.as_ptr::<%s>(), "address read back by as_ptr");
    let p = h.as_ptr::<%s>() as u64;
    vp::check(h.as_mut_ptr::<%s>() as u64 == p, "address read back by as_mut_ptr");
    unsafe {
        vp::check(h.as_ref::<%s>() as *const _ as u64 == p, "address of as_ref");
        vp::check(h.as_mut_ref::<%s>() as *mut _ as u64 == p, "address of as_mut_ref");
    }
    vp::check(TaggedBox::into_raw::<%s>(h) as u64 == p, "address read back by into_raw");
}''' % (f, i, t, f, t, t, t, t, t, t))
    for i, t in enumerate(['u8', 'u64', 'A64', 'D', 'Sym', 'Packed', '[u64; 9]', '()', 'DZ', 'Z32', '[u64; 0]']):
        o.append("""
pub fn c01__r__from_raw_%(i)d(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut %(t)s, d) };
    vp::check(h.discriminant() == d, "discriminant read back");
    vp::check(h.as_ptr::<%(t)s>() as u64 == p, "address read back by as_ptr");
    vp::check(h.as_mut_ptr::<%(t)s>() as u64 == p, "address read back by as_mut_ptr");
    vp::check(TaggedBox::into_raw::<%(t)s>(h) as u64 == p, "address read back by into_raw");
}""" % dict(i=i, t=t))
    for i, t in enumerate(['()', 'DZ', 'Z32', '[u64; 0]']):
        for f in ('new(v, d)', 'new_unchecked(v, d)', 'dangling::<%s>(d)' % t):
            o.append('''
pub fn c01__r__zst_%d_%s(v: %s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::%s };
    vp::check(h.discriminant() == d, "discriminant read back");
    let p = h.as_ptr::<%s>() as u64;
    vp::check(h.as_mut_ptr::<%s>() as u64 == p, "accessors agree");
    vp::check(p <= MAX_POINTER_VALUE, "address free of tag bits");
    vp::check(TaggedBox::into_raw::<%s>(h) as u64 == p, "accessors agree");
}''' % (i, f[:4].strip('('), t, f, t, t, t))
    return '\n'.join(o)


def c02(w):
    o = ['pub enum Any {}']
    cons = [('ptr_new', 'p: u64, d: Discriminant', 'let t = TaggedPointer::new(p, d);', 't.discriminant() == d && t.as_u64() == p', True),
            ('ptr_dangling', 'p: u64, d: Discriminant', 'let t = TaggedPointer::dangling::<u32>(d);', 't.discriminant() == d', False),
            ('box_from_raw', 'p: u64, d: Discriminant', 'let t: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut u8, d) };', 't.discriminant() == d && t.as_ptr::<u8>() as u64 == p', True),
            ('box_dangling', 'p: u64, d: Discriminant', 'let t: TaggedBox<Any> = TaggedBox::dangling::<u32>(d);', 't.discriminant() == d', False)]
    for i, t in enumerate(['u8', 'u64', 'A64', '[u64; 9]', 'Sym', '()', 'Z32', 'D', 'DZ']):
        cons.append(('box_new_%d' % i, 'v: %s, p: u64, d: Discriminant' % t, 'let t: TaggedBox<Any> = TaggedBox::new(v, d);', 't.discriminant() == d', False))
        cons.append(('box_newu_%d' % i, 'v: %s, p: u64, d: Discriminant' % t, 'let t: TaggedBox<Any> = unsafe { TaggedBox::new_unchecked(v, d) };', 't.discriminant() == d', False))
    for i, t in enumerate(['u64', 'A64', '[u64; 9]', 'Sym', '()', 'Z32', 'D', 'DZ']):
        cons.append(('box_from_raw_%d' % i, 'p: u64, d: Discriminant', 'let t: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut %s, d) };' % t, 't.discriminant() == d && t.as_ptr::<%s>() as u64 == p' % t, True))
    for n, par, mk, ok, addr in cons:
        o.append('pub fn c02__r__%s_ok(%s) {\n    vp::assume(p <= MAX_POINTER_VALUE);\n    vp::assume(d <= MAX_DISCRIMINANT);\n    %s\n    vp::check(%s, "the handle carries what was passed in");\n}' % (n, par, mk, ok))
        for b in range(64 - w, dbits(w)):
            if 'newu' in n:
                continue
            o.append('pub fn c02__p__%s_d%d(%s) {\n    vp::assume(p <= MAX_POINTER_VALUE);\n    vp::assume((d >> %d) & 1 == 1);\n    %s\n}' % (n, b, par, b, mk))
        if addr:
            for b in range(w, 64):
                o.append('pub fn c02__p__%s_p%d(%s) {\n    vp::assume(d <= MAX_DISCRIMINANT);\n    vp::assume((p >> %d) & 1 == 1);\n    %s\n}' % (n, b, par, b, mk))
    # blocks at addresses of which nothing is known
    for i, t in enumerate(['u8', 'u64', 'A64', 'Sym']):
        for f in ('new', 'new_unchecked'):
            o.append('pub fn c02__aw__%s_%d(v: %s, d: Discriminant) {\n    vp::assume(d <= MAX_DISCRIMINANT);\n    let h: TaggedBox<Any> = unsafe { TaggedBox::%s(v, d) };\n    vp::check(h.discriminant() == d, "discriminant as passed in");\n    vp::block_of(h.as_ptr::<%s>(), "address of the block");\n}' % (f, i, t, f, t))
    return '\n'.join(o)


def c03(w):
    return '''
pub fn c03__r__limits() {
    vp::check(POINTER_WIDTH == %d, "POINTER_WIDTH");
    vp::check(DISCRIMINANT_BITS == %d, "DISCRIMINANT_BITS");
    vp::check(MAX_DISCRIMINANT as u64 == %d, "MAX_DISCRIMINANT");
    vp::check(MAX_POINTER_VALUE == %d, "MAX_POINTER_VALUE");
    vp::check(DISCRIMINANT_MASK == %d, "DISCRIMINANT_MASK");
    vp::check(Discriminant::MAX as u64 >= %d, "width of Discriminant");
    vp::check(mem::size_of::<Discriminant>() * 8 >= %d, "width of Discriminant");
    vp::check(tagged_box::Discriminant::MAX == Discriminant::MAX, "re-exported Discriminant");
}
''' % (w, 64 - w, maxd(w), (1 << w) - 1, (1 << w) - 1, maxd(w), 64 - w)


def c04(w):
    o = []
    for e, k, c, src in enums(shapes(), w) + [many(w)]:
        o.append(src)
        o.append('''
pub fn c04__r__%s(e: %s) {
    let e0 = vp::copy(&e);
    let h = TaggableInner::into_tagged_box(e);
    let b = ManuallyDrop::new(<%s as TaggableInner>::from_tagged_box(h));
    vp::same(&*e0, &*b, "value taken back out");
}''' % (e, e, e))
    return '\n'.join(o)


def c05(w):
    o = []
    for e, k, c, src in enums(shapes(), w) + [many(w)]:
        o.append(src)
        o.append('''
pub fn c05__r__%s(e: %s) {
    let e0 = vp::copy(&e);
    let c = %s::from(e);
    let w: TaggedBox<%s> = unsafe { mem::transmute_copy(&c) };
    let b = ManuallyDrop::new(TaggableContainer::into_inner(c));
    vp::same(&*e0, &*b, "value handed back by the container");
    let b2 = ManuallyDrop::new(<%s as TaggableInner>::from_tagged_box(w));
    vp::same(&*e0, &*b2, "value from_tagged_box gives for the same handle");
}
pub fn c05__r__%s_handle(e: %s) {
    let e0 = vp::copy(&e);
    let h = TaggableInner::into_tagged_box(e);
    let c: %s = unsafe { mem::transmute_copy(&ManuallyDrop::new(h)) };
    let b = ManuallyDrop::new(c.into_inner());
    vp::same(&*e0, &*b, "value handed back for a handle made by into_tagged_box");
}''' % (e, e, k, e, e, e, e, k))
    return '\n'.join(o)


def c06(w):
    o = []
    for e, k, c, src in enums(shapes(), w) + [many(w)]:
        o.append(src)
        o.append('''
pub fn c06__r__%s(e: %s) {
    let e0 = vp::copy(&e);
    let h = TaggableInner::into_tagged_box(e);
    let word: u64 = unsafe { mem::transmute_copy(&h) };
    let mut i = 0;
    while i < 2 {
        let m = vp::mark();
        let mut n = 0;
        unsafe {
            <%s as TaggableInner>::ref_from_tagged_box(&h, |r| {
                n += 1;
                vp::same(&*e0, r, "value shown to the callback");
                vp::aligned(r as *const _, "reference given to the callback");
                vp::heap_same(m, "block while borrowed");
            });
        }
        vp::check(n == 1, "callback called exactly once");
        vp::heap_same(m, "block after borrowing");
        vp::no_new(m, "blocks left behind by borrowing");
        vp::quiet(m, "no destructor or allocation while borrowing");
        vp::check(unsafe { mem::transmute_copy::<_, u64>(&h) } == word, "handle after borrowing");
        i += 1;
    }
    let b = ManuallyDrop::new(<%s as TaggableInner>::from_tagged_box(h));
    vp::same(&*e0, &*b, "value taken out after borrowing");
}''' % (e, e, e, e))
    # an enum with a destructor of its own
    o.append('''
tagged_box::tagged_box! {
    struct DropC, enum DropE {
        U, A(u8),
    }
}
impl Drop for DropE {
    fn drop(&mut self) {
        unsafe { ext::dropped_zst() }
    }
}
pub fn c06__r__enum_with_drop(v: u8, unit: bool) {
    let d: Discriminant = if unit { 0 } else { 1 };
    let h: TaggedBox<DropE> = TaggedBox::new(v, d);
    let m = vp::mark();
    let mut n = 0;
    unsafe {
        DropE::ref_from_tagged_box(&h, |r| n += 1);
    }
    vp::check(n == 1, "callback called exactly once");
    vp::quiet(m, "no destructor while borrowing");
    vp::heap_same(m, "block after borrowing");
}
''' if w < 63 else '')
    o.append('''
tagged_box::tagged_box! {
    struct CellC, enum CellE {
        Cell(core::cell::Cell<u32>),
    }
}
pub fn c06__r__interior(a: u32, b: u32) {
    let h = TaggableInner::into_tagged_box(CellE::Cell(core::cell::Cell::new(a)));
    unsafe {
        CellE::ref_from_tagged_box(&h, |r| match r { CellE::Cell(c) => c.set(b) });
    }
    let CellE::Cell(c) = CellE::from_tagged_box(h);
    vp::check(c.get() == b, "a write through interior mutability of the borrowed view reaches the stored value");
}
''')
    return '\n'.join(o)


def c07(w):
    o = []
    for e, k, c, src in enums(shapes(), w) + [many(w)]:
        o.append(src)
        for s in c:
            n, kind, f = s
            if kind == 'one':
                o.append('''
pub fn c07__r__%s_%s(v: %s) {
    let v0 = vp::copy(&v);
    let c = %s::from(v);
    match c.into_inner() {
        %s::%s(x) => { vp::same(&*v0, &x, "the converted value"); mem::forget(x); }
        o => { mem::forget(o); vp::never("another variant"); }
    }
}''' % (e, n, f[0], k, e, n))
            elif kind in ('tuple', 'empty'):
                o.append('''
pub fn c07__r__%s_%s(t: (%s)) {
    let t0 = vp::copy(&t);
    let c = %s::from(t);
    match c.into_inner() {
        %s => { %s }
        o => { mem::forget(o); vp::never("another variant"); }
    }
}''' % (e, n, ''.join(t + ', ' for t in f), k, vpat(s, e), ' '.join('vp::same(&t0.%d, &f%d, "field %d"); mem::forget(f%d);' % (i, i, i, i) for i in range(len(f)))))
        o.append('''
pub fn c07__r__%s(e: %s) {
    let e0 = vp::copy(&e);
    let b = ManuallyDrop::new(%s::from(e).into_inner());
    vp::same(&*e0, &*b, "the converted enum");
}''' % (e, e, k))
    return '\n'.join(o)


def c08(w):
    o = []
    es = enums(shapes(), w)
    if maxd(w) >= 15:
        es += enums([s for s in shapes() if s[0] in ('Unit', 'Empty', 'One0', 'One1', 'One2', 'One3', 'One10', 'One11', 'One13', 'Tup2', 'Tup3', 'Tup7', 'Zst', 'St3', 'Stc5', 'Unit2')], w, 16, pre='F')
    for e, k, c, src in es:
        o.append(src)
        arms = ', '.join('%s => %d' % (vany(s, e), i) for i, s in enumerate(c))
        o.append('''
pub fn c08__r__%s(e: %s) {
    let k: u64 = match &e { %s };
    let h = TaggableInner::into_tagged_box(e);
    vp::check(h.discriminant() as u64 == k, "discriminant of the handle is the variant's position");
}
pub fn c08__r__%s_container(e: %s) {
    let k: u64 = match &e { %s };
    let c = %s::from(e);
    let h: ManuallyDrop<TaggedBox<%s>> = unsafe { mem::transmute_copy(&c) };
    vp::check(h.discriminant() as u64 == k, "discriminant of the container's handle is the variant's position");
}''' % (e, e, arms, e, e, arms, k, e))
    e, k, c, src = many(w)
    o.append(src)
    o.append('''
pub fn c08__r__many(e: Many) {
    let k: u64 = match &e { %s };
    let e0 = vp::copy(&e);
    let h = TaggableInner::into_tagged_box(e);
    vp::check(h.discriminant() as u64 == k, "discriminant of the handle is the variant's position");
    let b = <Many as TaggableInner>::from_tagged_box(h);
    vp::same(&*e0, &b, "variant read back");
}''' % ', '.join('%s => %d' % (vany(s, e), i) for i, s in enumerate(c)))
    return '\n'.join(o)


def c09(w):
    o = []
    for e, k, c, src in enums(shapes(), w, spare=1) + [many(w, min(maxd(w), 300))]:
        n = len(c)
        o.append(src)
        o.append('''
fn bad_%(e)s(addr: u64, d: Discriminant) -> TaggedBox<%(e)s> {
    vp::assume(addr <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    vp::assume(d >= %(n)d);
    unsafe { TaggedBox::from_raw(addr as *mut u8, d) }
}
pub fn c09__p__%(e)s_from(addr: u64, d: Discriminant) {
    let h = bad_%(e)s(addr, d);
    mem::forget(<%(e)s as TaggableInner>::from_tagged_box(h));
}
pub fn c09__p__%(e)s_into_inner(addr: u64, d: Discriminant) {
    let h = ManuallyDrop::new(bad_%(e)s(addr, d));
    let c: %(k)s = unsafe { mem::transmute_copy(&h) };
    mem::forget(c.into_inner());
}
pub fn c09__p__%(e)s_ref(addr: u64, d: Discriminant) {
    let h = bad_%(e)s(addr, d);
    unsafe { <%(e)s as TaggableInner>::ref_from_tagged_box(&h, |_| vp::never("callback called for an unknown discriminant")) }
}''' % dict(e=e, k=k, n=n))
    return '\n'.join(o)


PAY = ['u8', 'u16', 'u32', 'u64', 'u128', '[u8; 3]', '[u64; 9]', '[u8; 4096]', 'A64', 'A4096', 'D', 'Packed', "&'static str", 'Option<u32>', '(u8, u32)', 'Sym']
ZST = ['()', 'DZ', 'Z32', '[u64; 0]', '[A4096; 0]']


def c10(w):
    o = ['pub enum Any {}']
    for i, t in enumerate(PAY):
        for f in ('new', 'new_unchecked'):
            o.append('''
pub fn c10__rf__%s_%d(v: %s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let h: TaggedBox<Any> = unsafe { TaggedBox::%s(v, d) };
    vp::check(vp::allocs() == 1, "exactly one block is requested");
    vp::check(vp::frees() == 0, "the block is kept");
    vp::block_of(h.as_ptr::<%s>(), "block of the payload");
    vp::same(&*v0, unsafe { &*h.as_ptr::<%s>() }, "payload stored at the start of the block");
    vp::check(h.discriminant() == d, "discriminant of the handle");
}''' % (f, i, t, f, t, t))
    for i, t in enumerate(ZST):
        for f in ('new', 'new_unchecked'):
            o.append('''
pub fn c10__r__%s_z%d(v: %s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let m = vp::mark();
    let h: TaggedBox<Any> = unsafe { TaggedBox::%s(v, d) };
    vp::quiet(m, "nothing is allocated for a zero-sized payload");
    vp::check(h.discriminant() == d, "discriminant of the handle");
}''' % (f, i, t, f))
    return '\n'.join(o)


def drops_in(f):
    return sum(1 for t in f if t == 'D'), sum(1 for t in f if t == 'DZ')


def c11(w):
    o = ['pub enum Any {}']
    for i, (t, n) in enumerate([('D', 'dropped'), ('DZ', 'dropped_zst')]):
        for f in ('new', 'new_unchecked'):
            o.append('''
pub fn c11__r__%(f)s_into_inner_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let h: TaggedBox<Any> = unsafe { TaggedBox::%(f)s(v, d) };
    vp::check(vp::calls("%(n)s") == 0, "no destructor while storing");
    let b = unsafe { TaggedBox::into_inner::<%(t)s>(h) };
    vp::check(vp::calls("%(n)s") == 0, "no destructor while taking out");
    vp::same(&*v0, &b, "value taken out");
    drop(b);
    vp::check(vp::calls("%(n)s") == 1, "the caller drops the value once");
}
pub fn c11__r__%(f)s_into_box_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let h: TaggedBox<Any> = unsafe { TaggedBox::%(f)s(v, d) };
    let b = unsafe { TaggedBox::into_box::<%(t)s>(h) };
    vp::check(vp::calls("%(n)s") == 0, "no destructor before the box is dropped");
    drop(b);
    vp::check(vp::calls("%(n)s") == 1, "the box drops the value once");
}
pub fn c11__r__%(f)s_handle_drop_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let h: TaggedBox<Any> = unsafe { TaggedBox::%(f)s(v, d) };
    let mut h = h;
    let p = h.as_mut_ptr::<%(t)s>();
    let r = unsafe { h.as_mut_ref::<%(t)s>() };
    vp::check(vp::calls("%(n)s") == 0, "no destructor while the value is stored");
}
pub fn c11__r__%(f)s_panic_%(i)d(v: %(t)s, d: Discriminant) {
    let p = vp::catch(move || mem::forget::<TaggedBox<Any>>(unsafe { TaggedBox::%(f)s(v, d) }));
    vp::check(vp::calls("%(n)s") <= 1, "destructor at most once when storing panics");
    if !p {
        vp::check(vp::calls("%(n)s") == 0, "no destructor while storing");
    }
}''' % dict(f=f, i=i, t=t, n=n))
    for e, k, c, src in enums(shapes(), w):
        arms = ', '.join('%s => (%d, %d)' % ((vany(s, e),) + drops_in(s[2])) for s in c)
        o.append(src)
        o.append('''
pub fn c11__r__%(e)s(e: %(e)s) {
    let (nd, nz): (usize, usize) = match &e { %(arms)s };
    let h = TaggableInner::into_tagged_box(e);
    vp::check(vp::events() == 0, "no destructor while storing");
    let b = ManuallyDrop::new(<%(e)s as TaggableInner>::from_tagged_box(h));
    vp::check(vp::events() == 0, "no destructor while taking out");
}
pub fn c11__r__%(e)s_container(e: %(e)s) {
    let (nd, nz): (usize, usize) = match &e { %(arms)s };
    let h = %(k)s::from(e);
    vp::check(vp::events() == 0, "no destructor while storing");
    let b = ManuallyDrop::new(TaggableContainer::into_inner(h));
    vp::check(vp::events() == 0, "no destructor while taking out");
}''' % dict(e=e, k=k, arms=arms))
    # enums whose destructors can be followed: the value taken out drops each field once
    o.append('''
tagged_box::tagged_box! {
    pub struct DrC, pub enum Dr {
        %s,
    }
}
pub fn c11__r__fields_once(e: Dr) {
    let n: usize = match &e { %s };
    let b = <Dr as TaggableInner>::from_tagged_box(TaggableInner::into_tagged_box(e));
    drop(b);
    vp::check(vp::events() == n, "each destructor runs once when the value taken out is dropped");
}
pub fn c11__r__fields_once_container(e: Dr) {
    let n: usize = match &e { %s };
    drop(TaggableContainer::into_inner(DrC::from(e)));
    vp::check(vp::events() == n, "each destructor runs once when the value taken out is dropped");
}''' % ((('A(D), B(D, u8, DZ)'), 'Dr::A(..) => 1, Dr::B(..) => 2', 'Dr::A(..) => 1, Dr::B(..) => 2') if w == 63 else
        ('A(D), B(D, u8, DZ), S { x: DZ, y: D, }, U', 'Dr::A(..) => 1, Dr::B(..) => 2, Dr::S { .. } => 2, Dr::U => 0', 'Dr::A(..) => 1, Dr::B(..) => 2, Dr::S { .. } => 2, Dr::U => 0')))
    o.append('''
tagged_box::tagged_box! {
    pub struct OwnC, pub enum Own {
        A(u32),
        B(u8, u16),
    }
}
impl Drop for Own {
    fn drop(&mut self) {
        unsafe { ext::dropped_zst() }
    }
}
pub fn c11__r__enum_with_drop(e: Own) {
    let h = TaggableInner::into_tagged_box(e);
    vp::check(vp::events() == 0, "no destructor of an enum with its own Drop while it is stored");
    mem::forget(h);
}''')
    return '\n'.join(o)


# ---------------------------------------------------------------- user operations of the enums
def opaque_impls(e, ops='clone eq partial_cmp cmp debug display'):
    """trait impls of which only the signature is known"""
    ext = {'clone': 'fn clone_%(e)s(a: &%(e)s) -> %(e)s;', 'eq': 'fn eq_%(e)s(a: &%(e)s, b: &%(e)s) -> bool;',
           'partial_cmp': 'fn pcmp_%(e)s(a: &%(e)s, b: &%(e)s) -> Option<core::cmp::Ordering>;',
           'cmp': 'fn cmp_%(e)s(a: &%(e)s, b: &%(e)s) -> core::cmp::Ordering;',
           'debug': 'fn debug_%(e)s(a: &%(e)s, f: &mut fmt::Formatter<\'_>) -> fmt::Result;',
           'display': 'fn display_%(e)s(a: &%(e)s, f: &mut fmt::Formatter<\'_>) -> fmt::Result;',
           'callback': 'fn callback_%(e)s(a: &%(e)s);'}
    imp = {'clone': 'impl Clone for %(e)s { fn clone(&self) -> Self { unsafe { clone_%(e)s(self) } } }',
           'eq': 'impl PartialEq for %(e)s { fn eq(&self, o: &Self) -> bool { unsafe { eq_%(e)s(self, o) } } }\nimpl Eq for %(e)s {}',
           'partial_cmp': 'impl PartialOrd for %(e)s { fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> { unsafe { pcmp_%(e)s(self, o) } } }',
           'cmp': 'impl Ord for %(e)s { fn cmp(&self, o: &Self) -> core::cmp::Ordering { unsafe { cmp_%(e)s(self, o) } } }',
           'debug': 'impl fmt::Debug for %(e)s { fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result { unsafe { debug_%(e)s(self, f) } } }',
           'display': 'impl fmt::Display for %(e)s { fn fmt(&self, f: &mut fmt::Formatter<\'_>) -> fmt::Result { unsafe { display_%(e)s(self, f) } } }'}
    ops = ops.split()
    return ('extern "Rust" {\n    %s\n}\n' % '\n    '.join(ext[o] for o in ops + ['callback']) + '\n'.join(imp[o] for o in ops) + '\n') % dict(e=e)


# payloads whose own operations are unknown, for the derived case
QDECL = """
extern "Rust" {
    fn q_clone(a: &Q) -> Q;
    fn q_eq(a: &Q, b: &Q) -> bool;
    fn q_pcmp(a: &Q, b: &Q) -> Option<core::cmp::Ordering>;
    fn q_cmp(a: &Q, b: &Q) -> core::cmp::Ordering;
    fn q_debug(a: &Q, f: &mut fmt::Formatter<'_>) -> fmt::Result;
}
pub struct Q(pub u64);
impl Clone for Q { fn clone(&self) -> Q { unsafe { q_clone(self) } } }
impl PartialEq for Q { fn eq(&self, o: &Q) -> bool { unsafe { q_eq(self, o) } } }
impl Eq for Q {}
impl PartialOrd for Q { fn partial_cmp(&self, o: &Q) -> Option<core::cmp::Ordering> { unsafe { q_pcmp(self, o) } } }
impl Ord for Q { fn cmp(&self, o: &Q) -> core::cmp::Ordering { unsafe { q_cmp(self, o) } } }
impl fmt::Debug for Q { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { unsafe { q_debug(self, f) } } }
"""


def q_enums(w, derive):
    ss = [('A', 'one', ['Q']), ('B', 'unit', []), ('C', 'tuple', ['u8', 'Q', 'u16']), ('S', 'structc', ['Q', 'u32', 'Q'])]
    return enums(ss, w, 4, derive=derive, pre='Q')


def vmake(s, e):
    n, k, f = s
    if k == 'unit':
        return '%s::%s' % (e, n)
    if k in ('one', 'tuple', 'empty'):
        return '%s::%s(%s)' % (e, n, ', '.join('vp::any::<%s>()' % t for t in f))
    return '%s::%s { %s }' % (e, n, ', '.join('f%d: vp::any::<%s>()' % (i, t) for i, t in enumerate(f)))


def other(c, e):
    """a second value of the enum: of the last variant that has fields"""
    return vmake(([s for s in c if s[2]] or c)[-1], e)


# operations on a handle by shared reference, with the statement of each
SHARED = [('discriminant', 'h.discriminant();'), ('as_ptr', 'h.as_ptr::<u8>();'), ('clone', 'mem::forget(h.clone());'),
          ('eq', '*h == *g;'), ('ne', '*h != *g;'), ('lt', '*h < *g;'), ('ge', '*h >= *g;'), ('partial_cmp', 'h.partial_cmp(g);'), ('cmp', 'Ord::cmp(h, g);'),
          ('self_eq', '*h == *h;'), ('self_cmp', 'Ord::cmp(h, h);'), ('clone_from', 'let mut k = mem::ManuallyDrop::new(unsafe { core::ptr::read(g) }); '),
          ('debug', 'let _ = fmt::Debug::fmt(h, f);'), ('display', 'let _ = fmt::Display::fmt(h, f);'), ('lower_hex', 'let _ = fmt::LowerHex::fmt(h, f);'),
          ('binary', 'let _ = fmt::Binary::fmt(h, f);'), ('borrow', 'unsafe { %(e)s::ref_from_tagged_box(h, |r| callback_%(e)s(r)) }'),
          ('borrow_both', 'unsafe { %(e)s::ref_from_tagged_box(h, |r| %(e)s::ref_from_tagged_box(g, |s| { callback_%(e)s(r); callback_%(e)s(s); callback_%(e)s(r) })) }'),
          ('borrow_within', 'unsafe { %(e)s::ref_from_tagged_box(h, |r| { %(e)s::ref_from_tagged_box(h, |s| callback_%(e)s(s)); let _ = (h.discriminant(), h.as_ptr::<u8>()); callback_%(e)s(r) }) }'),
          ('clone_within', 'unsafe { %(e)s::ref_from_tagged_box(h, |r| { mem::forget(h.clone()); callback_%(e)s(r) }) }')]
SHARED = [x for x in SHARED if x[0] != 'clone_from']


def no_drop(ss):
    return [s for s in ss if not set(s[2]) & {'D', 'DZ', 'String', 'Vec<u16>', 'Box<u32>', 'Option<Box<u8>>', '(D, u8)', '[D; 2]', 'core::cell::Cell<u32>', 'Vec<Vec<u8>>', 'Box<u64>', '((), DZ, u8)', 'Option<D>'}]


def c12(w):
    o = []
    for e, k, c, src in enums(shapes(), w):
        o.append(src + opaque_impls(e))
        for n, st in SHARED:
            if n == 'clone_within' and e[1:] != '0':
                continue
            o.append("""
pub fn c12__r__%(e)s_%(n)s(a: %(e)s, b: u8, f: &mut fmt::Formatter<'_>) {
    let a0 = vp::copy(&a);
    let h = ManuallyDrop::new(a.into_tagged_box());
    let g: ManuallyDrop<TaggedBox<%(e)s>> = ManuallyDrop::new((%(v)s).into_tagged_box());
    let (h, g): (&TaggedBox<%(e)s>, &TaggedBox<%(e)s>) = (&h, &g);
    let (w1, w2): (u64, u64) = unsafe { (mem::transmute_copy(h), mem::transmute_copy(g)) };
    let m = vp::mark();
    %(st)s
    vp::heap_same(m, "storage after the operation");
    %(st)s
    vp::heap_same(m, "storage after repeating the operation");
    vp::check(unsafe { mem::transmute_copy::<_, u64>(h) } == w1 && unsafe { mem::transmute_copy::<_, u64>(g) } == w2, "handles after the operation");
    vp::check(vp::frees() == 0, "nothing is freed");
    vp::check(vp::calls("dropped") + vp::calls("dropped_zst") == 0, "no destructor of a stored value");
}""" % dict(e=e, n=n, st=st % dict(e=e) if '%' in st else st, v=other(c, e)))
    # copies of a handle exist where the enum is Copy
    for e, k, c, src in enums(no_drop(shapes()), w, derive='#[derive(Clone, Copy)]', pre='T'):
        o.append(src)
        o.append("""
pub fn c12__r__%(e)s_take_out(a: %(e)s) {
    let a0 = vp::copy(&a);
    let h = a.into_tagged_box();
    let h2 = h;
    let c: %(k)s = unsafe { mem::transmute_copy(&h) };
    let m = vp::mark();
    let x = ManuallyDrop::new(%(e)s::from_tagged_box(h));
    vp::heap_same(m, "storage after from_tagged_box");
    vp::check(vp::frees() == 0, "nothing is freed by from_tagged_box");
    let y = ManuallyDrop::new(c.into_inner());
    vp::heap_same(m, "storage after the container's into_inner");
    vp::check(vp::frees() == 0, "nothing is freed by the container's into_inner");
    let z = ManuallyDrop::new(%(e)s::from_tagged_box(h2));
    vp::same(&*a0, &*x, "value taken out first");
    vp::same(&*a0, &*y, "value read through a copy of the handle");
    vp::same(&*a0, &*z, "value read through another copy of the handle");
}""" % dict(e=e, k=k))
    o.append('pub enum Any {}\ntagged_box::tagged_box! {\n    #[derive(Clone, Copy)]\n    pub struct MarkC, pub enum Mark { A(u32), B, }\n}')
    for i, t in enumerate([t for t in PAY + ZST if t not in ('D', 'DZ')]):
        o.append("""
pub fn c12__r__into_inner_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let h: TaggedBox<Mark> = TaggedBox::new(v, d);
    let h2: TaggedBox<Mark> = h;
    let m = vp::mark();
    let x = ManuallyDrop::new(unsafe { TaggedBox::into_inner::<%(t)s>(h) });
    vp::heap_same(m, "storage after into_inner");
    vp::quiet(m, "into_inner runs nothing else");
    let y = ManuallyDrop::new(unsafe { TaggedBox::into_inner::<%(t)s>(h2) });
    vp::same(&*v0, &*x, "value taken out first");
    vp::same(&*v0, &*y, "value read through a copy of the handle");
}""" % dict(i=i, t=t))
    for i, t in enumerate(PAY + ZST):
        o.append("""
pub fn c12__r__views_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let mut h: TaggedBox<Any> = TaggedBox::new(v, d);
    let m = vp::mark();
    unsafe {
        let r: &%(t)s = h.as_ref();
        vp::same(&*v0, r, "value seen by as_ref");
        let r: &%(t)s = h.as_ref();
        vp::same(&*v0, r, "value seen by as_ref again");
        let r: &mut %(t)s = h.as_mut_ref();
        vp::same(&*v0, r, "value seen by as_mut_ref");
    }
    h.discriminant();
    vp::heap_same(m, "storage after being viewed");
    vp::quiet(m, "viewing runs nothing else");
}""" % dict(i=i, t=t))
    # Copy enums: the copy stays readable after the original was consumed
    o.append("""
tagged_box::tagged_box! {
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct CopyC, pub enum CopyE {
        A(u32),
        %s
    }
}
pub fn c12__r__copies(a: CopyE) {
    let a0 = vp::copy(&a);
    let c = CopyC::from(a);
    let d = c;
    let e = c;
    let m = vp::mark();
    let x = c.into_inner();
    vp::heap_same(m, "storage after the first copy was consumed");
    let y = d.into_inner();
    vp::heap_same(m, "storage after the second copy was consumed");
    vp::same(&*a0, &x, "first copy");
    vp::same(&*a0, &y, "second copy");
    vp::same(&*a0, &e.into_inner(), "third copy");
}""" % ('B { x: u8, y: u64 },' if w == 63 else 'B { x: u8, y: u64 }, C, T(u8, [u16; 3]),'))
    return '\n'.join(o)


def c13(w):
    o = []
    es = [(e, k, c, src + opaque_impls(e, 'clone')) for e, k, c, src in enums(shapes(), w)]
    for e, k, c, src in es:
        o.append(src)
        o.append("""
pub fn c13__iu__%(e)s(e: %(e)s) -> (ManuallyDrop<%(e)s>, ManuallyDrop<%(e)s>) {
    let h = ManuallyDrop::new(e.into_tagged_box());
    let g = h.clone();
    (ManuallyDrop::new(%(e)s::from_tagged_box(ManuallyDrop::into_inner(g))), ManuallyDrop::new(%(e)s::from_tagged_box(ManuallyDrop::into_inner(h))))
}
pub fn c13__su__%(e)s(e: %(e)s) -> (ManuallyDrop<%(e)s>, ManuallyDrop<%(e)s>) {
    let e = ManuallyDrop::new(e);
    (e.clone(), e)
}
pub fn c13__r__%(e)s_block(e: %(e)s) {
    let e0 = vp::copy(&e);
    let h = ManuallyDrop::new(e.into_tagged_box());
    let w: u64 = unsafe { mem::transmute_copy(&h) };
    let before = (vp::allocs(), vp::live());
    let m = vp::mark();
    let mut g = h.clone();
    vp::check(unsafe { mem::transmute_copy::<_, u64>(&h) } == w, "handle of the original");
    vp::heap_same(m, "storage of the original after cloning");
    vp::check(vp::calls("clone_%(e)s") == 1, "the enum's Clone runs exactly once");
    vp::check(vp::events() == 1, "nothing else of the user's runs");
    vp::check(vp::frees() == 0, "nothing is freed");
    vp::check(vp::allocs() - before.0 <= 1 && vp::live() - before.1 <= 1, "at most one block for the clone");
    if vp::allocs() > before.0 {
        // the clone has a payload in memory: overwrite it
        let p = g.as_mut_ptr::<u8>();
        if before.0 > 0 {
            vp::check(p as u64 != h.as_ptr::<u8>() as u64, "the clone has a block of its own");
        }
        unsafe { *p = vp::any::<u8>() };
        vp::heap_same(m, "storage of the original after the clone was mutated");
    }
    vp::same(&*e0, &*ManuallyDrop::new(%(e)s::from_tagged_box(ManuallyDrop::into_inner(h))), "value of the original");
}
pub fn c13__r__%(e)s_original_changes(e: %(e)s) {
    let mut h = ManuallyDrop::new(e.into_tagged_box());
    let old = vp::allocs();
    let g = h.clone();
    if old > 0 {
        let a = ManuallyDrop::new(%(e)s::from_tagged_box(unsafe { mem::transmute_copy(&g) }));
        unsafe { *h.as_mut_ptr::<u8>() = vp::any::<u8>() };
        let b = ManuallyDrop::new(%(e)s::from_tagged_box(unsafe { mem::transmute_copy(&g) }));
        vp::same(&*a, &*b, "the clone after the original was mutated");
    }
}""" % dict(e=e, k=k))
    for e, k, c, src in enums(no_drop(light_shapes()), w, pre='O'):
        o.append(src + opaque_impls(e, 'clone'))
        o.append("""
pub fn c13__iu__%(e)s_from(a: %(e)s, b: %(e)s) -> (%(e)s, %(e)s) {
    let h = a.into_tagged_box();
    let mut g = b.into_tagged_box();
    g.clone_from(&h);
    (%(e)s::from_tagged_box(g), %(e)s::from_tagged_box(h))
}
pub fn c13__su__%(e)s_from(a: %(e)s, b: %(e)s) -> (%(e)s, %(e)s) {
    (a.clone(), a)
}""" % dict(e=e))
    o.append(QDECL)
    for e, k, c, src in q_enums(w, '#[derive(Clone)]'):
        o.append(src)
        o.append("""
pub fn c13__iu__%(k)s(e: %(e)s) -> (ManuallyDrop<%(e)s>, ManuallyDrop<%(e)s>) {
    let h = ManuallyDrop::new(%(k)s::from(e));
    let g = h.clone();
    (ManuallyDrop::new(ManuallyDrop::into_inner(g).into_inner()), ManuallyDrop::new(TaggableContainer::into_inner(ManuallyDrop::into_inner(h))))
}
pub fn c13__su__%(k)s(e: %(e)s) -> (ManuallyDrop<%(e)s>, ManuallyDrop<%(e)s>) {
    let e = ManuallyDrop::new(e);
    (e.clone(), e)
}
pub fn c13__iu__%(k)s_from(e: %(e)s, d: %(e)s) -> ManuallyDrop<%(e)s> {
    let h = ManuallyDrop::new(%(k)s::from(e));
    let mut g = ManuallyDrop::new(%(k)s::from(d));
    (*g).clone_from(&*h);
    ManuallyDrop::new(TaggableContainer::into_inner(ManuallyDrop::into_inner(g)))
}
pub fn c13__su__%(k)s_from(e: %(e)s, d: %(e)s) -> ManuallyDrop<%(e)s> {
    let e = ManuallyDrop::new(e);
    let d = ManuallyDrop::new(d);
    e.clone()
}""" % dict(e=e, k=k))
    return '\n'.join(o)


CMP = [('eq', '*%s == *%s', 'bool'), ('ne', '*%s != *%s', 'bool'), ('lt', '*%s < *%s', 'bool'), ('le', '*%s <= *%s', 'bool'), ('gt', '*%s > *%s', 'bool'), ('ge', '*%s >= *%s', 'bool'),
       ('partial_cmp', 'PartialOrd::partial_cmp(&*%s, &*%s)', 'Option<core::cmp::Ordering>'), ('cmp', 'Ord::cmp(&*%s, &*%s)', 'core::cmp::Ordering')]


def c14(w):
    o = []
    for e, k, c, src in enums(shapes(), w, 6):
        o.append(src + opaque_impls(e, 'eq partial_cmp cmp'))
        for n, x, ret in CMP:
            o.append("""
pub fn c14__iu__%(e)s_%(n)s(a: %(e)s, b: %(e)s) -> %(ret)s {
    let h = ManuallyDrop::new(a.into_tagged_box());
    let g = ManuallyDrop::new(b.into_tagged_box());
    %(xh)s
}
pub fn c14__su__%(e)s_%(n)s(a: %(e)s, b: %(e)s) -> %(ret)s {
    let a = ManuallyDrop::new(a);
    let b = ManuallyDrop::new(b);
    %(xs)s
}
pub fn c14__iu__%(e)s_%(n)s_same(a: %(e)s) -> %(ret)s {
    let h = ManuallyDrop::new(a.into_tagged_box());
    %(xhh)s
}
pub fn c14__su__%(e)s_%(n)s_same(a: %(e)s) -> %(ret)s {
    let a = ManuallyDrop::new(a);
    %(xss)s
}""" % dict(e=e, n=n, ret=ret, xh=x % ('h', 'g'), xs=x % ('a', 'b'), xhh=x % ('h', 'h'), xss=x % ('a', 'a')))
    nd = [s for s in no_drop(light_shapes()) if s[0] not in ('One24',)]
    for e, k, c, src in enums(nd[:4], w, 4, pre='M'):
        o.append(src + opaque_impls(e, 'eq partial_cmp cmp'))
        for n in ('max', 'min'):
            o.append("""
pub fn c14__iu__%(e)s_%(n)s(a: %(e)s, b: %(e)s) -> %(e)s {
    %(e)s::from_tagged_box(Ord::%(n)s(a.into_tagged_box(), b.into_tagged_box()))
}
pub fn c14__su__%(e)s_%(n)s(a: %(e)s, b: %(e)s) -> %(e)s {
    Ord::%(n)s(a, b)
}""" % dict(e=e, n=n))
        o.append("""
pub fn c14__iu__%(e)s_clamp(a: %(e)s, b: %(e)s, c: %(e)s) -> %(e)s {
    %(e)s::from_tagged_box(Ord::clamp(a.into_tagged_box(), b.into_tagged_box(), c.into_tagged_box()))
}
pub fn c14__su__%(e)s_clamp(a: %(e)s, b: %(e)s, c: %(e)s) -> %(e)s {
    Ord::clamp(a, b, c)
}""" % dict(e=e))
    o.append(QDECL)
    for e, k, c, src in q_enums(w, '#[derive(PartialEq, Eq, PartialOrd, Ord)]'):
        o.append(src)
        for n, x, ret in CMP:
            o.append("""
pub fn c14__iu__%(k)s_%(n)s(a: %(e)s, b: %(e)s) -> %(ret)s {
    let h = ManuallyDrop::new(%(k)s::from(a));
    let g = ManuallyDrop::new(%(k)s::from(b));
    %(xh)s
}
pub fn c14__su__%(k)s_%(n)s(a: %(e)s, b: %(e)s) -> %(ret)s {
    let a = ManuallyDrop::new(a);
    let b = ManuallyDrop::new(b);
    %(xs)s
}""" % dict(e=e, k=k, n=n, ret=ret, xh=x % ('h', 'g'), xs=x % ('a', 'b')))
    return '\n'.join(o)


def c15(w):
    o = []
    for e, k, c, src in enums(shapes(), w):
        o.append(src + opaque_impls(e, 'clone debug display'))
        for t in ('Debug', 'Display'):
            o.append("""
pub fn c15__iu__%(e)s_%(t)s(e: %(e)s, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let h = ManuallyDrop::new(e.into_tagged_box());
    fmt::%(t)s::fmt(&*h, f)
}
pub fn c15__su__%(e)s_%(t)s(e: %(e)s, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let e = ManuallyDrop::new(e);
    fmt::%(t)s::fmt(&*e, f)
}""" % dict(e=e, t=t))
    return '\n'.join(o)


def c16(w):
    o = []
    for e, k, c, src in enums(shapes(), w):
        o.append(src + opaque_impls(e))
        for n, st in SHARED:
            # a clone that was made before the panic is the caller's own
            if n in ('discriminant', 'as_ptr', 'lower_hex', 'binary', 'clone_within'):
                continue
            o.append("""
pub fn c16__au__%(e)s_%(n)s(a: %(e)s, f: &mut fmt::Formatter<'_>) {
    let a0 = vp::copy(&a);
    let h = ManuallyDrop::new(a.into_tagged_box());
    let g: ManuallyDrop<TaggedBox<%(e)s>> = ManuallyDrop::new((%(v)s).into_tagged_box());
    let g0 = vp::copy(&*g);
    let word: u64 = unsafe { mem::transmute_copy(&h) };
    {
        let (h, g): (&TaggedBox<%(e)s>, &TaggedBox<%(e)s>) = (&h, &g);
        let m = vp::mark();
        let panicked = vp::catch(|| { %(st)s });
        vp::heap_same(m, "storage after a panic in user code");
        vp::check(vp::frees() == 0, "nothing is freed");
        vp::check(vp::calls("dropped") + vp::calls("dropped_zst") == 0, "no destructor of a stored value");
        if panicked {
            vp::no_new(m, "blocks left behind by a panic");
        }
    }
    vp::check(unsafe { mem::transmute_copy::<_, u64>(&h) } == word, "handle after a panic in user code");
    let m = vp::mark();
    let b = ManuallyDrop::new(%(e)s::from_tagged_box(ManuallyDrop::into_inner(h)));
    vp::same(&*a0, &*b, "value taken out afterwards");
    vp::quiet(m, "taking the value out afterwards runs nothing");
}""" % dict(e=e, n=n, st=st % dict(e=e) if '%' in st else st, v=other(c, e)))
            # the panic gets out
            if n not in ('borrow_both', 'borrow_within', 'clone_within'):
                o.append("""
pub fn c16__iu__%(e)s_%(n)s_propagates(a: %(e)s, f: &mut fmt::Formatter<'_>) {
    let h = ManuallyDrop::new(a.into_tagged_box());
    let (h, g): (&TaggedBox<%(e)s>, &TaggedBox<%(e)s>) = (&h, &h);
    %(st)s
}
pub fn c16__su__%(e)s_%(n)s_propagates(a: %(e)s, f: &mut fmt::Formatter<'_>) {
    let h = ManuallyDrop::new(a);
    let (h, g): (&%(e)s, &%(e)s) = (&h, &h);
    %(sp)s
}""" % dict(e=e, n=n, st=st % dict(e=e) if '%' in st else st, sp='unsafe { callback_%s(h) }' % e if n == 'borrow' else st))
    return '\n'.join(o)


def c18(w):
    o = ['pub enum Any {}', 'pub struct Generic<T>(T);']
    chk = """
pub fn c18__r__%(n)s() {
    vp::check(mem::size_of::<%(t)s>() == 8, "size of %(s)s");
    vp::check(mem::align_of::<%(t)s>() == mem::align_of::<u64>(), "alignment of %(s)s");
    vp::abi_u64::<%(t)s>("ABI of %(s)s");
}"""
    for i, t in enumerate(['TaggedPointer', 'TaggedBox<Any>', 'TaggedBox<()>', 'TaggedBox<u8>', 'TaggedBox<A4096>', 'TaggedBox<[u64; 9]>', 'TaggedBox<String>', 'TaggedBox<Sym>',
                           'TaggedBox<Generic<u128>>', 'TaggedBox<TaggedBox<u16>>', 'TaggedBox<fn(u8) -> u8>', 'TaggedBox<D>', "TaggedBox<&'static str>"]):
        o.append(chk % dict(n='t%d' % i, t=t, s=t))
    for e, k, c, src in enums(shapes(), w):
        o.append(src)
        for n, t in ((k, k), (e + '_handle', 'TaggedBox<%s>' % e)):
            o.append(chk % dict(n=n, t=t, s=t))
        o.append("""
pub fn c18__r__%(e)s_word(e: %(e)s) {
    let h = ManuallyDrop::new(e.into_tagged_box());
    let word: u64 = unsafe { mem::transmute_copy(&h) };
    vp::check(word == TaggedPointer::store_discriminant(h.as_ptr::<u8>() as u64, h.discriminant()), "the word of a handle");
    let p: TaggedPointer = unsafe { mem::transmute_copy(&h) };
    vp::check(p.as_raw_u64() == word, "the word of a handle as a TaggedPointer");
    let c: ManuallyDrop<%(k)s> = unsafe { mem::transmute_copy(&h) };
    vp::check(unsafe { mem::transmute_copy::<_, u64>(&c) } == word, "the word of a container");
}
pub fn c18__r__%(e)s_container_word(e: %(e)s) {
    let c = ManuallyDrop::new(%(k)s::from(e));
    let p: TaggedPointer = unsafe { mem::transmute_copy(&c) };
    let word: u64 = unsafe { mem::transmute_copy(&c) };
    vp::check(p.as_raw_u64() == word && p.as_u64() <= MAX_POINTER_VALUE, "the word of a container");
    vp::check(TaggedPointer::store_discriminant(p.as_u64(), p.discriminant()) == word, "the word of a container");
}""" % dict(e=e, k=k))
    o.append("""
pub fn c18__r__pointer_word(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let t = TaggedPointer::new(p, d);
    let raw = t.as_raw_u64();
    vp::check(unsafe { mem::transmute::<TaggedPointer, u64>(t) } == raw, "the word of a tagged pointer");
    let h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut u8, d) };
    vp::check(unsafe { mem::transmute::<TaggedBox<Any>, u64>(h) } == raw, "the word of a handle");
}""")
    return '\n'.join(o)


def c21(w):
    o = ['pub enum Any {}']
    for i, t in enumerate(PAY + ZST):
        z = t in ZST
        d = dict(i=i, t=t, dn={'D': 'vp::check(vp::calls("dropped") == 1, "destructor runs once");', 'DZ': 'vp::check(vp::calls("dropped_zst") == 1, "destructor runs once");'}.get(t, ''),
                 blk='' if z else 'vp::block_of(p as *const %s, "into_raw gives the block of the payload");' % t,
                 blk2='' if z else 'vp::block_of(q, "the Box owns the block of the payload");',
                 n='0' if z else '1')
        o.append("""
pub fn c21__r__round_%(i)d(v: %(t)s, d: Discriminant, d2: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    vp::assume(d2 <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let h: TaggedBox<Any> = TaggedBox::new(v, d);
    let a = h.as_ptr::<%(t)s>() as u64;
    let m = vp::mark();
    let p = TaggedBox::<Any>::into_raw::<%(t)s>(h);
    vp::check(p as u64 == a, "into_raw gives the address of the payload");
    %(blk)s
    vp::quiet(m, "into_raw runs nothing");
    vp::heap_same(m, "payload after into_raw");
    let g: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p, d2) };
    vp::quiet(m, "from_raw runs nothing");
    vp::heap_same(m, "payload after from_raw");
    vp::check(g.discriminant() == d2, "discriminant given to from_raw");
    vp::check(g.as_ptr::<%(t)s>() as u64 == a, "address given to from_raw");
    vp::same(&*v0, unsafe { g.as_ref::<%(t)s>() }, "payload behind the new handle");
    let b: Box<%(t)s> = unsafe { TaggedBox::into_box(g) };
    vp::quiet(m, "into_box runs nothing");
    vp::heap_same(m, "payload after into_box");
    let q: *const %(t)s = &*b;
    vp::check(q as u64 == a, "the Box points at the payload");
    %(blk2)s
    vp::same(&*v0, &*b, "payload in the Box");
    drop(b);
    vp::check(vp::live() == 0 && vp::frees() == %(n)s && vp::allocs() == %(n)s, "the block is freed once when the Box is dropped");
    %(dn)s
}
pub fn c21__r__box_in_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let v0 = vp::copy(&v);
    let p = Box::into_raw(Box::new(v));
    let m = vp::mark();
    let h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p, d) };
    vp::check(TaggedBox::<Any>::into_raw::<%(t)s>(unsafe { mem::transmute_copy(&h) }) == p, "address given to from_raw comes back");
    let b: Box<%(t)s> = unsafe { TaggedBox::into_box(h) };
    vp::quiet(m, "handing the Box through a handle runs nothing");
    vp::heap_same(m, "payload handed through a handle");
    vp::check(&*b as *const %(t)s == p as *const %(t)s, "the Box points at the payload");
    vp::same(&*v0, &*b, "payload in the Box");
    drop(b);
    vp::check(vp::live() == 0 && vp::frees() == %(n)s && vp::allocs() == %(n)s, "the block is freed once when the Box is dropped");
    %(dn)s
}
pub fn c21__r__raw_%(i)d(p: u64, d: Discriminant, d2: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    vp::assume(d2 <= MAX_DISCRIMINANT);
    let h: TaggedBox<Any> = unsafe { TaggedBox::from_raw(p as *mut %(t)s, d) };
    vp::check(h.as_ptr::<%(t)s>() as u64 == p, "address given to from_raw");
    vp::check(h.discriminant() == d, "discriminant given to from_raw");
    let q = TaggedBox::<Any>::into_raw::<%(t)s>(h);
    vp::check(q as u64 == p, "address given to from_raw comes back");
    let g: TaggedBox<Any> = unsafe { TaggedBox::from_raw(q, d2) };
    vp::check(g.discriminant() == d2, "discriminant given to from_raw");
    vp::check(TaggedBox::<Any>::into_raw::<%(t)s>(g) as u64 == p, "address given to from_raw comes back");
    vp::check(vp::allocs() == 0 && vp::frees() == 0 && vp::events() == 0, "nothing is run or allocated");
}
pub fn c21__r__box_out_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let h: TaggedBox<Any> = unsafe { TaggedBox::new_unchecked(v, d) };
    let p = TaggedBox::<Any>::into_raw::<%(t)s>(h);
    drop(unsafe { Box::from_raw(p) });
    vp::check(vp::live() == 0 && vp::frees() == %(n)s, "the pointer from into_raw can be owned by a Box");
    %(dn)s
}""" % d)
    return '\n'.join(o)


def c22(w):
    o = ['pub enum Any {}', 'pub struct Holder<T>(u8, TaggedBox<Any>, T);']
    for i, t in enumerate(PAY + ZST):
        for f in ('new', 'new_unchecked'):
            o.append("""
pub fn c22__r__%(f)s_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = unsafe { TaggedBox::%(f)s(v, d) };
    let p = h.as_ptr::<%(t)s>();
    vp::%(al)s(p, "pointer from as_ptr");
    vp::check(p as u64 <= MAX_POINTER_VALUE, "pointer free of tag bits");
    vp::check(h.as_ptr::<%(t)s>() == p, "pointer asked for twice");
    vp::%(al)s(h.as_mut_ptr::<%(t)s>() as *const %(t)s, "pointer from as_mut_ptr");
    vp::check(h.as_mut_ptr::<%(t)s>() as u64 == p as u64, "pointer from as_mut_ptr");
    vp::%(al)s(unsafe { h.as_ref::<%(t)s>() }, "reference from as_ref");
    vp::check(unsafe { h.as_ref::<%(t)s>() } as *const %(t)s == p, "reference from as_ref");
    vp::check(unsafe { h.as_mut_ref::<%(t)s>() } as *mut %(t)s as u64 == p as u64, "reference from as_mut_ref");
    let moved = Holder(1, h, 2u32);
    vp::check(moved.1.as_ptr::<%(t)s>() == p, "pointer after the handle moved");
    let boxed = Box::new(moved);
    vp::check(boxed.1.as_ptr::<%(t)s>() == p, "pointer after the handle moved to the heap");
    let Holder(_, h, _) = *boxed;
    vp::check(TaggedBox::into_raw::<%(t)s>(h) as u64 == p as u64, "pointer from into_raw");
}""" % dict(f=f, i=i, t=t, al='block_of' if t == 'Sym' else 'aligned'))
    for i, t in enumerate(['u8', 'u16', 'A64', 'A4096', '()', 'Z32', '[u64; 9]', 'D']):
        o.append("""
pub fn c22__r__dangling_%(i)d(d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h: TaggedBox<Any> = TaggedBox::dangling::<%(t)s>(d);
    let t = TaggedPointer::dangling::<%(t)s>(d);
    vp::aligned(h.as_ptr::<%(t)s>(), "pointer from as_ptr of a dangling handle");
    vp::aligned(t.as_ptr::<%(t)s>(), "pointer from as_ptr of a dangling pointer");
    vp::check(h.as_ptr::<%(t)s>() == h.as_mut_ptr::<%(t)s>() as *const _, "pointer asked for twice");
    vp::check(t.as_ptr::<%(t)s>() == t.as_mut_ptr::<%(t)s>() as *const _, "pointer asked for twice");
    vp::check(h.as_ptr::<%(t)s>() as u64 <= MAX_POINTER_VALUE, "pointer free of tag bits");
}""" % dict(i=i, t=t))
    for e, k, c, src in enums(shapes(), w):
        o.append(src)
        o.append("""
pub fn c22__r__%(e)s_view(e: %(e)s) {
    let h = ManuallyDrop::new(e.into_tagged_box());
    vp::check(h.as_ptr::<u8>() as u64 <= MAX_POINTER_VALUE && h.as_ptr::<u8>() as u64 != 0, "pointer of the handle");
    unsafe {
        %(e)s::ref_from_tagged_box(&h, |r| vp::aligned(r as *const %(e)s, "view given to the callback"));
    }
    vp::aligned(unsafe { h.as_ref::<()>() }, "pointer of the handle");
}""" % dict(e=e))
    return '\n'.join(o)


def c24(w):
    pre = 'vp::assume(p <= MAX_POINTER_VALUE);\n    vp::assume(d <= MAX_DISCRIMINANT);\n    '
    o = ["""
#[derive(Clone)]
pub enum Any { A }
impl TaggableInner for Any {
    fn into_tagged_box(self) -> TaggedBox<Self> { loop {} }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self { loop {} }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) { loop {} }
}"""]
    for t in ('LowerHex', 'UpperHex', 'Binary', 'Octal'):
        for n, mk in (('pointer', 'TaggedPointer::new(p, d)'), ('handle', 'unsafe { TaggedBox::<Any>::from_raw(p as *mut u8, d) }')):
            o.append("""
pub fn c24__i__%(n)s_%(t)s(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)slet x = %(mk)s;
    fmt::%(t)s::fmt(&x, f)
}
pub fn c24__s__%(n)s_%(t)s(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)sfmt::%(t)s::fmt(&p, f)
}""" % dict(n=n, t=t, mk=mk, pre=pre))
    o.append("""
pub fn c24__i__pointer_Pointer(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)sfmt::Pointer::fmt(&TaggedPointer::new(p, d), f)
}
pub fn c24__s__pointer_Pointer(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)sfmt::Pointer::fmt(&(p as *const ()), f)
}
pub fn c24__i__pointer_Debug(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)sfmt::Debug::fmt(&TaggedPointer::new(p, d), f)
}
pub fn c24__s__pointer_Debug(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    %(pre)sf.debug_struct("TaggedPointer").field("raw", &((p | (d as u64) << %(w)d) as *const ())).field("ptr", &(p as *const ())).field("discriminant", &d).finish()
}""" % dict(pre=pre, w=w))
    pre2 = pre + 'vp::assume(p2 <= MAX_POINTER_VALUE);\n    vp::assume(d2 <= MAX_DISCRIMINANT);\n    '
    mk = 'let a = TaggedPointer::new(p, d);\n    let b = TaggedPointer::new(p2, d2);\n    '
    mks = 'let a = p | (d as u64) << %d;\n    let b = p2 | (d2 as u64) << %d;\n    ' % (w, w)
    for n, x, ret in CMP + [('max', 'Ord::max(%s, %s)', None), ('min', 'Ord::min(%s, %s)', None)]:
        x = x.replace('&*', '&').replace('*', '') % ('a', 'b')
        o.append("""
pub fn c24__i__%(n)s(p: u64, d: Discriminant, p2: u64, d2: Discriminant) -> %(ri)s {
    %(pre2)s%(mk)s%(x)s%(post)s
}
pub fn c24__s__%(n)s(p: u64, d: Discriminant, p2: u64, d2: Discriminant) -> %(ri)s {
    %(pre2)s%(mks)s%(x)s
}""" % dict(n=n, ri=ret or 'u64', pre2=pre2, mk=mk, mks=mks, x=x, post='' if ret else '.as_raw_u64()'))
    o.append("""
extern "Rust" {
    fn hash_bytes(s: &mut Hs, p: *const u8, n: usize);
    fn hash_u64(s: &mut Hs, x: u64);
}
pub struct Hs(u64);
impl core::hash::Hasher for Hs {
    fn write(&mut self, b: &[u8]) { unsafe { hash_bytes(self, b.as_ptr(), b.len()) } }
    fn write_u64(&mut self, x: u64) { unsafe { hash_u64(self, x) } }
    fn finish(&self) -> u64 { self.0 }
}
pub fn c24__i__hash(p: u64, d: Discriminant, s: &mut Hs) {
    %(pre)score::hash::Hash::hash(&TaggedPointer::new(p, d), s)
}
pub fn c24__s__hash(p: u64, d: Discriminant, s: &mut Hs) {
    %(pre)score::hash::Hash::hash(&(p | (d as u64) << %(w)d), s)
}
pub fn c24__r__differ(p: u64, d: Discriminant, p2: u64, d2: Discriminant) {
    %(pre2)slet (a, b) = (TaggedPointer::new(p, d), TaggedPointer::new(p2, d2));
    if a == b {
        vp::check(p == p2, "equal pointers have the same address");
        vp::check(d == d2, "equal pointers have the same discriminant");
    }
}""" % dict(pre=pre, pre2=pre2, w=w))
    return '\n'.join(o)


def c25(w):
    o = []
    for e, k, c, src in enums(shapes(), w):
        o.append(src + opaque_impls(e))
        for n, st in SHARED:
            if n in ('clone', 'clone_within'):
                continue
            o.append("""
pub fn c25__r__%(e)s_%(n)s(a: %(e)s, f: &mut fmt::Formatter<'_>) {
    let h = ManuallyDrop::new(a.into_tagged_box());
    let (h, g): (&TaggedBox<%(e)s>, &TaggedBox<%(e)s>) = (&h, &h);
    let m = vp::mark();
    %(st)s
    vp::no_new(m, "blocks left behind by the operation");
    vp::check(vp::frees() == 0, "no block is freed by the operation");
}""" % dict(e=e, n=n, st=st % dict(e=e) if '%' in st else st))
    o.append('pub enum Any {}')
    for i, t in enumerate(PAY):
        o.append("""
pub fn c25__r__into_box_%(i)d(v: %(t)s, d: Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let h: TaggedBox<Any> = TaggedBox::new(v, d);
    let x = unsafe { *TaggedBox::into_box::<%(t)s>(h) };
    vp::check(vp::allocs() == 1 && vp::frees() == 1 && vp::live() == 0, "the block is returned once");
    mem::forget(x);
}""" % dict(i=i, t=t))
    o.append("""
tagged_box::tagged_box! {
    #[derive(Clone)]
    pub struct KeepC, pub enum Keep {
        Word(u64),
        Pair(u8, u32),
    }
}
pub fn c25__r__leak_into_inner(v: u64) {
    let h: TaggedBox<Keep> = TaggedBox::new(v, 0);
    unsafe { TaggedBox::into_inner::<u64>(h) };
    vp::check(vp::live() == 0, "TaggedBox::into_inner returns the block");
}
pub fn c25__r__leak_from_tagged_box(e: Keep) {
    Keep::from_tagged_box(e.into_tagged_box());
    vp::check(vp::live() == 0, "TaggableInner::from_tagged_box returns the block");
}
pub fn c25__r__leak_container_into_inner(e: Keep) {
    KeepC::from(e).into_inner();
    vp::check(vp::live() == 0, "TaggableContainer::into_inner returns the block");
}
pub fn c25__r__leak_drop_handle(e: Keep) {
    drop(e.into_tagged_box());
    vp::check(vp::live() == 0, "dropping the last handle returns the block");
}
pub fn c25__r__leak_drop_container(e: Keep) {
    drop(KeepC::from(e));
    vp::check(vp::live() == 0, "dropping the last container returns the block");
}""")
    return '\n'.join(o)

HAND = """
extern "Rust" {
    fn shown_H();
    fn stored_H();
    fn taken_H();
}
/// keeps its value in the address bits and owns no memory
pub struct H(pub u32);
impl TaggableInner for H {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        let v = ManuallyDrop::new(self).0;
        unsafe {
            stored_H();
            TaggedBox::from_raw(v as u64 as *mut u8, 1)
        }
    }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self {
        unsafe { taken_H() }
        H(t.as_ptr::<u8>() as u64 as u32)
    }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        shown_H();
        let v = ManuallyDrop::new(H(t.as_ptr::<u8>() as u64 as u32));
        f(&v);
    }
}
"""
ONE_OBJECT = """
extern "Rust" {
    fn shown_W();
}
/// lives in one block that every handle to it shows
pub struct W(pub u32);
impl TaggableInner for W {
    fn into_tagged_box(self) -> TaggedBox<Self> { TaggedBox::new(self, 1) }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self { unsafe { TaggedBox::into_inner(t) } }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        shown_W();
        f(t.as_ref::<W>());
    }
}
"""
GUIDE = """
pub struct GC { value: TaggedBox<GE> }
pub enum GE { Integer(i32), Boolean(bool) }
impl TaggableContainer for GC {
    type Inner = GE;
    fn into_inner(self) -> GE {
        unsafe {
            match self.value.discriminant() {
                0 => GE::Integer(TaggedBox::into_inner(self.value)),
                1 => GE::Boolean(TaggedBox::into_inner(self.value)),
                _ => panic!(),
            }
        }
    }
}
impl TaggableInner for GE {
    fn into_tagged_box(self) -> TaggedBox<Self> {
        match self {
            Self::Integer(v) => TaggedBox::new(v, 0),
            Self::Boolean(v) => TaggedBox::new(v, 1),
        }
    }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self {
        unsafe {
            match t.discriminant() {
                0 => Self::Integer(TaggedBox::into_inner(t)),
                1 => Self::Boolean(TaggedBox::into_inner(t)),
                _ => panic!(),
            }
        }
    }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        match t.discriminant() {
            0 => f(&ManuallyDrop::new(Self::Integer(t.as_ptr::<i32>().read()))),
            1 => f(&ManuallyDrop::new(Self::Boolean(t.as_ptr::<bool>().read()))),
            _ => panic!(),
        }
    }
}
"""


def c29(w):
    o = [HAND + opaque_impls('H'), ONE_OBJECT + opaque_impls('W'), GUIDE + opaque_impls('GE', 'clone eq partial_cmp cmp debug display')]
    # operations on handles of a hand-written type: through its own view, and nothing else
    ops = [(n, x, r, 2) for n, x, r in CMP] + [('debug', 'fmt::Debug::fmt(&*%s, f)', 'fmt::Result', 1), ('display', 'fmt::Display::fmt(&*%s, f)', 'fmt::Result', 1)]
    for n, x, ret, k in ops:
        ho, eo = {'debug': ('debug_H',) * 2, 'display': ('display_H',) * 2}.get(n, (None, None))
        o.append("""
pub fn c29__au__%(n)s(a: u32, b: u32, f: &mut fmt::Formatter<'_>) {
    let h: ManuallyDrop<TaggedBox<H>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(a as u64 as *mut u8, 1) });
    let g: ManuallyDrop<TaggedBox<H>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(b as u64 as *mut u8, 0) });
    let (w1, w2): (u64, u64) = unsafe { (mem::transmute_copy(&h), mem::transmute_copy(&g)) };
    let p = vp::catch(|| { let _ = %(x)s; });
    vp::check(vp::calls("stored_H") + vp::calls("taken_H") == 0, "nothing is stored or taken out");
    vp::check(vp::allocs() == 0 && vp::frees() == 0, "no memory is requested for a type that needs none");
    if !p {
        vp::check(vp::calls("shown_H") == %(k)d, "each operand is shown once by the type's own implementation");
        vp::check(vp::events() == %(k)d + 1, "the type's own operation runs once, and nothing else");
    }
    vp::check(unsafe { mem::transmute_copy::<_, u64>(&h) } == w1 && unsafe { mem::transmute_copy::<_, u64>(&g) } == w2, "the handles are left as they were");
}""" % dict(n=n, x=x % (('h', 'g')[:k]), k=k))
        # the outcome is that of the operation on the values shown (order of showing aside)
        args = 'a: u32, b: u32' if k == 2 else "a: u32, f: &mut fmt::Formatter<'_>"
        o.append("""
pub fn c29__i__%(n)s_result(%(args)s) -> %(ret)s {
    let h: ManuallyDrop<TaggedBox<HQ>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(a as u64 as *mut u8, 1) });
    let g: ManuallyDrop<TaggedBox<HQ>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(%(b)s as u64 as *mut u8, 0) });
    %(xi)s
}
pub fn c29__s__%(n)s_result(%(args)s) -> %(ret)s {
    let h = ManuallyDrop::new(HQ(a));
    let g = ManuallyDrop::new(HQ(%(b)s));
    %(xi)s
}
pub fn c29__iu__%(n)s_guide(a: GE, %(gb)s) -> %(ret)s {
    let h = ManuallyDrop::new(a.into_tagged_box());
    %(gi)s
    %(xi)s
}
pub fn c29__su__%(n)s_guide(a: GE, %(gb)s) -> %(ret)s {
    let h = ManuallyDrop::new(a);
    %(gs)s
    %(xi)s
}""" % dict(n=n, args=args, ret=ret, xi=x % (('h', 'g')[:k]), b='b' if k == 2 else 'a', gb='b: GE' if k == 2 else "f: &mut fmt::Formatter<'_>",
            gi='let g = ManuallyDrop::new(b.into_tagged_box());' if k == 2 else '', gs='let g = ManuallyDrop::new(b);' if k == 2 else ''))
        # two handles that show one and the same object, and a handle with itself
        for who, mk in (('alias', 'let g: ManuallyDrop<TaggedBox<W>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(h.as_ptr::<W>() as *mut W, 0) });'), ('self', 'let g: &TaggedBox<W> = &h;')):
            if k == 1 and who == 'self':
                continue
            fx = '' if k == 2 else "f: &mut fmt::Formatter<'_>"
            o.append("""
pub fn c29__i__%(n)s_%(who)s(a: W, %(fx)s) -> %(ret)s {
    let h: ManuallyDrop<TaggedBox<W>> = ManuallyDrop::new(TaggedBox::new(a, 1));
    %(mk)s
    %(x)s
}
pub fn c29__s__%(n)s_%(who)s(a: W, %(fx)s) -> %(ret)s {
    let h = ManuallyDrop::new(a);
    let g: &W = &h;
    %(seen)s
    %(x)s
}""" % dict(n=n, who=who, fx=fx, ret=ret, mk=mk, x=x % (('h', 'g')[:k] if k == 2 else ('g',)), seen='unsafe { %s };' % '; '.join(['shown_W()'] * k)))
    # the same type without the counters, so that the order of showing does not matter
    o.append(HAND.split('pub struct H(')[0].split('extern')[0] + 'pub struct HQ' + HAND.split('pub struct H')[1].replace('TaggableInner for H ', 'TaggableInner for HQ ').replace('H(t.as', 'HQ(t.as')
             .replace('            stored_H();\n', '').replace('        unsafe { taken_H() }\n', '').replace('        shown_H();\n', '') + opaque_impls('HQ'))
    o.append("""
pub fn c29__au__clone(a: u32, f: &mut fmt::Formatter<'_>) {
    let h: ManuallyDrop<TaggedBox<H>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(a as u64 as *mut u8, 1) });
    let w1: u64 = unsafe { mem::transmute_copy(&h) };
    let p = vp::catch(|| { mem::forget((*h).clone()); });
    vp::check(vp::calls("taken_H") == 0, "the original is not taken out");
    vp::check(vp::allocs() == 0 && vp::frees() == 0, "no memory is requested for a type that needs none");
    if !p {
        vp::check(vp::calls("shown_H") == 1, "the original is shown once by the type's own implementation");
        vp::check(vp::calls("clone_H") == 1, "the type's Clone runs once");
        vp::check(vp::calls("stored_H") == 1, "the clone is stored once by the type's own implementation");
        vp::check(vp::events() == 3, "nothing else of the user's runs");
    }
    vp::check(unsafe { mem::transmute_copy::<_, u64>(&h) } == w1, "the handle is left as it was");
}
pub fn c29__iu__clone_result(a: u32) -> u64 {
    let h: ManuallyDrop<TaggedBox<H>> = ManuallyDrop::new(unsafe { TaggedBox::from_raw(a as u64 as *mut u8, 1) });
    let g = ManuallyDrop::new((*h).clone());
    unsafe { mem::transmute_copy(&g) }
}
pub fn c29__su__clone_result(a: u32) -> u64 {
    let h = ManuallyDrop::new(H(a));
    unsafe { shown_H() };
    let g = ManuallyDrop::new(TaggableInner::into_tagged_box((*h).clone()));
    unsafe { mem::transmute_copy(&g) }
}
pub fn c29__iu__clone_guide(a: GE) -> (ManuallyDrop<GE>, ManuallyDrop<GE>) {
    let h = a.into_tagged_box();
    let g = h.clone();
    (ManuallyDrop::new(GE::from_tagged_box(g)), ManuallyDrop::new(GE::from_tagged_box(h)))
}
pub fn c29__su__clone_guide(a: GE) -> (ManuallyDrop<GE>, ManuallyDrop<GE>) {
    let a = ManuallyDrop::new(a);
    (ManuallyDrop::new((*a).clone()), a)
}
pub fn c29__r__guide(e: GE) {
    let e0 = vp::copy(&e);
    let k: u64 = match &e { GE::Integer(..) => 0, GE::Boolean(..) => 1 };
    let c = GC { value: e.into_tagged_box() };
    vp::check(c.value.discriminant() as u64 == k, "discriminant chosen by the implementation");
    let mut n = 0;
    unsafe { GE::ref_from_tagged_box(&c.value, |r| { n += 1; vp::same(&*e0, r, "value shown to the callback"); }) };
    vp::check(n == 1, "callback called exactly once");
    let b = ManuallyDrop::new(c.into_inner());
    vp::same(&*e0, &*b, "value taken back out");
}
pub fn c29__p__guide_unknown(addr: u64, d: Discriminant) {
    vp::assume(addr <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    vp::assume(d >= 2);
    let t: TaggedBox<GE> = unsafe { TaggedBox::from_raw(addr as *mut u8, d) };
    mem::forget(GE::from_tagged_box(t));
}
""" if w < 63 else '')
    return '\n'.join(o)


def c30(w):
    o = []
    for e, k, c, src in enums(shapes(), w) + ([many(w)] if w >= 57 or w == 48 else []):
        o.append(src)
        for n, mk in (('handle', 'e.into_tagged_box()'), ('container', '%s::from(e)' % k)):
            arms = []
            for s in c:
                z = all(t in ('()', 'DZ', 'Z32', '[u64; 0]', '[Z32; 3]', 'core::marker::PhantomData<u8>') for t in s[2])
                arms.append('%s => %d' % (vany(s, e), 0 if z else 1))
            o.append("""
pub fn c30__r__%(e)s_%(n)s(e: %(e)s) {
    let blocks: usize = match &e { %(arms)s };
    let h = ManuallyDrop::new(%(mk)s);
    vp::check(vp::allocs() == blocks, "one block for a variant that holds anything, none for one that does not");
    vp::check(vp::frees() == 0, "the block is kept");
    vp::check(vp::events() == 0, "storing runs nothing of the user's");
    let m = vp::mark();
    let h: TaggedBox<%(e)s> = unsafe { mem::transmute_copy(&h) };
    unsafe { %(e)s::ref_from_tagged_box(&h, |_| ()) };
    vp::check(vp::allocs() == blocks, "borrowing requests no memory");
    vp::heap_same(m, "block after borrowing");
    mem::forget(%(e)s::from_tagged_box(h));
    vp::check(vp::allocs() == blocks, "taking out requests no memory");
}""" % dict(e=e, n=n, mk=mk, arms=', '.join(arms)))
    return '\n'.join(o)


# what nothing but the operands may decide: every function of the library, and
# of what the macro makes
def c32(w):
    o = []
    for e, k, c, src in enums(shapes(), w):
        o.append(src + opaque_impls(e))
        d = dict(e=e, k=k, v=other(c, e))
        o.append("""
pub fn c32__t__%(e)s_handle(a: %(e)s) -> ManuallyDrop<TaggedBox<%(e)s>> {
    ManuallyDrop::new(a.into_tagged_box())
}
pub fn c32__t__%(e)s_container(a: %(e)s) -> ManuallyDrop<%(k)s> {
    ManuallyDrop::new(%(k)s::from(a))
}
pub fn c32__t__%(e)s_back(a: %(e)s) -> %(e)s {
    %(e)s::from_tagged_box(a.into_tagged_box())
}
pub fn c32__t__%(e)s_container_back(a: %(e)s) -> %(e)s {
    %(k)s::from(a).into_inner()
}
pub fn c32__at__%(e)s_any_back(p: u64, d: Discriminant) {
    vp::assume(p <= MAX_POINTER_VALUE && p > 0 && d <= MAX_DISCRIMINANT && d >= %(n)d);
    mem::forget(%(e)s::from_tagged_box(unsafe { TaggedBox::from_raw(p as *mut u8, d) }));
}""" % dict(d, n=len(c)) if maxd(w) >= len(c) else '')
        for n, st in SHARED:
            st = st % d if '%' in st else st
            val = {'eq': '*h == *g', 'ne': '*h != *g', 'lt': '*h < *g', 'ge': '*h >= *g', 'partial_cmp': 'h.partial_cmp(g)', 'cmp': 'Ord::cmp(h, g)', 'discriminant': 'h.discriminant()',
                   'as_ptr': 'h.as_ptr::<u8>() as u64', 'clone': 'ManuallyDrop::new(h.clone())', 'debug': 'fmt::Debug::fmt(h, f)', 'display': 'fmt::Display::fmt(h, f)', 'lower_hex': 'fmt::LowerHex::fmt(h, f)'}.get(n)
            if val is None:
                ty, val = '()', st
            else:
                ty = {'partial_cmp': 'Option<core::cmp::Ordering>', 'cmp': 'core::cmp::Ordering', 'discriminant': 'Discriminant', 'as_ptr': 'u64', 'clone': 'ManuallyDrop<TaggedBox<%s>>' % e,
                      'debug': 'fmt::Result', 'display': 'fmt::Result', 'lower_hex': 'fmt::Result'}.get(n, 'bool')
            o.append("""
pub fn c32__t__%(e)s_%(n)s(a: %(e)s, f: &mut fmt::Formatter<'_>) -> %(ty)s {
    let h = ManuallyDrop::new(a.into_tagged_box());
    let g: ManuallyDrop<TaggedBox<%(e)s>> = ManuallyDrop::new((%(v)s).into_tagged_box());
    let (h, g): (&TaggedBox<%(e)s>, &TaggedBox<%(e)s>) = (&h, &g);
    %(val)s
}""" % dict(d, n=n, ty=ty, val=val))
    o.append('pub enum Any {}')
    for i, t in enumerate(PAY + ZST):
        o.append("""
pub fn c32__t__new_%(i)d(v: %(t)s, d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    vp::assume(d <= MAX_DISCRIMINANT);
    ManuallyDrop::new(TaggedBox::new(v, d))
}
pub fn c32__t__new_unchecked_%(i)d(v: %(t)s, d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    vp::assume(d <= MAX_DISCRIMINANT);
    ManuallyDrop::new(unsafe { TaggedBox::new_unchecked(v, d) })
}
pub fn c32__t__inner_%(i)d(v: %(t)s, d: Discriminant) -> %(t)s {
    vp::assume(d <= MAX_DISCRIMINANT);
    unsafe { TaggedBox::into_inner(TaggedBox::<Any>::new(v, d)) }
}
pub fn c32__t__box_%(i)d(v: %(t)s, d: Discriminant) -> Box<%(t)s> {
    vp::assume(d <= MAX_DISCRIMINANT);
    unsafe { TaggedBox::into_box(TaggedBox::<Any>::new(v, d)) }
}
pub fn c32__t__raw_%(i)d(v: %(t)s, d: Discriminant) -> *mut %(t)s {
    vp::assume(d <= MAX_DISCRIMINANT);
    TaggedBox::into_raw(TaggedBox::<Any>::new(v, d))
}
pub fn c32__t__refs_%(i)d(v: %(t)s, d: Discriminant) -> (u64, u64, u64, u64, Discriminant) {
    vp::assume(d <= MAX_DISCRIMINANT);
    let mut h = ManuallyDrop::new(TaggedBox::<Any>::new(v, d));
    unsafe { (h.as_ref::<%(t)s>() as *const %(t)s as u64, h.as_mut_ref::<%(t)s>() as *mut %(t)s as u64, h.as_ptr::<%(t)s>() as u64, h.as_mut_ptr::<%(t)s>() as u64, h.discriminant()) }
}
pub fn c32__t__dangling_%(i)d(d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    vp::assume(d <= MAX_DISCRIMINANT);
    ManuallyDrop::new(TaggedBox::dangling::<%(t)s>(d))
}""" % dict(i=i, t=t))
    o.append("""
pub fn c32__at__pointer_new(p: u64, d: Discriminant) -> TaggedPointer {
    TaggedPointer::new(p, d)
}
pub fn c32__at__pointer_dangling(d: Discriminant) -> TaggedPointer {
    TaggedPointer::dangling::<u64>(d)
}
pub fn c32__at__box_new(v: u64, d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    ManuallyDrop::new(TaggedBox::new(v, d))
}
pub fn c32__aft__box_new_fails(v: u64, d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    ManuallyDrop::new(TaggedBox::new(v, d))
}
pub fn c32__at__from_raw(p: u64, d: Discriminant) -> ManuallyDrop<TaggedBox<Any>> {
    ManuallyDrop::new(unsafe { TaggedBox::from_raw(p as *mut u64, d) })
}
pub fn c32__at__pointer_reads(p: u64, d: Discriminant) -> (u64, u64, u64, u64, Discriminant) {
    let mut x = TaggedPointer::new(p, d);
    (x.as_u64(), x.as_raw_u64(), x.as_ptr::<u8>() as u64, x.as_mut_ptr::<u8>() as u64, x.discriminant())
}
pub fn c32__t__words(p: u64, d: Discriminant) -> (u64, Discriminant, u64) {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    let x = TaggedPointer::store_discriminant(p, d);
    (x, TaggedPointer::fetch_discriminant(x), TaggedPointer::strip_discriminant(x))
}
pub fn c32__t__pointer_cmp(p: u64, d: Discriminant, q: u64, c: Discriminant) -> (bool, bool, Option<core::cmp::Ordering>, core::cmp::Ordering) {
    vp::assume(p <= MAX_POINTER_VALUE && q <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT && c <= MAX_DISCRIMINANT);
    let (x, y) = (TaggedPointer::new(p, d), TaggedPointer::new(q, c));
    (x == y, x < y, x.partial_cmp(&y), x.cmp(&y))
}""")
    for t in ('LowerHex', 'UpperHex', 'Binary', 'Octal', 'Pointer', 'Debug'):
        o.append("""
pub fn c32__t__pointer_%(t)s(p: u64, d: Discriminant, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    vp::assume(p <= MAX_POINTER_VALUE);
    vp::assume(d <= MAX_DISCRIMINANT);
    fmt::%(t)s::fmt(&TaggedPointer::new(p, d), f)
}""" % dict(t=t))
    return '\n'.join(o)


SLY = """
extern "Rust" {
    fn whether_Y() -> bool;
}
/// shows its value, or nothing at all
pub struct Y(pub u32);
impl TaggableInner for Y {
    fn into_tagged_box(self) -> TaggedBox<Self> { TaggedBox::new(self, 1) }
    fn from_tagged_box(t: TaggedBox<Self>) -> Self { unsafe { TaggedBox::into_inner(t) } }
    unsafe fn ref_from_tagged_box<F>(t: &TaggedBox<Self>, f: F) where F: FnOnce(&Self) {
        if whether_Y() { f(t.as_ref::<Y>()) }
    }
}
"""


def c34(w):
    """the operations of C32, in the driver's strict mode: what the language leaves undefined is reported where it has no effect as well"""
    s = re.sub(r'\bc32__(\w+?)__(\w+)', lambda m: 'c34__%s__%s' % (m.group(1).replace('t', 'x') + ('uf' if m.group(2).startswith('new_') and 'f' not in m.group(1) else 'u'), m.group(2)), c32(w))
    o = [s, SLY + opaque_impls('Y'), HAND + opaque_impls('H'), GUIDE + opaque_impls('GE', 'clone eq partial_cmp cmp debug display')]
    ops = [(n, x, 2) for n, x, _ in CMP] + [('debug', 'fmt::Debug::fmt(&*%s, f)', 1), ('display', 'fmt::Display::fmt(&*%s, f)', 1), ('clone', 'ManuallyDrop::new((*%s).clone())', 1), ('hex', 'fmt::LowerHex::fmt(&*%s, f)', 1)]
    for t in ('Y', 'H', 'GE'):
        for n, x, k in ops:
            if n == 'hex' and t == 'GE':
                continue
            o.append("""
pub fn c34__axuf__%(t)s_%(n)s(a: %(t)s, b: %(t)s, f: &mut fmt::Formatter<'_>) {
    let h = ManuallyDrop::new(a.into_tagged_box());
    let g = ManuallyDrop::new(b.into_tagged_box());
    let _ = %(x)s;
}""" % dict(t=t, n=n, x=x % (('h', 'g')[:k])))
    return '\n'.join(o)


# how many repetitions of a thorough run beyond the first
DEEPER = {'C12': 2, 'C14': 2, 'C16': 2}
GEN = {}
for _n, _f in list(globals().items()):
    if _n[0] == 'c' and _n[1:].isdigit():
        GEN[_n.upper()] = _f


def source(prop, w):
    return HEAD + VP + GEN[prop](w)


def sources(prop, w, deep=False):
    """the probe crates of a property (one; more where the analysis is deeper)"""
    global SALT
    r = []
    for SALT in range(1 + (DEEPER.get(prop, 5) if deep else 0)):
        r.append(source(prop, w))
    SALT = 0
    return [x for i, x in enumerate(r) if x not in r[:i]]
