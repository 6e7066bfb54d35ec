"""The compile-time witnesses of each property."""
import gen
from ct import W, split

NOSTD = '#![no_std]\n#![recursion_limit = "8192"]\n'
STD = '#![recursion_limit = "8192"]\n#![allow(unused)]\n'
EDITIONS = ['2018', '2021', '2024']

# ---------------------------------------------------------------- C17
BASE17 = '''#![allow(unused)]
extern crate alloc;
use tagged_box::{tagged_box, discriminant::*, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
pub enum Any {}
tagged_box! { #[derive(PartialEq)] pub struct C, pub enum E { A(u8), B(alloc::string::String, u8), } }
'''


def c17():
    ws = []

    def uns(name, sig, expr):
        ws.append(split('unsafe_' + name, BASE17 + 'pub fn f%s {\n    @@\n}\n' % sig, 'unsafe { %s };' % expr, '%s;' % expr, ['E0133'],
                        '%s only in unsafe code' % name))
    uns('TaggedBox::new_unchecked', '()', 'TaggedBox::<Any>::new_unchecked(5u8, 1)')
    uns('TaggedBox::as_ref', '(h: &TaggedBox<Any>)', 'h.as_ref::<u8>()')
    uns('TaggedBox::as_mut_ref', '(h: &mut TaggedBox<Any>)', 'h.as_mut_ref::<u8>()')
    uns('TaggedBox::into_inner', '(h: TaggedBox<Any>)', 'TaggedBox::into_inner::<u8>(h)')
    uns('TaggedBox::into_box', '(h: TaggedBox<Any>)', 'TaggedBox::into_box::<u8>(h)')
    uns('TaggedBox::from_raw', '(p: *mut u8)', 'TaggedBox::<Any>::from_raw::<u8>(p, 0)')
    uns('TaggedPointer::as_ref', '(p: &TaggedPointer)', 'p.as_ref::<u8>()')
    uns('TaggedPointer::as_mut_ref', '(p: &mut TaggedPointer)', 'p.as_mut_ref::<u8>()')
    uns('TaggableInner::ref_from_tagged_box', '(h: &TaggedBox<E>)', '<E as TaggableInner>::ref_from_tagged_box(h, |_| ())')
    uns('ref_from_tagged_box of any enum', '<T: TaggableInner>(h: &TaggedBox<T>)', '<T as TaggableInner>::ref_from_tagged_box(h, |_| ())')
    # as function pointers as well: an unsafe fn does not coerce to a safe one
    for n, ty, p in [('new_unchecked', 'fn(u8, Discriminant) -> TaggedBox<Any>', 'TaggedBox::<Any>::new_unchecked::<u8>'),
                     ('into_inner', 'fn(TaggedBox<Any>) -> u8', 'TaggedBox::<Any>::into_inner::<u8>'),
                     ('into_box', 'fn(TaggedBox<Any>) -> alloc::boxed::Box<u8>', 'TaggedBox::<Any>::into_box::<u8>'),
                     ('from_raw', 'fn(*mut u8, Discriminant) -> TaggedBox<Any>', 'TaggedBox::<Any>::from_raw::<u8>')]:
        ws.append(split('unsafe_fnptr_' + n, BASE17 + 'pub fn f() {\n    let _: @@ = %s;\n}\n' % p, 'unsafe ' + ty, ty, ['E0308'], '%s is an unsafe fn' % n))
    # privacy
    ws.append(split('private_value', BASE17.replace('tagged_box! {', 'pub mod m { use tagged_box::*; extern crate alloc; tagged_box! {').replace('u8), } }', 'u8), } }\n@@ }'),
                    'pub fn f(c: C) { let C { .. } = c; }', '} pub mod n { use super::m::*; pub fn f(c: C) { let x = c.value; }', ['E0616', 'E0609'],
                    'the handle of a container is private outside its module'))
    mod = '''#![allow(unused)]
pub mod m { tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B(u8, u16), } } }
'''
    ws.append(split('private_read', mod + 'pub fn f(c: m::C) { @@ }\n', 'let _ = &c;', 'let _ = &c.value;', ['E0616', 'E0609'], 'the handle of a container is private outside its module'))
    ws.append(split('private_write', mod + 'pub fn f(c: &mut m::C, h: tagged_box::TaggedBox<m::E>) { @@ }\n', 'let _ = &c;', 'c.value = h;', ['E0616', 'E0609'], 'the handle of a container is private outside its module'))
    ws.append(split('private_build', mod + 'pub fn f(e: m::E, h: tagged_box::TaggedBox<m::E>) -> m::C { @@ }\n', 'm::C::from(e)', 'm::C { value: h }', ['E0451', 'E0423', 'E0560'],
                    'a container cannot be built around a handle outside its module'))
    ws.append(split('private_from', mod + 'pub fn f(e: m::E, h: tagged_box::TaggedBox<m::E>) -> m::C { @@ }\n', 'm::C::from(e)', 'm::C::from(h)', ['E0277'],
                    'a container cannot be built around a handle outside its module'))
    ws.append(split('private_boxed', BASE17 + 'pub fn f(h: TaggedBox<Any>) { @@ }\n', 'let _ = h.discriminant();', 'let _ = h.boxed;', ['E0616', 'E0609'], 'the word of a handle is private'))
    ws.append(split('private_build_box', BASE17 + 'pub fn f(p: TaggedPointer) -> TaggedBox<Any> { @@ }\n', 'unsafe { TaggedBox::from_raw(p.as_mut_ptr::<u8>(), p.discriminant()) }',
                    'TaggedBox { boxed: p, _type: core::marker::PhantomData }', ['E0451', 'E0560', 'E0063'], 'a handle cannot be built around a word'))
    ws.append(split('no_deref', BASE17 + 'pub fn f(h: &TaggedBox<E>) { @@ }\n', 'let _: &TaggedBox<E> = &*h;', 'let _: &E = &**h;', ['E0614'], 'a handle has no Deref'))
    ws.append(split('no_transfer', BASE17 + 'pub fn f(h: TaggedBox<Any>) { @@ }\n', 'let _: TaggedBox<Any> = h;', 'let _: TaggedBox<E> = h.into();', ['E0277'], 'a handle of one enum does not become one of another'))
    ws.append(split('handle_of_enum', BASE17 + 'pub fn f(h: TaggedBox<Any>) { @@ }\n', 'let _: TaggedBox<Any> = h;', 'let _: TaggedBox<E> = h;', ['E0308'], 'handles of different enums are different types'))
    # lifetimes and ownership
    L = [
        ('ref_outlives', 'pub fn f() { let r: &u8; { let h: TaggedBox<Any> = TaggedBox::new(1u8, 0); r = unsafe { h.as_ref::<u8>() }; @@ } %s }', 'let _ = *r;', '', ['E0597'], 'let _ = *r;'),
        ('mut_outlives', 'pub fn f() { let r: &mut u8; { let mut h: TaggedBox<Any> = TaggedBox::new(1u8, 0); r = unsafe { h.as_mut_ref::<u8>() }; @@ } %s }', 'let _ = *r;', '', ['E0597'], 'let _ = *r;'),
        ('pointer_ref_outlives', 'pub fn f() { let r: &u8; { let h = TaggedPointer::new(8, 0); r = unsafe { h.as_ref::<u8>() }; @@ } %s }', 'let _ = *r;', '', ['E0597'], 'let _ = *r;'),
        ('pointer_mut_outlives', 'pub fn f() { let r: &mut u8; { let mut h = TaggedPointer::new(8, 0); r = unsafe { h.as_mut_ref::<u8>() }; @@ } %s }', 'let _ = *r;', '', ['E0597'], 'let _ = *r;'),
    ]
    for n, t, good, bad, codes, after in L:
        ws.append(W(n, BASE17 + (t.replace('@@', '') % after), refuse=set(codes), twin=BASE17 + (t.replace('@@', good) % ''), why='a reference into a payload cannot outlive the handle'))
    ws.append(split('static_ref', BASE17 + "pub fn f(h: &TaggedBox<Any>) -> &@@u8 { unsafe { h.as_ref::<u8>() } }\n", '', "'static ", ['', 'E0621', 'E0521', 'E0759'], 'a reference into a payload cannot be made static'))
    ws.append(split('static_mut', BASE17 + "pub fn f(h: &mut TaggedBox<Any>) -> &@@mut u8 { unsafe { h.as_mut_ref::<u8>() } }\n", '', "'static ", ['', 'E0621', 'E0521', 'E0759'], 'a reference into a payload cannot be made static'))
    ws.append(split('static_pointer_ref', BASE17 + "pub fn f(h: &TaggedPointer) -> &@@u8 { unsafe { h.as_ref::<u8>() } }\n", '', "'static ", ['', 'E0621', 'E0521', 'E0759'], 'a reference into a payload cannot be made static'))
    ws.append(split('static_pointer_mut', BASE17 + "pub fn f(h: &mut TaggedPointer) -> &@@mut u8 { unsafe { h.as_mut_ref::<u8>() } }\n", '', "'static ", ['', 'E0621', 'E0521', 'E0759'], 'a reference into a payload cannot be made static'))
    ws.append(split('moved_while_borrowed', BASE17 + 'pub fn f(h: TaggedBox<Any>) { let r = unsafe { h.as_ref::<u8>() }; @@ }\n',
                    'let _ = *r; unsafe { TaggedBox::into_inner::<u8>(h) };', 'unsafe { TaggedBox::into_inner::<u8>(h) }; let _ = *r;', ['E0505'], 'a handle is not consumed while its payload is borrowed'))
    ws.append(split('boxed_while_borrowed', BASE17 + 'pub fn f(h: TaggedBox<Any>) { let r = unsafe { h.as_ref::<u8>() }; @@ }\n',
                    'let _ = *r; unsafe { TaggedBox::into_box::<u8>(h) };', 'unsafe { TaggedBox::into_box::<u8>(h) }; let _ = *r;', ['E0505'], 'a handle is not consumed while its payload is borrowed'))
    ws.append(split('two_mut', BASE17 + 'pub fn f(h: &mut TaggedBox<Any>) { let a = unsafe { h.as_mut_ref::<u8>() }; @@ }\n',
                    '*a = 1; let b = unsafe { h.as_mut_ref::<u8>() }; *b = 1;', 'let b = unsafe { h.as_mut_ref::<u8>() }; *b = 1; *a = 1;', ['E0499'], 'two exclusive references to one payload'))
    ws.append(split('mut_and_shared', BASE17 + 'pub fn f(h: &mut TaggedBox<Any>) { let a = unsafe { h.as_mut_ref::<u8>() }; @@ }\n',
                    '*a = 1; let b = unsafe { h.as_ref::<u8>() }; let _ = *b;', 'let b = unsafe { h.as_ref::<u8>() }; let _ = *b; *a = 1;', ['E0502'], 'an exclusive and a shared reference to one payload'))
    ws.append(split('mut_and_discriminant', BASE17 + 'pub fn f(h: &mut TaggedBox<Any>) { let a = unsafe { h.as_mut_ref::<u8>() }; @@ }\n',
                    '*a = 1; let b = h.discriminant();', 'let b = h.discriminant(); *a = 1;', ['E0502'], 'an exclusive reference excludes every other use of the handle'))
    ws.append(split('mut_and_ptr', BASE17 + 'pub fn f(h: &mut TaggedBox<Any>) { let a = unsafe { h.as_mut_ref::<u8>() }; @@ }\n',
                    '*a = 1; let b = h.as_ptr::<u8>();', 'let b = h.as_ptr::<u8>(); *a = 1;', ['E0502'], 'an exclusive reference excludes every other use of the handle'))
    ws.append(split('mut_of_shared', BASE17 + 'pub fn f(h: &@@TaggedBox<Any>) { unsafe { h.as_mut_ref::<u8>() }; }\n', 'mut ', '', ['E0596'], 'an exclusive reference needs an exclusive handle'))
    ws.append(split('mut_ptr_of_shared', BASE17 + 'pub fn f(h: &@@TaggedBox<Any>) { h.as_mut_ptr::<u8>(); }\n', 'mut ', '', ['E0596'], 'a mutable pointer needs an exclusive handle'))
    ws.append(split('pointer_mut_of_shared', BASE17 + 'pub fn f(h: &@@TaggedPointer) { unsafe { h.as_mut_ref::<u8>() }; }\n', 'mut ', '', ['E0596'], 'an exclusive reference needs an exclusive pointer'))
    for n, expr in [('into_inner', 'unsafe { TaggedBox::into_inner::<u8>(h) }'), ('into_box', 'unsafe { TaggedBox::into_box::<u8>(h) }'), ('into_raw', 'TaggedBox::into_raw::<u8>(h)')]:
        ws.append(split('consumed_by_' + n, BASE17 + 'pub fn f(h: TaggedBox<Any>) { let _ = %s; @@ }\n' % expr, '', 'h.discriminant();', ['E0382'], 'a handle that is not Copy cannot be used after %s' % n))
    ws.append(split('consumed_by_from_tagged_box', BASE17 + 'pub fn f(h: TaggedBox<E>) { let _ = E::from_tagged_box(h); @@ }\n', '', 'h.discriminant();', ['E0382'], 'a handle that is not Copy cannot be used after from_tagged_box'))
    ws.append(split('consumed_by_generic', BASE17 + 'pub fn f<T: TaggableInner>(h: TaggedBox<T>) { let _ = T::from_tagged_box(h); @@ }\n', '', 'h.discriminant();', ['E0382'], 'a handle that is not Copy cannot be used after from_tagged_box'))
    ws.append(split('container_consumed', BASE17 + 'pub fn f(c: C) { let _ = c.into_inner(); @@ }\n', '', 'let _ = c.into_inner();', ['E0382'], 'a container that is not Copy cannot be used after into_inner'))
    ws.append(split('value_moved_in', BASE17 + 'pub fn f(e: E) { let _ = C::from(e); @@ }\n', '', 'drop(e);', ['E0382'], 'a stored value is gone from its owner'))
    ws.append(split('value_moved_in_new', BASE17 + 'pub fn f(e: E) { let _ = TaggedBox::<Any>::new(e, 0); @@ }\n', '', 'drop(e);', ['E0382'], 'a stored value is gone from its owner'))
    ws.append(split('view_escapes', BASE17 + "pub fn f(h: &TaggedBox<E>) { let mut keep: Option<&E> = None; unsafe { E::ref_from_tagged_box(h, |e| { @@ }) }; }\n", 'let k = Some(e);', 'keep = Some(e);', ['E0521', ''],
                    'the borrowed view cannot outlive the callback'))
    ws.append(split('view_is_shared', BASE17 + "pub fn f(h: &TaggedBox<E>) { unsafe { E::ref_from_tagged_box(h, |e| { @@ }) }; }\n", 'let k = *e == E::A(1);', '*e = E::A(1);', ['E0594'],
                    'the borrowed view is shared'))
    return ws


# ---------------------------------------------------------------- C19
ALLKINDS = 'Unit, Empty(), One(u8), Two(u8, u64), Three(u8, (), [u8; 3]), St { a: u8 }, Stc { a: u8, b: u16, },'
FEWKINDS = [('Unit, Two(u8, u64),', 'a'), ('Empty(), One(u32),', 'b'), ('St { a: u8 }, Stc { a: u8, b: u16, },', 'c'), ('One(u8),', 'd')]


CRATE_NAMES = ['TaggedBox', 'TaggedPointer', 'TaggableInner', 'TaggableContainer', 'Discriminant', 'discriminant', 'tagged_box', 'taggable',
               'tagged_pointer', 'manually_impl_enum', 'MAX_DISCRIMINANT', 'MAX_POINTER_VALUE']
CORE_NAMES = ['Box', 'ManuallyDrop', 'Option', 'Result', 'Vec', 'String', 'Layout', 'NonNull', 'MaybeUninit', 'PhantomData', 'Clone', 'Copy', 'Drop', 'From', 'Into',
              'Some', 'None', 'Ok', 'Err', 'core', 'std', 'alloc', 'Fn', 'FnOnce', 'Ordering']


def c19(width):
    ws = []
    big = width <= 61
    for ed in EDITIONS:
        if big:
            ws.append(W('no_std_%s' % ed, NOSTD + 'tagged_box::tagged_box! { #[derive(Debug, Clone, Copy, PartialEq, PartialOrd)] pub struct C, pub enum E { %s } }\n' % ALLKINDS, edition=ed, why='expansion in a no_std crate without imports'))
        for v, n in FEWKINDS:
            ws.append(W('no_std_%s_%s' % (n, ed), NOSTD + 'tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n' % v, edition=ed, why='expansion in a no_std crate without imports'))
    v = ALLKINDS if big else FEWKINDS[0][0]
    # inside a function and a nested module, under another crate name
    ws.append(W('in_fn', NOSTD + 'pub fn f() { tagged_box::tagged_box! { struct C, enum E { %s } } }\n' % v, why='expansion inside a function'))
    ws.append(W('nested', NOSTD + 'pub mod a { pub mod b { tagged_box::tagged_box! { pub struct C, pub enum E { %s } } } }\n' % v, why='expansion in a nested module'))
    ws.append(W('renamed', NOSTD + 'other::tagged_box! { pub struct C, pub enum E { %s } }\n' % v, extern='other', why='expansion under a renamed dependency'))
    # names of the user's own that the expansion could mistake for its own
    for i, items in enumerate(['pub struct TaggedBox; pub struct TaggedPointer; pub trait TaggableInner {} pub trait TaggableContainer {}',
                               'pub struct ManuallyDrop; pub struct Discriminant; pub struct PhantomData; pub struct Layout;',
                               'pub mod discriminant {} pub mod mem {} pub mod ptr {} pub mod alloc {} pub mod std {} pub mod tagged_pointer {}',
                               'pub fn drop() {} pub fn forget() {} pub fn read() {} pub fn transmute() {} pub struct Box; pub struct NonNull; pub struct MaybeUninit;',
                               'pub mod core {} pub mod tagged_box_macro {} pub mod taggable {}',
                               'pub trait From {} pub trait Into {} pub trait FnOnce {} pub trait Fn {} pub trait Drop {} pub trait Sized {} pub trait Clone {} pub trait Copy {} pub enum Option { Some, None } pub struct Some; pub struct None;',
                               'pub struct F; pub struct T; pub struct U; pub struct Inner; pub struct Container; pub struct Item; pub type Value = u8; pub const N: usize = 1; pub static COUNT: u8 = 1;']):
        ws.append(W('own_names_%d' % i, NOSTD + items + '\ntagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n' % v, why='expansion depends only on core, the crate and the user\'s types'))
    # the user's own types, stored in the enum, under names the crate or the standard library also has
    for i, ns in enumerate([CRATE_NAMES[:8], CRATE_NAMES[8:], CORE_NAMES[:8], CORE_NAMES[8:16], CORE_NAMES[16:]]):
        src = NOSTD + '#![allow(dead_code, non_camel_case_types)]\n'
        for n in ns:
            for m, vs in [('t', 'V(%s), W(u8, %s),'), ('s', 'V { a: %s }, W { a: u8, b: %s, },')]:
                vs = vs % (n, n)
                src += ('pub mod %s_%s { pub struct %s { pub mine: u8 }\n ::tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n'
                        ' pub fn f(x: %s, y: %s) -> (E, E) { %s } }\n') % (
                    m, n if n.islower() else 'u_' + n.lower(), n, vs, n, n, '(E::V(x), E::W(0, y))' if m == 't' else '(E::V { a: x }, E::W { a: 0, b: y })')
        ws.append(W('own_payloads_%d' % i, src, why='the expansion names the user\'s types, not others of their name'))
    for i, ns in enumerate([CRATE_NAMES, CORE_NAMES[:12], CORE_NAMES[12:]]):
        src = NOSTD + '#![allow(dead_code, non_camel_case_types)]\n'
        for n in ns:
            for m, c, e, x in (('c', n, 'E', 'V'), ('e', 'C', n, 'V'), ('v', 'C', 'E', n)):
                src += ('pub mod %s_%s { ::tagged_box::tagged_box! { pub struct %s, pub enum %s { %s(u8), Two(u8, u16), } }\n'
                        ' pub fn f(x: u8) -> (%s, %s, %s) { (%s::from(x), %s::from((x, 0)), %s::from(%s::%s(x))) } }\n') % (m, n if n.islower() else 'u_' + n.lower(), c, e, x, c, c, c, c, c, c, e, x)
                src += 'pub mod %s_%s_u { ::tagged_box::tagged_box! { pub struct %s, pub enum %s { %s, St { x: u8 }, } } }\n' % (m, n if n.islower() else 'u_' + n.lower(), c, e, x)
        ws.append(W('own_declared_%d' % i, src, why='an enum, a container or a variant may bear any name'))
    # methods of the user's own traits, in scope of the expansion and implemented for everything, by value and by reference
    METHODS = ['discriminant', 'as_ptr', 'as_mut_ptr', 'as_ref', 'as_u64', 'into_inner', 'into_box', 'into_raw', 'into_tagged_box', 'from_tagged_box', 'read', 'write', 'cast', 'len', 'forget', 'new', 'into',
               'from', 'clone', 'deref', 'drop', 'borrow']
    for n, sig, body, where in (('value', 'self', 'loop {}', ''), ('ref', '&self', 'loop {}', ''), ('mut', '&mut self', 'loop {}', '')):
        src = '#[allow(dead_code)] pub struct Mine; #[allow(dead_code)] pub trait Ext: Sized { %s }\nimpl<X> Ext for X {}\n' % ' '.join('fn %s(%s) -> Mine { %s }' % (m, sig, body) for m in METHODS)
        ws.append(W('own_methods_' + n, NOSTD + src + 'tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n' % v, why='the expansion calls no method of the user\'s traits'))
    # macros of the user's own, under the names of those of core
    MACROS = ['panic', 'assert', 'assert_eq', 'assert_ne', 'debug_assert', 'debug_assert_eq', 'unreachable', 'unimplemented', 'todo', 'stringify', 'concat', 'matches', 'write', 'format_args',
              'env', 'cfg', 'line', 'vec', 'format', 'println', 'try', 'thread_local', 'tagged_box', 'doc']
    src = ''.join('#[allow(unused_macros)] macro_rules! r#%s { ($($t:tt)*) => { mine!() } }\n' % m for m in MACROS)
    for n, pre, post in (('textual', src, ''), ('imported', 'pub mod mine { %s pub(crate) use {%s}; }\n#[allow(unused_imports)] use mine::{%s};\n' % (
            src.replace('macro_rules! r#', 'macro_rules! own_').replace('\n', ' '), ', '.join('own_%s as r#%s' % (m, m) for m in MACROS), ', '.join('r#' + m for m in MACROS)), '')):
        ws.append(W('own_macros_' + n, NOSTD + pre + '::tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n' % v, why='the expansion calls no macro of the user\'s'))
    ws.append(W('two_in_a_module', NOSTD + 'tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\ntagged_box::tagged_box! { pub struct C2, pub enum E2 { %s } }\n' % (v, v), why='two enums in one module'))
    ws.append(W('library', NOSTD + '''use tagged_box::{discriminant::*, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};
pub enum Any {}
pub fn f(v: u32) -> u32 { let h: TaggedBox<Any> = TaggedBox::new(v, MAX_DISCRIMINANT); let _ = TaggedPointer::new(MAX_POINTER_VALUE, MAX_DISCRIMINANT); unsafe { TaggedBox::into_inner(h) } }
''', why='the library in a no_std crate'))
    return ws


# ---------------------------------------------------------------- C20
PRE20 = '''#![allow(unused, non_snake_case, non_camel_case_types, private_interfaces)]
#![recursion_limit = "8192"]
pub struct D(pub u64);
impl Drop for D { fn drop(&mut self) {} }
pub struct DZ;
#[repr(align(64))] pub struct A64(pub u8);
#[repr(align(4096))] pub struct A4096(pub u16);
#[repr(align(32))] pub struct Z32;
#[repr(packed)] pub struct Packed(pub u8, pub u64);
pub struct Sym(pub [u64; 3]);
'''


def typed_match(e, c):
    arms = []
    for s in c:
        arms.append('        %s => { %s }' % (gen.vpat(s, e), ' '.join('let _: %s = f%d;' % (t, i) for i, t in enumerate(s[2]))))
    return 'pub fn match_%s(e: %s) {\n    match e {\n%s\n    }\n}\n' % (e, e, '\n'.join(arms))


def typed_build(e, c):
    o = []
    for n, k, f in c:
        ps = ', '.join('f%d: %s' % (i, t) for i, t in enumerate(f))
        x = '%s::%s' % (e, n)
        if k in ('one', 'tuple', 'empty'):
            x += '(%s)' % ', '.join('f%d' % i for i in range(len(f)))
        elif k != 'unit':
            x += ' { %s }' % ', '.join('f%d' % i for i in range(len(f)))
        o.append('pub fn build_%s_%s(%s) -> %s { %s }\n' % (e, n, ps, e, x))
    return ''.join(o)


def c20(width):
    ws = []
    es = gen.enums(gen.shapes(), width)
    for ed in EDITIONS:
        # all shapes, a few enums per witness
        step = max(1, len(es) // 3)
        for i in range(0, len(es), step):
            src = PRE20 + ''.join(x[3] + typed_match(x[0], x[2]) + typed_build(x[0], x[2]) for x in es[i:i + step])
            ws.append(W('grammar_%d_%s' % (i // step, ed), src, edition=ed, why='enums of every shape, with the declared variants, fields and types'))
    maxd = gen.maxd(width)
    n = min(maxd + 1, 300)
    ws.append(W('as_many_as_fit', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { %s } }\n' % ''.join('V%d, ' % i for i in range(n)), why='an enum of %d variants' % n))
    ws.append(split('exhaustive', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B { x: u16 }, } }\npub fn f(e: E) { match e { E::A(a) => { let _: u8 = a; } @@ } }\n',
                    'E::B { x } => { let _: u16 = x; }', '', ['E0004'], 'no variant is left out'))
    ws.append(split('extra_variant', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B { x: u16 }, } }\npub fn f(e: E) { match e { E::A(_) => (), E::B { .. } => (), @@ } }\n',
                    '', 'E::C => (),', ['E0599'], 'no variant is made up'))
    ws.append(split('extra_field', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B { x: u16 }, } }\npub fn f() -> E { E::B { x: 1 @@ } }\n',
                    '', ', y: 1', ['E0559'], 'no field is made up'))
    ws.append(split('field_type', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B { x: u16 }, } }\npub fn f(x: u32) -> E { E::B { x: @@ } }\n',
                    'x as u16', 'x', ['E0308'], 'a field has its declared type'))
    # attributes apply to both
    DER = ['Debug', 'Clone', 'Clone, Copy', 'PartialEq', 'PartialEq, Eq', 'PartialEq, PartialOrd', 'PartialEq, Eq, PartialOrd, Ord', 'Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord']
    v = 'A(u8, u16), B { x: u16 },' if width >= 62 else 'A(u8, u16), B { x: u16 }, U, S(u32),'
    for i, d in enumerate(DER):
        dd = d if 'Clone' in d or 'Debug' not in d else d + ', Clone'
        checks = ''.join('    n%d::<C>(); n%d::<E>();\n' % (j, j) for j, _ in enumerate(dd.split(', ')))
        fns = ''.join('fn n%d<T: %s>() {}\n' % (j, {'Debug': 'core::fmt::Debug'}.get(t, t)) for j, t in enumerate(dd.split(', ')))
        ws.append(W('derive_%d' % i, PRE20 + 'tagged_box::tagged_box! { #[derive(%s)] pub struct C, pub enum E { %s } }\n%spub fn f() {\n%s}\n' % (dd, v, fns, checks), why='attributes apply to both struct and enum (%s)' % dd))
    ws.append(W('attrs', PRE20 + '''tagged_box::tagged_box! {
    /// doc
    #[derive(Debug)]
    #[allow(dead_code)]
    #[derive(Clone)]
    #[cfg(all())]
    #[must_use]
    pub struct C, pub enum E { %s }
}
fn n<T: Clone + core::fmt::Debug>() {}
pub fn f() { n::<C>(); n::<E>(); }
''' % v, why='several attributes'))
    # visibility
    for i, (sv, ev) in enumerate([('', ''), ('pub', 'pub'), ('pub(crate)', 'pub(crate)'), ('pub(super)', 'pub(super)'), ('pub(in crate::a)', 'pub(in crate::a)'), ('', 'pub'), ('pub(crate)', 'pub')]):
        ws.append(W('vis_%d' % i, PRE20 + 'pub mod a { pub mod m { tagged_box::tagged_box! { #[derive(Clone)] %s struct C, %s enum E { %s } } }\n  %s\n}\n' % (
            sv, ev, v, 'fn f(c: m::C) -> m::E { tagged_box::TaggableContainer::into_inner(c) }' if sv else ''), why='visibility "%s" of the struct and "%s" of the enum' % (sv, ev)))
    M = PRE20 + 'pub mod a { pub mod m { tagged_box::tagged_box! { #[derive(Clone)] %s struct C, %s enum E { ' + v + ' } } } }\n'
    ws.append(split('vis_struct', PRE20 + 'pub mod m { tagged_box::tagged_box! { @@ struct C, pub enum E { %s } } }\npub fn f(_: &m::E) { let x: Option<m::C> = None; }\n' % v, 'pub', '', ['E0603'], 'the struct has the declared visibility'))
    ws.append(split('vis_enum', PRE20 + 'pub mod m { tagged_box::tagged_box! { struct C, @@ enum E { %s } } }\npub fn f() { let x: Option<m::E> = None; }\n' % v, 'pub', '', ['E0603'], 'the enum has the declared visibility'))
    ws.append(split('vis_in', PRE20 + 'pub mod a { pub mod m { tagged_box::tagged_box! { @@ struct C, pub enum E { %s } } } }\npub fn f() { let x: Option<a::m::C> = None; }\n' % v, 'pub(crate)', 'pub(super)', ['E0603'], 'the struct has the declared visibility'))
    ws.append(split('vis_in_enum', PRE20 + 'pub mod a { pub mod m { tagged_box::tagged_box! { struct C, @@ enum E { %s } } } }\npub fn f() { let x: Option<a::m::E> = None; }\n' % v, 'pub(crate)', 'pub(super)', ['E0603'], 'the enum has the declared visibility'))
    # names
    ws.append(W('names', PRE20 + '''tagged_box::tagged_box! { pub struct Container, pub enum Item { %s } }
pub fn f(i: Item) -> Container { Container::from(i) }
pub fn g(c: Container) -> Item { tagged_box::TaggableContainer::into_inner(c) }
pub fn h(c: Container) -> <Container as tagged_box::TaggableContainer>::Inner { let i: Item = tagged_box::TaggableContainer::into_inner(c); i }
pub fn t<T: tagged_box::TaggableInner>() {}
pub fn u() { t::<Item>() }
''' % v, why='declared names'))
    # a variant may bear the name of a type
    ws.append(W('own_type_names', PRE20 + 'pub struct Foo(u8); pub struct Bar; tagged_box::tagged_box! { pub struct C, pub enum E { Foo(Foo, u8), Bar { x: Bar, y: u8, }, } }\n', why='a variant named like a type of its fields'))
    ws.append(W('own_type_names_1', PRE20 + 'pub struct Foo(u8); tagged_box::tagged_box! { pub struct C, pub enum E { Foo(Foo), String(String), } }\n', why='a variant named like its type'))
    ws.append(W('enum_name', PRE20 + 'pub mod m { tagged_box::tagged_box! { pub struct C, pub enum A { A(u8, u8), B { a: u8 }, } } }\npub mod n { tagged_box::tagged_box! { pub struct A, pub enum E { A(u8, u8), E { a: u8, }, } } }\n', why='a variant named like the enum or the container'))
    for nm in ('F', 'T', 'U', 'Inner', 'Item', 'Container', 'Variant', 'Tagged', 'Callback', 'Value', 'Output'):
        ws.append(W('payload_' + nm, PRE20 + 'pub struct %s(u8); tagged_box::tagged_box! { pub struct C, pub enum E { A(%s), B(u8, %s), } }\npub mod n { pub struct %s(u8); tagged_box::tagged_box! { pub struct C, pub enum E { X { x: %s }, Y { x: u8, y: %s, }, } } }\n' % ((nm,) * 6),
                    why='a payload type named ' + nm))
        ws.append(W('enum_' + nm, PRE20 + 'pub mod m { tagged_box::tagged_box! { pub struct C, pub enum %s { A(u8), B { x: u8 }, } } }\npub mod n { tagged_box::tagged_box! { pub struct %s, pub enum E { A(u8), B(u8, u16), } } }\npub mod o { tagged_box::tagged_box! { pub struct C, pub enum E { %s(u8), B, } } }\n' % (nm, nm, nm),
                    why='an enum, a container or a variant named ' + nm))
    ws.append(W('raw_names', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { r#try(u8), r#type { r#fn: u8, r#match: u16 }, } }\npub mod m { tagged_box::tagged_box! { pub struct r#struct, pub enum r#enum { r#async, r#impl(u8, u8), } } }\n', why='raw identifiers'))
    names = ['tagged', 'value', 'callback', 'variant', 'tuple', 'discrim', 'discriminant', 'var', 'val', 'boxed', 'this', 'raw', 'ptr', 'a', 'f', 'counter', 'total_variants']
    ws.append(W('field_names', PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { A { %s }, B { callback: u8, }, } }\n' % ', '.join('%s: u8' % n for n in names), why='fields of any name'))
    ws.append(W('nested', PRE20 + 'pub mod m { use super::*; tagged_box::tagged_box! { pub struct C, pub enum E { A(Vec<Option<Box<E>>>), B(u8, Box<C>), } } }\npub mod n { use super::m::*; tagged_box::tagged_box! { pub struct C2, pub enum E2 { A(C), B { x: E, y: tagged_box::TaggedBox<E>, }, } } }\n',
                why='an enum of itself, of containers, of enums and of handles'))
    # From impls of the declared types
    ws.append(W('from', PRE20 + '''tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), T(u8, u16), } }
pub fn f() { let _: C = 1u8.into(); let _: C = (1u8, 2u16).into(); let _ = C::from(E::A(1)); }
''', why='From of the variants\' types'))
    # tuples
    t = lambda n: PRE20 + 'tagged_box::tagged_box! { pub struct C, pub enum E { T(%s), } }\n' % ', '.join(['u8'] * n)
    ws.append(W('tuple_33', t(33), refuse={''}, twin=t(32), why='a tuple variant of more than 32 fields is rejected'))
    ws.append(W('tuple_40', t(40), refuse={''}, twin=t(31), why='a tuple variant of more than 32 fields is rejected'))
    # types of every syntactic kind
    TYS = ["&'static str", "&'static mut u8", '*const u8', '[u8; 4]', "&'static [u8]", 'fn(u8) -> u16', '(u8, (u16, u32))', '()', "Box<dyn Fn(u8) -> u8 + 'static>", 'Option<Result<u8, ()>>',
           'core::marker::PhantomData<u8>', 'std::rc::Rc<core::cell::Cell<u8>>', '[Option<Box<u8>>; 3]', 'unsafe extern "C" fn(u8)', 'core::cell::UnsafeCell<u8>']
    src = PRE20
    for i, ty in enumerate(TYS):
        for j, shape in enumerate(['A(%s),', 'A(u8, %s),', 'A { x: %s },', 'A { x: u8, y: %s, },']):
            src += 'pub mod m%d_%d { use super::*; tagged_box::tagged_box! { pub struct C, pub enum E { %s } } }\n' % (i, j, shape % ty)
    ws.append(W('types', src, why='field types of every kind'))
    return ws


def c08(width, thorough=False):
    """one more variant than the width has discriminants"""
    n = gen.maxd(width) + 2
    if n > (520 if not thorough else 1100):
        return []
    kinds = [lambda i: 'V%d' % i, lambda i: 'V%d(u8, [u8; %d])' % (i, i), lambda i: 'V%d { a: u8, }' % i, lambda i: 'V%d(%s)' % (i, '[u8; %d]' % (i + 1))]
    ws = []
    for k, mix in enumerate([[0], [0, 1, 2, 3]] if n < 300 else [[0]]):
        # as many as fit
        v = [kinds[mix[i % len(mix)]](i) for i in range(n)]
        src = '#![allow(unused)]\n#![recursion_limit = "8192"]\ntagged_box::tagged_box! { pub struct C, pub enum E { %s, } }\n'
        ws.append(W('over_%d' % k, src % ', '.join(v), refuse={'E0080', ''}, twin=src % ', '.join(v[:-1]), why='%d variants where %d discriminants exist' % (n, n - 1)))
    return ws


# ---------------------------------------------------------------- C23
def c23(width):
    ws = []
    P = '#![allow(unused)]\nuse tagged_box::{TaggableInner, TaggableContainer, TaggedBox};\nuse core::fmt;\nfn need<X: %s>() {}\npub fn f<T: TaggableInner%s>() { need::<TaggedBox<T>>() }\n'
    T = [('Send', 'Send', ''), ('Sync', 'Sync', ''), ('Clone', 'Clone', ''), ('Copy', 'Copy', ' + Clone'), ('PartialEq', 'PartialEq', ''), ('Eq', 'Eq', ' + PartialEq'),
         ('PartialOrd', 'PartialOrd', ' + PartialEq'), ('Ord', 'Ord', ' + Eq + PartialOrd'), ('fmt::Debug', 'fmt::Debug', ' + Clone'), ('fmt::Display', 'fmt::Display', ' + Clone')]
    for n, tr, base in T:
        ws.append(W('only_if_' + n, P % (tr, base), refuse={'E0277'}, twin=P % (tr, base + ' + ' + tr), why='TaggedBox<T> is %s exactly if T is' % n))
    # what each ability may be had from alone
    others = ['Send', 'Sync', 'Clone', 'PartialEq', 'fmt::Debug', 'fmt::Display', 'fmt::LowerHex', 'Default', 'Unpin']
    for n in ('Send', 'Sync'):
        rest = ' + '.join(o for o in others if o != n)
        ws.append(W('only_from_' + n, P % (n, ' + ' + rest + ' + Copy + Ord'), refuse={'E0277'}, twin=P % (n, ' + ' + n), why='TaggedBox<T> is %s only if T is %s' % (n, n)))
    rest = 'Send + Sync + Clone + Copy + fmt::Debug + fmt::Display'
    for n in ('PartialEq', 'PartialOrd', 'Eq', 'Ord'):
        base = {'PartialEq': '', 'PartialOrd': ' + PartialEq', 'Eq': ' + PartialEq + PartialOrd', 'Ord': ' + Eq + PartialOrd'}[n]
        ws.append(W('only_from_' + n, P % (n, ' + ' + rest + base), refuse={'E0277'}, twin=P % (n, base + ' + ' + n), why='TaggedBox<T> is %s only if T is %s' % (n, n)))
    for n in ('fmt::Debug', 'fmt::Display'):
        r = 'Send + Sync + Copy + Ord + fmt::LowerHex + ' + ('fmt::Display' if n == 'fmt::Debug' else 'fmt::Debug')
        ws.append(W('only_from_' + n, P % (n, ' + ' + r), refuse={'E0277'}, twin=P % (n, ' + Clone + ' + n), why='TaggedBox<T> is %s only if T is' % n))
    for n in ('Clone', 'Copy'):
        r = 'Send + Sync + PartialEq + PartialOrd + fmt::Debug + fmt::Display' + (' + Clone' if n == 'Copy' else '')
        ws.append(W('only_from_' + n, P % (n, ' + ' + r), refuse={'E0277'}, twin=P % (n, ' + Clone + ' + n), why='TaggedBox<T> is %s only if T is' % n))
    # safe to look at after a panic only if the enum is
    for n in ('UnwindSafe', 'RefUnwindSafe'):
        tr = 'std::panic::' + n
        ws.append(W('only_if_' + n, P % (tr, ' + Send + Sync + Unpin + Clone + Ord'), refuse={'E0277'}, twin=P % (tr, ' + ' + tr), why='TaggedBox<T> is %s exactly if T is' % n))
    # a handle of what borrows something lives no longer than that
    V = '#![allow(unused)]\nuse core::cell::Cell;\nuse tagged_box::{TaggableInner, TaggedBox};\npub enum E<\'a> { A(&\'a u8), B }\npub enum M<\'a> { A(Cell<&\'a u8>), B }\n@@\n'
    for n, good, bad, codes in [
            ('longer', "pub fn f<'a>(h: TaggedBox<E<'a>>) -> TaggedBox<E<'a>> { h }", "pub fn f<'a>(h: TaggedBox<E<'a>>) -> TaggedBox<E<'static>> { h }", ['']),
            ('longer_ref', "pub fn f<'a, 'b>(h: &'b TaggedBox<E<'a>>) -> &'b TaggedBox<E<'a>> { h }", "pub fn f<'a, 'b>(h: &'b TaggedBox<E<'a>>) -> &'b TaggedBox<E<'static>> { h }", ['']),
            ('longer_mut', "pub fn f<'a, 'b>(h: &'b mut TaggedBox<E<'a>>, g: TaggedBox<E<'a>>) { *h = g; }", "pub fn f<'a, 'b>(h: &'b mut TaggedBox<E<'static>>, g: TaggedBox<E<'a>>) { *h = g; }", ['', 'E0621', 'E0521']),
            ('cell_longer', "pub fn f<'a>(h: TaggedBox<M<'a>>) -> TaggedBox<M<'a>> { h }", "pub fn f<'a>(h: TaggedBox<M<'a>>) -> TaggedBox<M<'static>> { h }", ['']),
            ('cell_shorter', "pub fn f<'a>(h: TaggedBox<M<'a>>) -> TaggedBox<M<'a>> { h }", "pub fn f<'a>(h: TaggedBox<M<'static>>) -> TaggedBox<M<'a>> { h }", ['']),
            ('outlives', "pub fn f<'a, T: 'a>(h: TaggedBox<T>) -> Box<dyn Sized2 + 'a> { Box::new(h) } pub trait Sized2 {} impl<T> Sized2 for T {}",
             "pub fn f<'a, T>(h: TaggedBox<T>) -> Box<dyn Sized2 + 'a> { Box::new(h) } pub trait Sized2 {} impl<T> Sized2 for T {}", ['E0309', 'E0310']),
            ('static', "pub fn f<T: 'static>() { need::<TaggedBox<T>>() } fn need<T: 'static>() {}", "pub fn f<T>() { need::<TaggedBox<T>>() } fn need<T: 'static>() {}", ['E0309', 'E0310']),
            ('borrow_ends', "pub fn f() { let h: TaggedBox<E<'_>>; { let x = 1u8; let r = TaggedBox::new(0u8, 0); h = hold(&7, r); } let _ = h.discriminant(); } fn hold<'a>(_: &'a u8, h: TaggedBox<E<'a>>) -> TaggedBox<E<'a>> { h }",
             "pub fn f() { let h: TaggedBox<E<'_>>; { let x = 1u8; let r = TaggedBox::new(0u8, 0); h = hold(&x, r); } let _ = h.discriminant(); } fn hold<'a>(_: &'a u8, h: TaggedBox<E<'a>>) -> TaggedBox<E<'a>> { h }", ['E0597'])]:
        ws.append(W('lifetime_' + n, V.replace('@@', bad), refuse=set(codes), twin=V.replace('@@', good), why='a handle of what borrows something lives no longer than that'))
    ws.append(W('lifetime_shorter', V.replace('@@', "pub fn f<'a>(h: TaggedBox<E<'static>>) -> TaggedBox<E<'a>> { h }\npub fn g<'a, 'b>(h: &'b TaggedBox<E<'static>>, k: &'b TaggedBox<E<'a>>) -> [&'b TaggedBox<E<'a>>; 2] { [h, k] }"),
                why='a handle may be used where one of a shorter life is asked for'))
    # addresses can be printed for every enum
    for n in ('fmt::LowerHex', 'fmt::UpperHex', 'fmt::Binary', 'fmt::Octal'):
        ws.append(W('any_' + n, P % (n, ''), why='TaggedBox<T> is %s for every enum' % n))
    # the threads: borrowed and owned, through the standard library's own bounds
    ws.append(W('thread_send', '''use tagged_box::{TaggableInner, TaggedBox};
pub fn f<T: TaggableInner + 'static>(h: TaggedBox<T>) { std::thread::spawn(move || drop(h)); }
''', refuse={'E0277'}, twin='''use tagged_box::{TaggableInner, TaggedBox};
pub fn f<T: TaggableInner + Send + 'static>(h: TaggedBox<T>) { std::thread::spawn(move || drop(h)); }
''', why='a handle of an enum that is not Send does not move to another thread'))
    # containers
    def container(field, derive, tr, who='C', shape='A(%s), B(%s, u8),'):
        k = shape.count('%s')
        return '''#![allow(unused)]
use core::{cell::Cell, fmt}; use std::rc::Rc;
#[derive(Clone)] pub struct NotSend(pub u8, core::marker::PhantomData<*const u8>); unsafe impl Sync for NotSend {}
#[derive(Clone)] pub struct NotSync(pub u8, core::marker::PhantomData<*const u8>); unsafe impl Send for NotSync {}
#[derive(Clone)] pub struct Both(pub u8);
tagged_box::tagged_box! { %s pub struct C, pub enum E { %s } }
fn need<X: %s>() {}
pub fn f() { need::<%s>() }
''' % (derive, shape % ((field,) * k), tr, who)
    for i, shape in enumerate(['A(%s), B(u8),', 'A(u8, %s), B,', 'A { x: %s }, B,', 'A { x: u8, y: %s, }, B,', 'A(u8), B(u8, u8, %s),']):
        for field in ('NotSend', 'NotSync', 'Rc<u8>', 'Cell<u8>', 'Both', '*const u8', "&'static u8", "&'static Cell<u8>"):
            for tr in ('Send', 'Sync'):
                has = {'NotSend': tr == 'Sync', 'NotSync': tr == 'Send', 'Rc<u8>': False, 'Cell<u8>': tr == 'Send', 'Both': True, '*const u8': False, "&'static u8": True, "&'static Cell<u8>": False}[field]
                name = 'container_%s_%d_%s' % (tr, i, ''.join(c for c in field if c.isalnum()))
                why = 'a container is %s exactly if its enum is (field %s)' % (tr, field)
                if has:
                    ws.append(W(name, container(field, '', tr, shape=shape), why=why))
                elif i == 0 or field in ('NotSend', 'NotSync'):
                    ws.append(W(name, container(field, '', tr, shape=shape), refuse={'E0277'}, twin=container('Both', '', tr, shape=shape), why=why))
    for d, tr in [('Clone', 'Clone'), ('Clone, Copy', 'Copy'), ('PartialEq', 'PartialEq'), ('PartialEq, Eq', 'Eq'), ('PartialEq, PartialOrd', 'PartialOrd'), ('PartialEq, Eq, PartialOrd, Ord', 'Ord'), ('Debug, Clone', 'fmt::Debug')]:
        ws.append(W('container_derive_' + tr, container('u16', '', tr), refuse={'E0277'}, twin=container('u16', '#[derive(%s)]' % d, tr), why='a container is %s exactly if its enum is' % tr))
        bad = container('NotIt', '#[derive(%s)]' % d, tr) + 'pub struct NotIt(u8);%s\n' % (' #[automatically_derived] impl Clone for NotIt { fn clone(&self) -> Self { loop {} } }' if tr != 'Clone' else '')
        good = container('NotIt', '#[derive(%s)]' % d, tr) + '#[derive(%s)] pub struct NotIt(u8);\n' % d
        ws.append(W('container_field_' + tr, bad, refuse={'E0277', 'E0369', 'E0204'}, twin=good, why='a container of an enum that cannot be %s' % tr))
    # implementing them needs nothing of the field types beyond what the enum has
    ws.append(W('manual_enum', '''#![allow(unused)]
use core::fmt; use tagged_box::*;
pub struct Opaque(u8);
tagged_box! { pub struct C, pub enum E { A(Opaque), B(u8, Opaque), } }
impl Clone for E { fn clone(&self) -> E { loop {} } }
impl PartialEq for E { fn eq(&self, _: &E) -> bool { loop {} } }
impl Eq for E {}
impl PartialOrd for E { fn partial_cmp(&self, _: &E) -> Option<core::cmp::Ordering> { loop {} } }
impl Ord for E { fn cmp(&self, _: &E) -> core::cmp::Ordering { loop {} } }
impl fmt::Debug for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
impl fmt::Display for E { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
fn need<X: Clone + Ord + fmt::Debug + fmt::Display + Send + Sync>() {}
pub fn f() { need::<TaggedBox<E>>() }
''', why='the abilities need no bound on anything but the enum'))
    return ws


# ---------------------------------------------------------------- C31
P31 = '''#![no_std]
#![allow(unused)]
use tagged_box::{discriminant::*, manually_impl_enum, TaggableInner, TaggedBox, TaggedPointer};
pub enum Any {}
tagged_box::tagged_box! { pub struct C, pub enum E { A(u8), B(u16, u8), } }
'''.replace('manually_impl_enum, ', '')


def c31(width):
    ws = []
    H = 'const H: TaggedBox<Any> = TaggedBox::<Any>::dangling::<u64>(MAX_DISCRIMINANT);\n'
    P = 'const P: TaggedPointer = TaggedPointer::dangling::<u64>(1);\n'
    use = [
        ('limits', 'const A: usize = TAG_WIDTH_PROBE;'.replace('TAG_WIDTH_PROBE', 'MAX_POINTER_VALUE as usize') + ' const B: Discriminant = MAX_DISCRIMINANT; static S: [u8; (DISCRIMINANT_MASK != 0) as usize] = [0; 1];', 'the limits are constants'),
        ('box_dangling', H, 'TaggedBox::dangling in a constant'),
        ('box_dangling_static_fn', 'pub const fn f<T: TaggableInner, U>(d: Discriminant) -> TaggedBox<T> { TaggedBox::<T>::dangling::<U>(d) }', 'TaggedBox::dangling in a const fn over any enum'),
        ('box_dangling_macro', 'const M: TaggedBox<E> = TaggedBox::<E>::dangling::<u8>(0);', 'TaggedBox::dangling for a generated enum'),
        ('box_discriminant', H + 'const D: Discriminant = H.discriminant(); static S: [u8; D as usize * 0] = [];', 'TaggedBox::discriminant in a constant'),
        ('box_discriminant_fn', 'pub const fn f<T: TaggableInner>(h: &TaggedBox<T>) -> Discriminant { h.discriminant() }', 'TaggedBox::discriminant in a const fn'),
        ('box_as_ptr', H + 'const D: *const u8 = H.as_ptr::<u8>();', 'TaggedBox::as_ptr in a constant'),
        ('box_as_ptr_fn', 'pub const fn f<T: TaggableInner, U>(h: &TaggedBox<T>) -> *const U { h.as_ptr::<U>() }', 'TaggedBox::as_ptr in a const fn'),
        ('pointer_dangling', P, 'TaggedPointer::dangling in a constant'),
        ('pointer_dangling_fn', 'pub const fn f<U>(d: Discriminant) -> TaggedPointer { TaggedPointer::dangling::<U>(d) }', 'TaggedPointer::dangling in a const fn'),
        ('pointer_read', P + 'const A: Discriminant = P.discriminant(); const B: u64 = P.as_u64(); const D: u64 = P.as_raw_u64(); const F: *const u8 = P.as_ptr::<u8>();', 'TaggedPointer is read in constants'),
        ('pointer_read_fn', 'pub const fn f<U>(p: TaggedPointer) -> (Discriminant, u64, u64, *const U) { (p.discriminant(), p.as_u64(), p.as_raw_u64(), p.as_ptr::<U>()) }', 'TaggedPointer is read in a const fn'),
        ('pointer_pack', 'const A: u64 = TaggedPointer::store_discriminant(16, 1); const B: Discriminant = TaggedPointer::fetch_discriminant(A); const D: u64 = TaggedPointer::strip_discriminant(A);', 'a word is packed and unpacked in constants'),
        ('pointer_pack_fn', 'pub const fn f(p: u64, d: Discriminant) -> (Discriminant, u64) { let a = TaggedPointer::store_discriminant(p, d); (TaggedPointer::fetch_discriminant(a), TaggedPointer::strip_discriminant(a)) }', 'a word is packed and unpacked in a const fn'),
        ('pattern', 'pub fn f(d: Discriminant) -> u8 { const K: Discriminant = TaggedPointer::fetch_discriminant(TaggedPointer::store_discriminant(16, 1)); match d { K => 1, _ => 0 } }', 'a discriminant read in a constant is a pattern'),
    ]
    for n, src, why in use:
        ws.append(W('const_' + n, P31 + src + '\n', why=why))
    # what is refused at run time is refused by the compiler in a constant
    for n, t, ty in [('box', 'TaggedBox::<Any>::dangling::<u64>(%s)', 'TaggedBox<Any>'), ('pointer', 'TaggedPointer::dangling::<u64>(%s)', 'TaggedPointer')]:
        if gen.maxd(width) not in (255, 65535):
            ws.append(split('refused_%s' % n, P31 + 'pub const X: %s = %s;\n' % (ty, t % '@@'), 'MAX_DISCRIMINANT', 'MAX_DISCRIMINANT + 1', ['E0080'], 'a constant with a discriminant out of range does not compile'))
    return ws


# ---------------------------------------------------------------- C33
# every kind of variant in one enum, each field kind in its own
ALL33 = ['Unit', 'Empty()', 'One(u8)', 'Big([u64; 9])', 'Two(u8, u64)', 'Own(String, Vec<u8>, u16)', 'St { a: u8 }', 'Ow { text: String, n: u64 }', 'Nothing {}', 'Zst([u8; 0])']
MAXT = ', '.join(['u8', 'u16', 'u32', 'u64'] * 3)


def c33(width):
    """nothing in the expansion or in the use of a container draws a warning, nor counts as unsafe code of the user's"""
    ws = []

    def add(name, body, why, head='#![deny(warnings)]\n#![forbid(unsafe_code)]', editions=('2018', '2021', '2024')):
        for e in editions:
            ws.append(W('clean_%s_%s' % (name, e), head + '\n#![recursion_limit = "512"]\n' + body, why=why, edition=e, lints=True))

    def few(vs):
        n = gen.maxd(width) + 1
        return vs if len(vs) <= n else None

    def enum(vs, attr='', vis='pub ', evis='pub ', trail=True):
        return 'tagged_box::tagged_box! { %s %sstruct C, %senum E { %s%s } }\n' % (attr, vis, evis, ', '.join(vs), ',' if trail else '')

    D = '#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]'
    for i, v in enumerate(ALL33):
        ws.append(W('clean_kind_%d' % i, '#![deny(warnings)]\n#![forbid(unsafe_code)]\n' + enum([v]), why='an enum with %s' % v, lints=True))
    w = gen.maxd(width) + 1
    for k in range(0, len(ALL33), w):
        vs = ALL33[k:k + w]
        add('derive_%d' % k, enum(vs, D), 'an enum with every derive')
        add('bare_%d' % k, enum(vs), 'an enum with none')
        if w > len(ALL33):
            break
    T = 'use tagged_box::TaggableContainer;\n'
    add('scoped', T + 'pub mod m { ' + enum(['One(u8)', 'Two(u8, u64)'], '#[derive(Clone)]', 'pub(crate) ', 'pub(crate) ') + '}\npub fn f() -> u8 { let c = m::C::from(m::E::One(1)); match c.clone().into_inner() { m::E::One(a) => a, m::E::Two(a, _) => a } }\n', 'visible in the crate only')
    add('private', T + enum(['One(u8)', 'St { a: u16 }'], '#[derive(Debug, Clone)]', '', '') + 'pub fn f(a: u8) -> bool { let c = C::from(E::One(a)); let d = C::from(E::St { a: 2 }); format!("{:?}", c).is_empty() && match (c.into_inner(), d.into_inner()) { (E::One(x), E::St { a: y }) => x as u16 == y, _ => false } }\n', 'private and used')
    add('local', T + 'pub fn f(v: u8) -> u8 { ' + enum(['One(u8)', 'Two(u8, u8)'], '', '', '') + 'let c = C::from(E::One(v)); let d = C::from(E::Two(v, v)); match (c.into_inner(), d.into_inner()) { (E::One(a), E::Two(b, _)) => a + b, (E::Two(a, b), _) => a + b, (E::One(a), E::One(b)) => a + b } }\n', 'inside a function')
    add('use', T + enum(['One(String)', 'Two(u8, String)'], D) + """
pub fn f(c: C, mut e: C) -> bool {
    c == e && { e = c.clone(); e <= c } && format!("{:?}", e).is_empty() && match c.into_inner() { E::One(s) => s.is_empty(), E::Two(n, s) => s.len() == usize::from(n) }
}
""", 'a program that uses a container')
    add('nostd', '#![no_std]\n' + enum(['One(u8)', 'Two(u8, u64)'], D), 'without the standard library')
    add('longest', enum(['T(%s)' % MAXT, 'S { %s }' % ', '.join('f%d: u8' % i for i in range(12))]), 'as many fields as a tuple variant takes')
    return ws
