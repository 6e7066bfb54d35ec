// What the probes say to the analysis. The bodies are never run: tbcheck gives
// each of these its meaning (see driver/src/models.rs).
#[allow(dead_code, unused_variables)]
pub mod vp {
    /// obligation: `actual` has every bit of `expected` (padding aside)
    pub fn same<T>(expected: &T, actual: &T, what: &'static str) {}
    /// obligation: the condition is true on every path
    pub fn check(cond: bool, what: &'static str) {}
    /// obligation: no path gets here
    pub fn never(what: &'static str) {}
    /// restrict the analysis to paths on which the condition is true
    pub fn assume(cond: bool) {}
    /// a value of which nothing is known
    pub fn any<T>() -> T { loop {} }
    /// run f; true if it unwound
    pub fn catch<F: FnOnce()>(f: F) -> bool { f(); false }
    /// number of successful allocations / frees / live blocks so far
    pub fn allocs() -> usize { 0 }
    pub fn frees() -> usize { 0 }
    pub fn live() -> usize { 0 }
    /// number of calls of the named user operation so far
    pub fn calls(name: &'static str) -> usize { 0 }
    /// number of user operations so far
    pub fn events() -> usize { 0 }
    /// remember the heap and the events so far
    pub fn mark() -> usize { 0 }
    /// obligation: every block live at the mark is live and unchanged
    pub fn heap_same(mark: usize, what: &'static str) {}
    /// obligation: no block allocated since the mark is still live
    pub fn no_new(mark: usize, what: &'static str) {}
    /// obligation: no allocator call and no user operation since the mark
    pub fn quiet(mark: usize, what: &'static str) {}
    /// obligation: start of a live block made for exactly a T
    pub fn block_of<T>(p: *const T, what: &'static str) {}
    /// obligation: non-null and aligned for T
    pub fn aligned<T>(p: *const T, what: &'static str) {}
    /// obligation: passed and returned like a u64
    pub fn abi_u64<T>(what: &'static str) {}
    /// bitwise copy that is never dropped
    pub fn copy<T>(t: &T) -> core::mem::ManuallyDrop<T> {
        unsafe { core::mem::ManuallyDrop::new(core::ptr::read(t)) }
    }
}

/// User operations about which nothing is known.
#[allow(dead_code, improper_ctypes)]
pub mod ext {
    extern "Rust" {
        pub fn dropped(x: u64);
        pub fn dropped_zst();
    }
}

#[allow(unused_imports)]
use core::{fmt, mem::{self, ManuallyDrop}};
#[allow(unused_imports)]
use tagged_box::{discriminant::*, TaggableContainer, TaggableInner, TaggedBox, TaggedPointer};

/// a value with a destructor
pub struct D(pub u64);
impl Drop for D {
    fn drop(&mut self) {
        unsafe { ext::dropped(self.0) }
    }
}
/// a zero-sized value with a destructor
pub struct DZ;
impl Drop for DZ {
    fn drop(&mut self) {
        unsafe { ext::dropped_zst() }
    }
}
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct A64(pub u8);
#[repr(align(4096))]
#[derive(Clone, Copy)]
pub struct A4096(pub u16);
#[repr(align(32))]
#[derive(Clone, Copy)]
pub struct Z32;
#[repr(packed)]
#[derive(Clone, Copy)]
pub struct Packed(pub u8, pub u64);
/// stands for a type of unknown size and alignment
#[derive(Clone, Copy)]
pub struct Sym(pub [u64; 3]);
#[allow(dead_code)]
pub fn vp_sym_types() -> (Sym,) { loop {} }
