//! Abstract domain: every bit of memory is known (0/1), the i-th bit of a named
//! origin (or its negation), undefined, or unknown.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type ObjId = u32;
pub type Var = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bit {
    O,
    I,
    S(Var, u8),
    N(Var, u8),
    U,
    T,
}
use Bit::*;
pub type Bits = Vec<Bit>;

impl std::fmt::Debug for Bit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            O => write!(f, "0"),
            I => write!(f, "1"),
            S(v, i) => write!(f, "{}.{}", var_name(*v), i),
            N(v, i) => write!(f, "!{}.{}", var_name(*v), i),
            U => write!(f, "undef"),
            T => write!(f, "?"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum VarKind {
    /// part of an input of the analysed function
    Input(String),
    /// address of an abstract object plus a multiple of its alignment
    Addr(ObjId, u64),
    /// the same as a number, which is no pointer to the object
    Number(ObjId, u64),
    /// value-numbered result of an operation the domain does not interpret
    Op(String, Vec<Bits>),
    /// result of the n-th call of an external function
    Ret(String, u32),
    /// size / alignment of a type taken as unknown
    SizeOf(String),
    AlignOf(String),
    /// truth of a comparison
    Pred(&'static str, Bits, Bits),
}

#[derive(Default)]
struct Vars {
    kinds: Vec<VarKind>,
    map: HashMap<VarKind, Var>,
}
thread_local! { static VARS: RefCell<Vars> = RefCell::new(Vars::default()); }

pub fn var(k: VarKind) -> Var {
    VARS.with(|v| {
        let mut v = v.borrow_mut();
        if let Some(x) = v.map.get(&k) {
            return *x;
        }
        let id = v.kinds.len() as Var;
        v.kinds.push(k.clone());
        v.map.insert(k, id);
        id
    })
}
pub fn kind(v: Var) -> VarKind {
    VARS.with(|x| x.borrow().kinds[v as usize].clone())
}
pub fn with_kind<R>(v: Var, f: impl FnOnce(&VarKind) -> R) -> R {
    VARS.with(|x| f(&x.borrow().kinds[v as usize]))
}
pub fn var_name(v: Var) -> String {
    match kind(v) {
        VarKind::Input(s) => s,
        VarKind::Addr(o, 0) | VarKind::Number(o, 0) => format!("addr#{o}"),
        VarKind::Addr(o, q) | VarKind::Number(o, q) => format!("addr#{o}+{q}"),
        VarKind::Op(s, _) => format!("{s}#{v}"),
        VarKind::Ret(s, n) => format!("ret:{s}#{n}"),
        VarKind::SizeOf(s) => format!("size_of<{s}>"),
        VarKind::AlignOf(s) => format!("align_of<{s}>"),
        VarKind::Pred(op, a, b) => format!("({} {op} {})", show(&a), show(&b)),
    }
}

/// whether the value was computed from what a writable static held
pub fn shared_origin(v: Var) -> Option<String> {
    let k = kind(v);
    match &k {
        VarKind::Input(l) if l.starts_with("static ") => Some(l.split('@').next().unwrap_or(l).to_string()),
        VarKind::Op(_, a) => a.iter().find_map(|b| shared_bits(b)),
        VarKind::Pred(_, a, b) => shared_bits(a).or_else(|| shared_bits(b)),
        _ => None,
    }
}
pub fn shared_bits(b: &[Bit]) -> Option<String> {
    let mut last = None;
    b.iter().find_map(|x| match x {
        S(v, _) | N(v, _) if last != Some(*v) => {
            last = Some(*v);
            shared_origin(*v)
        }
        _ => None,
    })
}

/// compact rendering of a bit vector
pub fn show(b: &[Bit]) -> String {
    if let Some(c) = as_const(b) {
        return if b.len() == 1 { format!("{c}") } else { format!("{c:#x}") };
    }
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let s = i;
        match b[i] {
            S(v, k) => {
                while i < b.len() && b[i] == S(v, (k as usize + (i - s)) as u8) {
                    i += 1;
                }
                let n = i - s;
                out.push(if n == 1 { format!("{:?}", b[s]) } else { format!("{}[{}..{}]", var_name(v), k, k as usize + n) });
            }
            x => {
                while i < b.len() && b[i] == x {
                    i += 1;
                }
                out.push(if i - s == 1 { format!("{x:?}") } else { format!("{:?}x{}", x, i - s) });
            }
        }
        if out.len() > 12 {
            out.push("..".into());
            break;
        }
    }
    format!("<{}>", out.join(","))
}

pub fn cbits(v: u128, w: usize) -> Bits {
    (0..w).map(|i| if i < 128 && (v >> i) & 1 == 1 { I } else { O }).collect()
}
pub fn as_const(b: &[Bit]) -> Option<u128> {
    let mut r = 0u128;
    for (i, x) in b.iter().enumerate() {
        match x {
            O => {}
            I if i < 128 => r |= 1 << i,
            _ => return None,
        }
    }
    Some(r)
}
pub fn sym(v: Var, w: usize) -> Bits {
    (0..w).map(|i| S(v, i as u8)).collect()
}
/// bits of an origin of arbitrary width (origins carry at most 128 bits each)
pub fn input_bits(name: &str, w: usize) -> Bits {
    let mut out = Vec::with_capacity(w);
    let mut part = 0;
    while out.len() < w {
        let n = (w - out.len()).min(128);
        let nm = if w <= 128 { name.to_string() } else { format!("{name}/{part}") };
        out.extend(sym(var(VarKind::Input(nm)), n));
        part += 1;
    }
    out
}
pub fn not_bit(b: Bit) -> Bit {
    match b {
        O => I,
        I => O,
        S(v, i) => N(v, i),
        N(v, i) => S(v, i),
        x => x,
    }
}
/// the type a value is exactly the size (alignment) of
fn type_const(b: &[Bit], pick: impl Fn(&VarKind) -> Option<String>) -> Option<String> {
    let v = match b.first() {
        Some(S(v, 0)) => *v,
        _ => return None,
    };
    let t = with_kind(v, pick)?;
    b.iter().enumerate().all(|(i, x)| *x == S(v, i as u8) || (i >= 30 && *x == O)).then_some(t)
}
pub fn size_of(b: &[Bit]) -> Option<String> {
    type_const(b, |k| if let VarKind::SizeOf(t) = k { Some(t.clone()) } else { None })
}
pub fn align_of(b: &[Bit]) -> Option<String> {
    type_const(b, |k| if let VarKind::AlignOf(t) = k { Some(t.clone()) } else { None })
}
pub fn has_undef(b: &[Bit]) -> bool {
    b.iter().any(|x| *x == U)
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum ObjKind {
    Local(String),
    Heap,
    Input(String),
    Const,
    Static(String),
    /// writable by other operations and threads
    Shared(String),
    Fn(usize),
    VTable(String, usize),
    Scratch,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub kind: ObjKind,
    pub size: u64,
    pub align: u64,
    pub data: Bits,
    pub live: bool,
    /// its address was given away as a number
    pub exposed: bool,
}

/// contents seen through an argument of an external call
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Snap {
    Bits(Bits),
    /// pointer to a labelled or anonymous object together with what it points at
    Ptr { label: String, data: Bits, meta: String, aligned: bool },
}

#[derive(Clone, Debug)]
pub enum Event {
    Alloc { obj: Option<ObjId>, size: Bits, align: Bits, zeroed: bool, site: String },
    Dealloc { obj: Option<ObjId>, off: u64, ptr: Bits, size: Bits, align: Bits, data: Bits, site: String },
    Call { name: String, args: Vec<Snap>, ord: u32, unwound: bool, ret: Bits, heap_live: Vec<ObjId>, site: String },
    Text(String),
    Panic { what: String, site: String },
}

/// shared until written to: states are copied at every branch
#[derive(Clone, Default)]
pub struct Shared<T>(Rc<T>);
impl<T> std::ops::Deref for Shared<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: Clone> std::ops::DerefMut for Shared<T> {
    fn deref_mut(&mut self) -> &mut T {
        Rc::make_mut(&mut self.0)
    }
}

/// the objects of a state, in shared pages of shared pages
#[derive(Clone, Default)]
pub struct Objs {
    pages: Shared<Vec<Shared<Vec<Rc<Obj>>>>>,
    len: usize,
}
const PAGE: usize = 64;
impl Objs {
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn get(&self, i: usize) -> Option<&Obj> {
        if i < self.len { Some(&self.pages[i / PAGE][i % PAGE]) } else { None }
    }
    pub fn get_mut(&mut self, i: usize) -> &mut Obj {
        Rc::make_mut(&mut self.pages[i / PAGE][i % PAGE])
    }
    pub fn push(&mut self, o: Obj) {
        if self.len % PAGE == 0 {
            self.pages.push(Default::default());
        }
        self.pages.last_mut().unwrap().push(Rc::new(o));
        self.len += 1;
    }
    pub fn pop(&mut self) {
        self.len -= 1;
        self.pages.last_mut().unwrap().pop();
        if self.len % PAGE == 0 {
            self.pages.pop();
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = &Obj> {
        self.pages.iter().flat_map(|p| p.iter().map(|o| &**o))
    }
}

#[derive(Clone)]
pub struct State {
    pub objs: Objs,
    pub known: Shared<BTreeMap<(Var, u8), bool>>,
    /// bits known to equal another bit
    pub alias: Shared<BTreeMap<(Var, u8), Bit>>,
    pub excl: Shared<BTreeMap<Bits, BTreeSet<u128>>>,
    /// validity ranges of symbolic scalars: (bits, start, end), wrapping when start > end
    pub ranges: Shared<Vec<(Bits, u128, u128)>>,
    pub trace: Shared<Vec<Rc<Event>>>,
    pub ords: Shared<BTreeMap<String, u32>>,
    /// how each user operation was taken to end: unwinding, or the variant it returned
    pub choices: Shared<BTreeMap<(String, u32), i32>>,
    pub allocs: Shared<HashMap<usize, ObjId>>,
    /// addresses have no bits at and above this position
    pub fit: usize,
}

pub struct Env {
    pub pw: usize,
    /// address bits at and above this position are zero for every heap block
    pub fit_width: Option<usize>,
    pub alloc_may_fail: bool,
    pub ext_unwind: bool,
    /// what the language leaves undefined is reported even where it is without effect here
    pub strict: bool,
}

impl State {
    pub fn new() -> State {
        State {
            objs: Default::default(),
            known: Default::default(),
            alias: Default::default(),
            excl: Default::default(),
            ranges: Default::default(),
            trace: Default::default(),
            ords: Default::default(),
            choices: Default::default(),
            allocs: Default::default(),
            fit: 64,
        }
    }
    pub fn alloc(&mut self, kind: ObjKind, size: u64, align: u64) -> ObjId {
        let id = self.objs.len() as ObjId;
        self.objs.push(Obj { kind, size, align: align.max(1), data: vec![U; (size * 8) as usize], live: true, exposed: false });
        id
    }
    pub fn obj(&self, o: ObjId) -> &Obj {
        self.objs.get(o as usize).unwrap()
    }
    pub fn obj_mut(&mut self, o: ObjId) -> &mut Obj {
        self.objs.get_mut(o as usize)
    }
    pub fn nb(&self, b: Bit) -> Bit {
        let (v, i, neg) = match b {
            S(v, i) => (v, i, false),
            N(v, i) => (v, i, true),
            x => return x,
        };
        if let Some(k) = self.known.get(&(v, i)) {
            return if *k != neg { I } else { O };
        }
        if let Some(a) = self.alias.get(&(v, i)) {
            let a = self.nb(*a);
            return if neg { not_bit(a) } else { a };
        }
        b
    }
    /// the truth of a comparison among the facts
    fn fact(&self, op: &str, x: &[Bit], y: &[Bit]) -> Option<bool> {
        let konst = as_const(x).is_some() || as_const(y).is_some();
        let (sx, sy) = Self::strip(x, y);
        self.known.iter().find_map(|((v, _), t)| {
            with_kind(*v, |k| match k {
                VarKind::Pred(o, p, q) if *o == op && p.len() == x.len() && konst => {
                    let (p, q) = (self.norm(p), self.norm(q));
                    ((p == x && q == y) || (op == "==" && p == y && q == x)).then_some(*t)
                }
                VarKind::Pred(o, p, q) if *o == op && !konst && p.len() >= sx.len() => {
                    let (p, q) = Self::strip(&self.norm(p), &self.norm(q));
                    let (x, y) = (&sx, &sy);
                    ((p == *x && q == *y) || (op == "==" && p == *y && q == *x)).then_some(*t)
                }
                _ => None,
            })
        })
    }
    pub fn norm(&self, b: &[Bit]) -> Bits {
        b.iter().map(|x| self.nb(*x)).collect()
    }
    pub fn konst(&self, b: &[Bit]) -> Option<u128> {
        if b.len() > 128 {
            return None;
        }
        let mut r = 0u128;
        for (i, x) in b.iter().enumerate() {
            match self.nb(*x) {
                O => {}
                I => r |= 1 << i,
                _ => return None,
            }
        }
        Some(r)
    }
    pub fn ptr(&self, o: ObjId, off: u64, pw: usize) -> Bits {
        let a = self.obj(o).align;
        let q = off & !(a - 1);
        let r = off & (a - 1);
        let k = a.trailing_zeros() as usize;
        let v = var(VarKind::Addr(o, q));
        (0..pw).map(|i| if i < k { if (r >> i) & 1 == 1 { I } else { O } } else if i >= self.fit { O } else { S(v, i as u8) }).collect()
    }
    /// which object and offset a pointer-sized value designates, if that is certain
    pub fn decode(&self, b: &[Bit]) -> Option<(ObjId, u64)> {
        let mut hit = None;
        for x in b {
            if let S(v, _) = x {
                if let Some(r) = with_kind(*v, |k| if let VarKind::Addr(o, q) | VarKind::Number(o, q) = k { Some((*o, *q)) } else { None }) {
                    hit = Some((*v, r));
                    break;
                }
            }
        }
        let (v, (o, q)) = hit?;
        let a = self.objs.get(o as usize)?.align;
        let k = a.trailing_zeros() as usize;
        let mut r = 0u64;
        for (i, x) in b.iter().enumerate() {
            if i < k {
                match self.nb(*x) {
                    O => {}
                    I => r |= 1 << i,
                    _ => return None,
                }
            } else {
                let want = if i >= self.fit { O } else { S(v, i as u8) };
                if *x == want || self.nb(*x) == self.nb(want) {
                    continue;
                }
                return None;
            }
        }
        Some((o, q.wrapping_add(r)))
    }
    /// an address as a number, or a number as a pointer
    pub fn turned(b: &[Bit], number: bool) -> Bits {
        let turn = |v: Var| match kind(v) {
            VarKind::Addr(o, q) if number => var(VarKind::Number(o, q)),
            VarKind::Number(o, q) if !number => var(VarKind::Addr(o, q)),
            _ => v,
        };
        b.iter().map(|x| match x { S(v, i) => S(turn(*v), *i), N(v, i) => N(turn(*v), *i), x => *x }).collect()
    }
    pub fn is_number(b: &[Bit]) -> bool {
        b.iter().any(|x| matches!(x, S(v, _) if matches!(kind(*v), VarKind::Number(..))))
    }
    /// the validity range recorded for exactly these bits
    fn range_of(&self, b: &[Bit]) -> Option<(u128, u128)> {
        if as_const(b).is_some() {
            return None;
        }
        self.ranges.iter().find(|(k, ..)| k.len() == b.len() && self.norm(k) == b).map(|r| (r.1, r.2))
    }
    fn in_valid_range(&self, b: &[Bit], c: u128) -> bool {
        match self.range_of(b) {
            Some((s, e)) if s <= e => c >= s && c <= e,
            Some((s, e)) => c >= s || c <= e,
            None => true,
        }
    }
    pub fn min_max(&self, b: &[Bit]) -> (u128, u128) {
        let (mut lo, mut hi) = (0u128, 0u128);
        for (i, x) in b.iter().enumerate() {
            match self.nb(*x) {
                O => {}
                I => {
                    lo |= 1 << i;
                    hi |= 1 << i
                }
                _ => hi |= 1 << i,
            }
        }
        if !self.ranges.is_empty() {
            if let Some((s, e)) = self.range_of(&self.norm(b)) {
                if s <= e {
                    return (lo.max(s), hi.min(e));
                }
            }
        }
        (lo, hi)
    }
    /// Some(b) when the truth of a predicate bit is certain
    pub fn truth(&self, b: Bit) -> Option<bool> {
        match self.nb(b) {
            O => Some(false),
            I => Some(true),
            _ => None,
        }
    }
    pub fn eq_bit(&self, a: &[Bit], b: &[Bit]) -> Bit {
        let a = self.norm(a);
        let b = self.norm(b);
        let mut diff: Vec<(Bit, Bit)> = vec![];
        let mut unknown = false;
        for (x, y) in a.iter().zip(&b) {
            match (*x, *y) {
                (O, I) | (I, O) => return O,
                (S(v, i), N(w, j)) | (N(v, i), S(w, j)) if v == w && i == j => return O,
                (T, _) | (_, T) | (U, _) | (_, U) => unknown = true,
                (x, y) if x == y => {}
                (x, y) => diff.push((x, y)),
            }
        }
        if let (Some(p), Some(q)) = (self.decode(&a), self.decode(&b)) {
            if p.0 != q.0 {
                let (x, y) = (self.obj(p.0), self.obj(q.0));
                if x.live && y.live && x.size > 0 && y.size > 0 && p.1 < x.size && q.1 < y.size {
                    return O;
                }
            } else if p.1 != q.1 {
                return O;
            }
        }
        // no object lives at address zero
        for (p, c) in [(&a, &b), (&b, &a)] {
            if as_const(c) == Some(0) && self.decode(p).is_some() {
                return O;
            }
        }
        if unknown {
            return T;
        }
        if diff.is_empty() {
            return I;
        }
        // order facts decide equality
        match (self.fact("<", &a, &b), self.fact("<", &b, &a)) {
            (Some(true), _) | (_, Some(true)) => return O,
            (Some(false), Some(false)) => return I,
            _ => {}
        }
        if let Some(t) = self.fact("==", &a, &b) {
            return if t { I } else { O };
        }
        if self.parts_differ(&a, &b) {
            return O;
        }
        // a constant outside the scalar's validity range is not its value
        for (k, c) in [(&a, &b), (&b, &a)] {
            if let Some(c) = as_const(c) {
                if !self.in_valid_range(k, c) {
                    return O;
                }
            }
        }
        if diff.len() == 1 {
            match diff[0] {
                (x, I) | (I, x) => return x,
                (x, O) | (O, x) => return not_bit(x),
                _ => {}
            }
        }
        if let Some((x, y)) = Self::eq_through(&a, &b) {
            return self.eq_bit(&x, &y);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        let (key, c) = if let Some(c) = as_const(&a) { (&b, Some(c)) } else { (&a, as_const(&b)) };
        if let Some(c) = c {
            let mut seen: BTreeSet<u128> = BTreeSet::new();
            for (k, s) in self.excl.iter() {
                if self.norm(k) == *key {
                    seen.extend(s);
                }
            }
            if seen.contains(&c) {
                return O;
            }
            let free: Vec<usize> = (0..key.len()).filter(|i| !matches!(key[*i], O | I)).collect();
            if free.len() <= 8 && seen.len() + 1 == 1 << free.len() {
                // every other value has been excluded
                return I;
            }
        }
        let (a, b) = if c.is_none() { Self::strip(&a, &b) } else { (a, b) };
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.nb(S(var(VarKind::Pred("==", a, b)), 0))
    }
    /// the bit pairs of two values that are not already the same bit
    fn strip(a: &[Bit], b: &[Bit]) -> (Bits, Bits) {
        a.iter().zip(b).filter(|(x, y)| x != y).map(|(x, y)| (*x, *y)).unzip()
    }
    /// a part of the one value is known to differ from the same part of the other
    fn parts_differ(&self, a: &[Bit], b: &[Bit]) -> bool {
        self.known.iter().any(|((v, _), t)| {
            with_kind(*v, |k| match k {
                VarKind::Pred(o, p, q) if (*o == "==") != *t && p.len() <= a.len() + 64 => {
                    if as_const(p).is_some() || as_const(q).is_some() {
                        return false;
                    }
                    let (p, q) = Self::strip(&self.norm(p), &self.norm(q));
                    !p.is_empty() && p.iter().zip(&q).all(|(x, y)| a.iter().zip(b).any(|(s, t)| (s == x && t == y) || (s == y && t == x)))
                }
                _ => false,
            })
        })
    }
    /// how the high bits of two values order them, where facts tell: which is less, or by how many bits from the top that is decided
    fn by_top(&self, a: &[Bit], b: &[Bit]) -> Option<Result<bool, usize>> {
        let mut r = None;
        for ((v, _), t) in self.known.iter() {
            let got = with_kind(*v, |k| match k {
                VarKind::Pred(o, p, q) => {
                    if as_const(p).is_some() || as_const(q).is_some() {
                        return None;
                    }
                    let (p, q) = Self::strip(&self.norm(p), &self.norm(q));
                    let n = p.len();
                    if n == 0 || n > a.len() || (n == a.len() && *o == "==") {
                        return None;
                    }
                    let (x, y) = (&a[a.len() - n..], &b[b.len() - n..]);
                    let same = x == &p[..] && y == &q[..];
                    let swap = x == &q[..] && y == &p[..];
                    match (*o, *t) {
                        ("<", true) if same => Some(Ok(true)),
                        ("<", true) if swap => Some(Ok(false)),
                        ("<", false) if swap && n == a.len() => None,
                        ("==", false) if same || swap => Some(Err(n)),
                        _ => None,
                    }
                }
                _ => None,
            });
            match got {
                Some(Ok(x)) => return Some(Ok(x)),
                Some(x) => r = Some(x),
                None => {}
            }
        }
        r
    }
    /// an equality with a constant of bits that say whether other bits are equal:
    /// the equality of those (differences, exclusive ors, ors of them)
    fn eq_through(a: &[Bit], b: &[Bit]) -> Option<(Bits, Bits)> {
        let (a, b) = if as_const(a).is_some() { (b, a) } else { (a, b) };
        if as_const(b) == Some(0) {
            if let S(v, 0) = a[0] {
                let all = a.iter().enumerate().all(|(i, x)| *x == S(v, i as u8));
                if all {
                    if let VarKind::Op(n, args) = kind(v) {
                        if n == "-" && args.len() == 2 && args[0].len() == a.len() {
                            return Some((args[0].clone(), args[1].clone()));
                        }
                    }
                }
            }
        }
        let (mut x, mut y, mut any) = (vec![], vec![], false);
        let mut todo: Vec<(Bit, Bit)> = a.iter().copied().zip(b.iter().copied()).rev().collect();
        while let Some((p, c)) = todo.pop() {
            let (v, c) = match (p, c) {
                (S(v, 0), O | I) => (v, c),
                (N(v, 0), O | I) => (v, not_bit(c)),
                _ => {
                    x.push(p);
                    y.push(c);
                    continue;
                }
            };
            match kind(v) {
                VarKind::Op(n, args) if args.len() == 2 && args[0].len() == 1 && args[1].len() == 1 => {
                    let (l, r) = (args[0][0], args[1][0]);
                    match (n.as_str(), c) {
                        ("^", _) => {
                            x.push(l);
                            y.push(if c == O { r } else { not_bit(r) });
                            any = true;
                            continue;
                        }
                        ("|", O) | ("&", I) => {
                            todo.push((r, c));
                            todo.push((l, c));
                            any = true;
                            continue;
                        }
                        _ => {}
                    }
                }
                VarKind::Pred("==", l, r) if c == I => {
                    x.extend(l);
                    y.extend(r);
                    any = true;
                    continue;
                }
                _ => {}
            }
            x.push(p);
            y.push(c);
        }
        any.then_some((x, y))
    }
    /// the operation a value is the result of, if it is exactly that, zero-extended
    fn result_of(&self, b: &[Bit]) -> Option<(String, Vec<Bits>)> {
        let v = b.iter().enumerate().find_map(|(i, x)| match x {
            S(v, j) if i == *j as usize => Some(*v),
            _ => None,
        })?;
        let (n, a) = with_kind(v, |k| if let VarKind::Op(n, a) = k { Some((n.clone(), a.clone())) } else { None })?;
        let own = if matches!(n.as_str(), "ctlz" | "cttz") { (usize::BITS - a[0].len().leading_zeros()) as usize } else { a[0].len() };
        let same = b.iter().enumerate().all(|(i, x)| if i >= own { *x == O } else { *x == S(v, i as u8) || *x == self.nb(S(v, i as u8)) });
        if same && b.len() >= own { Some((n, a)) } else { None }
    }
    /// a value that is a count of leading or trailing zeros, or a constant less such a count: (constant, which, of what)
    fn zeros_of(&self, b: &[Bit]) -> Option<(Option<u128>, bool, Bits)> {
        let (n, a) = self.result_of(b)?;
        match n.as_str() {
            "ctlz" | "cttz" => Some((None, n == "ctlz", a[0].clone())),
            "-" => {
                let c = self.konst(&a[0])?;
                let (n, y) = self.result_of(&a[1])?;
                if matches!(n.as_str(), "ctlz" | "cttz") && c >= y[0].len() as u128 {
                    return Some((Some(c), n == "ctlz", y[0].clone()));
                }
                None
            }
            _ => None,
        }
    }
    /// whether x has fewer than n leading (trailing) zeros
    fn fewer_zeros(&self, leading: bool, x: &[Bit], n: u128) -> Bit {
        let w = x.len();
        if n == 0 {
            return O;
        }
        if n > w as u128 {
            return I;
        }
        let n = n as usize;
        if leading {
            not_bit(self.ult_bit(x, &cbits(1u128 << (w - n), w)))
        } else {
            not_bit(self.eq_bit(&x[..n], &cbits(0, n)))
        }
    }
    pub fn ult_bit(&self, a: &[Bit], b: &[Bit]) -> Bit {
        let a = self.norm(a);
        let b = self.norm(b);
        if let (Some(t), Some((n, x))) = (size_of(&b), self.result_of(&a)) {
            // the size of a type, rounded up to its alignment, is at most isize::MAX
            if n == "-" && self.konst(&x[0]) == Some(1 << (b.len() - 1)) && align_of(&self.norm(&x[1])).as_ref() == Some(&t) {
                return O;
            }
        }
        if let Some(k) = as_const(&b) {
            match self.zeros_of(&a) {
                Some((None, l, x)) => return self.fewer_zeros(l, &x, k),
                Some((Some(c), l, x)) => return if c < k { I } else { not_bit(self.fewer_zeros(l, &x, c - k + 1)) },
                None => {}
            }
        } else if let Some(k) = as_const(&a) {
            match self.zeros_of(&b) {
                Some((None, l, x)) => return not_bit(self.fewer_zeros(l, &x, k.saturating_add(1))),
                Some((Some(c), l, x)) => return if c <= k { O } else { self.fewer_zeros(l, &x, c - k) },
                None => {}
            }
        }
        if a.iter().chain(&b).any(|x| matches!(x, T | U)) {
            let (_, ah) = self.min_max(&a);
            let (bl, _) = self.min_max(&b);
            let (al, _) = self.min_max(&a);
            let (_, bh) = self.min_max(&b);
            return if ah < bl { I } else if al >= bh { O } else { T };
        }
        let (al, ah) = self.min_max(&a);
        let (bl, bh) = self.min_max(&b);
        if ah < bl {
            return I;
        }
        if al >= bh || a == b {
            return O;
        }
        if as_const(&a).is_none() && as_const(&b).is_none() {
            let (x, y) = Self::strip(&a, &b);
            if x.len() < a.len() {
                return self.ult_bit(&x, &y);
            }
            match self.by_top(&a, &b) {
                Some(Ok(t)) => return if t { I } else { O },
                Some(Err(n)) => return self.ult_bit(&a[a.len() - n..], &b[b.len() - n..]),
                None => {}
            }
        }
        let p = var(VarKind::Pred("<", a.clone(), b.clone()));
        if let Some(t) = self.known.get(&(p, 0)) {
            return if *t { I } else { O };
        }
        if let Some(t) = self.fact("<", &a, &b) {
            return if t { I } else { O };
        }
        // exactly one of a < b, a == b, b < a
        match (self.fact("==", &a, &b), self.fact("<", &b, &a)) {
            (Some(true), _) | (_, Some(true)) => return O,
            (Some(false), Some(false)) => return I,
            _ => {}
        }
        S(p, 0)
    }
    /// a comparison's bit under everything known now
    pub fn reval(&self, b: Bit) -> Bit {
        match self.nb(b) {
            S(v, 0) => match kind(v) {
                VarKind::Pred("==", x, y) => self.eq_bit(&x, &y),
                VarKind::Pred("<", x, y) => self.ult_bit(&x, &y),
                _ => S(v, 0),
            },
            N(v, 0) => not_bit(self.reval(S(v, 0))),
            x => x,
        }
    }
    /// record that a bit has a value; false when that contradicts what is known
    pub fn assume(&mut self, b: Bit, val: bool) -> bool {
        let (v, i, val) = match self.nb(b) {
            O => return !val,
            I => return val,
            U | T => return true,
            S(v, i) => (v, i, val),
            N(v, i) => (v, i, !val),
        };
        if let VarKind::Pred(..) = kind(v) {
            match self.reval(S(v, i)) {
                O => return !val,
                I => return val,
                _ => {}
            }
        }
        self.known.insert((v, i), val);
        if let VarKind::Pred(op, a, b) = kind(v) {
            if !self.apply_pred(op, &a, &b, val) {
                return false;
            }
        }
        self.recheck()
    }
    fn assume_bits(&mut self, a: &[Bit], c: u128) -> bool {
        for (i, x) in a.iter().enumerate() {
            if !self.assume(*x, i < 128 && (c >> i) & 1 == 1) {
                return false;
            }
        }
        true
    }
    fn apply_pred(&mut self, op: &str, a: &[Bit], b: &[Bit], val: bool) -> bool {
        let ca = self.konst(a);
        let cb = self.konst(b);
        match (op, val) {
            ("==", true) => match (ca, cb) {
                (_, Some(c)) => self.assume_bits(&a.to_vec(), c),
                (Some(c), _) => self.assume_bits(&b.to_vec(), c),
                _ => {
                    for (x, y) in a.iter().zip(b) {
                        match (self.nb(*x), self.nb(*y)) {
                            (x, y) if x == y => {}
                            (U | T, _) | (_, U | T) => {}
                            (O, I) | (I, O) => return false,
                            (x, O) | (O, x) => {
                                if !self.assume(x, false) {
                                    return false;
                                }
                            }
                            (x, I) | (I, x) => {
                                if !self.assume(x, true) {
                                    return false;
                                }
                            }
                            (S(v, i), y) => {
                                if y == N(v, i) {
                                    return false;
                                }
                                self.alias.insert((v, i), y);
                            }
                            (N(v, i), y) => {
                                if y == S(v, i) {
                                    return false;
                                }
                                self.alias.insert((v, i), not_bit(y));
                            }
                        }
                    }
                    true
                }
            },
            ("==", false) => {
                match (ca, cb) {
                    (_, Some(c)) => {
                        self.excl.entry(a.to_vec()).or_default().insert(c);
                    }
                    (Some(c), _) => {
                        self.excl.entry(b.to_vec()).or_default().insert(c);
                    }
                    _ => {}
                }
                true
            }
            ("<", t) => {
                // upper bound for one side gives leading zeros
                let (x, bound) = if t { (a, cb.map(|c| c.wrapping_sub(1))) } else { (b, ca) };
                if let Some(m) = bound {
                    let top = 128 - m.leading_zeros() as usize;
                    for i in top..x.len() {
                        if !self.assume(x[i], false) {
                            return false;
                        }
                    }
                }
                true
            }
            _ => true,
        }
    }
    fn recheck(&mut self) -> bool {
        let preds: Vec<(Var, bool)> = self
            .known
            .iter()
            .filter(|((v, _), _)| with_kind(*v, |k| matches!(k, VarKind::Pred(..))))
            .map(|((v, _), b)| (*v, *b))
            .collect();
        for (v, val) in preds {
            if let VarKind::Pred(op, a, b) = kind(v) {
                let na = self.norm(&a);
                let nbb = self.norm(&b);
                let t = match op {
                    "==" => {
                        if na == nbb && !na.iter().any(|x| matches!(x, T | U)) {
                            Some(true)
                        } else if na.iter().zip(&nbb).any(|(x, y)| matches!((x, y), (O, I) | (I, O))) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => {
                        let (al, ah) = self.min_max(&na);
                        let (bl, bh) = self.min_max(&nbb);
                        if ah < bl {
                            Some(true)
                        } else if al >= bh || (na == nbb && !na.iter().any(|x| matches!(x, T | U))) {
                            Some(false)
                        } else {
                            None
                        }
                    }
                };
                if t.is_some() && t != Some(val) {
                    return false;
                }
            }
        }
        true
    }
    pub fn ord(&mut self, name: &str) -> u32 {
        let e = self.ords.entry(name.to_string()).or_insert(0);
        let r = *e;
        *e += 1;
        r
    }
    pub fn facts(&self) -> Vec<String> {
        self.known.iter().map(|((v, i), b)| format!("{}{:?}", if *b { "" } else { "not " }, S(*v, *i))).collect()
    }
}
