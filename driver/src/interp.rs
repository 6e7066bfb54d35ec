//! Abstract interpreter over monomorphic MIR (forward analysis, inlining callees,
//! one abstract state per feasible set of branch facts).
use crate::dom::{Bit::*, *};
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public_bridge::IndexedVal;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Exit {
    Return(Bits),
    Unwind,
    Abort(String),
    Stuck(String),
}

pub type Visits = Shared<BTreeMap<usize, u32>>;
pub type Outs = Vec<(State, Exit)>;
type R<T> = Result<T, String>;

#[derive(Clone, Debug)]
pub struct Pl {
    pub obj: Option<ObjId>,
    pub off: u64,
    pub ty: Ty,
    pub variant: Option<usize>,
    pub meta: Option<Bits>,
}

pub struct Interp {
    pub env: Env,
    pub pw: usize,
    bodies: HashMap<Instance, Option<Rc<Body>>>,
    layouts: HashMap<Ty, Rc<LayoutShape>>,
    pub fns: Vec<Instance>,
    fn_ids: HashMap<Instance, usize>,
    vtables: Vec<(Ty, Option<Binder<ExistentialTraitRef>>)>,
    pub stack: Vec<String>,
    pub repo_fns: BTreeMap<String, u64>,
    pub all_fns: BTreeSet<String>,
    pub steps: u64,
    pub forks: u64,
    pub ext_calls: BTreeSet<String>,
    pub sym_types: Vec<Ty>,
    pub repo_root: String,
    site: String,
    pub max_steps: u64,
    step_base: u64,
    pub rep: crate::models::Report,
    rereads: std::cell::Cell<u64>,
}

const LOOP_LIMIT: u32 = 400;
const DEPTH_LIMIT: usize = 120;

pub fn short_span(s: &Span) -> String {
    let l = s.get_lines();
    format!("{}:{}", s.get_filename(), l.start_line)
}

impl Interp {
    pub fn new(env: Env, repo_root: String) -> Interp {
        let pw = env.pw;
        Interp {
            env,
            pw,
            bodies: HashMap::new(),
            layouts: HashMap::new(),
            fns: vec![],
            fn_ids: HashMap::new(),
            vtables: vec![],
            stack: vec![],
            repo_fns: BTreeMap::new(),
            all_fns: BTreeSet::new(),
            steps: 0,
            forks: 0,
            ext_calls: BTreeSet::new(),
            sym_types: vec![],
            repo_root,
            site: String::new(),
            max_steps: 3_000_000,
            step_base: 0,
            rep: Default::default(),
            rereads: Default::default(),
        }
    }
    pub fn reset_budget(&mut self) {
        self.step_base = self.steps;
    }
    pub fn layout(&mut self, ty: Ty) -> R<Rc<LayoutShape>> {
        if let Some(l) = self.layouts.get(&ty) {
            return Ok(l.clone());
        }
        let l = Rc::new(ty.layout().map_err(|e| format!("no layout for {ty}: {e:?}"))?.shape());
        self.layouts.insert(ty, l.clone());
        Ok(l)
    }
    pub fn size(&mut self, ty: Ty) -> R<u64> {
        Ok(self.layout(ty)?.size.bytes() as u64)
    }
    pub fn align(&mut self, ty: Ty) -> R<u64> {
        Ok(self.layout(ty)?.abi_align)
    }
    fn sized(&mut self, ty: Ty) -> R<bool> {
        Ok(self.layout(ty)?.is_sized())
    }
    pub fn field_off(&mut self, ty: Ty, variant: Option<usize>, idx: usize) -> R<u64> {
        let l = self.layout(ty)?;
        if let Some(v) = variant {
            match &l.variants {
                VariantsShape::Multiple { variants, .. } => return Ok(variants[v].offsets[idx].bytes() as u64),
                VariantsShape::Single { index } if index.to_index() != v => return Ok(0),
                VariantsShape::Empty => return Ok(0),
                _ => {}
            }
        }
        Ok(match &l.fields {
            FieldsShape::Primitive => 0,
            FieldsShape::Union(_) => 0,
            FieldsShape::Array { stride, .. } => stride.bytes() as u64 * idx as u64,
            FieldsShape::Arbitrary { offsets } => offsets.get(idx).map(|o| o.bytes() as u64).unwrap_or(0),
        })
    }

    // ---------------------------------------------------------------- constants
    pub fn fn_obj(&mut self, st: &mut State, inst: Instance) -> ObjId {
        let id = match self.fn_ids.get(&inst) {
            Some(i) => *i,
            None => {
                self.fns.push(inst);
                self.fn_ids.insert(inst, self.fns.len() - 1);
                self.fns.len() - 1
            }
        };
        for (i, o) in st.objs.iter().enumerate() {
            if o.kind == ObjKind::Fn(id) {
                return i as ObjId;
            }
        }
        st.alloc(ObjKind::Fn(id), 0, 1)
    }
    fn vtable_obj(&mut self, st: &mut State, ty: Ty, tr: Option<Binder<ExistentialTraitRef>>) -> ObjId {
        let label = format!("{} as {}", ty, tr.as_ref().map(|t| t.value.def_id.name()).unwrap_or_default());
        let idx = match self.vtables.iter().position(|(t, r)| *t == ty && *r == tr) {
            Some(i) => i,
            None => {
                self.vtables.push((ty, tr));
                self.vtables.len() - 1
            }
        };
        for (i, o) in st.objs.iter().enumerate() {
            if o.kind == ObjKind::VTable(label.clone(), idx) {
                return i as ObjId;
            }
        }
        st.alloc(ObjKind::VTable(label, idx), 0, 8)
    }
    fn alloc_id(&mut self, st: &mut State, id: AllocId) -> R<ObjId> {
        if let Some(o) = st.allocs.get(&id.to_index()) {
            return Ok(*o);
        }
        let o = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(i) => self.fn_obj(st, i),
            GlobalAlloc::VTable(t, r) => self.vtable_obj(st, t, r),
            GlobalAlloc::Static(d) => {
                let a = d.eval_initializer().map_err(|e| format!("static {}: {e:?}", d.name()))?;
                // what a static that can be written to holds depends on what ran before
                // and on what other threads do
                let shared = a.mutability == Mutability::Mut && !matches!(d.krate().name.as_str(), "core" | "alloc" | "std");
                let kind = if shared { ObjKind::Shared(d.name()) } else { ObjKind::Static(d.name()) };
                let o = st.alloc(kind, a.bytes.len() as u64, a.align);
                st.allocs.insert(id.to_index(), o);
                let mut b = self.alloc_bits(st, &a)?;
                if shared {
                    let label = format!("static {}", d.name());
                    b = match self.init(st, d.ty(), &VarBase::Input(label.clone()), "") {
                        Ok(x) => x,
                        Err(_) => input_bits(&label, b.len()),
                    };
                }
                st.obj_mut(o).data = b;
                o
            }
            GlobalAlloc::Memory(a) => {
                let shared = a.mutability == Mutability::Mut && !a.bytes.is_empty();
                let label = format!("memory {}", id.to_index());
                let o = st.alloc(if shared { ObjKind::Shared(label.clone()) } else { ObjKind::Const }, a.bytes.len() as u64, a.align);
                st.allocs.insert(id.to_index(), o);
                let mut b = self.alloc_bits(st, &a)?;
                if shared {
                    b = input_bits(&format!("static {label}"), b.len());
                }
                st.obj_mut(o).data = b;
                o
            }
            GlobalAlloc::TypeId { ty } => {
                let o = st.alloc(ObjKind::Const, 0, 1);
                let _ = ty;
                o
            }
        };
        st.allocs.insert(id.to_index(), o);
        Ok(o)
    }
    fn alloc_bits(&mut self, st: &mut State, a: &Allocation) -> R<Bits> {
        let mut out = Vec::with_capacity(a.bytes.len() * 8);
        for b in &a.bytes {
            match b {
                Some(x) => out.extend(cbits(*x as u128, 8)),
                None => out.extend([U; 8]),
            }
        }
        for (off, prov) in &a.provenance.ptrs {
            let addend = a.read_partial_uint(*off..*off + self.pw / 8).map_err(|e| format!("{e:?}"))? as u64;
            let o = self.alloc_id(st, prov.0)?;
            let p = st.ptr(o, addend, self.pw);
            out[off * 8..off * 8 + self.pw].copy_from_slice(&p);
        }
        Ok(out)
    }
    fn tyconst(&mut self, st: &mut State, c: &TyConst) -> R<Bits> {
        match c.kind() {
            TyConstKind::Value(_, a) => self.alloc_bits(st, a),
            TyConstKind::ZSTValue(_) => Ok(vec![]),
            _ => Ok(cbits(c.eval_target_usize().map_err(|e| format!("const {c:?}: {e:?}"))? as u128, self.pw)),
        }
    }
    fn constant(&mut self, st: &mut State, c: &MirConst) -> R<Bits> {
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc_bits(st, a),
            ConstantKind::ZeroSized => Ok(vec![]),
            ConstantKind::Ty(t) => self.tyconst(st, t),
            k => Err(format!("unevaluated constant {k:?}")),
        }
    }

    // ---------------------------------------------------------------- memory
    pub fn resolve(&self, st: &State, addr: &[Bit], size: u64, align: u64) -> R<(Option<ObjId>, u64)> {
        let addr = st.norm(addr);
        if let Some((o, off)) = st.decode(&addr) {
            let ob = st.obj(o);
            if size > 0 {
                if self.env.strict && State::is_number(&addr) {
                    return Err(format!("access to {} through a number for which its address was never exposed by an as cast", self.obj_name(st, o)));
                }
                if !ob.live {
                    return Err(format!("access to dead {}", self.obj_name(st, o)));
                }
                if matches!(ob.kind, ObjKind::Fn(_) | ObjKind::VTable(..)) {
                    return Err("data access through a function or vtable pointer".into());
                }
                if off.checked_add(size).map_or(true, |e| e > ob.size) {
                    return Err(format!("access of {size} bytes at offset {off} of {} ({} bytes)", self.obj_name(st, o), ob.size));
                }
            }
            if off % align != 0 || ob.align < align {
                return Err(format!("misaligned access: {} is aligned to {} and accessed at offset {off} with alignment {align}", self.obj_name(st, o), ob.align));
            }
            return Ok((Some(o), off));
        }
        if size == 0 {
            if let Some(c) = as_const(&addr) {
                if c == 0 {
                    return Err("null pointer dereferenced".into());
                }
                if c % align as u128 != 0 {
                    return Err(format!("misaligned zero-sized access at {c:#x}"));
                }
                return Ok((None, 0));
            }
            // an address is fine for a zero-sized access when it is visibly aligned and non-null
            let k = align.trailing_zeros() as usize;
            if addr.iter().take(k).all(|b| *b == O) && addr.iter().any(|b| *b == I) {
                return Ok((None, 0));
            }
        }
        Err(format!("access through an address that is not that of a known object: {}", show(&addr)))
    }
    pub fn obj_name(&self, st: &State, o: ObjId) -> String {
        match &st.obj(o).kind {
            ObjKind::Local(s) => format!("local {s}"),
            ObjKind::Heap => format!("heap block #{o}"),
            ObjKind::Input(s) => format!("input {s}"),
            ObjKind::Const => "constant".into(),
            ObjKind::Static(s) | ObjKind::Shared(s) => format!("static {s}"),
            ObjKind::Fn(i) => format!("fn {}", self.fns[*i].name()),
            ObjKind::VTable(l, _) => format!("vtable {l}"),
            ObjKind::Scratch => "scratch".into(),
        }
    }
    pub fn load(&self, st: &State, o: Option<ObjId>, off: u64, size: u64) -> R<Bits> {
        if size == 0 {
            return Ok(vec![]);
        }
        let o = o.ok_or("load through a dangling pointer")?;
        let ob = st.obj(o);
        if !ob.live {
            return Err(format!("read of dead {}", self.obj_name(st, o)));
        }
        if off + size > ob.size {
            return Err(format!("read of {size} bytes at offset {off} of {} ({} bytes)", self.obj_name(st, o), ob.size));
        }
        let b = st.norm(&ob.data[(off * 8) as usize..((off + size) * 8) as usize]);
        Ok(if matches!(ob.kind, ObjKind::Shared(_)) { self.reread(b) } else { b })
    }
    /// every read of what other threads can write to may give another value
    fn reread(&self, b: Bits) -> Bits {
        let n = self.rereads.get() + 1;
        self.rereads.set(n);
        let mut seen: BTreeMap<Var, Var> = BTreeMap::new();
        b.into_iter()
            .map(|x| {
                let (S(v, i) | N(v, i)) = x else { return x };
                let w = *seen.entry(v).or_insert_with(|| match kind(v) {
                    VarKind::Input(l) if l.starts_with("static ") => var(VarKind::Input(format!("{l}@{n}"))),
                    _ => v,
                });
                if matches!(x, S(..)) { S(w, i) } else { N(w, i) }
            })
            .collect()
    }
    fn is_shared(&self, st: &State, o: Option<ObjId>) -> bool {
        o.is_some_and(|o| matches!(st.obj(o).kind, ObjKind::Shared(_)))
    }
    pub fn store(&self, st: &mut State, o: Option<ObjId>, off: u64, b: &[Bit]) -> R<()> {
        if b.is_empty() {
            return Ok(());
        }
        let o = o.ok_or("store through a dangling pointer")?;
        let name = self.obj_name(st, o);
        let ob = st.obj_mut(o);
        if !ob.live {
            return Err(format!("write to dead {name}"));
        }
        if matches!(ob.kind, ObjKind::Const | ObjKind::Fn(_) | ObjKind::VTable(..)) {
            return Err(format!("write to {name}"));
        }
        let s = (off * 8) as usize;
        if s + b.len() > ob.data.len() {
            return Err(format!("write of {} bytes at offset {off} of {name} ({} bytes)", b.len() / 8, ob.size));
        }
        if matches!(ob.kind, ObjKind::Shared(_)) {
            return Ok(());
        }
        ob.data[s..s + b.len()].copy_from_slice(b);
        Ok(())
    }
    fn usize_const(&self, st: &State, b: &[Bit], what: &str) -> R<u64> {
        st.konst(b).map(|x| x as u64).ok_or_else(|| format!("{what} is not a known number: {}", show(&st.norm(b))))
    }
    fn pl_size(&mut self, st: &State, pl: &Pl) -> R<u64> {
        Ok(self.size_align_of_val(st, pl.ty, pl.meta.as_deref())?.0)
    }
    fn size_align_of_val(&mut self, st: &State, ty: Ty, meta: Option<&[Bit]>) -> R<(u64, u64)> {
        if self.sized(ty)? {
            return Ok((self.size(ty)?, self.align(ty)?));
        }
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Slice(e)) => {
                let n = self.usize_const(st, meta.ok_or("slice without length")?, "slice length")?;
                Ok((self.size(e)? * n, self.align(e)?))
            }
            TyKind::RigidTy(RigidTy::Str) => Ok((self.usize_const(st, meta.ok_or("str without length")?, "str length")?, 1)),
            TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                let (o, _) = st.decode(meta.ok_or("dyn without vtable")?).ok_or("unknown vtable")?;
                if let ObjKind::VTable(_, i) = st.obj(o).kind.clone() {
                    let t = self.vtables[i].0;
                    return Ok((self.size(t)?, self.align(t)?));
                }
                Err("unknown vtable".into())
            }
            k => Err(format!("size of unsized {k:?}")),
        }
    }

    fn place(&mut self, st: &mut State, locals: &[ObjId], body: &Body, p: &Place) -> R<Pl> {
        let mut pl = Pl { obj: Some(locals[p.local]), off: 0, ty: body.locals()[p.local].ty, variant: None, meta: None };
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    let pointee = pl.ty.kind().builtin_deref(true).ok_or_else(|| format!("deref of {}", pl.ty))?.ty;
                    let sz = self.size(pl.ty)?;
                    let b = self.load(st, pl.obj, pl.off, sz)?;
                    if has_undef(&b) {
                        return Err("dereference of an uninitialised pointer".into());
                    }
                    let meta = if b.len() > self.pw { Some(b[self.pw..].to_vec()) } else { None };
                    let (s, a) = self.size_align_of_val(st, pointee, meta.as_deref())?;
                    let (o, off) = self.resolve(st, &b[..self.pw], s, a)?;
                    pl = Pl { obj: o, off, ty: pointee, variant: None, meta };
                }
                ProjectionElem::Field(i, t) => {
                    let off = self.field_off(pl.ty, pl.variant, *i)?;
                    let keep = !self.sized(*t)?;
                    pl = Pl { obj: pl.obj, off: pl.off + off, ty: *t, variant: None, meta: if keep { pl.meta } else { None } };
                }
                ProjectionElem::Downcast(v) => pl.variant = Some(v.to_index()),
                ProjectionElem::OpaqueCast(t) => pl.ty = *t,
                ProjectionElem::Index(l) => {
                    let ib = self.load(st, Some(locals[*l]), 0, self.pw as u64 / 8)?;
                    let i = self.usize_const(st, &ib, "index")?;
                    pl = self.elem(pl, i)?;
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let i = if *from_end { self.seq_len(st, &pl)? - offset } else { *offset };
                    pl = self.elem(pl, i)?;
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let n = self.seq_len(st, &pl)?;
                    let end = if *from_end { n - to } else { *to };
                    let nt = e.ty(pl.ty).map_err(|e| format!("{e:?}"))?;
                    let el = pl.ty.kind().builtin_index().ok_or("subslice")?;
                    let es = self.size(el)?;
                    let slice = matches!(nt.kind(), TyKind::RigidTy(RigidTy::Slice(_)));
                    pl = Pl {
                        obj: pl.obj,
                        off: pl.off + from * es,
                        ty: nt,
                        variant: None,
                        meta: if slice { Some(cbits((end - from) as u128, self.pw)) } else { None },
                    };
                }
            }
        }
        Ok(pl)
    }
    fn strictly_valid(&mut self, st: &State, ty: Ty, b: &[Bit]) -> R<()> {
        if self.env.strict {
            self.valid(st, ty, b).map_err(|e| format!("a value that is not one of {ty}: {e}"))?;
        }
        Ok(())
    }
    /// nothing shows that the bits are no value of the type
    fn valid(&mut self, st: &State, ty: Ty, b: &[Bit]) -> R<()> {
        let TyKind::RigidTy(k) = ty.kind() else { return Ok(()) };
        let undef = |b: &[Bit]| if has_undef(b) { Err("uninitialised".to_string()) } else { Ok(()) };
        match k {
            RigidTy::Never => Err("of an uninhabited type".into()),
            RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::RawPtr(..) => undef(b),
            RigidTy::Bool => {
                undef(b)?;
                match b[1..].iter().all(|x| st.truth(*x) == Some(false)) {
                    true => Ok(()),
                    false => Err(format!("not known to be 0 or 1: {}", show(&st.norm(b)))),
                }
            }
            RigidTy::Char => {
                undef(b)?;
                match st.konst(b) {
                    Some(c) if c > 0x10ffff || (0xd800..0xe000).contains(&c) => Err(format!("{c:#x}")),
                    _ => Ok(()),
                }
            }
            RigidTy::FnPtr(_) => {
                undef(b)?;
                if st.konst(b) == Some(0) { Err("null".into()) } else { Ok(()) }
            }
            RigidTy::Ref(_, t, _) => {
                undef(b)?;
                let a = st.norm(&b[..self.pw]);
                if as_const(&a) == Some(0) {
                    return Err("null".into());
                }
                if !self.sized(t)? {
                    return Ok(());
                }
                let (size, align) = (self.size(t)?, self.align(t)?);
                if st.decode(&a).is_some() || as_const(&a).is_some() {
                    self.resolve(st, &a, size, align).map_err(|e| format!("it does not refer to one of {t} ({e})"))?;
                }
                Ok(())
            }
            RigidTy::Pat(t, _) => {
                self.valid(st, t, b)?;
                self.no_niche(st, ty, b)
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))? as usize;
                let w = self.size(t)? as usize * 8;
                if w > 0 {
                    for i in 0..n {
                        self.valid(st, t, &b[i * w..(i + 1) * w])?;
                    }
                }
                Ok(())
            }
            RigidTy::Tuple(ts) => {
                for (i, t) in ts.iter().enumerate() {
                    self.valid_field(st, ty, None, i, *t, b)?;
                }
                Ok(())
            }
            RigidTy::Adt(d, a) => match d.kind() {
                AdtKind::Union => Ok(()),
                AdtKind::Struct => {
                    for (i, f) in d.variants()[0].fields().iter().enumerate() {
                        self.valid_field(st, ty, None, i, f.ty_with_args(&a), b)?;
                    }
                    self.no_niche(st, ty, b)
                }
                AdtKind::Enum => {
                    let l = self.layout(ty)?;
                    let v = match &l.variants {
                        VariantsShape::Empty => return Err("of an uninhabited type".into()),
                        VariantsShape::Single { index } => index.to_index(),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                            let at = match &l.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as usize * 8,
                                _ => 0,
                            };
                            let n = scalar_bytes(tag, self.pw) as usize * 8;
                            let t = &b[at..at + n];
                            undef(t).map_err(|e| format!("its tag is {e}"))?;
                            let Some(c) = st.konst(t) else { return Ok(()) };
                            let m = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
                            match tag_encoding {
                                TagEncoding::Direct => match (0..Self::nvariants(ty)).find(|v| self.discr_val(ty, *v) & m == c) {
                                    Some(v) => v,
                                    None => return Err(format!("{c} is the tag of no variant")),
                                },
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                                    (s..=e).find(|v| niche_start.wrapping_add((v - s) as u128) & m == c).unwrap_or(untagged_variant.to_index())
                                }
                            }
                        }
                    };
                    for (i, f) in d.variants()[v].fields().iter().enumerate() {
                        self.valid_field(st, ty, Some(v), i, f.ty_with_args(&a), b)?;
                    }
                    Ok(())
                }
            },
            _ => Ok(()),
        }
    }
    fn valid_field(&mut self, st: &State, ty: Ty, v: Option<usize>, i: usize, t: Ty, b: &[Bit]) -> R<()> {
        if !self.sized(t)? {
            return Ok(());
        }
        let o = self.field_off(ty, v, i)? as usize * 8;
        let s = self.size(t)? as usize * 8;
        if s == 0 {
            return Ok(());
        }
        self.valid(st, t, &b[o..o + s])
    }
    fn no_niche(&mut self, st: &State, ty: Ty, b: &[Bit]) -> R<()> {
        let l = self.layout(ty)?;
        let rustc_public::abi::ValueRepr::Scalar(rustc_public::abi::Scalar::Initialized { valid_range: r, .. }) = &l.value_repr else { return Ok(()) };
        match st.konst(b) {
            Some(c) if (r.start <= r.end && (c < r.start || c > r.end)) || (r.start > r.end && c < r.start && c > r.end) => Err(format!("{c:#x} is no valid value")),
            _ => Ok(()),
        }
    }
    fn elem(&mut self, pl: Pl, i: u64) -> R<Pl> {
        let el = pl.ty.kind().builtin_index().ok_or_else(|| format!("index into {}", pl.ty))?;
        let es = self.size(el)?;
        Ok(Pl { obj: pl.obj, off: pl.off + i * es, ty: el, variant: None, meta: None })
    }
    fn seq_len(&mut self, st: &State, pl: &Pl) -> R<u64> {
        match pl.ty.kind() {
            TyKind::RigidTy(RigidTy::Array(_, n)) => n.eval_target_usize().map_err(|e| format!("{e:?}")),
            _ => self.usize_const(st, pl.meta.as_deref().ok_or("length of a thin place")?, "length"),
        }
    }
    fn operand(&mut self, st: &mut State, locals: &[ObjId], body: &Body, o: &Operand) -> R<Bits> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let pl = self.place(st, locals, body, p)?;
                let s = self.pl_size(st, &pl)?;
                let b = self.load(st, pl.obj, pl.off, s)?;
                self.strictly_valid(st, pl.ty, &b)?;
                Ok(b)
            }
            Operand::Constant(c) => self.constant(st, &c.const_),
            Operand::RuntimeChecks(k) => Ok(cbits((self.env.strict && matches!(k, RuntimeChecks::UbChecks)) as u128, 8)),
        }
    }
    pub fn place_ptr(&self, st: &State, pl: &Pl, align: u64) -> Bits {
        let mut b = match pl.obj {
            Some(o) => st.ptr(o, pl.off, self.pw),
            None => cbits(align as u128 + pl.off as u128, self.pw),
        };
        if let Some(m) = &pl.meta {
            b.extend(m.iter().copied());
        }
        b
    }

    // ---------------------------------------------------------------- operations
    pub fn signed(ty: Ty) -> bool {
        matches!(ty.kind(), TyKind::RigidTy(RigidTy::Int(_)))
    }
    fn op(&self, st: &State, name: &str, args: &[&[Bit]], w: usize) -> Bits {
        let a: Vec<Bits> = args.iter().map(|x| st.norm(x)).collect();
        if a.iter().flatten().any(|x| matches!(x, T | U)) {
            return vec![T; w];
        }
        let mut out = vec![];
        let mut part = 0;
        while out.len() < w {
            let n = (w - out.len()).min(128);
            out.extend(sym(var(VarKind::Op(if part == 0 { name.to_string() } else { format!("{name}/{part}") }, a.clone())), n));
            part += 1;
        }
        out
    }
    fn add(&self, st: &State, a: &[Bit], b: &[Bit]) -> Bits {
        let w = a.len();
        let (a, b) = (st.norm(a), st.norm(b));
        if let (Some(x), Some(y)) = (as_const(&a), as_const(&b)) {
            return cbits(x.wrapping_add(y), w);
        }
        if a.iter().zip(&b).all(|(x, y)| *x == O || *y == O) {
            return a.iter().zip(&b).map(|(x, y)| if *x == O { *y } else { *x }).collect();
        }
        for (p, c) in [(&a, &b), (&b, &a)] {
            if let Some(c) = as_const(c) {
                if w == self.pw {
                    if let Some((o, off)) = st.decode(p) {
                        return st.ptr(o, off.wrapping_add(c as u64), w);
                    }
                }
            }
        }
        // exact low bits below the first position where both may be set
        let (x, y) = if a <= b { (&a, &b) } else { (&b, &a) };
        self.op(st, "+", &[x, y], w)
    }
    fn neg(&self, st: &State, a: &[Bit]) -> Bits {
        if let Some(c) = st.konst(a) {
            return cbits(0u128.wrapping_sub(c), a.len());
        }
        self.op(st, "neg", &[a], a.len())
    }
    fn sub(&self, st: &State, a: &[Bit], b: &[Bit]) -> Bits {
        let w = a.len();
        let (a, b) = (st.norm(a), st.norm(b));
        if a == b && !a.iter().any(|x| matches!(x, T | U)) {
            return cbits(0, w);
        }
        if w == self.pw {
            if let (Some(p), Some(q)) = (st.decode(&a), st.decode(&b)) {
                if p.0 == q.0 {
                    return cbits(p.1.wrapping_sub(q.1) as u128, w);
                }
            }
        }
        // subtracting a subset of the set bits clears them
        if a.iter().zip(&b).all(|(x, y)| *y == O || (x == y && !matches!(x, T | U)) || *x == I) && a.iter().zip(&b).all(|(x, y)| !(*x == I && !matches!(y, O | I))) {
            return a.iter().zip(&b).map(|(x, y)| if *y == O { *x } else { O }).collect();
        }
        if let Some(c) = as_const(&b) {
            return self.add(st, &a, &cbits(0u128.wrapping_sub(c), w));
        }
        self.op(st, "-", &[&a, &b], w)
    }
    fn mul(&self, st: &State, a: &[Bit], b: &[Bit]) -> Bits {
        let w = a.len();
        let (a, b) = (st.norm(a), st.norm(b));
        if let (Some(x), Some(y)) = (as_const(&a), as_const(&b)) {
            return cbits(x.wrapping_mul(y), w);
        }
        for (p, c) in [(&a, &b), (&b, &a)] {
            if let Some(c) = as_const(c) {
                if c == 0 {
                    return cbits(0, w);
                }
                if c.is_power_of_two() {
                    return self.shl(st, p, c.trailing_zeros() as usize);
                }
            }
        }
        let (x, y) = if a <= b { (&a, &b) } else { (&b, &a) };
        self.op(st, "*", &[x, y], w)
    }
    fn shl(&self, _st: &State, a: &[Bit], n: usize) -> Bits {
        let w = a.len();
        (0..w).map(|i| if i < n { O } else { a[i - n] }).collect()
    }
    fn shr(&self, a: &[Bit], n: usize, signed: bool) -> Bits {
        let w = a.len();
        (0..w).map(|i| if i + n < w { a[i + n] } else if signed { a[w - 1] } else { O }).collect()
    }
    fn bitwise(&self, st: &State, name: &str, a: &[Bit], b: &[Bit]) -> Bits {
        a.iter()
            .zip(b)
            .map(|(x, y)| {
                let (x, y) = (st.nb(*x), st.nb(*y));
                match (name, x, y) {
                    ("&", O, _) | ("&", _, O) => O,
                    ("&", I, z) | ("&", z, I) => z,
                    ("|", I, _) | ("|", _, I) => I,
                    ("|", O, z) | ("|", z, O) => z,
                    ("^", O, z) | ("^", z, O) => z,
                    ("^", I, z) | ("^", z, I) => not_bit(z),
                    (_, T, _) | (_, _, T) => T,
                    (_, U, _) | (_, _, U) => U,
                    (n, x, y) if x == y => {
                        if n == "^" {
                            O
                        } else {
                            x
                        }
                    }
                    (n, x, y) if x == not_bit(y) => {
                        if n == "&" {
                            O
                        } else {
                            I
                        }
                    }
                    (n, x, y) => {
                        let (x, y) = if x <= y { (x, y) } else { (y, x) };
                        S(var(VarKind::Op(n.to_string(), vec![vec![x], vec![y]])), 0)
                    }
                }
            })
            .collect()
    }
    fn boolbits(b: Bit) -> Bits {
        let mut v = vec![O; 8];
        v[0] = b;
        v
    }
    fn flip_sign(&self, b: &[Bit]) -> Bits {
        let mut v = b.to_vec();
        if let Some(l) = v.last_mut() {
            *l = not_bit(*l);
        }
        v
    }
    fn ult(&self, st: &State, a: &[Bit], b: &[Bit], signed: bool) -> Bit {
        if signed {
            st.ult_bit(&self.flip_sign(a), &self.flip_sign(b))
        } else {
            st.ult_bit(a, b)
        }
    }
    fn binop(&mut self, st: &State, op: BinOp, a: &[Bit], b: &[Bit], ty: Ty, _bty: Ty, pointee: Option<Ty>) -> R<Bits> {
        if has_undef(a) || has_undef(b) {
            return Err(format!("{op:?} on uninitialised data"));
        }
        if self.env.strict {
            let o = match op {
                BinOp::AddUnchecked => Some(BinOp::Add),
                BinOp::SubUnchecked => Some(BinOp::Sub),
                BinOp::MulUnchecked => Some(BinOp::Mul),
                BinOp::ShlUnchecked => Some(BinOp::Shl),
                BinOp::ShrUnchecked => Some(BinOp::Shr),
                _ => None,
            };
            if let Some(o) = o {
                let (_, ov) = self.checked(st, o, a, b, ty)?;
                if st.truth(st.reval(ov)) != Some(false) {
                    return Err(format!("{op:?} may overflow"));
                }
            }
        }
        let signed = Self::signed(ty);
        let w = a.len();
        Ok(match op {
            BinOp::Add | BinOp::AddUnchecked => self.add(st, a, b),
            BinOp::Sub | BinOp::SubUnchecked => self.sub(st, a, b),
            BinOp::Mul | BinOp::MulUnchecked => self.mul(st, a, b),
            BinOp::Div | BinOp::Rem => {
                let (x, y) = (st.konst(a), st.konst(b));
                match (x, y) {
                    (Some(x), Some(y)) if y != 0 && !signed => cbits(if op == BinOp::Div { x / y } else { x % y }, w),
                    (_, Some(y)) if y.is_power_of_two() && !signed => {
                        let k = y.trailing_zeros() as usize;
                        if op == BinOp::Div {
                            self.shr(a, k, false)
                        } else {
                            (0..w).map(|i| if i < k { a[i] } else { O }).collect()
                        }
                    }
                    _ => self.op(st, &format!("{op:?}{}", signed), &[a, b], w),
                }
            }
            BinOp::BitAnd => self.bitwise(st, "&", a, b),
            BinOp::BitOr => self.bitwise(st, "|", a, b),
            BinOp::BitXor => self.bitwise(st, "^", a, b),
            BinOp::Shl | BinOp::ShlUnchecked | BinOp::Shr | BinOp::ShrUnchecked => match st.konst(b) {
                Some(n) => {
                    let n = (n % w as u128) as usize;
                    if matches!(op, BinOp::Shl | BinOp::ShlUnchecked) {
                        self.shl(st, a, n)
                    } else {
                        self.shr(a, n, signed)
                    }
                }
                None => self.op(st, &format!("{}{signed}", if matches!(op, BinOp::Shl | BinOp::ShlUnchecked) { "<<" } else { ">>" }), &[a, b], w),
            },
            BinOp::Eq | BinOp::Ne => {
                let e = if w > self.pw && w == b.len() && matches!(ty.kind(), TyKind::RigidTy(RigidTy::RawPtr(..) | RigidTy::Ref(..))) {
                    let x = st.eq_bit(&a[..self.pw], &b[..self.pw]);
                    let y = st.eq_bit(&a[self.pw..], &b[self.pw..]);
                    self.bitwise(st, "&", &[x], &[y])[0]
                } else {
                    st.eq_bit(a, b)
                };
                Self::boolbits(if op == BinOp::Eq { e } else { not_bit(e) })
            }
            BinOp::Lt => Self::boolbits(self.ult(st, a, b, signed)),
            BinOp::Gt => Self::boolbits(self.ult(st, b, a, signed)),
            BinOp::Ge => Self::boolbits(not_bit(self.ult(st, a, b, signed))),
            BinOp::Le => Self::boolbits(not_bit(self.ult(st, b, a, signed))),
            BinOp::Cmp => {
                let lt = self.ult(st, a, b, signed);
                let ne = not_bit(st.eq_bit(a, b));
                let mut v = vec![lt; 8];
                v[0] = ne;
                v
            }
            BinOp::Offset => {
                let p = pointee.ok_or("offset without pointee")?;
                let s = self.size(p)?;
                let d = self.mul(st, b, &cbits(s as u128, b.len()));
                let mut r = self.add(st, &a[..self.pw], &d);
                r.extend(a[self.pw..].iter().copied());
                r
            }
        })
    }
    fn checked(&mut self, st: &State, op: BinOp, a: &[Bit], b: &[Bit], ty: Ty) -> R<(Bits, Bit)> {
        let r = self.binop(st, op, a, b, ty, ty, None)?;
        let w = a.len();
        let signed = Self::signed(ty);
        let name = format!("overflow {op:?}{signed}");
        let ov = if matches!(op, BinOp::Shl | BinOp::Shr) {
            not_bit(st.ult_bit(b, &cbits(w as u128, b.len())))
        } else if signed {
            match (st.konst(a), st.konst(b)) {
                (Some(x), Some(y)) => {
                    let sx = |v: u128| ((v << (128 - w)) as i128) >> (128 - w);
                    let (x, y) = (sx(x), sx(y));
                    let r = match op {
                        BinOp::Add => x.checked_add(y),
                        BinOp::Sub => x.checked_sub(y),
                        _ => x.checked_mul(y),
                    };
                    match r {
                        Some(v) if sx(v as u128) == v => O,
                        _ => I,
                    }
                }
                _ => self.op(st, &name, &[a, b], 1)[0],
            }
        } else {
            let (al, ah) = st.min_max(a);
            let (bl, bh) = st.min_max(b);
            let max = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            match op {
                BinOp::Add => {
                    if ah.checked_add(bh).map_or(false, |s| s <= max) {
                        O
                    } else if al.checked_add(bl).map_or(true, |s| s > max) {
                        I
                    } else {
                        self.op(st, &name, &[a, b], 1)[0]
                    }
                }
                BinOp::Sub => st.ult_bit(a, b),
                _ => {
                    if ah.checked_mul(bh).map_or(false, |s| s <= max) {
                        O
                    } else if al.checked_mul(bl).map_or(true, |s| s > max) {
                        I
                    } else {
                        self.op(st, &name, &[a, b], 1)[0]
                    }
                }
            }
        };
        Ok((r, ov))
    }
    pub fn int_width(&mut self, ty: Ty) -> R<usize> {
        Ok(self.size(ty)? as usize * 8)
    }
    fn resize(b: &[Bit], w: usize, signed: bool) -> Bits {
        let ext = if signed { *b.last().unwrap_or(&O) } else { O };
        (0..w).map(|i| if i < b.len() { b[i] } else { ext }).collect()
    }

    // ---------------------------------------------------------------- enums
    fn discr_val(&mut self, ty: Ty, v: usize) -> u128 {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => d.discriminant_for_variant(VariantIdx::to_val(v)).val,
            _ => 0,
        }
    }
    pub fn nvariants(ty: Ty) -> usize {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Adt(d, _)) if d.kind() == AdtKind::Enum => d.num_variants(),
            _ => 1,
        }
    }
    /// (state, variant) for every variant the place may hold
    pub fn variants_at(&mut self, st: &State, pl: &Pl) -> R<Vec<(State, usize)>> {
        let l = self.layout(pl.ty)?;
        match &l.variants {
            VariantsShape::Empty => Err(format!("discriminant of an uninhabited {}", pl.ty)),
            VariantsShape::Single { index } => Ok(vec![(st.clone(), index.to_index())]),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } => {
                let tsize = scalar_bytes(tag, self.pw);
                let toff = match &l.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64,
                    _ => 0,
                };
                let t = self.load(st, pl.obj, pl.off + toff, tsize)?;
                if has_undef(&t) {
                    return Err(format!("discriminant of an uninitialised {}", pl.ty));
                }
                let n = Self::nvariants(pl.ty);
                let mut out = vec![];
                let mut rest = Some(st.clone());
                let cands: Vec<(usize, u128)> = match tag_encoding {
                    TagEncoding::Direct => (0..n).map(|v| (v, self.discr_val(pl.ty, v))).collect(),
                    TagEncoding::Niche { niche_variants, niche_start, .. } => {
                        let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                        (s..=e).map(|v| (v, niche_start.wrapping_add((v - s) as u128))).collect()
                    }
                };
                let untagged = match tag_encoding {
                    TagEncoding::Niche { untagged_variant, .. } => Some(untagged_variant.to_index()),
                    _ => None,
                };
                for (v, val) in cands {
                    if Some(v) == untagged {
                        continue;
                    }
                    let Some(cur) = rest.take() else { break };
                    let b = cur.eq_bit(&t, &cbits(val, t.len()));
                    match cur.truth(b) {
                        Some(true) => {
                            out.push((cur, v));
                        }
                        Some(false) => rest = Some(cur),
                        None => {
                            let mut yes = cur.clone();
                            if yes.assume(b, true) {
                                out.push((yes, v));
                            }
                            let mut no = cur;
                            if no.assume(b, false) {
                                rest = Some(no);
                            }
                        }
                    }
                }
                if let Some(r) = rest {
                    if let Some(u) = untagged {
                        out.push((r, u));
                    } else if out.is_empty() {
                        return Err(format!("value is no variant of {}", pl.ty));
                    }
                    // for a direct tag the remaining values are invalid by type
                }
                Ok(out)
            }
        }
    }
    pub fn set_variant(&mut self, st: &mut State, pl: &Pl, v: usize) -> R<()> {
        let l = self.layout(pl.ty)?;
        if let VariantsShape::Multiple { tag, tag_encoding, tag_field, .. } = &l.variants {
            let tsize = scalar_bytes(tag, self.pw);
            let toff = match &l.fields {
                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as u64,
                _ => 0,
            };
            let val = match tag_encoding {
                TagEncoding::Direct => self.discr_val(pl.ty, v),
                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                    if untagged_variant.to_index() == v {
                        return Ok(());
                    }
                    niche_start.wrapping_add((v - niche_variants.start().to_index()) as u128)
                }
            };
            let b = cbits(val, tsize as usize * 8);
            self.store(st, pl.obj, pl.off + toff, &b)?;
        }
        Ok(())
    }

    // ---------------------------------------------------------------- statements
    fn unsize(&mut self, st: &mut State, src: Ty, dst: Ty, b: Bits) -> R<Bits> {
        let (a, d) = self.unsize_pair(src, dst)?;
        let meta = self.unsize_meta(st, a, d)?;
        match meta {
            Some(m) => {
                let mut r = b[..self.pw].to_vec();
                r.extend(m);
                Ok(r)
            }
            None => Ok(b),
        }
    }
    fn unsize_pair(&mut self, s: Ty, d: Ty) -> R<(Ty, Ty)> {
        match (s.kind(), d.kind()) {
            (TyKind::RigidTy(RigidTy::Ref(_, a, _) | RigidTy::RawPtr(a, _)), TyKind::RigidTy(RigidTy::Ref(_, b, _) | RigidTy::RawPtr(b, _))) => Ok((a, b)),
            (TyKind::RigidTy(RigidTy::Pat(a, _)), TyKind::RigidTy(RigidTy::Pat(b, _))) => self.unsize_pair(a, b),
            (TyKind::RigidTy(RigidTy::Adt(x, xa)), TyKind::RigidTy(RigidTy::Adt(y, ya))) if x == y => {
                for f in x.variants()[0].fields() {
                    let (ft, gt) = (f.ty_with_args(&xa), f.ty_with_args(&ya));
                    if ft != gt && self.size(ft)? > 0 {
                        return self.unsize_pair(ft, gt);
                    }
                }
                Err("unsize".into())
            }
            _ => Err(format!("unsizing {s} to {d}")),
        }
    }
    fn unsize_meta(&mut self, st: &mut State, a: Ty, d: Ty) -> R<Option<Bits>> {
        match (a.kind(), d.kind()) {
            (TyKind::RigidTy(RigidTy::Array(_, n)), TyKind::RigidTy(RigidTy::Slice(_))) => {
                Ok(Some(cbits(n.eval_target_usize().map_err(|e| format!("{e:?}"))? as u128, self.pw)))
            }
            (TyKind::RigidTy(RigidTy::Dynamic(..)), TyKind::RigidTy(RigidTy::Dynamic(..))) => Ok(None),
            (_, TyKind::RigidTy(RigidTy::Dynamic(..))) => {
                let tr = d.kind().trait_principal();
                let o = self.vtable_obj(st, a, tr);
                Ok(Some(st.ptr(o, 0, self.pw)))
            }
            (TyKind::RigidTy(RigidTy::Adt(x, xa)), TyKind::RigidTy(RigidTy::Adt(y, ya))) if x == y => {
                let f = x.variants()[0].fields();
                let l = f.last().ok_or("unsize of a fieldless struct")?;
                self.unsize_meta(st, l.ty_with_args(&xa), l.ty_with_args(&ya))
            }
            _ => Err(format!("unsizing {a} to {d}")),
        }
    }
    fn rvalue(&mut self, st: &mut State, locals: &[ObjId], body: &Body, rv: &Rvalue, dst: Ty) -> R<Vec<(State, Bits)>> {
        let one = |st: &State, b: Bits| Ok(vec![(st.clone(), b)]);
        match rv {
            Rvalue::Use(o, _) => {
                let b = self.operand(st, locals, body, o)?;
                one(st, b)
            }
            Rvalue::CopyForDeref(p) | Rvalue::Reborrow(_, _, p) => {
                let pl = self.place(st, locals, body, p)?;
                let s = self.pl_size(st, &pl)?;
                let b = self.load(st, pl.obj, pl.off, s)?;
                one(st, b)
            }
            Rvalue::Ref(_, _, p) | Rvalue::AddressOf(_, p) => {
                let pl = self.place(st, locals, body, p)?;
                let a = self.size_align_of_val(st, pl.ty, pl.meta.as_deref()).map(|x| x.1).unwrap_or(1);
                let b = self.place_ptr(st, &pl, a);
                one(st, b)
            }
            Rvalue::Len(p) => {
                let pl = self.place(st, locals, body, p)?;
                let n = self.seq_len(st, &pl)?;
                one(st, cbits(n as u128, self.pw))
            }
            Rvalue::BinaryOp(op, a, b) => {
                let ta = a.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let tb = b.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let x = self.operand(st, locals, body, a)?;
                let y = self.operand(st, locals, body, b)?;
                let pointee = ta.kind().builtin_deref(true).map(|t| t.ty);
                let r = self.binop(st, *op, &x, &y, ta, tb, pointee)?;
                one(st, r)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let ta = a.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let x = self.operand(st, locals, body, a)?;
                let y = self.operand(st, locals, body, b)?;
                let (r, ov) = self.checked(st, *op, &x, &y, ta)?;
                let size = self.size(dst)?;
                let mut out = vec![U; size as usize * 8];
                let o1 = self.field_off(dst, None, 1)? as usize * 8;
                out[..r.len()].copy_from_slice(&r);
                out[o1..o1 + 8].copy_from_slice(&Self::boolbits(ov));
                one(st, out)
            }
            Rvalue::UnaryOp(op, a) => {
                let ta = a.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let x = self.operand(st, locals, body, a)?;
                if has_undef(&x) {
                    return Err(format!("{op:?} on uninitialised data"));
                }
                let r = match op {
                    UnOp::Not => {
                        if ta.kind().is_bool() {
                            Self::boolbits(not_bit(x[0]))
                        } else {
                            x.iter().map(|b| not_bit(*b)).collect()
                        }
                    }
                    UnOp::Neg => self.neg(st, &x),
                    UnOp::PtrMetadata => x[self.pw.min(x.len())..].to_vec(),
                };
                one(st, r)
            }
            Rvalue::Cast(kind, o, to) => {
                let from = o.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let b = self.operand(st, locals, body, o)?;
                let r = match kind {
                    CastKind::IntToInt => {
                        if has_undef(&b) {
                            return Err("integer cast of uninitialised data".into());
                        }
                        let w = self.int_width(*to)?;
                        Self::resize(&b, w, Self::signed(from))
                    }
                    CastKind::PointerExposeAddress | CastKind::PointerWithExposedProvenance | CastKind::PtrToPtr | CastKind::FnPtrToPtr => {
                        let mut b = b;
                        if self.env.strict {
                            let o = st.decode(&st.norm(&b)).map(|x| x.0);
                            match kind {
                                CastKind::PointerExposeAddress => {
                                    if let Some(o) = o {
                                        st.obj_mut(o).exposed = true;
                                    }
                                    b = State::turned(&b, true);
                                }
                                CastKind::PointerWithExposedProvenance => b = State::turned(&b, o.is_some_and(|o| !st.obj(o).exposed)),
                                _ => {}
                            }
                        }
                        let w = self.int_width(*to)?;
                        Self::resize(&b, w, false)
                    }
                    CastKind::PointerCoercion(c) => match c {
                        PointerCoercion::ReifyFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                                let i = Instance::resolve_for_fn_ptr(d, &a).map_err(|e| format!("{e:?}"))?;
                                let ob = self.fn_obj(st, i);
                                st.ptr(ob, 0, self.pw)
                            }
                            _ => return Err("reify of a non-function".into()),
                        },
                        PointerCoercion::ClosureFnPointer(_) => match from.kind() {
                            TyKind::RigidTy(RigidTy::Closure(d, a)) => {
                                let i = Instance::resolve_closure(d, &a, ClosureKind::FnOnce).map_err(|e| format!("{e:?}"))?;
                                let ob = self.fn_obj(st, i);
                                st.ptr(ob, 0, self.pw)
                            }
                            _ => return Err("reify of a non-closure".into()),
                        },
                        PointerCoercion::Unsize => self.unsize(st, from, *to, b)?,
                        _ => b,
                    },
                    CastKind::Transmute | CastKind::BoxDerefTransmute | CastKind::Subtype => {
                        let w = self.int_width(*to)?;
                        if w != b.len() {
                            return Err(format!("transmute between sizes {} and {w}", b.len()));
                        }
                        self.strictly_valid(st, *to, &b)?;
                        b
                    }
                    k => {
                        let w = self.int_width(*to)?;
                        self.op(st, &format!("{k:?}"), &[&b], w)
                    }
                };
                one(st, r)
            }
            Rvalue::Discriminant(p) => {
                let pl = self.place(st, locals, body, p)?;
                let w = self.int_width(dst)?;
                let vs = self.variants_at(st, &pl)?;
                if vs.len() > 1 {
                    self.forks += vs.len() as u64 - 1;
                }
                Ok(vs.into_iter().map(|(s, v)| { let d = self.discr_val(pl.ty, v); (s, cbits(d, w)) }).collect())
            }
            Rvalue::Repeat(o, n) => {
                let b = self.operand(st, locals, body, o)?;
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                if n > 65536 {
                    return Err("large array".into());
                }
                let mut out = vec![];
                for _ in 0..n {
                    out.extend(b.iter().copied());
                }
                one(st, out)
            }
            Rvalue::Aggregate(k, ops) => {
                if let AggregateKind::RawPtr(..) = k {
                    let mut out = vec![];
                    for o in ops {
                        out.extend(self.operand(st, locals, body, o)?);
                    }
                    let w = self.int_width(dst)?;
                    out.truncate(w);
                    return one(st, out);
                }
                let size = self.size(dst)?;
                let align = self.align(dst)?;
                let mut vals = vec![];
                for o in ops {
                    vals.push(self.operand(st, locals, body, o)?);
                }
                let tmp = st.alloc(ObjKind::Scratch, size, align);
                let (variant, active) = match k {
                    AggregateKind::Adt(d, v, _, _, a) => (if d.kind() == AdtKind::Enum { Some(v.to_index()) } else { None }, *a),
                    _ => (None, None),
                };
                for (i, b) in vals.iter().enumerate() {
                    let off = self.field_off(dst, variant, active.unwrap_or(i))?;
                    self.store(st, Some(tmp), off, b)?;
                }
                if let Some(v) = variant {
                    self.set_variant(st, &Pl { obj: Some(tmp), off: 0, ty: dst, variant: None, meta: None }, v)?;
                }
                let b = self.load(st, Some(tmp), 0, size)?;
                if tmp as usize == st.objs.len() - 1 {
                    st.objs.pop();
                }
                one(st, b)
            }
            Rvalue::ThreadLocalRef(_) => Err("thread local".into()),
        }
    }
    fn statement(&mut self, mut st: State, locals: &mut Vec<ObjId>, body: &Body, s: &Statement) -> R<Vec<State>> {
        match &s.kind {
            StatementKind::Assign(p, rv) => {
                let dty = p.ty(body.locals()).map_err(|e| format!("{e:?}"))?;
                let vals = self.rvalue(&mut st, locals, body, rv, dty)?;
                let mut out = vec![];
                for (mut st, b) in vals {
                    let pl = self.place(&mut st, locals, body, p)?;
                    self.store(&mut st, pl.obj, pl.off, &b)?;
                    out.push(st);
                }
                Ok(out)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pl = self.place(&mut st, locals, body, place)?;
                self.set_variant(&mut st, &pl, variant_index.to_index())?;
                Ok(vec![st])
            }
            StatementKind::StorageLive(l) => {
                let ob = st.obj_mut(locals[*l]);
                ob.live = true;
                ob.data.iter_mut().for_each(|b| *b = U);
                Ok(vec![st])
            }
            StatementKind::StorageDead(l) => {
                st.obj_mut(locals[*l]).live = false;
                Ok(vec![st])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => {
                let b = self.operand(&mut st, locals, body, o)?;
                if st.truth(b[0]) == Some(false) {
                    return Err("assume(false)".into());
                }
                if !st.assume(b[0], true) {
                    return Ok(vec![]);
                }
                Ok(vec![st])
            }
            StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                let t = c.src.ty(body.locals()).map_err(|e| format!("{e:?}"))?.kind().builtin_deref(true).ok_or("copy")?.ty;
                let s = self.operand(&mut st, locals, body, &c.src)?;
                let d = self.operand(&mut st, locals, body, &c.dst)?;
                let n = self.operand(&mut st, locals, body, &c.count)?;
                self.copy(&mut st, t, &s, &d, &n)?;
                Ok(vec![st])
            }
            _ => Ok(vec![st]),
        }
    }
    fn copy(&mut self, st: &mut State, t: Ty, s: &[Bit], d: &[Bit], n: &[Bit]) -> R<()> {
        let n = self.usize_const(st, n, "copy count")?;
        let size = self.size(t)? * n;
        let a = self.align(t)?;
        let (so, soff) = self.resolve(st, s, size, a)?;
        let (d_o, doff) = self.resolve(st, d, size, a)?;
        let b = self.load(st, so, soff, size)?;
        self.store(st, d_o, doff, &b)
    }

    // ---------------------------------------------------------------- functions
    fn body(&mut self, i: Instance) -> Option<Rc<Body>> {
        if let Some(b) = self.bodies.get(&i) {
            return b.clone();
        }
        let b = i.body().map(Rc::new);
        self.bodies.insert(i, b.clone());
        b
    }
    pub fn def_name(i: Instance) -> String {
        i.def.def_id().name()
    }
    fn branch(&mut self, mut st: State, b: Bit) -> (Option<State>, Option<State>) {
        match st.truth(b) {
            Some(true) => (Some(st), None),
            Some(false) => (None, Some(st)),
            None => {
                let mut no = st.clone();
                let y = st.assume(b, true);
                let n = no.assume(b, false);
                if y && n {
                    self.forks += 1;
                }
                (if y { Some(st) } else { None }, if n { Some(no) } else { None })
            }
        }
    }
    pub fn exec(&mut self, mut st: State, inst: Instance, args: Vec<Bits>) -> Outs {
        let name = Self::def_name(inst);
        let Some(body) = self.body(inst) else {
            return vec![(st, Exit::Stuck(format!("no MIR for {name}")))];
        };
        if self.stack.len() > DEPTH_LIMIT {
            return vec![(st, Exit::Stuck(format!("call depth limit in {name}")))];
        }
        let file = body.span.get_filename();
        if file.contains(&self.repo_root) {
            *self.repo_fns.entry(format!("{name} ({})", short_span(&body.span))).or_insert(0) += 1;
        }
        self.all_fns.insert(name.clone());
        self.stack.push(name.clone());
        let mut locals = vec![];
        for l in body.locals() {
            match (self.size(l.ty), self.align(l.ty)) {
                (Ok(s), Ok(a)) => locals.push(st.alloc(ObjKind::Local(name.clone()), s, a)),
                _ => locals.push(st.alloc(ObjKind::Local(name.clone()), 0, 1)),
            }
        }
        let outs = self.exec_body(st, &body, locals, args, &name);
        self.stack.pop();
        outs
    }
    fn exec_body(&mut self, mut st: State, body: &Rc<Body>, mut locals: Vec<ObjId>, args: Vec<Bits>, name: &str) -> Outs {
        let n = body.arg_locals().len();
        // re-tuple arguments where the callee expects a tuple
        let mut args = args;
        if let Some(sp) = body.spread_arg() {
            let t = body.locals()[sp].ty;
            let rest: Vec<Bits> = args.drain((sp - 1).min(args.len())..).collect();
            let size = match self.size(t) {
                Ok(s) => s,
                Err(e) => return vec![(st, Exit::Stuck(e))],
            };
            let mut b = vec![U; size as usize * 8];
            for (i, r) in rest.iter().enumerate() {
                let o = self.field_off(t, None, i).unwrap_or(0) as usize * 8;
                b[o..o + r.len()].copy_from_slice(r);
            }
            args.push(b);
        }
        if args.len() != n {
            return vec![(st, Exit::Stuck(format!("{name}: {} arguments for {n} parameters", args.len())))];
        }
        for (i, a) in args.iter().enumerate() {
            if let Err(e) = self.store(&mut st, Some(locals[i + 1]), 0, a) {
                return vec![(st, Exit::Stuck(format!("{name}: argument {i}: {e}")))];
            }
        }
        let mut outs = vec![];
        let mut work: Vec<(State, usize, Visits)> = vec![(st, 0, Default::default())];
        while let Some((st, bb, mut visits)) = work.pop() {
            let c = visits.entry(bb).or_insert(0);
            *c += 1;
            if *c > LOOP_LIMIT {
                outs.push((st, Exit::Stuck(format!("loop bound exceeded in {name}"))));
                continue;
            }
            if self.steps - self.step_base > self.max_steps {
                outs.push((st, Exit::Stuck(format!("analysis budget exceeded in {name}"))));
                continue;
            }
            let blk = &body.blocks[bb];
            let mut cur = vec![st];
            for s in &blk.statements {
                self.steps += 1;
                let mut nxt = vec![];
                for c in cur {
                    let keep = c.clone();
                    match self.statement(c, &mut locals, body, s) {
                        Ok(v) => nxt.extend(v),
                        Err(e) => outs.push((keep, Exit::Stuck(format!("{e} [in {name}, {}]", short_span(&s.source_info.span))))),
                    }
                }
                cur = nxt;
            }
            for st in cur {
                self.steps += 1;
                self.terminator(st, body, &locals, &blk.terminator, name, &visits, &mut work, &mut outs);
            }
        }
        // the frame's memory ends here
        for (s, _) in outs.iter_mut() {
            for l in &locals {
                if s.obj(*l).live || !s.obj(*l).data.is_empty() {
                    let o = s.obj_mut(*l);
                    o.live = false;
                    o.data = vec![];
                    o.size = 0;
                }
            }
        }
        outs
    }
    #[allow(clippy::too_many_arguments)]
    fn terminator(
        &mut self,
        mut st: State,
        body: &Rc<Body>,
        locals: &[ObjId],
        t: &Terminator,
        name: &str,
        visits: &Visits,
        work: &mut Vec<(State, usize, Visits)>,
        outs: &mut Outs,
    ) {
        let at = format!("{name}, {}", short_span(&t.source_info.span));
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(v) => v,
                    Err(e) => {
                        outs.push((st, Exit::Stuck(format!("{e} [in {at}]"))));
                        return;
                    }
                }
            };
        }
        match &t.kind {
            TerminatorKind::Goto { target } => work.push((st, *target, visits.clone())),
            TerminatorKind::Return => {
                let sz = tri!(self.size(body.locals()[0].ty));
                let b = tri!(self.load(&st, Some(locals[0]), 0, sz));
                outs.push((st, Exit::Return(b)));
            }
            TerminatorKind::Resume => outs.push((st, Exit::Unwind)),
            TerminatorKind::Abort => outs.push((st, Exit::Abort(at))),
            TerminatorKind::Unreachable => outs.push((st, Exit::Stuck(format!("unreachable code reached [in {at}]")))),
            TerminatorKind::SwitchInt { discr, targets } => {
                let b = tri!(self.operand(&mut st, locals, body, discr));
                if has_undef(&b) {
                    outs.push((st, Exit::Stuck(format!("branch on uninitialised data [in {at}]"))));
                    return;
                }
                let mut rest = Some(st);
                for (v, tgt) in targets.branches() {
                    let Some(cur) = rest.take() else { break };
                    let e = cur.eq_bit(&b, &cbits(v, b.len()));
                    let (y, n) = self.branch(cur, e);
                    if let Some(y) = y {
                        work.push((y, tgt, visits.clone()));
                    }
                    rest = n;
                }
                if let Some(r) = rest {
                    work.push((r, targets.otherwise(), visits.clone()));
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let b = tri!(self.operand(&mut st, locals, body, cond));
                if has_undef(&b) {
                    outs.push((st, Exit::Stuck(format!("check of uninitialised data [in {at}]"))));
                    return;
                }
                let bit = if *expected { b[0] } else { not_bit(b[0]) };
                let (y, n) = self.branch(st, bit);
                if let Some(y) = y {
                    work.push((y, *target, visits.clone()));
                }
                if let Some(mut n) = n {
                    n.trace.push(Rc::new(Event::Panic { what: msg.description().unwrap_or("assertion").to_string(), site: at.clone() }));
                    self.unwind(n, unwind, visits, work, outs, &at);
                }
            }
            TerminatorKind::Drop { place, target, unwind } => {
                let pl = tri!(self.place(&mut st, locals, body, place));
                let inst = Instance::resolve_drop_in_place(pl.ty);
                if inst.is_empty_shim() {
                    work.push((st, *target, visits.clone()));
                    return;
                }
                let a = self.align(pl.ty).unwrap_or(1);
                let p = self.place_ptr(&st, &pl, a);
                self.site = at.clone();
                for (s, e) in self.call(st, inst, vec![p], None) {
                    match e {
                        Exit::Return(_) => work.push((s, *target, visits.clone())),
                        Exit::Unwind => self.unwind(s, unwind, visits, work, outs, &at),
                        e => outs.push((s, e)),
                    }
                }
            }
            TerminatorKind::Call { func, args, destination, target, unwind } => {
                let fty = tri!(func.ty(body.locals()).map_err(|e| format!("{e:?}")));
                let mut vals = vec![];
                for a in args {
                    vals.push(tri!(self.operand(&mut st, locals, body, a)));
                }
                let mut rust_call = false;
                let inst = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                        rust_call = d.fn_sig().value.abi == Abi::RustCall;
                        tri!(Instance::resolve(d, &ga).map_err(|e| format!("{e:?}")))
                    }
                    _ => {
                        let p = tri!(self.operand(&mut st, locals, body, func));
                        match st.decode(&p) {
                            Some((o, 0)) => match st.obj(o).kind {
                                ObjKind::Fn(i) => self.fns[i],
                                _ => {
                                    outs.push((st, Exit::Stuck(format!("call through a data pointer [in {at}]"))));
                                    return;
                                }
                            },
                            _ => {
                                outs.push((st, Exit::Stuck(format!("call through an unknown function pointer [in {at}]"))));
                                return;
                            }
                        }
                    }
                };
                if rust_call {
                    if let Some(last) = args.last() {
                        let lt = tri!(last.ty(body.locals()).map_err(|e| format!("{e:?}")));
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = lt.kind() {
                            let b = vals.pop().unwrap();
                            for (i, t) in ts.iter().enumerate() {
                                let o = tri!(self.field_off(lt, None, i)) as usize * 8;
                                let s = tri!(self.size(*t)) as usize * 8;
                                vals.push(b[o..o + s].to_vec());
                            }
                        }
                    }
                }
                self.site = at.clone();
                let dty = tri!(destination.ty(body.locals()).map_err(|e| format!("{e:?}")));
                for (mut s, e) in self.call(st, inst, vals, Some(dty)) {
                    match e {
                        Exit::Return(b) => {
                            let r = (|| -> R<()> {
                                let pl = self.place(&mut s, locals, body, destination)?;
                                let sz = self.size(pl.ty)?;
                                if b.len() as u64 != sz * 8 {
                                    return Err(format!("result of {} bits for {}", b.len(), pl.ty));
                                }
                                self.store(&mut s, pl.obj, pl.off, &b)
                            })();
                            match (r, target) {
                                (Ok(()), Some(t)) => work.push((s, *t, visits.clone())),
                                (Ok(()), None) => outs.push((s, Exit::Stuck(format!("diverging call returned [in {at}]")))),
                                (Err(e), _) => outs.push((s, Exit::Stuck(format!("{e} [in {at}]")))),
                            }
                        }
                        Exit::Unwind => self.unwind(s, unwind, visits, work, outs, &at),
                        e => outs.push((s, e)),
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } => outs.push((st, Exit::Stuck(format!("inline assembly [in {at}]")))),
        }
    }
    fn unwind(&mut self, st: State, u: &UnwindAction, visits: &Visits, work: &mut Vec<(State, usize, Visits)>, outs: &mut Outs, at: &str) {
        match u {
            UnwindAction::Continue => outs.push((st, Exit::Unwind)),
            UnwindAction::Unreachable => outs.push((st, Exit::Stuck(format!("unwinding where it is impossible [in {at}]")))),
            UnwindAction::Terminate => outs.push((st, Exit::Abort(at.to_string()))),
            UnwindAction::Cleanup(b) => work.push((st, *b, visits.clone())),
        }
    }
    pub fn call(&mut self, st: State, inst: Instance, mut args: Vec<Bits>, dest: Option<Ty>) -> Outs {
        match inst.kind {
            InstanceKind::Intrinsic => {
                let n = inst.intrinsic_name().unwrap_or_default();
                return self.intrinsic(st, inst, &n, args, dest);
            }
            InstanceKind::Virtual { idx } => {
                let a0 = args[0].clone();
                let vt = if a0.len() >= 2 * self.pw { st.decode(&a0[self.pw..2 * self.pw]) } else { None };
                if let Some((o, 0)) = vt {
                    if let ObjKind::VTable(_, i) = st.obj(o).kind.clone() {
                        let (t, tr) = self.vtables[i].clone();
                        if let Some(tr) = tr {
                            let tref = tr.with_self_ty(t);
                            if let Some(VtblEntry::Method(m)) = tref.value.vtable_entry(idx) {
                                args[0] = a0[..self.pw].to_vec();
                                return self.call(st, m, args, dest);
                            }
                        }
                    }
                }
                return vec![(st, Exit::Stuck(format!("call of an unknown trait object method [in {}]", self.site)))];
            }
            _ => {}
        }
        if inst.kind == InstanceKind::Shim && inst.is_empty_shim() {
            return vec![(st, Exit::Return(vec![]))];
        }
        let name = Self::def_name(inst);
        if name.ends_with("::drop_in_place") || name.ends_with("::drop_glue") {
            if let TyKind::RigidTy(RigidTy::FnDef(_, ga)) = inst.ty().kind() {
                if let Some(GenericArgKind::Type(t)) = ga.0.first() {
                    if Instance::resolve_drop_in_place(*t).is_empty_shim() {
                        return vec![(st, Exit::Return(vec![]))];
                    }
                }
            }
        }
        if let Some(r) = crate::models::model(self, &st, inst, &name, &args, dest) {
            return r;
        }
        if inst.is_foreign_item() || self.body(inst).is_none() {
            return self.external(st, inst, &name, args, dest);
        }
        self.exec(st, inst, args)
    }
    pub fn site(&self) -> String {
        self.site.clone()
    }
    pub fn panic(&self, mut st: State, what: &str) -> Outs {
        st.trace.push(Rc::new(Event::Panic { what: what.to_string(), site: self.site.clone() }));
        vec![(st, Exit::Unwind)]
    }
    /// the value with every reference in it replaced by what it refers to
    pub fn canon(&mut self, st: &State, ty: Ty, b: &[Bit], depth: usize) -> Bits {
        let b = st.norm(b);
        if depth > 6 {
            return b;
        }
        let TyKind::RigidTy(k) = ty.kind() else { return b };
        match k {
            RigidTy::Ref(_, t, _) => match self.snap_ref(st, t, &b, depth) {
                Some((label, data, meta)) => {
                    let n = b.len();
                    let mut args = vec![data];
                    args.extend(meta.bytes().map(|c| cbits(c as u128, 8)));
                    let mut out = vec![];
                    let mut part = 0;
                    while out.len() < n {
                        let w = (n - out.len()).min(128);
                        out.extend(sym(var(VarKind::Op(format!("ref {label}/{part}"), args.clone())), w));
                        part += 1;
                    }
                    out
                }
                None => b,
            },
            RigidTy::Tuple(ts) => {
                let mut out = b;
                for (i, t) in ts.iter().enumerate() {
                    if let (Ok(o), Ok(s)) = (self.field_off(ty, None, i), self.size(*t)) {
                        let r = o as usize * 8..(o + s) as usize * 8;
                        let c = self.canon(st, *t, &out[r.clone()].to_vec(), depth);
                        out[r].copy_from_slice(&c);
                    }
                }
                out
            }
            RigidTy::Array(t, n) => {
                let mut out = b;
                if let (Ok(n), Ok(s)) = (n.eval_target_usize(), self.size(t)) {
                    for i in 0..n {
                        let r = (i * s) as usize * 8..((i + 1) * s) as usize * 8;
                        let c = self.canon(st, t, &out[r.clone()].to_vec(), depth);
                        out[r].copy_from_slice(&c);
                    }
                }
                out
            }
            RigidTy::Adt(d, ga) if d.kind() != AdtKind::Union => {
                let mut out = b.clone();
                let v = if d.kind() == AdtKind::Struct {
                    None
                } else {
                    let mut s2 = st.clone();
                    let (Ok(sz), Ok(al)) = (self.size(ty), self.align(ty)) else { return b };
                    let tmp = s2.alloc(ObjKind::Scratch, sz, al);
                    s2.obj_mut(tmp).data = b.clone();
                    match self.variants_at(&s2, &Pl { obj: Some(tmp), off: 0, ty, variant: None, meta: None }) {
                        Ok(v) if v.len() == 1 => Some(v[0].1),
                        _ => return b,
                    }
                };
                let Some(vd) = d.variants().get(v.unwrap_or(0)).cloned() else { return b };
                for (i, f) in vd.fields().iter().enumerate() {
                    let t = f.ty_with_args(&ga);
                    if let (Ok(o), Ok(s)) = (self.field_off(ty, v, i), self.size(t)) {
                        let r = o as usize * 8..(o + s) as usize * 8;
                        let c = self.canon(st, t, &out[r.clone()].to_vec(), depth);
                        out[r].copy_from_slice(&c);
                    }
                }
                out
            }
            _ => b,
        }
    }
    fn snap_ref(&mut self, st: &State, t: Ty, b: &[Bit], depth: usize) -> Option<(String, Bits, String)> {
        if b.len() < self.pw {
            return None;
        }
        let meta = if b.len() > self.pw { Some(b[self.pw..].to_vec()) } else { None };
        let mut ms = String::new();
        let mut conc = Some(t);
        if let Some(m) = &meta {
            match st.decode(m) {
                Some((v, _)) => match &st.obj(v).kind {
                    ObjKind::VTable(l, i) => {
                        ms = l.clone();
                        conc = Some(self.vtables[*i].0);
                    }
                    _ => ms = "?".into(),
                },
                None => {
                    ms = show(m);
                    conc = None;
                }
            }
        }
        let (s, _) = self.size_align_of_val(st, t, meta.as_deref()).ok()?;
        let hit = st.decode(&b[..self.pw]);
        let mut label = String::new();
        let data = match hit {
            Some((o, off)) => {
                if let ObjKind::Input(l) = &st.obj(o).kind {
                    if off == 0 {
                        label = l.clone();
                    }
                }
                self.load(st, Some(o), off, s).ok()?
            }
            None if s == 0 => vec![],
            None => return None,
        };
        let data = match conc {
            Some(c) if c.kind().is_trait() => data,
            Some(c) => self.canon(st, c, &data, depth + 1),
            None => match t.kind() {
                TyKind::RigidTy(RigidTy::Slice(e)) => {
                    let es = (self.size(e).ok()? * 8) as usize;
                    if es == 0 { data } else { data.chunks(es).flat_map(|c| self.canon(st, e, c, depth + 1)).collect() }
                }
                _ => data,
            },
        };
        Some((label, data, ms))
    }
    pub fn snap(&mut self, st: &State, ty: Ty, b: &[Bit]) -> Snap {
        let b = st.norm(b);
        if let TyKind::RigidTy(RigidTy::Ref(_, t, _)) = ty.kind() {
            if let Some((label, data, meta)) = self.snap_ref(st, t, &b, 0) {
                let aligned = match (self.size_align_of_val(st, t, if b.len() > self.pw { Some(&b[self.pw..]) } else { None }), st.decode(&b[..self.pw.min(b.len())])) {
                    (Ok((_, a)), Some((o, off))) => off % a == 0 && st.obj(o).align >= a,
                    (Ok((_, a)), None) => as_const(&b[..self.pw]).map_or(true, |c| c != 0 && c % a as u128 == 0),
                    _ => true,
                };
                return Snap::Ptr { label, data, meta, aligned };
            }
        }
        Snap::Bits(self.canon(&st.clone(), ty, &b, 0))
    }
    fn external(&mut self, st: State, inst: Instance, name: &str, args: Vec<Bits>, dest: Option<Ty>) -> Outs {
        if !inst.def.krate().is_local {
            return vec![(st, Exit::Stuck(format!("{name} has no body to analyse and no model [in {}]", self.site)))];
        }
        let label = inst.trimmed_name();
        self.opaque(st, inst, label, &args, dest, true)
    }
    /// a call whose callee is unknown: it sees its arguments, changes nothing the
    /// caller owns, and returns anything its type allows (or unwinds)
    pub fn opaque(&mut self, mut st: State, inst: Instance, label: String, args: &[Bits], dest: Option<Ty>, may_unwind: bool) -> Outs {
        let sig = inst.ty().kind().fn_sig().map(|s| s.value);
        let Some(sig) = sig else {
            return vec![(st, Exit::Stuck(format!("no signature for {label}")))];
        };
        let abi = inst.fn_abi().ok();
        let ret = dest.or_else(|| abi.as_ref().map(|a| a.ret.ty)).unwrap_or_else(|| sig.output());
        if matches!(sig.output().kind(), TyKind::RigidTy(RigidTy::Never)) {
            return self.panic(st, &label);
        }
        self.ext_calls.insert(label.clone());
        let mut snaps = vec![];
        for (i, a) in args.iter().enumerate() {
            // types with the lifetimes erased
            let t = abi.as_ref().and_then(|f| f.args.get(i)).map(|x| x.ty);
            snaps.push(match t {
                Some(t) => self.snap(&st, t, a),
                None => Snap::Bits(st.norm(a)),
            });
        }
        let ord = st.ord(&label);
        let mut outs = vec![];
        let heap_live = crate::models::heap_live(&st);
        if may_unwind && self.env.ext_unwind {
            let mut u = st.clone();
            u.choices.insert((label.clone(), ord), -1);
            u.trace.push(Rc::new(Event::Call { name: label.clone(), args: snaps.clone(), ord, unwound: true, ret: vec![], heap_live: heap_live.clone(), site: self.site.clone() }));
            outs.push((u, Exit::Unwind));
        }
        // builder methods hand their receiver back
        let b = if matches!(ret.kind(), TyKind::RigidTy(RigidTy::Ref(..))) && sig.inputs().first().map_or(false, |t| *t == ret || t.kind().builtin_deref(true).map(|x| x.ty) == ret.kind().builtin_deref(true).map(|x| x.ty)) {
            args[0].clone()
        } else {
            // a user's enum comes back as each of its variants in turn
            if may_unwind {
                if let TyKind::RigidTy(RigidTy::Adt(d, _)) = ret.kind() {
                    if d.kind() == AdtKind::Enum && d.num_variants() > 0 {
                        for v in 0..d.num_variants() {
                            let mut s = st.clone();
                            let path = format!("::{}", d.variants()[v].name());
                            match self.init_variant(&mut s, ret, v, &VarBase::Ret(label.clone(), ord), &path) {
                                Ok(b) => {
                                    s.choices.insert((label.clone(), ord), v as i32);
                                    s.trace.push(Rc::new(Event::Call { name: label.clone(), args: snaps.clone(), ord, unwound: false, ret: b.clone(), heap_live: heap_live.clone(), site: self.site.clone() }));
                                    outs.push((s, Exit::Return(b)));
                                }
                                Err(e) => outs.push((s, Exit::Stuck(e))),
                            }
                        }
                        return outs;
                    }
                }
            }
            match self.init(&mut st, ret, &VarBase::Ret(label.clone(), ord), "") {
                Ok(b) => b,
                Err(e) => return vec![(st, Exit::Stuck(e))],
            }
        };
        st.choices.insert((label.clone(), ord), 0);
        st.trace.push(Rc::new(Event::Call { name: label, args: snaps, ord, unwound: false, ret: b.clone(), heap_live, site: self.site.clone() }));
        outs.push((st, Exit::Return(b)));
        outs
    }

    // ---------------------------------------------------------------- symbolic values
    pub fn origin(&self, base: &VarBase, path: &str, w: usize) -> Bits {
        let mut out = Vec::with_capacity(w);
        let mut part = 0;
        while out.len() < w {
            let n = (w - out.len()).min(128);
            let nm = if part == 0 { path.to_string() } else { format!("{path}/{part}") };
            let k = match base {
                VarBase::Input(s) => VarKind::Input(format!("{s}{nm}")),
                VarBase::Ret(s, o) => VarKind::Ret(format!("{s}{nm}"), *o),
            };
            out.extend(sym(var(k), n));
            part += 1;
        }
        out
    }
    /// a value of the type about which nothing is known; padding is undefined
    pub fn init(&mut self, st: &mut State, ty: Ty, base: &VarBase, path: &str) -> R<Bits> {
        let size = self.size(ty)? as usize * 8;
        let TyKind::RigidTy(k) = ty.kind() else { return Err(format!("cannot make a value of {ty}")) };
        if size == 0 {
            return Ok(vec![]);
        }
        Ok(match k {
            RigidTy::Bool => {
                let mut b = vec![O; 8];
                b[0] = self.origin(base, path, 1)[0];
                b
            }
            RigidTy::Char => {
                let mut b = self.origin(base, path, 32);
                b[21..].iter_mut().for_each(|x| *x = O);
                st.ranges.push((b.clone(), 0, 0x10ffff));
                b
            }
            RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::RawPtr(..) | RigidTy::FnPtr(_) => self.origin(base, path, size),
            RigidTy::Pat(t, _) => {
                let b = self.init(st, t, base, path)?;
                self.in_range(st, ty, &b)?;
                b
            }
            RigidTy::Ref(_, t, _) => {
                if !self.sized(t)? {
                    return Ok(self.origin(base, path, size));
                }
                let s = self.size(t)?;
                let a = self.align(t)?;
                let lbl = match base {
                    VarBase::Input(s) => format!("{s}{path}"),
                    VarBase::Ret(s, n) => format!("ret:{s}#{n}{path}"),
                };
                let o = st.alloc(ObjKind::Input(lbl), s, a);
                let b = self.init(st, t, base, &format!("{path}*"))?;
                st.obj_mut(o).data = b;
                st.ptr(o, 0, self.pw)
            }
            RigidTy::Array(t, n) => {
                let n = n.eval_target_usize().map_err(|e| format!("{e:?}"))?;
                let mut out = vec![];
                for i in 0..n {
                    out.extend(self.init(st, t, base, &format!("{path}[{i}]"))?);
                }
                out
            }
            RigidTy::Tuple(ts) => {
                let mut out = vec![U; size];
                for (i, t) in ts.iter().enumerate() {
                    let o = self.field_off(ty, None, i)? as usize * 8;
                    let b = self.init(st, *t, base, &format!("{path}.{i}"))?;
                    out[o..o + b.len()].copy_from_slice(&b);
                }
                out
            }
            RigidTy::Adt(d, a) => match d.kind() {
                AdtKind::Struct => {
                    let mut out = vec![U; size];
                    for (i, f) in d.variants()[0].fields().iter().enumerate() {
                        let o = self.field_off(ty, None, i)? as usize * 8;
                        let b = self.init(st, f.ty_with_args(&a), base, &format!("{path}.{}", f.name))?;
                        out[o..o + b.len()].copy_from_slice(&b);
                    }
                    self.in_range(st, ty, &out)?;
                    out
                }
                AdtKind::Union => self.origin(base, path, size),
                AdtKind::Enum => {
                    let l = self.layout(ty)?;
                    match &l.variants {
                        VariantsShape::Single { index } => self.init_variant(st, ty, index.to_index(), base, path)?,
                        VariantsShape::Multiple { tag, tag_field, .. } => {
                            let mut b = self.origin(base, path, size);
                            let at = match &l.fields {
                                FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as usize * 8,
                                _ => 0,
                            };
                            let n = scalar_bytes(tag, self.pw) as usize * 8;
                            if let rustc_public::abi::Scalar::Initialized { valid_range: r, .. } = tag {
                                if r.start <= r.end {
                                    let used = (128 - r.end.leading_zeros() as usize).min(n);
                                    b[at + used..at + n].iter_mut().for_each(|x| *x = O);
                                }
                                if as_const(&b[at..at + n]).is_none() {
                                    st.ranges.push((b[at..at + n].to_vec(), r.start, r.end));
                                }
                            }
                            b
                        }
                        VariantsShape::Empty => self.origin(base, path, size),
                    }
                }
            },
            RigidTy::Closure(..) => self.origin(base, path, size),
            k => return Err(format!("cannot make a value of {k:?}")),
        })
    }
    /// the validity range of a scalar type
    fn in_range(&mut self, st: &mut State, ty: Ty, b: &[Bit]) -> R<()> {
        let l = self.layout(ty)?;
        let rustc_public::abi::ValueRepr::Scalar(rustc_public::abi::Scalar::Initialized { valid_range: r, .. }) = &l.value_repr else { return Ok(()) };
        let n = b.len();
        let max = if n >= 128 { u128::MAX } else { (1u128 << n) - 1 };
        if has_undef(b) || (r.start == 0 && r.end == max) {
            return Ok(());
        }
        st.ranges.push((b.to_vec(), r.start, r.end));
        if r.start <= r.end {
            let used = 128 - r.end.leading_zeros() as usize;
            for x in &b[used.min(n)..] {
                st.assume(*x, false);
            }
            if r.end != max && r.end.count_ones() as usize != used {
                let q = st.ult_bit(&cbits(r.end, n), b);
                st.assume(q, false);
            }
            if r.start == 1 {
                let q = st.eq_bit(b, &cbits(0, n));
                st.assume(q, false);
            } else if r.start > 1 {
                let q = st.ult_bit(b, &cbits(r.start, n));
                st.assume(q, false);
            }
        }
        Ok(())
    }

    pub fn init_variant(&mut self, st: &mut State, ty: Ty, v: usize, base: &VarBase, path: &str) -> R<Bits> {
        let TyKind::RigidTy(RigidTy::Adt(d, a)) = ty.kind() else { return Err("not an enum".into()) };
        let size = self.size(ty)?;
        let align = self.align(ty)?;
        let tmp = st.alloc(ObjKind::Scratch, size, align);
        let vd = d.variants()[v].clone();
        for (i, f) in vd.fields().iter().enumerate() {
            let o = self.field_off(ty, Some(v), i)?;
            let b = self.init(st, f.ty_with_args(&a), base, &format!("{path}.{}", f.name))?;
            self.store(st, Some(tmp), o, &b)?;
        }
        self.set_variant(st, &Pl { obj: Some(tmp), off: 0, ty, variant: None, meta: None }, v)?;
        let r = self.load(st, Some(tmp), 0, size)?;
        // a value of the untagged variant carries none of the niche values
        let l = self.layout(ty)?;
        if let VariantsShape::Multiple { tag, tag_encoding: TagEncoding::Niche { untagged_variant, niche_variants, niche_start }, tag_field, .. } = &l.variants {
            if untagged_variant.to_index() == v {
                let toff = match &l.fields {
                    FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes() as usize * 8,
                    _ => 0,
                };
                let n = scalar_bytes(tag, self.pw) as usize * 8;
                let (s, e) = (niche_variants.start().to_index(), niche_variants.end().to_index());
                for w in s..=e {
                    let c = cbits(niche_start.wrapping_add((w - s) as u128), n);
                    let q = st.eq_bit(&r[toff..toff + n], &c);
                    st.assume(q, false);
                }
            }
        }
        st.obj_mut(tmp).live = false;
        Ok(r)
    }

    // ---------------------------------------------------------------- intrinsics
    fn intrinsic(&mut self, mut st: State, inst: Instance, n: &str, args: Vec<Bits>, dest: Option<Ty>) -> Outs {
        let r = self.intrinsic_inner(&mut st, inst, n, &args, dest);
        match r {
            Ok(Some(Exit::Return(b))) => vec![(st, Exit::Return(b))],
            Ok(Some(e)) => vec![(st, e)],
            Ok(None) => {
                if n == "const_eval_select" {
                    return self.const_eval_select(st, inst, args, dest);
                }
                if n == "catch_unwind" {
                    return self.catch_unwind(st, args);
                }
                if n == "abort" {
                    return vec![(st, Exit::Abort(format!("abort [in {}]", self.site)))];
                }
                if let Some(r) = crate::models::model(self, &st, inst, n, &args, dest) {
                    return r;
                }
                if inst.has_body() {
                    if self.body(inst).is_some() {
                        return self.exec(st, inst, args);
                    }
                }
                let w = dest.and_then(|d| self.size(d).ok()).unwrap_or(0) as usize * 8;
                let scalar = inst.ty().kind().fn_sig().map_or(false, |s| {
                    s.value.inputs().iter().all(|t| matches!(t.kind(), TyKind::RigidTy(RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) | RigidTy::Bool | RigidTy::Char)))
                });
                if scalar && args.iter().all(|a| !has_undef(a)) {
                    let refs: Vec<&[Bit]> = args.iter().map(|a| &a[..]).collect();
                    let b = self.op(&st, n, &refs, w);
                    return vec![(st, Exit::Return(b))];
                }
                vec![(st, Exit::Stuck(format!("intrinsic {n} [in {}]", self.site)))]
            }
            Err(e) => vec![(st, Exit::Stuck(format!("{e} [in {n} called from {}]", self.site)))],
        }
    }
    fn const_eval_select(&mut self, mut st: State, inst: Instance, args: Vec<Bits>, dest: Option<Ty>) -> Outs {
        // (tuple of arguments, const fn, runtime fn)
        let r = (|| -> R<(Instance, Vec<Bits>)> {
            let ga = inst.args();
            let tys: Vec<Ty> = ga.0.iter().filter_map(|g| g.ty().copied()).collect();
            let (tup, rt) = (tys[0], tys[2]);
            let TyKind::RigidTy(RigidTy::Tuple(ts)) = tup.kind() else { return Err("const_eval_select".into()) };
            let mut v = vec![];
            for (i, t) in ts.iter().enumerate() {
                let o = self.field_off(tup, None, i)? as usize * 8;
                let s = self.size(*t)? as usize * 8;
                v.push(args[0][o..o + s].to_vec());
            }
            let TyKind::RigidTy(RigidTy::FnDef(d, a)) = rt.kind() else { return Err("const_eval_select".into()) };
            Ok((Instance::resolve(d, &a).map_err(|e| format!("{e:?}"))?, v))
        })();
        match r {
            Ok((i, v)) => self.call(st, i, v, dest),
            Err(e) => {
                st.trace.push(Rc::new(Event::Text(e.clone())));
                vec![(st, Exit::Stuck(e))]
            }
        }
    }
    fn catch_unwind(&mut self, st: State, args: Vec<Bits>) -> Outs {
        let f = |st: &State, b: &Bits, s: &Self| -> Option<Instance> {
            let (o, _) = st.decode(b)?;
            match st.obj(o).kind {
                ObjKind::Fn(i) => Some(s.fns[i]),
                _ => None,
            }
        };
        let (Some(t), Some(c)) = (f(&st, &args[0], self), f(&st, &args[2], self)) else {
            return vec![(st, Exit::Stuck("catch_unwind".into()))];
        };
        let mut outs = vec![];
        for (s, e) in self.call(st, t, vec![args[1].clone()], None) {
            match e {
                Exit::Return(_) => outs.push((s, Exit::Return(cbits(0, 32)))),
                Exit::Unwind => {
                    for (s2, e2) in self.call(s, c, vec![args[1].clone(), cbits(8, self.pw)], None) {
                        outs.push((s2, match e2 { Exit::Return(_) => Exit::Return(cbits(1, 32)), x => x }));
                    }
                }
                e => outs.push((s, e)),
            }
        }
        outs
    }
    pub fn type_size_bits(&mut self, t: Ty) -> R<Bits> {
        if self.sym_types.contains(&t) {
            return Ok(sym(var(VarKind::SizeOf(format!("{t}"))), self.pw));
        }
        let s = self.size(t)?;
        Ok(cbits(s as u128, self.pw))
    }
    pub fn type_align_bits(&mut self, t: Ty) -> R<Bits> {
        if self.sym_types.contains(&t) {
            // no alignment is above 2^29
            let mut b = sym(var(VarKind::AlignOf(format!("{t}"))), 30);
            b.resize(self.pw, O);
            return Ok(b);
        }
        let s = self.align(t)?;
        Ok(cbits(s as u128, self.pw))
    }
    fn intrinsic_inner(&mut self, st: &mut State, inst: Instance, n: &str, args: &[Bits], dest: Option<Ty>) -> R<Option<Exit>> {
        let tys: Vec<Ty> = inst.args().0.iter().filter_map(|g| g.ty().copied()).collect();
        let ret = |b: Bits| Ok(Some(Exit::Return(b)));
        let pw = self.pw;
        match n {
            "size_of" => {
                let b = self.type_size_bits(tys[0])?;
                ret(b)
            }
            "align_of" | "min_align_of" | "pref_align_of" => {
                let b = self.type_align_bits(tys[0])?;
                ret(b)
            }
            "size_of_val" | "align_of_val" | "min_align_of_val" => {
                if self.sym_types.contains(&tys[0]) {
                    let b = if n == "size_of_val" { self.type_size_bits(tys[0])? } else { self.type_align_bits(tys[0])? };
                    return ret(b);
                }
                let meta = if args[0].len() > pw { Some(&args[0][pw..]) } else { None };
                let (s, a) = self.size_align_of_val(st, tys[0], meta)?;
                ret(cbits(if n == "size_of_val" { s } else { a } as u128, pw))
            }
            "needs_drop" => {
                let d = !Instance::resolve_drop_in_place(tys[0]).is_empty_shim();
                ret(cbits(d as u128, 8))
            }
            "forget" | "assume" if n == "forget" => ret(vec![]),
            "assume" | "assert_unsafe_precondition" => {
                match st.truth(st.reval(args[0][0])) {
                    Some(false) => return Err("assume(false)".into()),
                    None if self.env.strict => return Err(format!("the compiler is promised what is not known to hold: {}", show(&st.norm(&args[0][..1])))),
                    _ => {}
                }
                st.assume(args[0][0], true);
                ret(vec![])
            }
            "cold_path" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" => ret(vec![]),
            "likely" | "unlikely" | "black_box" => ret(args[0].clone()),
            "ub_checks" => ret(cbits(self.env.strict as u128, 8)),
            "contract_checks" | "overflow_checks" => ret(cbits(0, 8)),
            "is_val_statically_known" => ret(cbits(0, 8)),
            "unreachable" => Err("unreachable_unchecked reached".into()),
            "transmute" | "transmute_unchecked" => {
                let w = self.int_width(dest.ok_or("transmute")?)?;
                if w != args[0].len() {
                    return Err("transmute between different sizes".into());
                }
                if let Some(t) = dest {
                    self.strictly_valid(st, t, &args[0])?;
                }
                ret(args[0].clone())
            }
            "read_via_copy" | "volatile_load" | "unaligned_volatile_load" => {
                let s = self.size(tys[0])?;
                let a = if n == "unaligned_volatile_load" { 1 } else { self.align(tys[0])? };
                let (o, off) = self.resolve(st, &args[0][..pw], s, a)?;
                let b = self.load(st, o, off, s)?;
                self.strictly_valid(st, tys[0], &b)?;
                ret(b)
            }
            "write_via_move" | "volatile_store" | "unaligned_volatile_store" => {
                let s = self.size(tys[0])?;
                let a = if n == "unaligned_volatile_store" { 1 } else { self.align(tys[0])? };
                let (o, off) = self.resolve(st, &args[0][..pw], s, a)?;
                self.store(st, o, off, &args[1])?;
                ret(vec![])
            }
            "copy" | "copy_nonoverlapping" | "volatile_copy_memory" | "volatile_copy_nonoverlapping_memory" => {
                let (s, d) = if n.starts_with("volatile") { (&args[1], &args[0]) } else { (&args[0], &args[1]) };
                let (s, d, c) = (s.clone(), d.clone(), args[2].clone());
                self.copy(st, tys[0], &s, &d, &c)?;
                ret(vec![])
            }
            "atomic_fence" | "atomic_singlethreadfence" => ret(vec![]),
            "atomic_load" => {
                let (s, a) = (self.size(tys[0])?, self.size(tys[0])?);
                let (o, off) = self.resolve(st, &args[0][..pw], s, a)?;
                ret(self.load(st, o, off, s)?)
            }
            _ if n.starts_with("atomic_") => {
                let s = self.size(tys[0])?;
                let (o, off) = self.resolve(st, &args[0][..pw], s, s)?;
                let old = self.load(st, o, off, s)?;
                let op = match &n[7..] {
                    m if self.is_shared(st, o) && !matches!(m, "store" | "cxchg" | "cxchgweak") => return ret(old),
                    "store" => {
                        self.store(st, o, off, &args[1])?;
                        return ret(vec![]);
                    }
                    "cxchg" | "cxchgweak" => {
                        let hit = st.eq_bit(&old, &args[1]);
                        let v = match st.truth(hit) {
                            Some(true) => args[2].clone(),
                            Some(false) => old.clone(),
                            None if self.is_shared(st, o) => vec![],
                            None => return Err("compare-exchange with an undecided outcome".into()),
                        };
                        self.store(st, o, off, &v)?;
                        let mut r = old;
                        r.extend([hit]);
                        r.extend([O; 7]);
                        let full = self.size(dest.ok_or("cxchg")?)? as usize * 8;
                        r.resize(full, U);
                        return ret(r);
                    }
                    "xchg" => None,
                    "xadd" => Some(BinOp::Add),
                    "xsub" => Some(BinOp::Sub),
                    "and" => Some(BinOp::BitAnd),
                    "or" => Some(BinOp::BitOr),
                    "xor" => Some(BinOp::BitXor),
                    _ => return Ok(None),
                };
                let v = match op {
                    None => args[1].clone(),
                    Some(op) => self.binop(st, op, &old, &args[1], tys[0], tys[0], None)?,
                };
                self.store(st, o, off, &v)?;
                ret(old)
            }
            "write_bytes" | "volatile_set_memory" => {
                let cnt = self.usize_const(st, &args[2], "count")?;
                let size = self.size(tys[0])? * cnt;
                let a = self.align(tys[0])?;
                let (o, off) = self.resolve(st, &args[0][..pw], size, a)?;
                let mut b = vec![];
                for _ in 0..size {
                    b.extend(args[1].iter().copied());
                }
                self.store(st, o, off, &b)?;
                ret(vec![])
            }
            "typed_swap_nonoverlapping" => {
                let s = self.size(tys[0])?;
                let a = self.align(tys[0])?;
                let (o, off) = self.resolve(st, &args[0], s, a)?;
                let (p, poff) = self.resolve(st, &args[1], s, a)?;
                let x = self.load(st, o, off, s)?;
                let y = self.load(st, p, poff, s)?;
                self.store(st, o, off, &y)?;
                self.store(st, p, poff, &x)?;
                ret(vec![])
            }
            "offset" | "arith_offset" => {
                let pointee = tys[0].kind().builtin_deref(true).map(|t| t.ty).unwrap_or(tys[0]);
                let s = self.size(pointee)?;
                let d = self.mul(st, &args[1], &cbits(s as u128, pw));
                let mut r = self.add(st, &args[0][..pw], &d);
                r.extend(args[0][pw..].iter().copied());
                ret(r)
            }
            "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                let s = self.size(tys[0])?;
                let d = self.sub(st, &args[0], &args[1]);
                match st.konst(&d) {
                    Some(c) if s > 0 => ret(cbits(((c as i64) / s as i64) as u128, pw)),
                    _ => Err("distance of unrelated pointers".into()),
                }
            }
            "ptr_mask" => {
                let mut r = self.bitwise(st, "&", &args[0][..pw], &args[1]);
                r.extend(args[0][pw..].iter().copied());
                ret(r)
            }
            "ptr_metadata" => ret(args[0][pw.min(args[0].len())..].to_vec()),
            "aggregate_raw_ptr" => {
                let mut r = args[0].clone();
                r.extend(args[1].iter().copied());
                ret(r)
            }
            "discriminant_value" => {
                let s = self.size(tys[0])?;
                let a = self.align(tys[0])?;
                let (o, off) = self.resolve(st, &args[0], s, a)?;
                let vs = self.variants_at(st, &Pl { obj: o, off, ty: tys[0], variant: None, meta: None })?;
                if vs.len() != 1 {
                    return Err("discriminant_value of an unknown variant".into());
                }
                let w = self.int_width(dest.ok_or("discr")?)?;
                let d = self.discr_val(tys[0], vs[0].1);
                ret(cbits(d, w))
            }
            "wrapping_add" => ret(self.add(st, &args[0], &args[1])),
            "unchecked_add" => ret(self.binop(st, BinOp::AddUnchecked, &args[0], &args[1], tys[0], tys[0], None)?),
            "wrapping_sub" => ret(self.sub(st, &args[0], &args[1])),
            "unchecked_sub" => ret(self.binop(st, BinOp::SubUnchecked, &args[0], &args[1], tys[0], tys[0], None)?),
            "wrapping_mul" => ret(self.mul(st, &args[0], &args[1])),
            "unchecked_mul" => ret(self.binop(st, BinOp::MulUnchecked, &args[0], &args[1], tys[0], tys[0], None)?),
            "unchecked_shl" => ret(self.binop(st, BinOp::ShlUnchecked, &args[0], &args[1], tys[0], tys[0], None)?),
            "unchecked_shr" => ret(self.binop(st, BinOp::ShrUnchecked, &args[0], &args[1], tys[0], tys[0], None)?),
            "unchecked_div" => ret(self.binop(st, BinOp::Div, &args[0], &args[1], tys[0], tys[0], None)?),
            "unchecked_rem" => ret(self.binop(st, BinOp::Rem, &args[0], &args[1], tys[0], tys[0], None)?),
            "exact_div" => ret(self.binop(st, BinOp::Div, &args[0], &args[1], tys[0], tys[0], None)?),
            "three_way_compare" => ret(self.binop(st, BinOp::Cmp, &args[0], &args[1], tys[0], tys[0], None)?),
            "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow" => {
                let op = match &n[..3] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let (r, ov) = self.checked(st, op, &args[0], &args[1], tys[0])?;
                let d = dest.ok_or("overflow")?;
                let mut out = vec![U; self.size(d)? as usize * 8];
                let o1 = self.field_off(d, None, 1)? as usize * 8;
                out[..r.len()].copy_from_slice(&r);
                out[o1..o1 + 8].copy_from_slice(&Self::boolbits(ov));
                ret(out)
            }
            "rotate_left" | "rotate_right" => match st.konst(&args[1]) {
                Some(k) => {
                    let w = args[0].len();
                    let k = (k as usize) % w;
                    let k = if n == "rotate_left" { k } else { (w - k) % w };
                    ret((0..w).map(|i| args[0][(i + w - k) % w]).collect())
                }
                None => Ok(None),
            },
            "bswap" => {
                let mut out = vec![];
                for c in args[0].chunks(8).rev() {
                    out.extend(c.iter().copied());
                }
                ret(out)
            }
            "bitreverse" => ret(args[0].iter().rev().copied().collect()),
            "ctpop" | "ctlz" | "cttz" | "ctlz_nonzero" | "cttz_nonzero" => match st.konst(&args[0]) {
                Some(c) => {
                    let w = args[0].len() as u32;
                    let v = match n {
                        "ctpop" => c.count_ones(),
                        "ctlz" | "ctlz_nonzero" => c.leading_zeros() - (128 - w),
                        _ => c.trailing_zeros().min(w),
                    };
                    ret(cbits(v as u128, 32))
                }
                None => {
                    if n == "ctpop" && crate::dom::align_of(&st.norm(&args[0])).is_some() {
                        return ret(cbits(1, 32));
                    }
                    // at most the width of the operand
                    let w = args[0].len();
                    let known = (usize::BITS - w.leading_zeros()) as usize;
                    let mut v = self.op(st, n.trim_end_matches("_nonzero"), &[&args[0]], known);
                    v.resize(32, O);
                    ret(v)
                }
            },
            "select_unpredictable" => match st.truth(args[0][0]) {
                Some(true) => ret(args[1].clone()),
                Some(false) => ret(args[2].clone()),
                None => {
                    let c = st.nb(args[0][0]);
                    let r = args[1].iter().zip(&args[2]).map(|(a, b)| if a == b { *a } else if *a == I && *b == O { c } else if *a == O && *b == I { not_bit(c) } else { T }).collect();
                    ret(r)
                }
            },
            "raw_eq" => {
                let s = self.size(tys[0])?;
                let a = self.align(tys[0])?;
                let (o, off) = self.resolve(st, &args[0], s, a)?;
                let (p, poff) = self.resolve(st, &args[1], s, a)?;
                let x = self.load(st, o, off, s)?;
                let y = self.load(st, p, poff, s)?;
                ret(Self::boolbits(st.eq_bit(&x, &y)))
            }
            "caller_location" => {
                let o = st.alloc(ObjKind::Const, 24, 8);
                st.obj_mut(o).data = vec![T; 192];
                let p = st.ptr(o, 0, pw);
                ret(p)
            }
            "type_id" | "type_name" => Err(format!("{n}")),
            "vtable_size" | "vtable_align" => {
                let (o, _) = st.decode(&args[0]).ok_or("unknown vtable")?;
                if let ObjKind::VTable(_, i) = st.obj(o).kind.clone() {
                    let t = self.vtables[i].0;
                    let v = if n == "vtable_size" { self.size(t)? } else { self.align(t)? };
                    return ret(cbits(v as u128, pw));
                }
                Err("unknown vtable".into())
            }
            _ => Ok(None),
        }
    }
}

pub enum VarBase {
    Input(String),
    Ret(String, u32),
}

pub fn scalar_bytes(s: &rustc_public::abi::Scalar, pw: usize) -> u64 {
    use rustc_public::abi::{Primitive, Scalar};
    let p = match s {
        Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
    };
    match p {
        Primitive::Int { length, .. } => length.bits() as u64 / 8,
        Primitive::Float { length } => {
            let d = format!("{length:?}");
            d.trim_start_matches('F').parse::<u64>().unwrap_or(64) / 8
        }
        Primitive::Pointer(_) => pw as u64 / 8,
    }
}
