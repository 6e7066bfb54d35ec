//! Functions the analysis does not follow into: the allocator, panics, the
//! primitive formatting routines, and the probes' own `vp::*` obligations.
use crate::dom::{Bit::*, *};
use crate::interp::*;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use std::rc::Rc;

/// what the obligations of the function under analysis came to
#[derive(Default)]
pub struct Report {
    pub obligations: u64,
    pub failures: Vec<String>,
    pub done: u64,
    pub labels: std::collections::BTreeSet<String>,
    pub marks: Vec<State>,
    pub fresh: u32,
}

fn one(st: State, b: Bits) -> Option<Outs> {
    Some(vec![(st, Exit::Return(b))])
}
fn is_prim(ty: Ty) -> Option<String> {
    match ty.kind() {
        TyKind::RigidTy(k) => match k {
            RigidTy::Int(_) => Some("int".into()),
            RigidTy::Uint(_) => Some("uint".into()),
            RigidTy::Float(_) => Some(format!("{ty}")),
            RigidTy::Bool | RigidTy::Char | RigidTy::Str => Some(format!("{ty}")),
            RigidTy::RawPtr(..) => Some("ptr".into()),
            RigidTy::Tuple(v) if v.is_empty() => Some("()".into()),
            _ => None,
        },
        _ => None,
    }
}
fn deref_ty(ty: Ty) -> Option<Ty> {
    ty.kind().builtin_deref(true).map(|t| t.ty)
}
fn in_fmt(name: &str) -> bool {
    let n = name.trim_start_matches('<');
    ["core::fmt::", "std::fmt::", "alloc::fmt::"].iter().any(|p| n.starts_with(p)) || name.contains("<impl core::fmt::") || name.contains("<impl std::fmt::")
}

pub fn model(it: &mut Interp, st: &State, inst: Instance, name: &str, args: &[Bits], dest: Option<Ty>) -> Option<Outs> {
    let pw = it.pw;
    let last = name.rsplit("::").next().unwrap_or(name);
    if let Some(i) = name.find("vp::") {
        if inst.def.krate().is_local && (i == 0 || name[..i].ends_with("::")) {
            return vp(it, st.clone(), inst, last, args, dest);
        }
    }
    match last {
        "__rust_alloc" | "__rust_alloc_zeroed" => return Some(alloc(it, st.clone(), args, last.ends_with("zeroed"))),
        "__rust_dealloc" => return Some(dealloc(it, st.clone(), args)),
        "__rust_no_alloc_shim_is_unstable_v2" | "__rust_no_alloc_shim_is_unstable" => return one(st.clone(), vec![]),
        "handle_alloc_error" => return Some(vec![(st.clone(), Exit::Abort("allocation failure handler".into()))]),
        _ => {}
    }
    let core_like = matches!(inst.def.krate().name.as_str(), "core" | "alloc" | "std");
    if !core_like {
        return None;
    }
    let sig = inst.ty().kind().fn_sig().map(|s| s.value);
    if let Some(s) = &sig {
        if matches!(s.output().kind(), TyKind::RigidTy(RigidTy::Never)) {
            if last == "abort" || name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup") {
                return Some(vec![(st.clone(), Exit::Abort(format!("{name} [in {}]", it.site())))]);
            }
            if name.contains("panicking::") || name.contains("begin_panic") || last == "unwrap_failed" || last == "expect_failed" || last == "unreachable_display" || last == "panic_any" {
                return Some(it.panic(st.clone(), last));
            }
        }
    }
    // two objects lie apart; that the ranges lie within them is for the copy to show
    if name.ends_with("copy_nonoverlapping::precondition_check") && args.len() == 5 {
        if let (Some(p), Some(q), Some(n)) = (st.decode(&args[0]), st.decode(&args[1]), st.konst(&args[3])) {
            let aligned = |b: &Bits| b.iter().take(n.trailing_zeros() as usize).all(|x| st.nb(*x) == O);
            if p.0 != q.0 && n.is_power_of_two() && aligned(&args[0]) && aligned(&args[1]) {
                return one(st.clone(), vec![]);
            }
        }
    }
    // layouts of types taken as unknown
    if !it.sym_types.is_empty() {
        let tys: Vec<Ty> = inst.args().0.iter().filter_map(|g| g.ty().copied()).collect();
        if tys.len() == 1 && it.sym_types.contains(&tys[0]) {
            match last {
                "size_of" => {
                    let b = it.type_size_bits(tys[0]).ok()?;
                    return one(st.clone(), b);
                }
                "align_of" | "min_align_of" => {
                    let b = it.type_align_bits(tys[0]).ok()?;
                    return one(st.clone(), b);
                }
                "new" if name.contains("Layout") => {
                    let d = dest?;
                    let s = it.type_size_bits(tys[0]).ok()?;
                    let a = it.type_align_bits(tys[0]).ok()?;
                    // struct Layout { size: usize, align: Alignment }
                    let o0 = it.field_off(d, None, 0).ok()? as usize * 8;
                    let o1 = it.field_off(d, None, 1).ok()? as usize * 8;
                    let mut out = vec![U; 2 * pw];
                    out[o0..o0 + pw].copy_from_slice(&s);
                    out[o1..o1 + pw].copy_from_slice(&a);
                    return one(st.clone(), out);
                }
                _ => {}
            }
        }
    }
    // formatting of primitives and the formatter's own output routines
    if in_fmt(name) {
        if last == "pointer_fmt_inner" {
            return Some(it.opaque(st.clone(), inst, "fmt:Pointer".into(), args, dest, false));
        }
        let opaque_method = name.contains("Formatter::<")
            && (last.starts_with("write") || last.starts_with("pad") || last.starts_with("debug_"));
        let builder = name.contains("fmt::builders::") || ["DebugStruct::<", "DebugTuple::<", "DebugList::<", "DebugSet::<", "DebugMap::<"].iter().any(|b| name.contains(b));
        if opaque_method || builder || name.ends_with("fmt::write") {
            let label = format!("fmt:{}", if builder { format!("builder.{last}") } else { last.to_string() });
            return Some(it.opaque(st.clone(), inst, label, args, dest, false));
        }
        if last == "fmt" {
            let s = sig?;
            if let Some(p) = s.inputs().first().and_then(|t| deref_ty(*t)).and_then(is_prim) {
                let tr = ["LowerHex", "UpperHex", "Binary", "Octal", "Pointer", "Display", "Debug", "LowerExp", "UpperExp"]
                    .iter()
                    .find(|t| name.contains(&format!("::{t} for")) || name.contains(&format!("::{t}>")))
                    .copied()
                    .unwrap_or("?");
                if p != "ptr" || tr != "Debug" {
                    let radix = matches!(tr, "LowerHex" | "UpperHex" | "Binary" | "Octal");
                    let p = if radix && p == "int" { "uint".to_string() } else { p };
                    return Some(it.opaque(st.clone(), inst, format!("fmt:{tr} {p}"), args, dest, false));
                }
                // Debug of a raw pointer is Pointer of it
                return Some(it.opaque(st.clone(), inst, format!("fmt:Pointer {p}"), args, dest, false));
            }
        }
    }
    None
}

fn alloc(it: &mut Interp, mut st: State, args: &[Bits], zeroed: bool) -> Outs {
    let size = st.norm(&args[0]);
    let align = st.norm(&args[1]);
    let site = it.site();
    let dims = match (as_const(&size), as_const(&align)) {
        (Some(0), _) => Err("allocation of zero bytes".to_string()),
        (Some(s), Some(a)) if a.is_power_of_two() && s < 1 << 24 => Ok((s as u64, a as u64)),
        _ => {
            // the layout of a type taken as unknown: use its stand-in's
            let mut r = Err(format!("allocation of an unrecognised layout: size {} align {}", show(&size), show(&align)));
            for t in it.sym_types.clone() {
                if it.type_size_bits(t).ok() == Some(size.clone()) && it.type_align_bits(t).ok() == Some(align.clone()) {
                    if let (Ok(s), Ok(a)) = (it.size(t), it.align(t)) {
                        r = Ok((s, a));
                    }
                }
            }
            r
        }
    };
    let (s, a) = match dims {
        Ok(x) => x,
        Err(e) => return vec![(st, Exit::Stuck(format!("{e} [in {site}]")))],
    };
    let mut outs = vec![];
    if it.env.alloc_may_fail {
        let mut n = st.clone();
        n.trace.push(Rc::new(Event::Alloc { obj: None, size: size.clone(), align: align.clone(), zeroed, site: site.clone() }));
        outs.push((n, Exit::Return(cbits(0, it.pw))));
    }
    let o = st.alloc(ObjKind::Heap, s, a);
    if zeroed {
        st.obj_mut(o).data.iter_mut().for_each(|b| *b = O);
    }
    st.trace.push(Rc::new(Event::Alloc { obj: Some(o), size, align, zeroed, site }));
    let p = st.ptr(o, 0, it.pw);
    outs.push((st, Exit::Return(p)));
    outs
}
/// Generic code of the standard library computes the layout of a type taken as
/// unknown as a constant; that constant and the symbol are one and the same.
fn real(it: &mut Interp, b: &Bits) -> Bits {
    for t in it.sym_types.clone() {
        if it.type_size_bits(t).ok().as_ref() == Some(b) {
            if let Ok(s) = it.size(t) {
                return cbits(s as u128, b.len());
            }
        }
        if it.type_align_bits(t).ok().as_ref() == Some(b) {
            if let Ok(s) = it.align(t) {
                return cbits(s as u128, b.len());
            }
        }
    }
    b.clone()
}
fn dealloc(it: &mut Interp, mut st: State, args: &[Bits]) -> Outs {
    let site = it.site();
    let ptr = st.norm(&args[0]);
    let size = st.norm(&args[1]);
    let align = st.norm(&args[2]);
    let Some((o, off)) = st.decode(&ptr) else {
        return vec![(st, Exit::Stuck(format!("free of an address that is not that of a block: {} [in {site}]", show(&ptr))))];
    };
    let bad = if st.obj(o).kind != ObjKind::Heap {
        Some(format!("free of {}", it.obj_name(&st, o)))
    } else if off != 0 {
        Some("free of an address inside a block".into())
    } else if it.env.strict && State::is_number(&ptr) {
        Some("block freed through a number for which its address was never exposed by an as cast".into())
    } else if !st.obj(o).live {
        Some("block freed twice".into())
    } else {
        let req = st.trace.iter().find_map(|e| match &**e {
            Event::Alloc { obj: Some(x), size, align, .. } if *x == o => Some((size.clone(), align.clone())),
            _ => None,
        });
        match req {
            Some((s, a)) if real(it, &st.norm(&s)) == real(it, &size) && real(it, &st.norm(&a)) == real(it, &align) => None,
            Some((s, a)) => Some(format!("block of size {} align {} freed with size {} align {}", show(&s), show(&a), show(&size), show(&align))),
            None => Some("free of a block that was never allocated".into()),
        }
    };
    if let Some(e) = bad {
        return vec![(st, Exit::Stuck(format!("{e} [in {site}]")))];
    }
    let data = st.obj(o).data.clone();
    st.obj_mut(o).live = false;
    st.trace.push(Rc::new(Event::Dealloc { obj: Some(o), off, ptr, size, align, data, site }));
    vec![(st, Exit::Return(vec![]))]
}

/// the text of a `&'static str` argument (pointer, length)
fn text(st: &State, it: &Interp, b: &[Bit]) -> String {
    let pw = it.pw;
    if b.len() < 2 * pw {
        return String::new();
    }
    let n = st.konst(&b[pw..2 * pw]).unwrap_or(0) as u64;
    if let Some((o, off)) = st.decode(&b[..pw]) {
        if let Ok(d) = it.load(st, Some(o), off, n) {
            return d.chunks(8).map(|c| as_const(c).unwrap_or(63) as u8 as char).collect();
        }
    }
    String::new()
}
pub fn heap_live(st: &State) -> Vec<ObjId> {
    (0..st.objs.len() as u32).filter(|o| st.obj(*o).kind == ObjKind::Heap && st.obj(*o).live).collect()
}
/// expected (undefined = anything) against actual
pub fn same_bits(st: &State, e: &[Bit], a: &[Bit]) -> Result<(), String> {
    if e.len() != a.len() {
        return Err(format!("{} bits against {}", e.len(), a.len()));
    }
    for i in 0..e.len() {
        let (x, y) = (st.nb(e[i]), st.nb(a[i]));
        if x == U {
            continue;
        }
        if x == T || (x != y && st.reval(x) != st.reval(y)) {
            let s = i / 8 * 8;
            let t = (s + 64).min(e.len());
            return Err(format!("byte {}: expected {} found {}", s / 8, show(&st.norm(&e[s..t])), show(&st.norm(&a[s..t]))));
        }
    }
    Ok(())
}
/// the type is a word by its declaration, and not only as this compiler lays it out on this target
fn wraps_word<'t>(tcx: rustc_middle::ty::TyCtxt<'t>, t: rustc_middle::ty::Ty<'t>) -> Result<(), String> {
    use rustc_middle::ty as m;
    let size = |t: m::Ty<'t>| tcx.layout_of(m::TypingEnv::fully_monomorphized().as_query_input(t)).map(|l| l.size.bytes()).unwrap_or(1);
    match t.kind() {
        m::Uint(_) | m::Int(_) | m::RawPtr(..) => Ok(()),
        m::Adt(d, args) if d.is_struct() => {
            if !d.repr().transparent() && !d.repr().c() {
                return Err(format!("{t} is neither repr(transparent) nor repr(C)"));
            }
            let fs: Vec<m::Ty<'t>> = d.all_fields().map(|f| tcx.normalize_erasing_regions(m::TypingEnv::fully_monomorphized(), f.ty(tcx, args))).filter(|t| size(*t) > 0).collect();
            match fs[..] {
                [f] => wraps_word(tcx, f),
                _ => Err(format!("{t} has {} fields that occupy memory", fs.len())),
            }
        }
        _ => Err(format!("{t} is not a word")),
    }
}
pub fn ret_usize(n: usize, pw: usize) -> Bits {
    cbits(n as u128, pw)
}

fn vp(it: &mut Interp, mut st: State, inst: Instance, f: &str, args: &[Bits], dest: Option<Ty>) -> Option<Outs> {
    let pw = it.pw;
    let site = it.site();
    let tys: Vec<Ty> = inst.args().0.iter().filter_map(|g| g.ty().copied()).collect();
    let fail = |it: &mut Interp, st: &State, m: String| {
        let mut path = st.facts();
        path.retain(|f| f.len() < 160);
        path.truncate(8);
        it.rep.failures.push(format!("{m} [at {site}{}]", if path.is_empty() { String::new() } else { format!("; when {}", path.join(" and ")) }));
    };
    macro_rules! need {
        ($c:expr, $m:expr) => {{
            it.rep.obligations += 1;
            if let Err(e) = $c {
                let m = $m;
                fail(it, &st, format!("{m}: {e}"));
            }
        }};
    }
    let s0 = |it: &mut Interp, st: &State, b: &Bits, t: Ty| -> Result<Bits, String> {
        let s = it.size(t)?;
        let a = it.align(t)?;
        let (o, off) = it.resolve(st, &b[..pw], s, a)?;
        it.load(st, o, off, s)
    };
    match f {
        "same" => {
            let t = tys[0];
            let e = s0(it, &st, &args[0], t);
            let a = s0(it, &st, &args[1], t);
            let w = text(&st, it, &args[2]);
            let r = match (e, a) {
                (Ok(e), Ok(a)) => same_bits(&st, &e, &a),
                (Err(e), _) | (_, Err(e)) => Err(e),
            };
            need!(r, w);
            one(st, vec![])
        }
        "check" => {
            let w = text(&st, it, &args[1]);
            let r = match st.truth(st.reval(args[0][0])) {
                Some(true) => Ok(()),
                Some(false) => Err("does not hold".to_string()),
                None => Err(format!("not established: {}", show(&st.norm(&args[0][..1])))),
            };
            need!(r, w);
            one(st, vec![])
        }
        "never" => {
            let w = text(&st, it, &args[0]);
            it.rep.obligations += 1;
            fail(it, &st, format!("{w}: reached"));
            one(st, vec![])
        }
        "done" => {
            it.rep.done += 1;
            it.rep.obligations += 1;
            one(st, vec![])
        }
        "assume" => {
            if st.truth(args[0][0]) == Some(false) || !st.assume(args[0][0], true) {
                return Some(vec![]);
            }
            one(st, vec![])
        }
        // a value of which nothing is known
        "any" => {
            let n = it.rep.fresh;
            it.rep.fresh += 1;
            let d = dest?;
            if let TyKind::RigidTy(RigidTy::Adt(a, _)) = d.kind() {
                if a.kind() == AdtKind::Enum && a.num_variants() > 0 {
                    let mut outs = vec![];
                    for v in 0..a.num_variants() {
                        let mut s = st.clone();
                        let path = format!("::{}", a.variants()[v].name());
                        let r = it.init_variant(&mut s, d, v, &VarBase::Input(format!("any{n}")), &path);
                        outs.push(match r {
                            Ok(b) => (s, Exit::Return(b)),
                            Err(e) => (s, Exit::Stuck(e)),
                        });
                    }
                    return Some(outs);
                }
            }
            match it.init(&mut st, d, &VarBase::Input(format!("any{n}")), "") {
                Ok(b) => one(st, b),
                Err(e) => Some(vec![(st, Exit::Stuck(e))]),
            }
        }
        "catch" => {
            let outs = it.exec(st, inst, args.to_vec());
            Some(
                outs.into_iter()
                    .map(|(s, e)| match e {
                        Exit::Return(_) => (s, Exit::Return(cbits(0, 8))),
                        Exit::Unwind => (s, Exit::Return(cbits(1, 8))),
                        e => (s, e),
                    })
                    .collect(),
            )
        }
        "allocs" | "frees" => {
            let n = st.trace.iter().filter(|e| match &***e {
                Event::Alloc { obj: Some(_), .. } => f == "allocs",
                Event::Dealloc { .. } => f == "frees",
                _ => false,
            }).count();
            one(st, ret_usize(n, pw))
        }
        "live" => {
            let n = heap_live(&st).len();
            one(st, ret_usize(n, pw))
        }
        "calls" => {
            let w = text(&st, it, &args[0]);
            let n = st.trace.iter().filter(|e| matches!(&***e, Event::Call { name, .. } if name == &w || name.ends_with(&format!("::{w}")))).count();
            one(st, ret_usize(n, pw))
        }
        "events" => {
            let n = st.trace.iter().filter(|e| matches!(&***e, Event::Call { .. } | Event::Text(_))).count();
            one(st, ret_usize(n, pw))
        }
        "mark" => {
            it.rep.marks.push(st.clone());
            let n = it.rep.marks.len() - 1;
            one(st, ret_usize(n, pw))
        }
        // every block that was live at the mark still is, with the same contents
        "heap_same" => {
            let m = st.konst(&args[0])? as usize;
            let w = text(&st, it, &args[1]);
            let old = it.rep.marks[m].clone();
            let mut r = Ok(());
            for o in heap_live(&old) {
                if !st.obj(o).live {
                    r = Err(format!("heap block #{o} was freed"));
                } else {
                    let (e, a) = (old.obj(o).data.clone(), st.obj(o).data.clone());
                    for i in 0..e.len() {
                        if st.nb(e[i]) != st.nb(a[i]) {
                            r = Err(format!("heap block #{o} was written at byte {}", i / 8));
                        }
                    }
                }
            }
            need!(r, w);
            one(st, vec![])
        }
        // no block of its own was left behind since the mark
        "no_new" => {
            let m = st.konst(&args[0])? as usize;
            let w = text(&st, it, &args[1]);
            let old = heap_live(&it.rep.marks[m]);
            let extra: Vec<_> = heap_live(&st).into_iter().filter(|o| !old.contains(o)).collect();
            let r = if extra.is_empty() { Ok(()) } else { Err(format!("{} heap block(s) left behind", extra.len())) };
            need!(r, w);
            one(st, vec![])
        }
        // no allocator call, no external call since the mark
        "quiet" => {
            let m = st.konst(&args[0])? as usize;
            let w = text(&st, it, &args[1]);
            let n = it.rep.marks[m].trace.len();
            let r = match st.trace.get(n) {
                None => Ok(()),
                Some(e) => Err(format!("{}", event_str(e))),
            };
            need!(r, w);
            one(st, vec![])
        }
        // the pointer is the start of a live heap block made for exactly this type
        "block_of" => {
            let t = tys[0];
            let w = text(&st, it, &args[1]);
            let r = (|| -> Result<(), String> {
                let (o, off) = st.decode(&args[0][..pw]).ok_or_else(|| format!("{} is not a block's address", show(&st.norm(&args[0][..pw]))))?;
                let ob = st.obj(o);
                if ob.kind != ObjKind::Heap || !ob.live {
                    return Err(format!("points at {}", it.obj_name(&st, o)));
                }
                if off != 0 {
                    return Err(format!("points {off} bytes into the block"));
                }
                let (s, a) = (it.type_size_bits(t)?, it.type_align_bits(t)?);
                for e in st.trace.iter() {
                    if let Event::Alloc { obj: Some(x), size, align, .. } = &**e {
                        if *x == o {
                            if real(it, &st.norm(size)) != real(it, &st.norm(&s)) {
                                return Err(format!("block of size {} for a payload of size {}", show(&st.norm(size)), show(&s)));
                            }
                            if real(it, &st.norm(align)) != real(it, &st.norm(&a)) {
                                return Err(format!("block of alignment {} for a payload of alignment {}", show(&st.norm(align)), show(&a)));
                            }
                            return Ok(());
                        }
                    }
                }
                Err("no allocation".into())
            })();
            need!(r, w);
            one(st, vec![])
        }
        // passed and returned the way a u64 is
        "abi_u64" => {
            let t = tys[0];
            let w = text(&st, it, &args[0]);
            let r = (|| -> Result<(), String> {
                let a = it.layout(t)?;
                let b = it.layout(Ty::unsigned_ty(UintTy::U64))?;
                let show = |r: &rustc_public::abi::ValueRepr| match r {
                    rustc_public::abi::ValueRepr::Scalar(s) => format!("scalar of {} bytes, valid in {:?}", scalar_bytes(s, pw), match s { rustc_public::abi::Scalar::Initialized { valid_range, .. } => Some((valid_range.start, valid_range.end)), _ => None }),
                    r => format!("{r:?}"),
                };
                if a.value_repr != b.value_repr {
                    return Err(format!("is a {} and not a {}", show(&a.value_repr), show(&b.value_repr)));
                }
                rustc_middle::ty::tls::with(|tcx| wraps_word(tcx, rustc_public::rustc_internal::internal(tcx, t)))
            })();
            need!(r, w);
            one(st, vec![])
        }
        // non-null, aligned for the type
        "aligned" => {
            let t = tys[0];
            let w = text(&st, it, &args[1]);
            let r = (|| -> Result<(), String> {
                let b = st.norm(&args[0][..pw]);
                let a = it.align(t)?;
                let k = a.trailing_zeros() as usize;
                if !b[..k].iter().all(|x| *x == O) {
                    return Err(format!("{} is not visibly aligned to {a}", show(&b)));
                }
                if !(b.contains(&I) || st.decode(&b).is_some()) {
                    return Err(format!("{} is not visibly non-null", show(&b)));
                }
                Ok(())
            })();
            need!(r, w);
            one(st, vec![])
        }
        _ => None,
    }
}

pub fn event_str(e: &Event) -> String {
    match e {
        Event::Alloc { obj, size, align, site, .. } => format!("allocation{} of size {} align {} [in {site}]", if obj.is_none() { " (failing)" } else { "" }, show(size), show(align)),
        Event::Dealloc { site, .. } => format!("deallocation [in {site}]"),
        Event::Call { name, args, site, unwound, .. } => format!("call of {name}({}){} [in {site}]", args.iter().map(snap_str).collect::<Vec<_>>().join(", "), if *unwound { " unwinding" } else { "" }),
        Event::Text(t) => format!("text {t:?}"),
        Event::Panic { what, site } => format!("panic ({what}) [in {site}]"),
    }
}
pub fn snap_str(s: &Snap) -> String {
    match s {
        Snap::Bits(b) => show(b),
        Snap::Ptr { label, data, meta, .. } => format!("&{label}{}{}", show(data), if meta.is_empty() { String::new() } else { format!(" meta {meta}") }),
    }
}
