//! Facts about declarations (no function bodies): types taken as unknown, the
//! crates a program is made of, and what the signatures of tagged-box's public
//! surface let safe code do.
use crate::harness::js;
use rustc_hir::def::{DefKind, Res};
use rustc_middle::ty as m;
use rustc_middle::ty::TyCtxt;
use rustc_public::ty::*;
use rustc_public::CrateDef;
use rustc_span::def_id::{CrateNum, DefId, LOCAL_CRATE};
use std::collections::{BTreeSet, HashSet};

/// structs of the probe crate named `Sym…` stand for a type of unknown size and alignment
pub fn sym_types() -> Vec<Ty> {
    let mut v = vec![];
    for f in rustc_public::local_crate().fn_defs() {
        if f.name().rsplit("::").next() == Some("vp_sym_types") {
            if let TyKind::RigidTy(RigidTy::Tuple(ts)) = f.fn_sig().skip_binder().output().kind() {
                v.extend(ts);
            }
        }
    }
    v
}

/// what a type in a signature mentions
#[derive(Default, Debug)]
struct Mentions {
    /// type parameters reachable by value or by reference, outside handles
    params: BTreeSet<String>,
    /// type parameters anywhere
    any_params: BTreeSet<String>,
    handle: bool,
    raw: bool,
    int: bool,
    word: bool,
    /// lifetimes of shared and exclusive references and of type arguments
    shared: BTreeSet<String>,
    excl: BTreeSet<String>,
    other: BTreeSet<String>,
}
impl Mentions {
    fn lifetimes(&self) -> BTreeSet<String> {
        self.shared.iter().chain(&self.excl).chain(&self.other).cloned().collect()
    }
}

fn walk<'t>(tcx: TyCtxt<'t>, t: m::Ty<'t>, behind_raw: bool, in_handle: bool, o: &mut Mentions) {
    match t.kind() {
        m::Param(_) => {
            o.any_params.insert(t.to_string());
            if !behind_raw && !in_handle {
                o.params.insert(t.to_string());
            }
        }
        m::RawPtr(t, _) => {
            o.raw = true;
            walk(tcx, *t, true, in_handle, o);
        }
        m::Ref(r, t, mt) => {
            if !behind_raw {
                if mt.is_mut() { o.excl.insert(r.to_string()) } else { o.shared.insert(r.to_string()) };
            }
            walk(tcx, *t, behind_raw, in_handle, o);
        }
        m::Int(_) | m::Uint(_) => o.int = true,
        m::Adt(d, args) => {
            let name = tcx.item_name(d.did()).to_string();
            let krate = tcx.crate_name(d.did().krate).to_string();
            let handle = krate == "tagged_box" && name == "TaggedBox";
            if krate == "tagged_box" && name == "TaggedPointer" {
                o.word = true;
            }
            if handle {
                o.handle = true;
            }
            let phantom = d.is_phantom_data() || (krate == "core" && name == "NonNull");
            o.raw |= krate == "core" && name == "NonNull";
            for a in args.iter() {
                if let Some(t) = a.as_type() {
                    walk(tcx, t, behind_raw || phantom, in_handle || handle, o);
                } else if let Some(r) = a.as_region() {
                    if !behind_raw {
                        o.other.insert(r.to_string());
                    }
                }
            }
        }
        m::Tuple(ts) => ts.iter().for_each(|t| walk(tcx, t, behind_raw, in_handle, o)),
        m::Slice(t) | m::Array(t, _) => walk(tcx, *t, behind_raw, in_handle, o),
        m::Alias(..) => {
            // `Self::Inner` and the like: only what it is a projection of
            let mut any = BTreeSet::new();
            for g in t.walk() {
                if let Some(x) = g.as_type() {
                    if matches!(x.kind(), m::Param(_)) {
                        any.insert(x.to_string());
                    }
                }
            }
            o.any_params.extend(any.iter().cloned());
            if !behind_raw && !in_handle {
                o.params.extend(any);
            }
        }
        m::Dynamic(_, r) => {
            o.other.insert(r.to_string());
        }
        _ => {
            for g in t.walk().skip(1) {
                if let Some(x) = g.as_type() {
                    if matches!(x.kind(), m::Param(_)) {
                        o.any_params.insert(x.to_string());
                    }
                }
            }
        }
    }
}

struct Found {
    rule: &'static str,
    what: String,
    text: String,
}

/// the functions another crate can name: free functions, inherent and trait methods
fn public_fns(tcx: TyCtxt<'_>, k: CrateNum) -> (Vec<DefId>, Vec<DefId>) {
    let mut fns = vec![];
    let mut adts = vec![];
    if k == LOCAL_CRATE {
        for d in tcx.hir_crate_items(()).definitions() {
            let did = d.to_def_id();
            match tcx.def_kind(did) {
                DefKind::AssocFn => fns.push(did),
                DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(did),
                _ => {}
            }
        }
        return (fns, adts);
    }
    let mut seen = HashSet::new();
    let mut mods = vec![k.as_def_id()];
    while let Some(md) = mods.pop() {
        if !seen.insert(md) {
            continue;
        }
        for c in tcx.module_children(md) {
            if !c.vis.is_public() {
                continue;
            }
            if let Res::Def(kind, did) = c.res {
                if did.krate != k {
                    continue;
                }
                match kind {
                    DefKind::Mod => mods.push(did),
                    DefKind::Fn => fns.push(did),
                    DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(did),
                    DefKind::Trait => {
                        for i in tcx.associated_item_def_ids(did) {
                            if tcx.def_kind(*i) == DefKind::AssocFn {
                                fns.push(*i);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    for a in &adts {
        for i in tcx.inherent_impls(*a) {
            for f in tcx.associated_item_def_ids(*i) {
                if tcx.def_kind(*f) == DefKind::AssocFn && tcx.visibility(*f).is_public() {
                    fns.push(*f);
                }
            }
        }
    }
    for i in tcx.trait_impls_in_crate(k) {
        for f in tcx.associated_item_def_ids(*i) {
            if tcx.def_kind(*f) == DefKind::AssocFn {
                fns.push(*f);
            }
        }
    }
    fns.sort_by_cached_key(|d| tcx.def_path_str(*d));
    fns.dedup();
    adts.sort_by_cached_key(|d| tcx.def_path_str(*d));
    adts.dedup();
    (fns, adts)
}

fn judge(tcx: TyCtxt<'_>, k: CrateNum, out: &mut Vec<Found>) -> (usize, usize) {
    let (fns, adts) = public_fns(tcx, k);
    for f in &fns {
        let sig = tcx.fn_sig(*f).instantiate_identity().skip_norm_wip().skip_binder();
        let path = tcx.def_path_str(*f);
        let safe = sig.safety().is_safe();
        let mut i = Mentions::default();
        for t in sig.inputs() {
            walk(tcx, *t, false, false, &mut i);
        }
        let mut o = Mentions::default();
        walk(tcx, sig.output(), false, false, &mut o);
        let text = format!("{}fn {path}({}) -> {}", if safe { "" } else { "unsafe " }, sig.inputs().iter().map(|t| t.to_string()).collect::<Vec<_>>().join(", "), sig.output());
        let mut hit = |rule, what: String| out.push(Found { rule, what: format!("{path}: {what}"), text: text.clone() });
        if safe {
            let invented: Vec<_> = o.params.iter().filter(|p| !i.any_params.contains(*p)).cloned().collect();
            if !invented.is_empty() {
                hit("R1", format!("safe, yet its result holds a value of type {} that none of its arguments determines", invented.join(", ")));
            }
            if o.handle {
                if i.raw || i.word {
                    hit("R2", "safe, yet it makes a handle out of a raw address".into());
                } else if i.int {
                    hit("R3", "safe, yet it makes a handle under a discriminant the caller chooses".into());
                }
            }
        }
        let (a, b) = (i.lifetimes(), o.lifetimes());
        for r in b.iter() {
            if !a.contains(r) {
                let about_handle = i.handle || i.word || o.handle || o.word || !o.any_params.is_empty();
                if about_handle {
                    hit("R4", format!("the lifetime {r} of its result is not that of any argument"));
                }
            }
        }
        for r in &o.excl {
            if i.shared.contains(r) && !i.excl.contains(r) {
                hit("R5", format!("gives an exclusive reference of lifetime {r} for a shared one"));
            }
        }
    }
    for a in &adts {
        let d = tcx.adt_def(*a);
        for v in d.variants() {
            for f in &v.fields {
                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                let mut w = Mentions::default();
                walk(tcx, t, false, false, &mut w);
                let name = tcx.item_name(*a).to_string();
                let is_handle = tcx.crate_name(k).as_str() == "tagged_box" && name == "TaggedBox";
                let wraps = k == LOCAL_CRATE && w.handle && name.ends_with('C');
                if (is_handle || wraps) && f.vis.is_public() {
                    out.push(Found { rule: "R6", what: format!("{}: its field `{}` is public", tcx.def_path_str(*a), f.name), text: String::new() });
                }
            }
        }
    }
    (fns.len(), adts.len())
}

pub fn run(tcx: TyCtxt<'_>, filter: &str) -> String {
    let mut crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    crates.sort();
    let list = crates.iter().map(|c| js(c)).collect::<Vec<_>>().join(",");
    if filter != "c17" && filter != "c19" {
        return "{}".into();
    }
    let mut found = vec![];
    let (mut nf, mut na) = (0, 0);
    for k in std::iter::once(LOCAL_CRATE).chain(tcx.crates(()).iter().copied()) {
        if k == LOCAL_CRATE || tcx.crate_name(k).as_str() == "tagged_box" {
            let (f, a) = judge(tcx, k, &mut found);
            nf += f;
            na += a;
        }
    }
    // what the bodies of the program refer to, by crate
    let mut refs: BTreeSet<String> = BTreeSet::new();
    if filter == "c19" {
        for d in tcx.hir_crate_items(()).definitions() {
            if !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                continue;
            }
            let body = tcx.optimized_mir(d.to_def_id());
            for b in body.basic_blocks.iter() {
                if let rustc_middle::mir::TerminatorKind::Call { func, .. } = &b.terminator().kind {
                    if let Some((did, _)) = func.const_fn_def() {
                        refs.insert(tcx.crate_name(did.krate).to_string());
                    }
                }
            }
            for l in body.local_decls.iter() {
                for g in l.ty.walk() {
                    if let Some(t) = g.as_type() {
                        if let m::Adt(a, _) = t.kind() {
                            refs.insert(tcx.crate_name(a.did().krate).to_string());
                        }
                    }
                }
            }
        }
    }
    format!(
        "{{\"crates\":[{list}],\"refs\":[{}],\"fns\":{nf},\"adts\":{na},\"found\":[{}]}}",
        refs.iter().map(|c| js(c)).collect::<Vec<_>>().join(","),
        found.iter().map(|f| format!("{{\"rule\":{},\"what\":{},\"sig\":{}}}", js(f.rule), js(&f.what), js(&f.text))).collect::<Vec<_>>().join(",")
    )
}
