//! Runs the analysis from each probe function of the crate being compiled and
//! judges the ways it can end.
use crate::census;
use crate::dom::*;
use crate::interp::*;
use crate::models;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateItem};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn js_list<I: IntoIterator<Item = String>>(it: I) -> String {
    format!("[{}]", it.into_iter().map(|s| js(&s)).collect::<Vec<_>>().join(","))
}

struct Probe {
    full: String,
    flags: String,
    pair: Option<(String, bool)>,
    inst: Instance,
}
struct Case {
    desc: String,
    st: State,
    args: Vec<Bits>,
}

fn probes(filter: &str) -> Vec<Probe> {
    let mut v = vec![];
    for it in rustc_public::all_local_items() {
        let name = it.name();
        let last = name.rsplit("::").next().unwrap_or("").to_string();
        let parts: Vec<&str> = last.split("__").collect();
        if parts.len() < 3 || parts[0] != filter {
            continue;
        }
        let Ok(inst) = Instance::try_from(CrateItem(it.0)) else { continue };
        let pair = if parts[1].contains('i') {
            Some((parts[2].to_string(), true))
        } else if parts[1].contains('s') {
            Some((parts[2].to_string(), false))
        } else {
            None
        };
        v.push(Probe { full: last.clone(), flags: parts[1].to_string(), pair, inst });
    }
    v.sort_by(|a, b| a.full.cmp(&b.full));
    v
}

fn local_enum(t: Ty) -> Option<usize> {
    if let TyKind::RigidTy(RigidTy::Adt(d, _)) = t.kind() {
        if d.kind() == AdtKind::Enum && d.krate().is_local {
            return Some(d.num_variants());
        }
    }
    None
}
fn vname(t: Ty, v: usize) -> String {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) => d.variants()[v].name(),
        _ => String::new(),
    }
}

/// one starting state per combination of variants of the enum-typed parameters
fn cases(it: &mut Interp, p: &Probe) -> Result<Vec<Case>, String> {
    let body = p.inst.body().ok_or("no body")?;
    let mut names: BTreeMap<usize, String> = BTreeMap::new();
    for d in &body.var_debug_info {
        if let Some(a) = d.argument_index {
            names.insert(a as usize, d.name.to_string());
        }
    }
    let mut st = State::new();
    if let Some(f) = it.env.fit_width {
        st.fit = f;
    }
    // types taken as unknown have at least one byte and a power-of-two alignment
    for t in it.sym_types.clone() {
        let s = it.type_size_bits(t)?;
        let e = st.eq_bit(&s, &cbits(0, s.len()));
        st.assume(e, false);
        let a = it.type_align_bits(t)?;
        let e = st.eq_bit(&a, &cbits(0, a.len()));
        st.assume(e, false);
    }
    let mut cs = vec![Case { desc: String::new(), st, args: vec![] }];
    for (i, l) in body.arg_locals().iter().enumerate() {
        let n = names.get(&(i + 1)).cloned().unwrap_or_else(|| format!("arg{i}"));
        let (t, by_ref) = match l.ty.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, t, _)) if local_enum(t).is_some() => (t, true),
            _ => (l.ty, false),
        };
        let variants: Vec<Option<usize>> = match local_enum(t) {
            Some(k) => (0..k).map(Some).collect(),
            None => vec![None],
        };
        let mut nxt = vec![];
        for c in cs {
            for v in &variants {
                let mut st = c.st.clone();
                let base = VarBase::Input(n.clone());
                let mut b = match v {
                    Some(v) => it.init_variant(&mut st, t, *v, &base, &format!("::{}", vname(t, *v)))?,
                    None => it.init(&mut st, t, &base, "")?,
                };
                if by_ref {
                    let (s, a) = (it.size(t)?, it.align(t)?);
                    let o = st.alloc(ObjKind::Input(n.clone()), s, a);
                    st.obj_mut(o).data = b;
                    b = st.ptr(o, 0, it.pw);
                }
                let mut args = c.args.clone();
                args.push(b);
                let d = match v {
                    Some(v) => format!("{}{n}={}", if c.desc.is_empty() { String::new() } else { format!("{}, ", c.desc) }, vname(t, *v)),
                    None => c.desc.clone(),
                };
                nxt.push(Case { desc: d, st, args });
            }
        }
        cs = nxt;
    }
    Ok(cs)
}

fn new_interp(flags: &str, fit: usize, root: &str) -> Interp {
    let env = Env { pw: 64, fit_width: Some(if flags.contains('w') { 64 } else { fit }), alloc_may_fail: flags.contains('f'), ext_unwind: flags.contains('u'), strict: flags.contains('x') };
    let mut it = Interp::new(env, root.to_string());
    it.sym_types = census::sym_types();
    it
}

fn last_panic(s: &State) -> String {
    for e in s.trace.iter().rev() {
        match &**e {
            Event::Panic { what, site } => return format!("{what} [in {site}]"),
            Event::Call { unwound: true, name, site, .. } => return format!("unwinding out of {name} [in {site}]"),
            _ => {}
        }
    }
    "?".into()
}
fn alloc_failed(s: &State) -> bool {
    s.trace.iter().any(|e| matches!(&**e, Event::Alloc { obj: None, .. }))
}
fn ext_unwound(s: &State) -> bool {
    s.trace.iter().any(|e| matches!(&**e, Event::Call { unwound: true, .. }))
}
fn facts(s: &State) -> String {
    let mut f = s.facts();
    f.retain(|x| x.len() < 160);
    f.truncate(8);
    if f.is_empty() {
        String::new()
    } else {
        format!("; when {}", f.join(" and "))
    }
}

#[derive(Default)]
struct Tot {
    paths: u64,
    steps: u64,
    obligations: u64,
    repo_fns: BTreeMap<String, u64>,
    fns: BTreeSet<String>,
    ext: BTreeSet<String>,
}

fn judge(flags: &str, it: &mut Interp, outs: &Outs, fails: &mut Vec<String>) {
    let must_panic = flags.contains('p');
    let any = flags.contains('a');
    let mut returns = 0;
    let mut unwinds = 0;
    for (s, e) in outs {
        it.rep.obligations += 1;
        match e {
            Exit::Return(_) => {
                returns += 1;
                if must_panic {
                    fails.push(format!("returns where it has to panic{}", facts(s)));
                }
            }
            Exit::Unwind => {
                unwinds += 1;
                if must_panic && ext_unwound(s) {
                    fails.push(format!("unwinds from a user function, not from its own check{}", facts(s)));
                }
                let ok = must_panic || any || (flags.contains('f') && alloc_failed(s)) || (flags.contains('u') && ext_unwound(s));
                if !ok {
                    fails.push(format!("panics: {}{}", last_panic(s), facts(s)));
                }
            }
            Exit::Abort(w) => {
                if !(flags.contains('f') && alloc_failed(s)) {
                    fails.push(format!("aborts: {w}{}", facts(s)));
                }
            }
            Exit::Stuck(w) => fails.push(format!("{w}{}", facts(s))),
        }
    }
    if must_panic && unwinds == 0 {
        fails.push("no path panics".into());
    }
    if !must_panic && returns == 0 && !any {
        fails.push("no path returns".into());
    }
    fails.extend(it.rep.failures.drain(..));
}

fn cmp_traces(j: &State, imp: &State, spec: &State) -> Result<(), String> {
    let f = |s: &State| -> Vec<std::rc::Rc<Event>> { s.trace.iter().filter(|e| matches!(&***e, Event::Call { .. } | Event::Text(_))).cloned().collect() };
    let (a, b) = (f(imp), f(spec));
    for i in 0..a.len().max(b.len()) {
        match (a.get(i).map(|x| &**x), b.get(i).map(|x| &**x)) {
            (Some(Event::Call { name: n1, args: a1, unwound: u1, .. }), Some(Event::Call { name: n2, args: a2, unwound: u2, .. })) => {
                let bad = |why: String| {
                    Err(format!("{why}: found {} where {} is required", models::event_str(a[i].as_ref()), models::event_str(b[i].as_ref())))
                };
                if n1 != n2 || a1.len() != a2.len() || u1 != u2 {
                    return bad("different user operation".into());
                }
                for (k, (x, y)) in a1.iter().zip(a2).enumerate() {
                    let r = match (x, y) {
                        (Snap::Bits(x), Snap::Bits(y)) => models::same_bits(j, y, x),
                        (Snap::Ptr { label: l1, data: d1, meta: m1, aligned: g1 }, Snap::Ptr { label: l2, data: d2, meta: m2, aligned: _ }) => {
                            if l1 != l2 || m1 != m2 {
                                Err(format!("refers to {l1}{m1} instead of {l2}{m2}"))
                            } else if !g1 {
                                Err("is not aligned".into())
                            } else {
                                models::same_bits(j, d2, d1)
                            }
                        }
                        _ => Err("is of a different kind".into()),
                    };
                    if let Err(e) = r {
                        return bad(format!("operand {k} differs ({e})"));
                    }
                }
            }
            (Some(Event::Text(x)), Some(Event::Text(y))) if x == y => {}
            (Some(x), None) => return Err(format!("extra {}", models::event_str(x))),
            (None, Some(y)) => return Err(format!("missing {}", models::event_str(y))),
            (Some(x), Some(y)) => return Err(format!("{} instead of {}", models::event_str(x), models::event_str(y))),
            (None, None) => {}
        }
    }
    Ok(())
}

fn compare(it: &mut Interp, imp: &Outs, spec: &Outs, fails: &mut Vec<String>) {
    for (si, ei) in imp {
        let mut hits = 0;
        for (ss, es) in spec {
            let mut j = si.clone();
            let mut ok = ss.choices.iter().all(|(k, c)| si.choices.get(k).map_or(true, |d| d == c));
            for ((v, i), val) in ss.known.iter() {
                if !j.assume(Bit::S(*v, *i), *val) {
                    ok = false;
                    break;
                }
            }
            if !ok {
                continue;
            }
            hits += 1;
            it.rep.obligations += 1;
            let r = match (ei, es) {
                (Exit::Return(a), Exit::Return(b)) => cmp_traces(&j, si, ss).and_then(|_| models::same_bits(&j, &named(ss, b), &named(si, a)).map_err(|e| format!("result differs: {e}"))),
                (Exit::Unwind, Exit::Unwind) => cmp_traces(&j, si, ss),
                (Exit::Stuck(w), _) => Err(w.clone()),
                (_, Exit::Stuck(w)) => Err(format!("specification side: {w}")),
                (Exit::Unwind, _) => Err(format!("panics: {}", last_panic(si))),
                (a, b) => Err(format!("ends differently: {} instead of {}", kind(a), kind(b))),
            };
            if let Err(e) = r {
                fails.push(format!("{e}{}", facts(&j)));
            }
        }
        if hits == 0 {
            let w = match ei {
                Exit::Stuck(w) => w.clone(),
                Exit::Unwind => format!("panics: {}", last_panic(si)),
                e => kind(e).to_string(),
            };
            fails.push(format!("a path that the specification does not have: {w}{}", facts(si)));
        }
    }
    if imp.is_empty() || spec.is_empty() {
        fails.push("no path".into());
    }
}
/// No way through the operation, and nothing it leaves behind, may depend on what a
/// writable static held: ways that differ in that alone have to be the same.
fn independent(it: &mut Interp, outs: &Outs, fails: &mut Vec<String>) {
    let shared_fact = |s: &State| s.known.keys().find_map(|(v, _)| shared_origin(*v));
    let mut ways = vec![];
    for (s, e) in outs {
        it.rep.obligations += 1;
        let mut say = |what: &str, b: &[Bit]| {
            if let Some(l) = shared_bits(&s.norm(b)) {
                fails.push(format!("{what} depends on {l}"));
            }
        };
        if let Exit::Return(b) = e {
            say("the result", b);
        }
        for o in s.objs.iter() {
            if o.live && matches!(o.kind, ObjKind::Heap | ObjKind::Input(_)) {
                say("what is stored", &o.data);
            }
        }
        let mut mem = vec![];
        for e in s.trace.iter() {
            match &**e {
                Event::Alloc { size, align, zeroed, obj, .. } => {
                    say("the size of a block", size);
                    say("the alignment of a block", align);
                    mem.push((0u8, size.clone(), align.clone(), *zeroed as u64 + obj.is_none() as u64 * 2));
                }
                Event::Dealloc { ptr, size, align, obj, off, .. } => {
                    say("which block is freed", ptr);
                    say("the size of a freed block", size);
                    mem.push((1, size.clone(), align.clone(), obj.unwrap_or(0) as u64 ^ off << 32));
                }
                Event::Call { args, .. } => {
                    for a in args {
                        match a {
                            Snap::Bits(b) => say("an operand of a user operation", b),
                            Snap::Ptr { data, .. } => say("an operand of a user operation", data),
                        }
                    }
                }
                _ => {}
            }
        }
        ways.push(mem);
    }
    for (i, (a, ea)) in outs.iter().enumerate() {
        let Some(l) = shared_fact(a) else { continue };
        for (k, (b, eb)) in outs.iter().enumerate() {
            if i == k {
                continue;
            }
            let mut j = a.clone();
            let same = b.choices.iter().all(|(k, c)| a.choices.get(k).map_or(true, |d| d == c))
                && b.known.iter().all(|((v, n), val)| shared_origin(*v).is_some() || j.assume(Bit::S(*v, *n), *val));
            if !same {
                continue;
            }
            it.rep.obligations += 1;
            let r = match (ea, eb) {
                (Exit::Return(x), Exit::Return(y)) => cmp_traces(&j, a, b).and_then(|_| models::same_bits(&j, &named(b, y), &named(a, x)).map_err(|e| format!("result differs: {e}"))),
                (Exit::Unwind, Exit::Unwind) => cmp_traces(&j, a, b),
                (x, y) if kind(x) == kind(y) => Ok(()),
                (x, y) => Err(format!("{} or {}", kind(x), kind(y))),
            };
            let r = r.and_then(|_| {
                if ways[i].len() != ways[k].len() {
                    return Err("different requests to the allocator".to_string());
                }
                for (p, q) in ways[i].iter().zip(&ways[k]) {
                    if p.0 != q.0 || p.3 != q.3 || models::same_bits(&j, &p.1, &q.1).is_err() || models::same_bits(&j, &p.2, &q.2).is_err() {
                        return Err("different requests to the allocator".to_string());
                    }
                }
                let kept = |s: &State| s.objs.iter().filter(|o| matches!(o.kind, ObjKind::Heap | ObjKind::Input(_))).cloned().collect::<Vec<_>>();
                for (x, y) in kept(a).iter().zip(&kept(b)) {
                    if x.kind != y.kind {
                        return Err("different objects".to_string());
                    }
                    if x.live != y.live || (x.live && models::same_bits(&j, &x.data, &y.data).is_err()) {
                        return Err("what is stored differs".to_string());
                    }
                }
                Ok(())
            });
            if let Err(e) = r {
                fails.push(format!("what happens depends on {l}: {e}"));
            }
        }
    }
}
/// addresses of the user's objects by the objects' names, which two runs have in common
fn named(s: &State, b: &[Bit]) -> Bits {
    s.norm(b)
        .into_iter()
        .map(|x| match x {
            Bit::S(v, i) => match with_kind(v, |k| if let VarKind::Addr(o, q) | VarKind::Number(o, q) = k { Some((*o, *q)) } else { None }) {
                Some((o, q)) => match &s.obj(o).kind {
                    ObjKind::Input(l) => Bit::S(var(VarKind::Input(format!("&{l}+{q}"))), i),
                    _ => x,
                },
                None => x,
            },
            x => x,
        })
        .collect()
}
fn kind(e: &Exit) -> &'static str {
    match e {
        Exit::Return(_) => "return",
        Exit::Unwind => "unwind",
        Exit::Abort(_) => "abort",
        Exit::Stuck(_) => "stuck",
    }
}

pub fn run(tcx: TyCtxt<'_>) {
    let out = std::env::var("TBCHECK_OUT").expect("TBCHECK_OUT");
    let filter = std::env::var("TBCHECK_PROP").unwrap_or_default();
    let root = std::env::var("TBCHECK_REPO").unwrap_or_else(|_| "/repo".into());
    let fit: usize = std::env::var("TBCHECK_FIT").ok().and_then(|s| s.parse().ok()).unwrap_or(48);
    let mut recs: Vec<String> = vec![];
    let mut tot = Tot::default();
    let ps = probes(&filter);
    let mut pairs: BTreeMap<String, (Option<&Probe>, Option<&Probe>)> = BTreeMap::new();
    for p in &ps {
        if let Some((n, imp)) = &p.pair {
            let e = pairs.entry(n.clone()).or_default();
            if *imp {
                e.0 = Some(p)
            } else {
                e.1 = Some(p)
            }
        }
    }
    let mut emit = |name: &str, case: &str, fails: &[String], paths: usize, obl: u64, tot: &mut Tot| {
        tot.paths += paths as u64;
        tot.obligations += obl;
        let mut f: Vec<String> = fails.to_vec();
        f.dedup();
        f.truncate(6);
        recs.push(format!("{{\"probe\":{},\"case\":{},\"paths\":{},\"obligations\":{},\"fails\":{}}}", js(name), js(case), paths, obl, js_list(f)));
    };
    for p in &ps {
        if p.pair.is_some() {
            continue;
        }
        let mut it = new_interp(&p.flags, fit, &root);
        match cases(&mut it, p) {
            Err(e) => emit(&p.full, "", &[e], 0, 0, &mut tot),
            Ok(cs) => {
                for c in cs {
                    it.reset_budget();
                    it.rep = Default::default();
                    let outs = it.exec(c.st, p.inst, c.args);
                    let mut fails = vec![];
                    judge(&p.flags, &mut it, &outs, &mut fails);
                    if p.flags.contains('t') {
                        independent(&mut it, &outs, &mut fails);
                    }
                    let o = it.rep.obligations;
                    emit(&p.full, &c.desc, &fails, outs.len(), o, &mut tot);
                }
            }
        }
        finish(&mut tot, it);
    }
    for (n, (i, s)) in &pairs {
        let (Some(i), Some(s)) = (i, s) else {
            emit(n, "", &["unpaired probe".to_string()], 0, 0, &mut tot);
            continue;
        };
        let mut it = new_interp(&i.flags, fit, &root);
        match (cases(&mut it, i), cases(&mut it, s)) {
            (Ok(ci), Ok(cs)) if ci.len() == cs.len() => {
                for (a, b) in ci.into_iter().zip(cs) {
                    it.reset_budget();
                    it.rep = Default::default();
                    let oi = it.exec(a.st, i.inst, a.args);
                    let fi: Vec<String> = it.rep.failures.drain(..).collect();
                    let os = it.exec(b.st, s.inst, b.args);
                    let mut fails = fi;
                    compare(&mut it, &oi, &os, &mut fails);
                    let o = it.rep.obligations;
                    emit(&i.full, &a.desc, &fails, oi.len(), o, &mut tot);
                }
            }
            (Err(e), _) | (_, Err(e)) => emit(n, "", &[e], 0, 0, &mut tot),
            _ => emit(n, "", &["pair with different parameters".to_string()], 0, 0, &mut tot),
        }
        finish(&mut tot, it);
    }
    let cen = census::run(tcx, &filter);
    let j = format!(
        "{{\"probes\":{},\"records\":[{}],\"paths\":{},\"steps\":{},\"obligations\":{},\"repo_fns\":{},\"fns\":{},\"ext\":{},\"census\":{}}}",
        ps.len(),
        recs.join(",\n"),
        tot.paths,
        tot.steps,
        tot.obligations,
        js_list(tot.repo_fns.keys().cloned()),
        tot.fns.len(),
        js_list(tot.ext.iter().cloned()),
        cen
    );
    std::fs::write(out, j).expect("write");
}
fn finish(tot: &mut Tot, it: Interp) {
    tot.steps += it.steps;
    tot.fns.extend(it.all_fns);
    tot.ext.extend(it.ext_calls);
    for (k, v) in it.repo_fns {
        *tot.repo_fns.entry(k).or_insert(0) += v;
    }
}
