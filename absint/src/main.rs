mod alloc;
#[global_allocator]
static A: alloc::Pool = alloc::Pool::new();
mod canon; mod check; mod hints; mod interp; mod inv; mod join; mod lin; mod memo;
mod mon; mod models; mod solver; mod spec; mod tys; mod val;
use interp::*; use ir::*; use join::*; use val::*;
use std::collections::{BTreeMap, BTreeSet};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(move || run(args)).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn load(path: &str) -> &'static Program {
    let s = std::fs::read(path).expect("program");
    Box::leak(Box::new(serde_json::from_slice(&s).expect("program json")))
}

fn run(args: Vec<String>) -> i32 {
    let p = load(&args[1]);
    let bits = args.iter().find_map(|a| a.strip_prefix("--bits=").and_then(|x| x.parse().ok())).unwrap_or(64u16);
    let filter = args.iter().find_map(|a| a.strip_prefix("--root=").map(|x| x.to_string()));
    let mut e = Eng::new(p, bits);
    if bits < 64 { e.k_ret = 12; e.k_join = 6; }
    let t0 = std::time::Instant::now();
    let hints = args.iter().find_map(|a| a.strip_prefix("--hints=")).and_then(|x| std::fs::read(x).ok()).and_then(|s| serde_json::from_slice(&s).ok());
    let part = args.iter().find_map(|a| a.strip_prefix("--part=")).and_then(|x| x.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap())));
    let specs = args.iter().find_map(|a| a.strip_prefix("--specs=")).map(|x| std::fs::read_to_string(x).expect("specs"));
    // with recorded invariants the specifications are examined at once
    let lazy = specs.is_some() && hints.is_some();
    let fits = drive(&mut e, if lazy { Some("\0".into()) } else { filter }, hints, part);
    if let Some(t) = specs {
e.k_ret = 24;
        let r = check::run(&mut e, &t);
        let v: Vec<serde_json::Value> = r.iter().map(|o| serde_json::json!({"id": o.id, "property": o.prop, "text": o.text, "exits": o.exits, "held": o.held, "vacuous": o.vacuous, "unknown": o.unknown, "missing": o.missing, "bad": o.bad})).collect();
        if std::env::var("SV").is_ok() { for o in &r { println!("{} {} | {} | exits {} held {} vac {} unk {} {} {}", if !o.bad.is_empty() { "BAD " } else if !o.missing.is_empty() { "MISS" } else if o.unknown > 0 { "UNK " } else if o.held == 0 { "VAC " } else { "ok  " }, o.id, o.text, o.exits, o.held, o.vacuous, o.unknown, o.missing, o.bad.first().cloned().unwrap_or_default()); } }
        eprintln!("time {:?} steps {}", t0.elapsed(), e.steps);
        if let Some(o) = args.iter().find_map(|a| a.strip_prefix("--json=")) { let fns: BTreeSet<&str> = e.prof.keys().map(|f| e.p.fns[*f].path.as_str()).collect(); std::fs::write(o, serde_json::json!({"specs": v, "functions": fns, "steps": e.steps, "fits": fits, "warnings": e.warns, "roots": e.root_of.len(), "hints": [], "obligations": [], "invariants": []}).to_string()).expect("write"); }
        return 0;
    }
    eprintln!("time {:?} steps {}", t0.elapsed(), e.steps);
    report(&e);
    if let Some(o) = args.iter().find_map(|a| a.strip_prefix("--json=")) { std::fs::write(o, json(&e, fits).to_string()).expect("write"); }
    0
}
/// every obligation with its verdict
fn json(e: &Eng, fits: bool) -> serde_json::Value {
    let mut obs: BTreeMap<(String, String, u32), Ob> = BTreeMap::new();
    for m in &e.root_obs { for (k, o) in m { let x = obs.entry(k.clone()).or_insert_with(|| { let mut y = o.clone(); y.n = 0; y }); x.n += o.n; if x.ok && !o.ok { let n = x.n; *x = o.clone(); x.n = n; } } }
    let v: Vec<serde_json::Value> = obs.iter().map(|((p, k, l), o)| serde_json::json!({"path": p, "kind": k, "line": l, "file": o.file, "ok": o.ok, "n": o.n, "root": o.root, "msg": o.msg})).collect();
    let fns: BTreeSet<&str> = e.prof.keys().map(|f| e.p.fns[*f].path.as_str()).collect();
    let invs: Vec<serde_json::Value> = e.invs.iter().map(|((t, v), i)| serde_json::json!({"type": e.ty_name(*t), "variant": v, "n": i.cands.len(), "checked": i.n})).collect();
    serde_json::json!({"obligations": v, "functions": fns, "invariants": invs, "roots": e.root_of.len(), "runs": e.root_runs.iter().sum::<u32>(), "steps": e.steps, "warnings": e.warns, "fits": fits, "hints": hints::export(e)})
}

pub fn is_skipped_root(p: &Program, r: &Root) -> bool {
    let f = &p.fns[r.f];
    if r.derived { return true; }
    let n = &f.path;
    n.contains("bitflags::") || n.contains("::_::") || r.trait_path.as_deref().map(|t| t.starts_with("bitflags") || t.starts_with("std::fmt")).unwrap_or(false) || bitflags_like(p, r)
}
fn bitflags_like(p: &Program, r: &Root) -> bool {
    // methods generated by bitflags!: the source location is not in the crate
    let f = &p.fns[r.f];
    !f.file.contains("src/") || f.file.contains("bitflags")
}

fn drive(e: &mut Eng, filter: Option<String>, hints: Option<serde_json::Value>, part: Option<(usize, usize)>) -> bool {
    let p = e.p;
    // types whose values are known only through the API: public structs/enums of the crate with fields, and element types of stacks
    for (i, t) in p.types.iter().enumerate() {
        if let Ty::Adt { krate, public, variants, .. } = t {
            if krate == "ntfs" && *public && !is_error_ty(p, i) && variants.iter().any(|v| !v.fields.is_empty()) { e.inv_types.insert(i); }
        }
        if let Ty::Adt { path, .. } = t { if path == "std::vec::Vec" { if let tys::TK::SeqT { elem, .. } = &e.tk[i] { e.inv_types.insert(*elem); } } }
    }
    e.root_deps = vec![BTreeSet::new(); p.roots.len()];
    e.callers = vec![BTreeSet::new(); p.roots.len()];
    e.root_runs = vec![0; p.roots.len()];
    e.root_obs = vec![BTreeMap::new(); p.roots.len()];
    for (i, r) in p.roots.iter().enumerate() { if !is_skipped_root(p, r) { e.root_of.insert(r.f, i); e.dirty.insert(i); } }
    e.find_heads();
    let known = hints.is_some();
    let fits = hints.map(|h| hints::import(e, &h)).unwrap_or(true);
    // what share of the entry points this process analyses: only a matter of speed
    let share = |i: &usize, n: usize| { let x = &p.fns[p.roots[*i].f].name; (if x.contains("AnyIndex") { 0 } else if x.contains("FileNameIndex") { 1 } else { 2 }) % n };
    if let Some((k, n)) = part { e.mine = Some(e.dirty.iter().copied().filter(|i| share(i, n) == k).collect()); }
    let mut runs = 0u32; let stop: u32 = std::env::var("STOP").ok().and_then(|x| x.parse().ok()).unwrap_or(u32::MAX);
    for round in 0..60 {
        e.ran.clear();
        e.collecting = !known && round < 2;
        for i in e.invs.values_mut() { let n = std::mem::take(&mut i.new); i.cands.extend(n); }
        if !known && (round == 1 || round == 2) { let t: BTreeSet<TyId> = e.inv_types.clone(); for t in t { e.drop_summaries(t); } for i in 0..p.roots.len() { if e.root_of.contains_key(&p.roots[i].f) { e.dirty.insert(i); e.ctxs.remove(&p.roots[i].f); } } }
        let todo: Vec<usize> = e.dirty.iter().copied().filter(|i| e.mine.as_ref().map(|m| m.contains(i)).unwrap_or(true)).collect();
        if todo.is_empty() { break; }
        eprintln!("round {round}: {} roots, {} candidates {:?}", todo.len(), e.invs.values().map(|i| i.cands.len()).sum::<usize>(), e.t0.elapsed());
        for i in todo {
            if !e.dirty.contains(&i) || e.ran.contains(&i) { continue; }
            let f = p.roots[i].f;
            if let Some(x) = &filter { if !p.fns[f].name.contains(x.as_str()) { e.dirty.remove(&i); continue; } }
            runs += 1; if runs > stop { return fits; } if std::env::var("V").is_ok() { eprintln!("-> {}", p.fns[f].name); }
            e.ensure_root(f);
        }
    }
    if e.dirty.iter().any(|i| e.mine.as_ref().map(|m| m.contains(i)).unwrap_or(true)) { e.warn("invariants do not stabilise".into()); }
    fits
}

/// all argument vectors of a root
pub fn root_states(e: &mut Eng, r: &Root) -> Vec<(State, Vec<Val>)> {
    let mut out = vec![(State::new(), vec![])];
    for (i, t) in r.inputs.iter().enumerate() {
        let mut next = vec![];
        for (st, vs) in out {
            for (s, v) in arg(e, st, *t, &format!("arg{i}")) { let mut w = vs.clone(); w.push(v); next.push((s, w)); }
        }
        out = next;
    }
    out
}
pub fn arg(e: &mut Eng, mut st: State, t: TyId, name: &str) -> Ret {
    match e.tk[t].clone() {
        tys::TK::Ref(to) if !matches!(e.ty(to), Ty::Slice(_) | Ty::Str) => {
            let mut r = vec![];
            for (mut s, v) in arg(e, st, to, name) { let x = e.mk_ref_to(&mut s, to, v); r.push((s, x)); }
            r
        }
        tys::TK::Struct | tys::TK::Enum | tys::TK::SeqT { .. } if e.inv_types.contains(&t) => e.instances(st, t, None, name),
        tys::TK::Tuple => {
            let Ty::Tuple(ts) = e.ty(t) else { let v = e.mk_top(&mut st, t, name); return vec![(st, v)] };
            let mut out: Vec<(State, Vec<Val>)> = vec![(st, vec![])];
            for (i, x) in ts.iter().enumerate() { let mut next = vec![]; for (s, vs) in out { for (s2, v) in arg(e, s, *x, &format!("{name}.{i}")) { let mut w = vs.clone(); w.push(v); next.push((s2, w)); } } out = next; }
            out.into_iter().map(|(s, v)| (s, Val::agg(0, v))).collect()
        }
        _ => { let v = e.mk_top(&mut st, t, name); vec![(st, v)] }
    }
}

pub fn report(e: &Eng) {
    let mut bad = 0; let mut ok = 0;
    if std::env::var("INVS").is_ok() { for ((t, v), i) in &e.invs { eprintln!("INV {}#{} : {}  checks {}", e.ty_name(*t), v, show(&i.tp.val()), i.n); for (k, h) in i.tp.st.frames[0].vals.iter().enumerate() { eprintln!("     h{} = {}", k, show(h)); } for c in &i.cands { eprintln!("       {} >= 0", c.show()); } } }
    let mut obs: BTreeMap<(String, String, u32), Ob> = BTreeMap::new();
    for m in &e.root_obs { for (k, o) in m { let x = obs.entry(k.clone()).or_insert_with(|| o.clone()); if x.ok && !o.ok { *x = o.clone(); } } }
    for ((path, kind, line), o) in &obs {
        if o.ok { ok += 1; } else { bad += 1; println!("FAIL {path} | {kind} | {}:{line} | root {} | {}", o.file, o.root, o.msg); }
    }
    println!("obligation sites ok {ok} failing {bad}");
    for (w, n) in &e.warns { println!("warn {n} {w}"); }
    if std::env::var("PROF").is_ok() { let mut v: Vec<_> = e.fsteps.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for ((a, b), t) in v.iter().take(30) { println!("prof edge {}ms {} -> {}", *t / 1000, e.p.fns[*a].path, e.p.fns[*b].path); } let mut v: Vec<_> = e.prof.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1 .1)); for (f, (n, t)) in v.iter().take(40) { println!("prof {:?} {} {}", t, n, e.p.fns[**f].path); } solver::STATS.with(|s| println!("{:?}", s.borrow())); }
}
