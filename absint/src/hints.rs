//! The surviving invariant candidates of an earlier run, as text. They are only a starting point:
//! every run checks each of them again and drops those that do not hold.
use crate::interp::*;
use crate::lin::*;
use serde_json::{json, Value};

fn enc(l: &Lin, syms: &[Atom], conts: &[ContentId]) -> Option<Value> {
    let mut ts = vec![];
    for (a, k) in &l.t { ts.push(json!([k.to_string(), enc_atom(*a, syms, conts)?])); }
    ts.sort_by_key(|x| x.to_string());
    Some(json!([l.c.to_string(), ts]))
}
fn enc_atom(a: Atom, syms: &[Atom], conts: &[ContentId]) -> Option<Value> {
    if let Some(i) = syms.iter().position(|x| *x == a) { return Some(json!(i)); }
    match atom_kind(a) {
        AtomKind::Read { content, off, width, signed, be } => {
            let j = conts.iter().position(|x| *x == content)?;
            let (lo, hi) = atom_range(a);
            Some(json!([j, enc(&off, syms, conts)?, width, signed, be, lo.to_string(), hi.to_string()]))
        }
        AtomKind::Fun(FUN_POS, xs) => Some(json!({"pos": enc(&xs[0], syms, conts)?})),
        AtomKind::Fun(FUN_NZ, xs) => Some(json!({"nz": enc(&xs[0], syms, conts)?})),
        _ => None,
    }
}
fn int(v: &Value) -> Option<i128> { v.as_str()?.parse().ok() }
fn dec(v: &Value, syms: &[Atom], conts: &[ContentId]) -> Option<Lin> {
    let mut l = Lin::k(int(&v[0])?);
    for t in v[1].as_array()? { l = l.addmul(&dec_atom(&t[1], syms, conts)?, int(&t[0])?); }
    Some(l)
}
fn dec_atom(v: &Value, syms: &[Atom], conts: &[ContentId]) -> Option<Lin> {
    if let Some(i) = v.as_u64() { return syms.get(i as usize).map(|a| Lin::atom(*a)); }
    if let Some(x) = v.get("nz") { return Some(mk_nz(&dec(x, syms, conts)?)); }
    if let Some(x) = v.get("pos") { return Some(mk_pos(&dec(x, syms, conts)?)); }
    let c = *conts.get(v[0].as_u64()? as usize)?;
    Some(mk_read(c, dec(&v[1], syms, conts)?, v[2].as_u64()? as u8, v[3].as_bool()?, v[4].as_bool()?, int(&v[5])?, int(&v[6])?))
}
fn names(syms: &[Atom]) -> Vec<String> { T.with(|t| { let t = t.borrow(); syms.iter().map(|a| t.atoms[*a as usize].name.clone()).collect() }) }

pub fn export(e: &Eng) -> Value {
    let mut out = vec![];
    for ((t, v), i) in &e.invs {
        let mut c: Vec<Value> = i.cands.iter().filter_map(|l| enc(l, &i.tp.syms, &i.tp.conts)).collect();
        c.sort_by_key(|x| x.to_string());
        out.push(json!({"type": e.ty_name(*t), "variant": v, "names": names(&i.tp.syms), "conts": i.tp.conts.len(), "used": i.n > 0, "cands": c}));
    }
    out.sort_by_key(|x| (x["type"].to_string(), x["variant"].as_u64()));
    Value::Array(out)
}
/// returns false if some hint does not fit the program's types any more, or a type has none
pub fn import(e: &mut Eng, h: &Value) -> bool {
    let mut fits = true;
    let p = e.p;
    let mut done = std::collections::BTreeSet::new();
    for x in h.as_array().into_iter().flatten() {
        let (name, variant) = (x["type"].as_str().unwrap_or(""), x["variant"].as_u64().unwrap_or(0) as usize);
        let ts: Vec<usize> = e.inv_types.iter().copied().filter(|t| e.ty_name(*t) == name).collect();
        if ts.len() != 1 { fits = false; continue; }
        if let ir::Ty::Adt { variants, .. } = &p.types[ts[0]] { if variant >= variants.len() { fits = false; continue; } }
        let tp = e.skeleton((ts[0], variant));
        let n: Vec<String> = x["names"].as_array().into_iter().flatten().map(|s| s.as_str().unwrap_or("").to_string()).collect();
        if n != names(&tp.syms) || x["conts"].as_u64() != Some(tp.conts.len() as u64) { fits = false; continue; }
        let cands: Vec<Lin> = x["cands"].as_array().into_iter().flatten().filter_map(|c| dec(c, &tp.syms, &tp.conts)).collect();
        done.insert(ts[0]);
        let i = e.invs.get_mut(&(ts[0], variant)).unwrap();
        i.cands = cands;
        i.n = x["used"].as_bool().unwrap_or(true) as u64;
    }
    fits
}
