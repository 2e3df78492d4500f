//! Shapes, order, join, widening and templates of abstract states.
use crate::interp::*;
use crate::lin::*;
use crate::solver::Cons;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone)]
pub struct Template { pub st: State, pub ty: TyId, pub syms: Vec<Atom>, pub conts: Vec<ContentId> }
impl Template { pub fn val(&self) -> Val { self.st.frames[1].vals[0].clone() } }

pub fn is_error_ty(p: &Program, t: TyId) -> bool { matches!(&p.types[t], Ty::Adt { path, .. } if path == "ntfs::NtfsError" || path == "ntfs::error::NtfsError" || path == "binrw::Error" || path == "binrw::error::Error") }

fn frame_tys(e: &Eng, f: &Frame, ret: Option<TyId>) -> Vec<Option<TyId>> {
    if f.f == usize::MAX { return f.vals.iter().map(|_| ret).collect(); }
    // the arguments, and possibly a ghost
    if f.f > usize::MAX / 2 { return e.p.fns[usize::MAX - 1 - f.f].inputs.iter().map(|t| Some(*t)).chain([None, None]).collect(); }
    match &e.p.fns[f.f].body { Some(b) => b.locals.iter().map(|t| Some(*t)).collect(), None => f.vals.iter().map(|_| None).collect() }
}

// ---------- shape ----------
/// an error that says that something does not exist
pub fn absent(e: &Eng, v: &Val, t: TyId) -> bool {
    match (v, e.ty(t)) { (Val::Agg(i, _), Ty::Adt { variants, .. }) => variants.get(*i).map(|v| absence(&v.name)).unwrap_or(false), _ => false }
}
struct Sh<'a> { level: u8, e: &'a Eng, st: &'a State, h: FxH, num: HashMap<Loc, u32>, work: Vec<(Loc, Option<TyId>)> }
pub fn shape(e: &Eng, st: &State, ret: Option<TyId>) -> u64 { shape_l(e, st, ret, 0) }
/// level 1: what is behind references is ignored; level 2: also what is inside of structs
pub fn shape_l(e: &Eng, st: &State, ret: Option<TyId>, level: u8) -> u64 {
    let mut s = Sh { level, e, st, h: Default::default(), num: HashMap::default(), work: vec![] };
    st.frames.len().hash(&mut s.h); st.pend.is_empty().hash(&mut s.h);
    for f in st.frames.iter().skip(1) {
        f.f.hash(&mut s.h);
        let tys = frame_tys(e, f, ret);
        if level >= 3 && f.f != usize::MAX { if f.f > usize::MAX / 2 { if let Some(Val::Agg(v, _)) = f.vals.get(e.p.fns[usize::MAX - 1 - f.f].inputs.len()) { v.hash(&mut s.h); } } continue; }
        for (v, t) in f.vals.iter().zip(tys) { s.val(v, t); }
    }
    while let Some((l, t)) = s.work.pop() { if level >= 1 { break; } let v = st.slot(l); s.val(&v, t); }
    s.h.finish()
}
impl<'a> Sh<'a> {
    fn val(&mut self, v: &Val, t: Option<TyId>) {
        if let Some(t) = t { if is_error_ty(self.e.p, t) && !matches!(v, Val::Uninit) { 77u8.hash(&mut self.h); absent(self.e, v, t).hash(&mut self.h); return; } }
        match v {
            Val::Uninit => 0u8.hash(&mut self.h),
            Val::Int(_) => 1u8.hash(&mut self.h),
            Val::Bool(b) => { 2u8.hash(&mut self.h); if let B::K(b) = b { b.hash(&mut self.h) } }
            Val::Agg(v, f) => { 3u8.hash(&mut self.h); v.hash(&mut self.h); if self.level >= 2 && t.map(|t| matches!(self.e.tk[t], TK::Struct)).unwrap_or(false) { return; } for (i, x) in f.iter().enumerate() { let ft = t.and_then(|t| self.e.field_ty(t, *v, i)); self.val(x, ft); } }
            Val::Top(t) => { 4u8.hash(&mut self.h); t.hash(&mut self.h) }
            Val::Ref(r) => {
                5u8.hash(&mut self.h);
                if self.level >= 2 { return; }
                if r.loc.fr == HEAP {
                    let n = self.num.len() as u32;
                    let known = self.num.get(&r.loc).copied();
                    match known { Some(k) => k.hash(&mut self.h), None => { self.num.insert(r.loc, n); n.hash(&mut self.h); let to = ref_obj_ty(self.e, t, r); self.work.push((r.loc, to)); } }
                } else { r.loc.hash(&mut self.h); }
                for p in r.path.iter() { match p { PE::F(i) => i.hash(&mut self.h), PE::At(_) => 1000u32.hash(&mut self.h), PE::Last => 1001u32.hash(&mut self.h) } }
                r.slice.is_some().hash(&mut self.h);
            }
            Val::Seq(_) => 6u8.hash(&mut self.h),
            Val::SeqT { last, elem, .. } => { 7u8.hash(&mut self.h); last.is_some().hash(&mut self.h); if let Some(x) = last { self.val(x, Some(*elem)); } }
            Val::Opaque => 8u8.hash(&mut self.h),
        }
    }
}
pub fn ref_obj_ty(e: &Eng, t: Option<TyId>, r: &RefV) -> Option<TyId> {
    if !r.path.is_empty() || r.slice.is_some() { return None; }
    match t.map(|t| e.ty(t)) { Some(Ty::Ref { to, .. }) | Some(Ty::Ptr { to, .. }) => Some(*to), _ => None }
}

// ---------- join ----------
struct Phi { sym: Atom, a: Lin, b: Lin }
struct J<'a> {
    e: &'a mut Eng, a: &'a State, b: &'a State,
    phis: Vec<Phi>, memo: HashMap<(Lin, Lin), Lin>,
    cphis: Vec<(ContentId, (ContentId, Lin), (ContentId, Lin))>,
    fwd: HashMap<Loc, Loc>, bwd: HashMap<Loc, Loc>, work: Vec<(Loc, Loc, Option<TyId>)>,
    anchors: Vec<Lin>,
    w: u8,
    /// quantities that are zero on one side only
    guards: Option<Vec<(Lin, bool)>>,
    /// values of types with an inferred invariant that became a value of their own
    typed: Vec<(TyId, usize, Val, Val, Val)>,
    /// objects of their own behind shared references that lead to different objects
    split: Vec<Val>,
    splits: Vec<(RefV, RefV, RefV)>,
}
pub fn join(e: &mut Eng, a: &State, b: &State, ret: Option<TyId>, widen: bool) -> State { join_w(e, a, b, ret, widen as u8) }
pub fn join_w(e: &mut Eng, a: &State, b: &State, ret: Option<TyId>, w: u8) -> State {
    let mut res = a.clone();
    let mut j = J { e, a, b, phis: vec![], memo: HashMap::default(), cphis: vec![], fwd: HashMap::default(), bwd: HashMap::default(), work: vec![], anchors: vec![], w, guards: None, typed: vec![], split: vec![], splits: vec![] };
    for fi in 1..a.frames.len() {
        let (fa, fb) = (a.frames[fi].clone(), b.frames[fi].clone());
        let tys = frame_tys(j.e, &fa, ret);
        let vals: Vec<Val> = fa.vals.iter().zip(fb.vals.iter()).zip(tys).map(|((x, y), t)| j.val(x, y, t)).collect();
        res.frames[fi] = Rc::new(Frame { f: fa.f, vals });
    }
    while let Some((la, lb, t)) = j.work.pop() {
        let (x, y) = (a.slot(la), b.slot(lb));
        let v = j.val(&x, &y, t);
        if let Some(s) = res.slot_mut(la) { *s = v; }
    }
    if !j.split.is_empty() { Rc::make_mut(&mut res.frames[0]).vals.extend(j.split.drain(..)); }
    res.cons = j.cons();
    let typed = std::mem::take(&mut j.typed);
    if !typed.is_empty() {
        let (fa, fb) = j.substs();
        drop(j);
        inv_rows(e, a, b, &mut res, typed, fa, fb);
    }
    let mut p: Vec<u32> = a.pend.as_ref().clone();
    for x in b.pend.iter() { if !p.contains(x) { p.push(*x); } }
    res.pend = Rc::new(p);
    res
}
/// what both sides know of the shared invariant of a type still holds of the joined value
fn inv_rows(e: &mut Eng, a: &State, b: &State, res: &mut State, typed: Vec<(TyId, usize, Val, Val, Val)>, _fa: Subst, _fb: Subst) {
    for (t, v, x, y, z) in typed {
        let tp = e.skeleton((t, v));
        let cands = e.invs[&(t, v)].cands.clone();
        if cands.is_empty() { continue; }
        let mut sz = e.bind(&tp, res, &z);
        let mut sx = e.bind(&tp, a, &x);
        let mut sy = e.bind(&tp, b, &y);
        for c in &cands {
            let d = sz.lin(c);
            if res.cons.range(&d).0 >= 0 || res.cons.entails(&d) { continue; }
            if a.cons.entails(&sx.lin(c)) && b.cons.entails(&sy.lin(c)) { res.cons.add(d); } else if std::env::var("IROWS").map(|q| e.ty_name(t) == q && e.root.contains("NtfsFile::<'_>::data")).unwrap_or(false) { eprintln!("IROW [{} | {}] {} lost: a {} {} b {} {}\n   {} | {} ", e.stack.iter().map(|(f, l)| format!("{}:{}", e.p.fns[*f].path.rsplit("::").next().unwrap(), l)).collect::<Vec<_>>().join(">"), a.frames.last().map(|f| f.vals.iter().map(show).collect::<Vec<_>>().join(" ; ")).unwrap_or_default(), c.show(), a.cons.entails(&sx.lin(c)), sx.lin(c).show(), b.cons.entails(&sy.lin(c)), sy.lin(c).show(), show(&x), show(&y)); for q in [(a, &x), (b, &y)] { if let Val::Agg(_, f) = q.1 { for w in f.iter() { if let Val::Ref(r) = w { eprintln!("       -> {}", crate::inv::pointee(q.0, r).map(|p| show(&p.0)).unwrap_or_default()); } } } } }
        }
    }
}
pub fn bitlin(b: &B) -> Option<Lin> {
    match b { B::K(k) => Some(Lin::k(*k as i128)), B::Ge(l) => { let x = l.addk(1); let (lo, hi) = x.range(); if lo >= 0 && hi <= 1 { Some(x) } else { None } } _ => None }
}
impl<'a> J<'a> {
    fn substs(&self) -> (Subst, Subst) {
        let mut fa = Subst::new(); let mut fb = Subst::new();
        for p in &self.phis { fa.atoms.insert(p.sym, p.a.clone()); fb.atoms.insert(p.sym, p.b.clone()); }
        for (c, x, y) in &self.cphis { fa.contents.insert(*c, x.clone()); fb.contents.insert(*c, y.clone()); }
        (fa, fb)
    }
    /// two constants told apart by a quantity that is zero on one side only
    fn guarded(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        let (x, y) = (a.is_const()?, b.is_const()?);
        if self.w != 0 || (x - y).abs() > 4096 { return None; }
        if self.guards.is_none() {
            let mut g = vec![];
            for (at, (_, hi)) in self.a.cons.bounds.iter() { if *hi == 0 && guardable(*at) && self.b.cons.bound(*at).0 >= 1 { g.push((*at, true)); } }
            for (at, (_, hi)) in self.b.cons.bounds.iter() { if *hi == 0 && guardable(*at) && self.a.cons.bound(*at).0 >= 1 { g.push((*at, false)); } }
            g.sort();
            self.guards = Some(g.into_iter().map(|(at, z)| (mk_nz(&Lin::atom(at)), z)).collect());
        }
        let (g, zero_in_a) = self.guards.as_ref().unwrap().first()?.clone();
        Some(if zero_in_a { g.scale(y - x).addk(x) } else { g.scale(x - y).addk(y) })
    }
    /// a quantity of both states that has the value of `a` in one and that of `b` in the other
    fn same_known(&self, a: &Lin, b: &Lin) -> Option<Lin> {
        let n = |l: &Lin| matches!(l.t.as_slice(), [(x, 1)] if guardable(*x));
        match (a.is_const(), b.is_const()) {
            (None, Some(_)) if n(a) => { let d = a.sub(b); if self.b.cons.range(&d) == (0, 0) { return Some(a.clone()) } }
            (Some(_), None) if n(b) => { let d = b.sub(a); if self.a.cons.range(&d) == (0, 0) { return Some(b.clone()) } }
            (Some(x), Some(y)) => for (at, (lo, hi)) in self.a.cons.bounds.iter() {
                if lo == hi && guardable(*at) { let (l2, h2) = self.b.cons.bound(*at); if l2 == h2 && x - lo == y - l2 && *lo != l2 { return Some(Lin::atom(*at).addk(x - lo)); } }
            },
            _ => {}
        }
        None
    }
    fn range_a(&self, l: &Lin) -> (i128, i128) { self.a.cons.range(l) }
    fn phi(&mut self, a: &Lin, b: &Lin, tr: Option<(i128, i128)>) -> Lin {
        if a == b { return a.clone(); }
        if let Some(l) = self.memo.get(&(a.clone(), b.clone())) { return l.clone(); }
        if let Some(l) = self.same_known(a, b) { self.memo.insert((a.clone(), b.clone()), l.clone()); return l; }
        if let Some(l) = self.guarded(a, b) { self.memo.insert((a.clone(), b.clone()), l.clone()); return l; }
        if self.w < 2 && !self.e.plain_phi { for p in &self.phis {
            // same difference to an earlier phi on both sides
            let d = a.sub(&p.a);
            if d.t.len() <= 2 && d == b.sub(&p.b) { let r = Lin::atom(p.sym).add(&d); self.memo.insert((a.clone(), b.clone()), r.clone()); return r; }
            let d = a.add(&p.a);
            if d.t.len() <= 2 && d == b.add(&p.b) { let r = d.sub(&Lin::atom(p.sym)); self.memo.insert((a.clone(), b.clone()), r.clone()); return r; }
        } }
        // constant steps in proportion
        let dl = b.sub(a);
        if let Some(k) = dl.is_const() {
            for p in &self.phis {
                if let Some(k2) = p.b.sub(&p.a).is_const() {
                    if k2 != 0 && k % k2 == 0 { let q = k / k2; let r = a.add(&Lin::atom(p.sym).sub(&p.a).scale(q)); if q.abs() <= 4096 && p.a.t.len() <= 1 { self.memo.insert((a.clone(), b.clone()), r.clone()); return r; } }
                }
            }
        }
        let (al, ah) = self.range_a(a); let (bl, bh) = self.b.cons.range(b);
        let (mut lo, mut hi) = (al.min(bl), ah.max(bh));
        if let Some((tl, th)) = tr { lo = lo.max(tl); hi = hi.min(th); }
        if self.w >= 1 {
            let (tl, th) = tr.unwrap_or((-(1i128 << 100), 1i128 << 100));
            if bl < al { lo = if bl >= 0 { 0 } else { tl }; }
            if bh > ah { hi = th; for k in [0xffi128, 0xffff, 0xffff_ffff, (1i128 << 63) - 1, u64::MAX as i128] { if bh <= k && self.w == 1 { hi = k.min(th); break; } } }
            if let Some(_) = tr { lo = lo.max(tl); hi = hi.min(th.max(ah).max(bh)); }
        }
        let name = a.as_atom().map(|x| T.with(|t| t.borrow().atoms[x as usize].name.clone())).unwrap_or_default();
        let s = fresh_sym(&name, lo, hi);
        if let Some(sym) = s.as_atom() { self.phis.push(Phi { sym, a: a.clone(), b: b.clone() }); }
        self.memo.insert((a.clone(), b.clone()), s.clone());
        s
    }
    fn content(&mut self, a: (ContentId, Lin), b: (ContentId, Lin)) -> (ContentId, Lin) {
        if a.0 == b.0 { let o = self.phi(&a.1, &b.1, None); return (a.0, o); }
        for (c, pa, pb) in &self.cphis.clone() {
            if pa.0 == a.0 && pb.0 == b.0 {
                let da = a.1.sub(&pa.1); let db = b.1.sub(&pb.1);
                let o = self.phi(&da, &db, None);
                return (*c, o);
            }
        }
        let c = new_content("phi");
        self.cphis.push((c, a, b));
        (c, Lin::k(0))
    }
    fn anchor(&mut self, l: &Lin) { if !l.t.is_empty() && l.t.len() <= 2 && !self.anchors.contains(l) && self.anchors.len() < 12 { self.anchors.push(l.clone()); } }
    fn val(&mut self, a: &Val, b: &Val, t: Option<TyId>) -> Val {
        let tr = t.and_then(|t| match &self.e.tk[t] { TK::Int { lo, hi, .. } | TK::CEnum { lo, hi } | TK::NonZero { lo, hi } | TK::OptNonZero { lo, hi } => Some((*lo, *hi)), TK::Bool => Some((0, 1)), TK::Fs => Some((0, 1 << 80)), _ => None });
        match (a, b) {
            (Val::Uninit, _) | (_, Val::Uninit) => Val::Uninit,
            (Val::Int(x), Val::Int(y)) => Val::Int(self.phi(x, y, tr)),
            (Val::Bool(x), Val::Bool(y)) => {
                if x == y { return a.clone(); }
                match (bitlin(x), bitlin(y)) { (Some(p), Some(q)) => Val::Bool(B::bit(self.phi(&p, &q, Some((0, 1))))), _ => Val::Bool(B::bit(fresh_sym("b", 0, 1))) }
            }
            (Val::Agg(v, f), Val::Agg(w, g)) => {
                if v == w && f.len() == g.len() {
                    let fs = (0..f.len()).map(|i| { let ft = t.and_then(|t| self.e.field_ty(t, *v, i)); self.val(&f[i], &g[i], ft) }).collect::<Vec<_>>();
                    if let Some(t) = t {
                        if self.e.inv_types.contains(&t) {
                            if fs.iter().enumerate().any(|(i, x)| matches!(x, Val::Top(_)) && matches!((&f[i], &g[i]), (Val::Ref(_), Val::Ref(_)))) { return self.mismatch(a, b, Some(t)); }
                            let r = Val::Agg(*v, Rc::new(fs));
                            self.typed.push((t, *v, a.clone(), b.clone(), r.clone()));
                            return r;
                        }
                    }
                    Val::Agg(*v, Rc::new(fs))
                } else { self.mismatch(a, b, t) }
            }
            (Val::Top(x), Val::Top(y)) if x == y => Val::Top(*x),
            (Val::Top(x), _) | (_, Val::Top(x)) => if t.is_some() { self.mismatch(a, b, t) } else { Val::Top(*x) },
            (Val::Ref(x), Val::Ref(y)) => {
                if x.path.len() != y.path.len() || x.slice.is_some() != y.slice.is_some() { return self.split_ref(a, b, t, x, y); }
                if x.loc != y.loc || x.loc.fr == HEAP {
                    if x.loc.fr != HEAP || y.loc.fr != HEAP {
                        return self.split_ref(a, b, t, x, y);
                    }
                    match (self.fwd.get(&x.loc), self.bwd.get(&y.loc)) {
                        (None, None) => { self.fwd.insert(x.loc, y.loc); self.bwd.insert(y.loc, x.loc); let ot = ref_obj_ty(self.e, t, x); self.work.push((x.loc, y.loc, ot)); }
                        (Some(p), Some(_)) if *p == y.loc => {}
                        _ => return self.split_ref(a, b, t, x, y),
                    }
                }
                let mut path = vec![];
                for (p, q) in x.path.iter().zip(y.path.iter()) {
                    path.push(match (p, q) { (PE::At(l), PE::At(m)) => PE::At(self.phi(l, m, Some((0, self.e.isize_max)))), (p, q) if p == q => p.clone(), _ => return self.split_ref(a, b, t, x, y) });
                }
                let im = self.e.isize_max;
                let slice = match (&x.slice, &y.slice) { (Some((s, l)), Some((s2, l2))) => { let r = (self.phi(s, s2, Some((0, im))), self.phi(l, l2, Some((0, im)))); self.anchor(&r.1); Some(r) } _ => None };
                Val::Ref(RefV { loc: x.loc, path: Rc::new(path), slice })
            }
            (Val::Seq(x), Val::Seq(y)) => {
                let im = self.e.isize_max;
                let len = self.phi(&x.len, &y.len, Some((0, im)));
                self.anchor(&len);
                let (c, off) = self.content((x.c, x.off.clone()), (y.c, y.off.clone()));
                Val::Seq(Rc::new(SeqV { len, c, off, w: x.w, signed: x.signed }))
            }
            (Val::SeqT { len, elem, last }, Val::SeqT { len: l2, last: last2, .. }) => {
                let im = self.e.isize_max;
                let n = self.phi(len, l2, Some((0, im)));
                let last = match (last, last2) {
                    (Some(x), Some(y)) => Some(Rc::new(self.val(x, y, Some(*elem)))),
                    (None, None) => None,
                    (Some(x), None) => { self.e.check_val(self.a, x, *elem); None }
                    (None, Some(x)) => { self.e.check_val(self.b, x, *elem); None }
                };
                Val::SeqT { len: n, elem: *elem, last }
            }
            _ => self.mismatch(a, b, t),
        }
    }
    /// shared references to different objects: the joined reference leads to the join of the two
    fn split_ref(&mut self, a: &Val, b: &Val, t: Option<TyId>, x: &RefV, y: &RefV) -> Val {
        let to = match t.map(|t| self.e.ty(t)) { Some(Ty::Ref { m: false, to }) => *to, _ => return self.mismatch(a, b, t) };
        if self.split.len() > 40 { return self.mismatch(a, b, t); }
        if let Some((_, _, r)) = self.splits.iter().find(|s| s.0 == *x && s.1 == *y) { return Val::Ref(r.clone()); }
        let (Some((p, ps)), Some((q, qs))) = (crate::inv::pointee(self.a, x), crate::inv::pointee(self.b, y)) else { return self.mismatch(a, b, t) };
        if matches!(p, Val::Uninit) || matches!(q, Val::Uninit) { return self.mismatch(a, b, t); }
        let i = self.split.len();
        self.split.push(Val::Uninit);
        let base = self.a.frames[0].vals.len();
        let mut r = RefV { loc: Loc { fr: HEAP, l: (base + i) as u32 }, path: Rc::new(vec![]), slice: None };
        let im = self.e.isize_max;
        match (&ps, &qs) { (None, None) => self.splits.push((x.clone(), y.clone(), r.clone())), (Some(_), Some(_)) => {} _ => { return self.mismatch(a, b, t) } }
        let v = self.val(&p, &q, Some(to));
        if let (Some((_, n)), Some((_, m))) = (&ps, &qs) { let l = self.phi(n, m, Some((0, im))); self.anchor(&l); r.slice = Some((Lin::k(0), l)); }
        self.split[i] = v;
        Val::Ref(r)
    }
    fn mismatch(&mut self, a: &Val, b: &Val, t: Option<TyId>) -> Val {
        if let Some(t) = t { self.e.check_val(self.a, a, t); self.e.check_val(self.b, b, t); }
        match t { Some(t) => match &self.e.tk[t] { TK::Enum => Val::Top(t), TK::Opaque => Val::Opaque, TK::Ref(_) => Val::Top(t), _ => { if std::env::var("MISM").is_ok() { let n = self.e.ty_name(t); self.e.warn(format!("join mismatch at {n}")); } Val::Top(t) } }, None => Val::Opaque }
    }
    fn cons(&mut self) -> Cons {
        let (sa, sb) = (self.a, self.b);
        let (ca, cb) = (&sa.cons, &sb.cons);
        let mut out = Cons::default();
        let mut fa = Subst::new(); let mut fb = Subst::new();
        for p in &self.phis { fa.atoms.insert(p.sym, p.a.clone()); fb.atoms.insert(p.sym, p.b.clone()); }
        for (c, x, y) in &self.cphis { fa.contents.insert(*c, x.clone()); fb.contents.insert(*c, y.clone()); }
        let mut done: HashSet<Lin> = HashSet::default();
        // common constraints
        let setb: HashSet<&Lin> = cb.list.iter().collect();
        for c in ca.list.iter() { if setb.contains(c) { out.add(c.clone()); done.insert(c.clone()); } }
        for (x, (lo, hi)) in ca.bounds.iter() {
            if let Some((l2, h2)) = cb.bounds.get(x) {
                let (l, h) = if self.w == 0 { ((*lo).min(*l2), (*hi).max(*h2)) } else { (if l2 >= lo { *lo } else { i128::MIN }, if h2 <= hi { *hi } else { i128::MAX }) };
                let (al, ah) = atom_range(*x);
                if l > al { out.add(Lin { c: -l, t: vec![(*x, 1)] }); }
                if h < ah { out.add(Lin { c: h, t: vec![(*x, -1)] }); }
            }
        }
        if self.w >= 2 { return out; }
        // inverse substitutions
        let inv = |side: usize, phis: &[Phi]| -> (HashMap<Atom, Vec<Lin>>, ) {
            let mut m: HashMap<Atom, Vec<Lin>> = HashMap::default();
            for p in phis {
                let l = if side == 0 { &p.a } else { &p.b };
                if l.t.len() == 1 && l.t[0].1 == 1 { m.entry(l.t[0].0).or_default().push(Lin::atom(p.sym).addk(-l.c)); }
                else if l.t.len() == 2 { for k in 0..2 { let (x, c) = l.t[k]; if c == 1 { let mut rest = l.clone(); rest.t.remove(k); m.entry(x).or_default().push(Lin::atom(p.sym).sub(&rest)); } } }
            }
            (m,)
        };
        for side in 0..2 {
            if side == 1 && self.w >= 1 { break; }
            let (src, dst) = if side == 0 { (ca, cb) } else { (cb, ca) };
            let (m,) = inv(side, &self.phis);
            let mut full = Subst::new();
            for (x, v) in &m { full.atoms.insert(*x, v[0].clone()); }
            for (c, x, y) in &self.cphis { let s = if side == 0 { x } else { y }; full.contents.entry(s.0).or_insert((*c, s.1.neg())); }
            let mut confl = full.contents.len() != self.cphis.len();
            if m.is_empty() && self.cphis.is_empty() { confl = false; }
            let _ = confl;
            let srcs: Vec<Lin> = src.all();
            let mut cands: Vec<Lin> = vec![];
            for c in &srcs {
                let f = full.lin(c);
                let changed = f != *c;
                if !done.contains(c) { cands.push(c.clone()); }
                if changed {
                    cands.push(f);
                    let xs: Vec<Atom> = c.t.iter().map(|t| t.0).filter(|x| m.contains_key(x)).collect();
                    if !xs.is_empty() && c.t.len() <= 5 {
                        for x in &xs { for v in &m[x] { let k = c.coef(*x); let mut base = c.clone(); base.t.retain(|t| t.0 != *x); cands.push(base.addmul(v, k)); } }
                        // pairs of alternatives
                        if xs.len() == 2 && (m[&xs[0]].len() > 1 || m[&xs[1]].len() > 1) {
                            for v in &m[&xs[0]] { for u in &m[&xs[1]] { let mut base = c.clone(); base.t.retain(|t| t.0 != xs[0] && t.0 != xs[1]); cands.push(base.addmul(v, c.coef(xs[0])).addmul(u, c.coef(xs[1]))); } }
                        }
                    }
                }
            }
            let mut cands: Vec<Lin> = cands.into_iter().map(|c| c.tighten()).collect();
            cands.sort_by_key(|c| c.t.len());
            for c in cands {
                if c.t.is_empty() || !done.insert(c.clone()) { continue; }
                if out.range(&c).0 >= 0 { continue; }
                let d = if side == 0 { fb.lin(&c) } else { fa.lin(&c) };
                if dst.entails(&d) && !out.entails(&c) {
                    // content inversion may be ambiguous: check the own side too when phis are involved
                    let own = if side == 0 { fa.lin(&c) } else { fb.lin(&c) };
                    if src.entails(&own) { out.add(c); }
                }
            }
        }
        if self.w == 0 {
            // relational templates between phis, anchors and the two incoming terms
            let mut cands: Vec<Lin> = vec![];
            for (i, p) in self.phis.iter().enumerate() {
                let s = Lin::atom(p.sym);
                for t in [&p.a, &p.b] { if t.t.len() <= 3 { cands.push(s.sub(t)); cands.push(t.sub(&s)); } }
                for an in &self.anchors { if an.coef(p.sym) == 0 { cands.push(an.sub(&s)); } }
                if self.phis.len() <= 12 { for (k, q) in self.phis.iter().enumerate() { if k != i { let s2 = Lin::atom(q.sym);
                    let d = s.sub(&s2);
                    match (p.a.sub(&q.a).is_const(), p.b.sub(&q.b).is_const()) { (Some(x), Some(y)) => cands.push(d.addk(-x.min(y))), _ => cands.push(d) }
                } } }
            }
            for c in cands {
                let c = c.tighten();
                if c.t.is_empty() || !done.insert(c.clone()) { continue; }
                if out.range(&c).0 >= 0 { continue; }
                let (x, y) = (fa.lin(&c), fb.lin(&c));
                if ca.range(&x).1 < 0 || cb.range(&y).1 < 0 { continue; }
                if ca.entails(&x) && cb.entails(&y) && !out.entails(&c) { out.add(c); }
            }
        }
        out
    }
}

fn guardable(a: Atom) -> bool { let (lo, hi) = atom_range(a); lo == 0 && hi < 1 << 33 && matches!(atom_kind(a), AtomKind::Read { .. }) }
fn same_refs(a: &Val, b: &Val, fs: &[Val]) -> bool { let _ = fs; !matches!((a, b), (Val::Agg(_, f), Val::Agg(_, g)) if !f.iter().zip(g.iter()).all(|(x, y)| crate::memo::same_val(x, y))) }

// ---------- order ----------
struct M<'a> { e: &'a Eng, s: &'a State, j: &'a State, sub: Subst, pending: Vec<(Lin, Lin)>, cpend: Vec<((ContentId, Lin), (ContentId, Lin))>, fwd: HashMap<Loc, Loc>, bwd: HashMap<Loc, Loc>, work: Vec<(Loc, Loc)>, bools: Vec<(B, B)> }
/// is every concrete state of `s` described by `j`?
pub fn leq(e: &Eng, s: &State, j: &State) -> bool { match_states(e, s, j).is_some() }
/// the instantiation of `j`'s symbols that describes `s`, and the objects of `s` behind those of `j`
pub fn match_states(e: &Eng, s: &State, j: &State) -> Option<(Subst, HashMap<Loc, Loc>)> {
    let mut m = M { e, s, j, sub: Subst::new(), pending: vec![], cpend: vec![], fwd: HashMap::default(), bwd: HashMap::default(), work: vec![], bools: vec![] };
    if s.frames.len() != j.frames.len() { return None; }
    for x in s.pend.iter() { if !j.pend.contains(x) { return None; } }
    for fi in 1..s.frames.len() { for (x, y) in s.frames[fi].vals.iter().zip(j.frames[fi].vals.iter()) { if !m.val(x, y) { why("val"); return None; } } }
    while let Some((a, b)) = m.work.pop() { let (x, y) = (s.slot(a), j.slot(b)); if !m.val(&x, &y) { if std::env::var("WHY").is_ok() { eprintln!("leq: heapval {} VS {}", show(&x), show(&y)); } return None; } }
    if m.finish() { Some((m.sub, m.bwd)) } else { None }
}
fn why(s: &str) -> bool { if std::env::var("WHY").is_ok() { eprintln!("leq: {s}"); } false }
impl<'a> M<'a> {
    fn val(&mut self, s: &Val, j: &Val) -> bool {
        match (s, j) {
            (_, Val::Uninit) | (_, Val::Opaque) | (_, Val::Top(_)) => true,
            (Val::Int(x), Val::Int(y)) => { self.int(x, y); true }
            (Val::Bool(x), Val::Bool(y)) => {
                if x == y { return true; }
                match (bitlin(x), bitlin(y)) {
                    (Some(p), Some(q)) => { self.int(&p, &q); true }
                    (None, Some(q)) if q.as_atom().map(|a| matches!(atom_kind(a), AtomKind::Sym(_))).unwrap_or(false) && !self.sub.atoms.contains_key(&q.as_atom().unwrap()) => { let f = fresh_sym("b", 0, 1); self.int(&f, &q); true }
                    (_, None) => { self.bools.push((x.clone(), y.clone())); true }
                    _ => false,
                }
            }
            (Val::Agg(v, f), Val::Agg(w, g)) => v == w && f.len() == g.len() && (0..f.len()).all(|i| self.val(&f[i], &g[i])),
            (Val::Ref(x), Val::Ref(y)) => {
                if x.path.len() != y.path.len() || x.slice.is_some() != y.slice.is_some() { return false; }
                if x.loc.fr != HEAP || y.loc.fr != HEAP { if x.loc != y.loc { return false; } }
                else { match (self.fwd.get(&x.loc), self.bwd.get(&y.loc)) { (_, None) => { self.fwd.insert(x.loc, y.loc); self.bwd.insert(y.loc, x.loc); self.work.push((x.loc, y.loc)); } (_, Some(q)) if *q == x.loc => {} _ => return false } }
                for (p, q) in x.path.iter().zip(y.path.iter()) { match (p, q) { (PE::At(l), PE::At(m)) => self.int(l, m), (p, q) if p == q => {} _ => return false } }
                if let (Some((a, b)), Some((c, d))) = (&x.slice, &y.slice) { self.int(a, c); self.int(b, d); }
                true
            }
            (Val::Seq(x), Val::Seq(y)) => { self.int(&x.len, &y.len); self.cpend.push(((x.c, x.off.clone()), (y.c, y.off.clone()))); true }
            (Val::SeqT { len, last, .. }, Val::SeqT { len: l2, last: m2, .. }) => { self.int(len, l2); match (last, m2) { (Some(x), Some(y)) => self.val(x, y), (None, None) => true, _ => false } }
            _ => false,
        }
    }
    fn int(&mut self, s: &Lin, j: &Lin) {
        // bind an unbound symbol of j
        let mut free: Vec<(Atom, i128)> = vec![];
        for (a, k) in &j.t { if matches!(atom_kind(*a), AtomKind::Sym(_)) && !self.sub.atoms.contains_key(a) { free.push((*a, *k)); } }
        if free.len() == 1 && free[0].1.abs() == 1 && j.t.iter().all(|(a, _)| *a == free[0].0 || self.closed(*a)) {
            let (x, k) = free[0];
            let mut rest = j.clone(); rest.t.retain(|t| t.0 != x);
            let r = self.sub.lin(&rest);
            let v = s.sub(&r).scale(k);
            self.sub.atoms.insert(x, v); self.sub.clear_memo();
        } else { self.pending.push((s.clone(), j.clone())); }
    }
    fn closed(&self, a: Atom) -> bool { let mut s = BTreeSet::new(); let mut c = BTreeSet::new(); base_syms(&Lin::atom(a), &mut s, &mut c); s.iter().all(|x| self.sub.atoms.contains_key(x)) && c.iter().all(|x| self.sub.contents.contains_key(x)) }
    fn finish(&mut self) -> bool {
        // contents first, then deferred integers (twice: some need others first)
        for _ in 0..3 {
            let p = std::mem::take(&mut self.pending);
            for (s, j) in p { self.int(&s, &j); }
            let mut c = std::mem::take(&mut self.cpend);
            // what is determined first, then what leaves a choice
            for stage in 0..3 {
                let mut rest = vec![];
                for (s, j) in c {
                    let free: Vec<Atom> = j.1.t.iter().map(|t| t.0).filter(|a| matches!(atom_kind(*a), AtomKind::Sym(_)) && !self.sub.atoms.contains_key(a)).collect();
                    let sym = matches!(content_kind(j.0), ContentKind::Sym(_));
                    let known = !sym || self.sub.contents.contains_key(&j.0);
                    if stage == 0 && !free.is_empty() || stage == 1 && !free.is_empty() && !known { rest.push((s, j)); continue; }
                    if !known {
                        // bind: j content at j.1 equals s content at s.1
                        let o = if free.is_empty() { let jo = self.sub.lin(&j.1); s.1.sub(&jo) } else { Lin::k(0) };
                        self.sub.contents.insert(j.0, (s.0, o)); self.sub.clear_memo();
                    }
                    if !free.is_empty() {
                        let base = if sym { self.sub.contents[&j.0].clone() } else { let (k, o) = self.sub.cref(&(j.0, Lin::k(0))); (k, o) };
                        if base.0 != s.0 { return why("content"); }
                        self.int(&s.1.sub(&base.1), &j.1);
                    }
                    let k = if sym { let x = self.sub.contents[&j.0].clone(); let jo = self.sub.lin(&j.1); (x.0, x.1.add(&jo)) } else { self.sub.cref(&j) };
                    if k.0 != s.0 { return why("content"); }
                    if !self.s.cons.entails_eq(&k.1.sub(&s.1)) { if std::env::var("WHY").is_ok() { eprintln!("leq: content off c{} {} vs {}", s.0, s.1.show(), k.1.show()); } return false; }
                }
                c = rest;
            }
        }
        let p = std::mem::take(&mut self.pending);
        for (s, j) in p { let d = self.sub.lin(&j).sub(&s); if !self.s.cons.entails_eq(&d) { if std::env::var("WHY").is_ok() { eprintln!("leq: int {} vs {} -> {}", s.show(), j.show(), d.show()); } return false; } }
        for (s, j) in std::mem::take(&mut self.bools) { let k = j.map(&mut |l| self.sub.lin(l)); if k != s { return why("bool"); } }
        // static ranges of bound symbols
        let bound: Vec<(Atom, Lin)> = self.sub.atoms.iter().map(|(a, l)| (*a, l.clone())).collect();
        for (a, l) in bound {
            let (lo, hi) = atom_range(a);
            let (slo, shi) = self.s.cons.range(&l);
            if slo < lo && !self.s.cons.entails(&l.addk(-lo)) { if std::env::var("WHY").is_ok() { eprintln!("leq: range lo {} := {}", atom_name(a), l.show()); } return false; }
            if shi > hi && !self.s.cons.entails(&l.neg().addk(hi)) { if std::env::var("WHY").is_ok() { eprintln!("leq: range hi {} {} := {} {}", atom_name(a), hi, l.show(), shi); } return false; }
        }
        for c in self.j.cons.all() {
            let d = self.sub.lin(&c);
            if !self.s.cons.entails(&d) { if std::env::var("WHY").is_ok() { eprintln!("leq: cons {} -> {}", c.show(), d.show()); } return false; }
        }
        let _ = self.e;
        true
    }
}

/// symbols and symbolic contents a term is built from
pub fn base_syms(l: &Lin, s: &mut BTreeSet<Atom>, c: &mut BTreeSet<ContentId>) { for (a, _) in &l.t { base_atom(*a, s, c); } }
pub fn base_atom(a: Atom, s: &mut BTreeSet<Atom>, c: &mut BTreeSet<ContentId>) {
    match atom_kind(a) {
        AtomKind::Sym(_) => { s.insert(a); }
        AtomKind::Read { content, off, .. } => { base_content(content, s, c); base_syms(&off, s, c); }
        AtomKind::Mul(x, y) | AtomKind::Div(x, y) | AtomKind::Rem(x, y) | AtomKind::And(x, y) | AtomKind::Or(x, y) | AtomKind::Xor(x, y) => { base_syms(&x, s, c); base_syms(&y, s, c) }
        AtomKind::Pow2(x) | AtomKind::Wrap(x, _, _) | AtomKind::Quot(x, _) => base_syms(&x, s, c),
        AtomKind::Fun(_, xs) => for x in &xs { base_syms(x, s, c) },
    }
}
pub fn base_content(k: ContentId, s: &mut BTreeSet<Atom>, c: &mut BTreeSet<ContentId>) {
    match content_kind(k) {
        ContentKind::Sym(_) => { c.insert(k); }
        ContentKind::Const(_) => {}
        ContentKind::Fill(l) => base_syms(&l, s, c),
        ContentKind::Overlay { base, start, len, src } => { base_content(base.0, s, c); base_syms(&base.1, s, c); base_content(src.0, s, c); base_syms(&src.1, s, c); base_syms(&start, s, c); base_syms(&len, s, c); }
        ContentKind::Put { base, at, val } => { base_content(base.0, s, c); base_syms(&base.1, s, c); base_syms(&at, s, c); base_syms(&val, s, c); }
    }
}

/// eliminate atoms that are not kept (Fourier-Motzkin, dropping what grows too much)
pub fn project(cons: &Cons, keep: &dyn Fn(Atom) -> bool) -> Cons {
    let mut rows: Vec<Lin> = cons.list.as_ref().clone();
    let mut dead: BTreeSet<Atom> = BTreeSet::new();
    for r in &rows { for (a, _) in &r.t { if !keep(*a) { dead.insert(*a); } } }
    // axioms of dead derived atoms can carry information
    for a in dead.clone() { for x in T.with(|t| t.borrow().atoms[a as usize].axioms.clone()) { for (b, _) in &x.t { if !keep(*b) { dead.insert(*b); } } rows.push(x); } }
    let mut dead: Vec<Atom> = dead.into_iter().collect();
    while !dead.is_empty() {
        let (i, _) = dead.iter().enumerate().min_by_key(|(_, a)| { let p = rows.iter().filter(|r| r.coef(**a) > 0).count() + 1; let n = rows.iter().filter(|r| r.coef(**a) < 0).count() + 1; p * n }).unwrap();
        let a = dead.remove(i);
        let (with, mut rest): (Vec<Lin>, Vec<Lin>) = rows.into_iter().partition(|r| r.coef(a) != 0);
        let (lo, hi) = cons.bound(a);
        let mut pos: Vec<Lin> = with.iter().filter(|r| r.coef(a) > 0).cloned().collect();
        let mut neg: Vec<Lin> = with.iter().filter(|r| r.coef(a) < 0).cloned().collect();
        if lo > -(1i128 << 100) { pos.push(Lin { c: -lo, t: vec![(a, 1)] }); }
        if hi < (1i128 << 100) { neg.push(Lin { c: hi, t: vec![(a, -1)] }); }
        if pos.len() * neg.len() <= 64 {
            for p in &pos { for n in &neg {
                let (kp, kn) = (p.coef(a), -n.coef(a));
                if kp > 1 << 40 || kn > 1 << 40 { continue; }
                let c = p.scale(kn).addmul(n, kp).tighten();
                if c.t.is_empty() || c.t.len() > 6 || c.range().0 >= 0 || cons.range(&c).0 >= 0 && c.t.len() > 1 { continue; }
                if !rest.contains(&c) { rest.push(c); }
            } }
        }
        rows = rest;
        if rows.len() > 300 { rows.truncate(300); }
    }
    let mut out = Cons::default();
    for (a, (lo, hi)) in cons.bounds.iter() { if keep(*a) { let (l, h) = atom_range(*a); if *lo > l { out.add(Lin { c: -*lo, t: vec![(*a, 1)] }); } if *hi < h { out.add(Lin { c: *hi, t: vec![(*a, -1)] }); } } }
    rows.sort_by_key(|r| r.t.len());
    for r in rows { if !out.entails(&r) { out.add(r); } }
    out
}

// ---------- templates ----------
pub fn mk_template(e: &mut Eng, st: &State, v: &Val, ty: TyId) -> Template {
    let mut t = State::new();
    let mut map: HashMap<Loc, Loc> = HashMap::default();
    let mut work: Vec<(Loc, Loc, Option<TyId>)> = vec![];
    let root = copy_val(st, v, &mut t, &mut map, &mut work, Some(ty), e);
    while let Some((from, to, ty)) = work.pop() { let x = st.slot(from); let y = copy_val(st, &x, &mut t, &mut map, &mut work, ty, e); *t.slot_mut(to).unwrap() = y; }
    t.frames.push(Rc::new(Frame { f: usize::MAX, vals: vec![root] }));
    let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
    for f in &t.frames { for v in &f.vals { val_syms(v, &mut s, &mut c); } }
    let (s1, c1) = (s.clone(), c.clone());
    let keep = move |a: Atom| { let mut x = BTreeSet::new(); let mut y = BTreeSet::new(); base_atom(a, &mut x, &mut y); x.is_subset(&s1) && y.is_subset(&c1) };
    t.cons = st.cons.clone();
    clip(e, &mut t, Some(ty));
    t.cons = project(&t.cons, &keep);
    Template { st: t, ty, syms: s.into_iter().collect(), conts: c.into_iter().collect() }
}
/// copy into a template; what a shared reference points to becomes an object of its own (nothing
/// can change it through another alias)
fn copy_val(st: &State, v: &Val, t: &mut State, map: &mut HashMap<Loc, Loc>, work: &mut Vec<(Loc, Loc, Option<TyId>)>, ty: Option<TyId>, e: &Eng) -> Val {
    match v {
        Val::Agg(i, f) => { let fs = f.iter().enumerate().map(|(k, x)| { let ft = ty.and_then(|t| e.field_ty(t, *i, k)); copy_val(st, x, t, map, work, ft, e) }).collect(); Val::Agg(*i, Rc::new(fs)) }
        Val::Ref(r) => {
            if r.loc.fr == CONSTS && r.slice.is_none() { return v.clone(); }
            if let Some(Ty::Ref { m: false, to }) = ty.map(|x| e.ty(x)) {
                let x = crate::memo::lookup(st, r.loc, &r.path);
                let x = match (&x, &r.slice) {
                    (Val::Seq(s), Some((a, n))) => Some((Val::Seq(Rc::new(SeqV { len: n.clone(), c: s.c, off: s.off.add(a), w: s.w, signed: s.signed })), Some((Lin::k(0), n.clone())))),
                    (Val::Uninit, _) => None,
                    (_, Some(_)) => None,
                    _ => Some((x, None)),
                };
                if let Some((x, slice)) = x {
                    let y = copy_val(st, &x, t, map, work, Some(*to), e);
                    let l = t.heap(y);
                    return Val::Ref(RefV { loc: l, path: Rc::new(vec![]), slice });
                }
            }
            if r.loc.fr == CONSTS { return v.clone(); }
            if r.loc.fr != HEAP { return match ty { Some(t) => Val::Top(t), None => Val::Opaque }; }
            let l = match map.get(&r.loc) { Some(l) => *l, None => { let l = t.heap(Val::Uninit); map.insert(r.loc, l); work.push((r.loc, l, ref_obj_ty(e, ty, r))); l } };
            Val::Ref(RefV { loc: l, path: r.path.clone(), slice: r.slice.clone() })
        }
        Val::SeqT { len, elem, last } => Val::SeqT { len: len.clone(), elem: *elem, last: last.as_ref().map(|x| Rc::new(copy_val(st, x, t, map, work, Some(*elem), e))) },
        Val::Bool(b) => if bitlin(b).is_some() { v.clone() } else { Val::Bool(B::bit(fresh_sym("b", 0, 1))) },
        x => x.clone(),
    }
}
pub fn val_syms(v: &Val, s: &mut BTreeSet<Atom>, c: &mut BTreeSet<ContentId>) {
    match v {
        Val::Int(l) => base_syms(l, s, c),
        Val::Bool(b) => { let mut ls = vec![]; b.lins(&mut ls); for l in ls { base_syms(l, s, c) } }
        Val::Agg(_, f) => for x in f.iter() { val_syms(x, s, c) },
        Val::Ref(r) => { for p in r.path.iter() { if let PE::At(l) = p { base_syms(l, s, c) } } if let Some((a, b)) = &r.slice { base_syms(a, s, c); base_syms(b, s, c) } }
        Val::Seq(q) => { base_syms(&q.len, s, c); base_syms(&q.off, s, c); base_content(q.c, s, c) }
        Val::SeqT { len, last, .. } => { base_syms(len, s, c); if let Some(x) = last { val_syms(x, s, c) } }
        _ => {}
    }
}
/// add a fresh copy of the template to the state
pub fn instantiate(e: &mut Eng, st: &mut State, t: &Template) -> Option<Val> {
    let _ = &e;
    let mut sub = Subst::new();
    for a in &t.syms { let (lo, hi) = t.st.cons.bound(*a); let n = T.with(|x| x.borrow().atoms[*a as usize].name.clone()); sub.atoms.insert(*a, fresh_sym(&n, lo, hi)); }
    for c in &t.conts { let n = T.with(|x| x.borrow().contents[*c as usize].1.clone()); sub.contents.insert(*c, (new_content(&n), Lin::k(0))); }
    let mut locs: Vec<Loc> = vec![];
    for _ in &t.st.frames[0].vals { locs.push(st.heap(Val::Uninit)); }
    for (i, v) in t.st.frames[0].vals.iter().enumerate() { let y = subst_val(v, &mut sub, &locs); *st.slot_mut(locs[i]).unwrap() = y; }
    let r = subst_val(&t.st.frames[1].vals[0], &mut sub, &locs);
    for c in t.st.cons.all() { let d = sub.lin(&c); st.cons.add(d); }
    if st.cons.obviously_false() { return None; }
    Some(r)
}
pub fn subst_val(v: &Val, sub: &mut Subst, locs: &[Loc]) -> Val {
    match v {
        Val::Int(l) => Val::Int(sub.lin(l)),
        Val::Bool(b) => Val::Bool(b.map(&mut |l| sub.lin(l))),
        Val::Agg(i, f) => Val::Agg(*i, Rc::new(f.iter().map(|x| subst_val(x, sub, locs)).collect())),
        Val::Ref(r) => {
            let loc = if r.loc.fr == HEAP { locs[r.loc.l as usize] } else { r.loc };
            let path = r.path.iter().map(|p| match p { PE::At(l) => PE::At(sub.lin(l)), x => x.clone() }).collect();
            Val::Ref(RefV { loc, path: Rc::new(path), slice: r.slice.as_ref().map(|(a, b)| (sub.lin(a), sub.lin(b))) })
        }
        Val::Seq(s) => { let (c, off) = sub.cref(&(s.c, s.off.clone())); Val::Seq(Rc::new(SeqV { len: sub.lin(&s.len), c, off, w: s.w, signed: s.signed })) }
        Val::SeqT { len, elem, last } => Val::SeqT { len: sub.lin(len), elem: *elem, last: last.as_ref().map(|x| Rc::new(subst_val(x, sub, locs))) },
        x => x.clone(),
    }
}

/// forget constraints about quantities that no longer occur in the state
pub fn gc(st: &mut State, limit: usize) {
    if st.cons.list.len() <= limit.max(st.cons.gc_at) { return; }
    gc_now(st)
}
pub fn gc_now(st: &mut State) {
    let n = st.frames[0].vals.len();
    let mut live = vec![false; n];
    let mut work: Vec<u32> = vec![];
    fn go(v: &Val, live: &mut Vec<bool>, work: &mut Vec<u32>) {
        match v {
            Val::Agg(_, f) => for x in f.iter() { go(x, live, work) },
            Val::Ref(r) => if r.loc.fr == HEAP && !live[r.loc.l as usize] { live[r.loc.l as usize] = true; work.push(r.loc.l) },
            Val::SeqT { last: Some(x), .. } => go(x, live, work),
            _ => {}
        }
    }
    for f in st.frames.iter().skip(1) { for v in &f.vals { go(v, &mut live, &mut work); } }
    while let Some(l) = work.pop() { let v = st.frames[0].vals[l as usize].clone(); go(&v, &mut live, &mut work); }
    let f0 = Rc::make_mut(&mut st.frames[0]);
    for i in 0..n { if !live[i] && !matches!(f0.vals[i], Val::Uninit) { f0.vals[i] = Val::Uninit; } }
    let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
    for f in &st.frames { for v in &f.vals { val_syms(v, &mut s, &mut c); } }
    let keep = crate::memo::mk_keep(s, c);
    st.cons = project(&st.cons, &keep);
    st.cons.gc_at = st.cons.list.len() * 5 / 4;
}

/// every scalar lies in the range of its type
pub fn clip(e: &Eng, st: &mut State, ret: Option<TyId>) {
    let mut todo: Vec<(Lin, i128, i128)> = vec![];
    let mut seen: HashSet<(Loc, usize)> = HashSet::default();
    let mut work: Vec<(Val, TyId)> = vec![];
    for f in st.frames.iter().skip(1) { for (v, t) in f.vals.iter().zip(frame_tys(e, f, ret)) { if let Some(t) = t { if !matches!(v, Val::Uninit) { work.push((v.clone(), t)); } } } }
    while let Some((v, t)) = work.pop() {
        match (&v, &e.tk[t]) {
            (Val::Int(l), TK::Int { lo, hi, .. } | TK::CEnum { lo, hi } | TK::NonZero { lo, hi } | TK::OptNonZero { lo, hi }) => { let (a, b) = st.cons.range(l); if a < *lo || b > *hi { todo.push((l.clone(), *lo, *hi)); } }
            (Val::Agg(i, f), _) => { if is_error_ty(e.p, t) { continue; } for (k, x) in f.iter().enumerate() { if let Some(ft) = e.field_ty(t, *i, k) { work.push((x.clone(), ft)); } } }
            (Val::Ref(RefV { slice: Some((a, b)), .. }), _) => { for l in [a, b] { let (x, y) = st.cons.range(l); if x < 0 || y > e.isize_max { todo.push((l.clone(), 0, e.isize_max)); } } }
            (Val::Ref(r), _) => if let Some(to) = ref_obj_ty(e, Some(t), r) { if r.loc.fr == HEAP && seen.insert((r.loc, to)) { work.push((st.slot(r.loc), to)); } },
            (Val::SeqT { last: Some(x), elem, .. }, _) => work.push((x.as_ref().clone(), *elem)),
            (Val::Seq(s), _) => { let (a, b) = st.cons.range(&s.len); if a < 0 || b > e.isize_max { todo.push((s.len.clone(), 0, e.isize_max)); } }
            _ => {}
        }
    }
    for (l, lo, hi) in todo { st.cons.add(l.addk(-lo)); st.cons.add(l.neg().addk(hi)); }
}

pub fn dangling(st: &State) -> Option<(usize, usize, Loc)> {
    fn go(v: &Val, st: &State, seen: &mut HashSet<u32>) -> Option<Loc> {
        match v {
            Val::Agg(_, f) => f.iter().find_map(|x| go(x, st, seen)),
            Val::Ref(r) => if r.loc.fr == HEAP && seen.insert(r.loc.l) { let x = st.slot(r.loc); if matches!(x, Val::Uninit) { Some(r.loc) } else { go(&x, st, seen) } } else { None },
            Val::SeqT { last: Some(x), .. } => go(x, st, seen),
            _ => None,
        }
    }
    let mut seen = HashSet::default();
    for (i, f) in st.frames.iter().enumerate().skip(1) { for (k, v) in f.vals.iter().enumerate() { if let Some(l) = go(v, st, &mut seen) { return Some((i, k, l)); } } }
    None
}
