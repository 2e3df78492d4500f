//! Inferred invariants of the crate's public types: for every type one most general shape and a
//! set of candidate inequalities over it; a candidate survives only if every value that leaves an
//! exported function satisfies it (greatest fixpoint over a finite candidate set).
use crate::interp::*;
use crate::join::*;
use crate::lin::*;
use crate::solver::Cons;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::collections::BTreeSet;
use std::rc::Rc;

pub struct Inv { pub tp: Rc<Template>, pub cands: Vec<Lin>, pub dead: HashSet<Lin>, pub new: Vec<Lin>, pub n: u64, pub cond: HashMap<(Lin, Lin), (Option<i128>, Option<i128>)> }
pub type Key = (TyId, usize);

/// what a reference leads to, as a value of its own
pub fn pointee(st: &State, r: &RefV) -> Option<(Val, Option<(Lin, Lin)>)> {
    let x = crate::memo::lookup(st, r.loc, &r.path);
    match (&x, &r.slice) {
        (Val::Seq(s), Some((a, n))) => Some((Val::Seq(Rc::new(SeqV { len: n.clone(), c: s.c, off: s.off.add(a), w: s.w, signed: s.signed })), Some((Lin::k(0), n.clone())))),
        (Val::SeqT { elem, last, len }, Some((a, n))) => { let keep = len == &a.add(n); Some((Val::SeqT { len: n.clone(), elem: *elem, last: if keep { last.clone() } else { None } }, Some((Lin::k(0), n.clone())))) }
        (Val::Uninit, _) | (_, Some(_)) => None,
        _ => Some((x, None)),
    }
}

struct Bind<'a> { e: &'a Eng, st: &'a State, sk: &'a State, sub: Subst, ok: bool }
impl<'a> Bind<'a> {
    fn int(&mut self, k: &Lin, v: &Lin) { if let Some(a) = k.as_atom() { self.sub.atoms.entry(a).or_insert_with(|| v.clone()); } }
    fn val(&mut self, k: &Val, v: &Val) {
        match (k, v) {
            (Val::Int(x), Val::Int(y)) => self.int(x, y),
            (Val::Bool(x), Val::Bool(y)) => { if let Some(l) = bitlin(x) { let m = bitlin(y).unwrap_or_else(|| fresh_sym("b", 0, 1)); self.int(&l, &m) } }
            (Val::Agg(a, f), Val::Agg(b, g)) if a == b && f.len() == g.len() => for i in 0..f.len() { self.val(&f[i], &g[i]) },
            (Val::Ref(x), Val::Ref(y)) => {
                let k = pointee(self.sk, x); let v = pointee(self.st, y);
                match (k, v) { (Some((k, ks)), Some((v, vs))) => { if let (Some((_, a)), Some((_, b))) = (ks, vs) { self.int(&a, &b); } self.val(&k, &v) } (Some((k, _)), None) => self.unknown(&k), _ => {} }
            }
            (Val::Seq(x), Val::Seq(y)) => { self.int(&x.len, &y.len); self.sub.contents.insert(x.c, (y.c, y.off.clone())); }
            (Val::SeqT { len: a, .. }, Val::SeqT { len: b, .. }) => self.int(a, b),
            (Val::Top(_), _) | (Val::Opaque, _) | (Val::Uninit, _) => {}
            _ => self.unknown(k),
        }
    }
    /// nothing is known about this part
    fn unknown(&mut self, k: &Val) {
        self.ok = false;
        let _ = self.e;
        let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
        val_syms(k, &mut s, &mut c);
        for a in s { if !self.sub.atoms.contains_key(&a) { let (lo, hi) = atom_range(a); let f = fresh_sym("unk", lo, hi); self.sub.atoms.insert(a, f); } }
        for x in c { if !self.sub.contents.contains_key(&x) { let n = new_content("unk"); self.sub.contents.insert(x, (n, Lin::k(0))); } }
    }
}

impl Eng {
    pub fn skeleton(&mut self, key: Key) -> Rc<Template> {
        if let Some(i) = self.invs.get(&key) { return i.tp.clone(); }
        let mut st = State::new();
        let v = self.mk_variant_raw(&mut st, key.0, key.1, &self.short_ty(key.0));
        let mut t = mk_template(self, &st, &v, key.0);
        t.st.cons = Cons::default();
        let t = Rc::new(t);
        self.invs.insert(key, Inv { tp: t.clone(), cands: vec![], dead: HashSet::default(), new: vec![], n: 0, cond: HashMap::default() });
        t
    }
    pub fn short_ty(&self, t: TyId) -> String { self.ty_name(t).rsplit("::").next().unwrap_or("").split('<').next().unwrap_or("").to_string() }
    pub fn bind(&self, tp: &Template, st: &State, v: &Val) -> Subst {
        let mut b = Bind { e: self, st, sk: &tp.st, sub: Subst::new(), ok: true };
        let k = tp.val();
        b.val(&k, v);
        b.unknown(&k);
        // leaves behind references
        for i in 0..tp.st.frames[0].vals.len() { let k = tp.st.frames[0].vals[i].clone(); b.unknown(&k); }
        b.sub.clear_memo();
        b.sub
    }
    /// add the invariant of the type to the state
    pub fn assume_inv(&mut self, st: &mut State, t: TyId, variant: usize, v: &Val) {
        self.inv_used.insert(t);
        let key = (t, variant);
        if self.making.contains(&key) { return; }
        self.making.push(key);
        let tp = self.skeleton(key);
        self.making.pop();
        let cands = self.invs[&key].cands.clone();
        if cands.is_empty() { return; }
        let mut sub = self.bind(&tp, st, v);
        for c in &cands { let d = sub.lin(c); st.cons.add(d); }
    }
    /// every value of an invariant type reachable from `v` must satisfy the invariant of its type
    pub fn check_val(&mut self, st: &State, v: &Val, t: TyId) -> bool {
        if !self.inv_inside(t) { return false; }
        if is_error_ty(self.p, t) { return false; }
        let mut ch = false;
        match v {
            Val::Agg(vi, f) => {
                if self.inv_types.contains(&t) && !matches!(self.tk[t], TK::SeqT { .. }) { ch |= self.check_one(st, v, t, *vi); }
                for (i, x) in f.iter().enumerate() { if let Some(ft) = self.field_ty(t, *vi, i) { ch |= self.check_val(st, x, ft); } }
            }
            Val::Ref(r) => if let Ty::Ref { to, .. } = self.ty(t) { if let Some((x, _)) = pointee(st, r) { ch |= self.check_val(st, &x, *to); } },
            Val::SeqT { elem, last: Some(x), .. } => ch |= self.check_val(st, x, *elem),
            _ => {}
        }
        ch
    }
    fn inv_trace(&self) -> String { format!("{:?}", self.stack.iter().map(|f| (self.p.fns[f.0].path.clone(), f.1)).collect::<Vec<_>>()) }
    /// may a value of the type contain a value of an invariant type?
    fn inv_inside(&mut self, t: TyId) -> bool {
        if let Some(b) = self.inside.get(&t) { return *b; }
        self.inside.insert(t, false);
        let r = self.inv_types.contains(&t) || match self.ty(t) {
            Ty::Adt { variants, args, path, .. } => { let fs: Vec<TyId> = variants.iter().flat_map(|v| v.fields.iter().map(|x| x.1)).chain(if path.starts_with("std::vec") { args.clone() } else { vec![] }).collect(); fs.into_iter().any(|x| self.inv_inside(x)) }
            Ty::Tuple(v) => { let v = v.clone(); v.into_iter().any(|x| self.inv_inside(x)) }
            Ty::Closure { upvars, .. } => { let v = upvars.clone(); v.into_iter().any(|x| self.inv_inside(x)) }
            Ty::Ref { to, .. } | Ty::Ptr { to, .. } => self.inv_inside(*to),
            Ty::Array { elem, .. } | Ty::Slice(elem) => self.inv_inside(*elem),
            _ => false,
        };
        self.inside.insert(t, r);
        r
    }
    fn check_one(&mut self, st: &State, v: &Val, t: TyId, variant: usize) -> bool {
        let key = (t, variant);
        let tp = self.skeleton(key);
        let mut sub = self.bind(&tp, st, v);
        let mut ch = false;
        let inv = self.invs.get_mut(&key).unwrap();
        inv.n += 1;
        let cands = inv.cands.clone();
        let mut gone: Vec<Lin> = vec![];
        for c in &cands { let d = sub.lin(c); if !st.cons.entails(&d) { gone.push(c.clone()); } }
        if !gone.is_empty() && !st.cons.feasible() { return false; }
        if !gone.is_empty() {
            if std::env::var("INVV").is_ok() { eprintln!("VALUE {}  file {:?}", show(v), self.inv_trace()); if let Val::Agg(_, f) = v { for x in f.iter() { if let Val::Ref(r) = x { eprintln!("   -> {}", pointee(st, r).map(|p| show(&p.0)).unwrap_or_default()); } } } }
            if std::env::var("INV").is_ok() { for g in &gone { eprintln!("drop {}#{}: {}   [{}]", self.ty_name(t), variant, g.show(), self.root); } }
            let inv = self.invs.get_mut(&key).unwrap();
            inv.cands.retain(|c| !gone.contains(c));
            for g in gone { inv.dead.insert(g); }
            ch = true;
        }
        if self.collecting && st.cons.feasible() {
            let mut new = self.collect(&tp, &mut sub, st);
            let inv = self.invs.get_mut(&key).unwrap();
            // inequalities that depend on whether a field is zero
            let guards: Vec<(Lin, bool)> = new.iter().filter_map(|c| if let [(a, k)] = c.t[..] { let (lo, hi) = atom_range(a); if lo != 0 || hi > 0xff || !matches!(atom_kind(a), AtomKind::Read { .. }) { None } else if k == -1 && c.c == 0 { Some((Lin::atom(a), true)) } else if k == 1 && c.c <= -1 { Some((Lin::atom(a), false)) } else { None } } else { None }).collect();
            let mut more = vec![];
            for (g, zero) in &guards { for c in &new {
                if c.t.iter().any(|t| Some(t.0) == g.as_atom()) || c.c.abs() > 1 << 20 { continue; }
                let l = c.addk(-c.c);
                let e = inv.cond.entry((g.clone(), l.clone())).or_insert((None, None));
                let s = if *zero { &mut e.0 } else { &mut e.1 };
                let k = s.map(|x| x.max(c.c)).unwrap_or(c.c);
                if *s == Some(k) { continue; }
                *s = Some(k);
                if let (Some(z), Some(n)) = *e { if z != n { more.push(l.add(&mk_nz(g).scale(n - z)).addk(z)); } }
            } }
            new.extend(more);
            new.retain(|c| !inv.dead.contains(c) && !inv.cands.contains(c) && !inv.new.contains(c));
            let room = 60usize.saturating_sub(inv.cands.len() + inv.new.len());
            new.truncate(room);
            if !new.is_empty() {
                if std::env::var("INV").is_ok() { for g in &new { eprintln!("cand {}#{}: {}   [{}]", self.short_ty(t), variant, g.show(), self.root); } }
                let inv = self.invs.get_mut(&key).unwrap();
                inv.new.extend(new);
            }
        }
        if ch { self.drop_summaries(t); }
        ch
    }
    /// what the state says about the leaves of the value, in terms of the type's general shape
    fn collect(&mut self, tp: &Template, sub: &mut Subst, st: &State) -> Vec<Lin> {
        let mut inv = Subst::new();
        let mut cons = st.cons.clone();
        let mut leaves: Vec<(Atom, Lin)> = tp.syms.iter().filter_map(|a| sub.atoms.get(a).map(|l| (*a, l.clone()))).collect();
        leaves.sort();
        for (a, l) in &leaves {
            match l.t.len() {
                1 if l.t[0].1.abs() == 1 && matches!(atom_kind(l.t[0].0), AtomKind::Sym(_) | AtomKind::Read { .. }) && !inv.atoms.contains_key(&l.t[0].0) => { let (x, k) = l.t[0]; inv.atoms.insert(x, Lin::atom(*a).addk(-l.c).scale(k)); }
                _ => {}
            }
        }
        let mut eqs: Vec<Lin> = vec![];
        for (a, l) in &leaves { if !l.t.is_empty() { eqs.push(l.sub(&Lin::atom(*a))); } else { eqs.push(l.sub(&Lin::atom(*a))); } }
        for c in &tp.conts { if let Some((k, off)) = sub.contents.get(c) { inv.contents.entry(*k).or_insert((*c, off.neg())); } }
        for q in eqs { cons.add_eq(&q); }
        let rows = cons.all();
        let mut out = Cons::default();
        for r in rows { let d = inv.lin(&r); out.add(d); }
        let syms: BTreeSet<Atom> = tp.syms.iter().copied().collect();
        let conts: BTreeSet<ContentId> = tp.conts.iter().copied().collect();
        let keep = crate::memo::mk_keep(syms, conts);
        let pr = project(&out, &keep);
        let mut res: Vec<Lin> = vec![];
        for c in pr.all() {
            let c = c.tighten();
            if c.t.is_empty() || c.t.len() > 4 || c.range().0 >= 0 { continue; }
            if c.t.iter().any(|t| t.1.abs() > 1 << 20) { continue; }
            let d = sub.lin(&c);
            if st.cons.entails(&d) { res.push(c); }
        }
        res.sort_by_key(|c| (c.t.len(), c.clone()));
        res
    }
}

/// binding of the most general entry of an exported function to actual arguments
pub struct Call<'a> { s: &'a State, k: &'a State, pub sub: Subst, pub bwd: HashMap<Loc, (Loc, Vec<PE>)>, pub part: HashMap<Loc, Lin>, pub unk: bool }
impl<'a> Call<'a> {
    pub fn new(s: &'a State, k: &'a State) -> Call<'a> { Call { s, k, sub: Subst::new(), bwd: HashMap::default(), part: HashMap::default(), unk: false } }
    pub fn run(&mut self) -> bool {
        let n = self.k.frames[1].vals.len();
        for i in 0..n { let (k, v) = (self.k.frames[1].vals[i].clone(), self.s.frames[1].vals.get(i).cloned().unwrap_or(Val::Uninit)); if !self.val(&k, &v) { return false; } }
        for f in 0..2 { for i in 0..self.k.frames[f].vals.len() { let k = self.k.frames[f].vals[i].clone(); self.unknown(&k); } }
        self.sub.clear_memo();
        true
    }
    fn int(&mut self, k: &Lin, v: &Lin) { if let Some(a) = k.as_atom() { self.sub.atoms.entry(a).or_insert_with(|| v.clone()); } }
    fn val(&mut self, k: &Val, v: &Val) -> bool {
        match (k, v) {
            (Val::Int(x), Val::Int(y)) => { self.int(x, y); true }
            (Val::Bool(x), Val::Bool(y)) => { if let Some(l) = bitlin(x) { let m = bitlin(y).unwrap_or_else(|| fresh_sym("b", 0, 1)); self.int(&l, &m) } true }
            (Val::Agg(a, f), Val::Agg(b, g)) => { if a != b { return false; } if f.len() == g.len() { for i in 0..f.len() { if !self.val(&f[i], &g[i]) { return false; } } } true }
            (Val::Ref(x), Val::Ref(y)) => {
                self.bwd.insert(x.loc, (y.loc, y.path.as_ref().clone()));
                let k = pointee(self.k, x); let v = pointee(self.s, y);
                if let (Some((a, n)), Val::Seq(q)) = (&y.slice, crate::memo::lookup(self.s, y.loc, &y.path)) { if a != &Lin::k(0) || n != &q.len { self.part.insert(x.loc, a.clone()); } }
                match (k, v) { (Some((k, ks)), Some((v, vs))) => { if let (Some((_, a)), Some((_, b))) = (ks, vs) { self.int(&a, &b); } self.val(&k, &v) } _ => true }
            }
            (Val::Seq(x), Val::Seq(y)) => { self.int(&x.len, &y.len); self.sub.contents.entry(x.c).or_insert_with(|| (y.c, y.off.clone())); true }
            (Val::SeqT { len: a, last: x, .. }, Val::SeqT { len: b, last: y, .. }) => { self.int(a, b); if let (Some(x), Some(y)) = (x, y) { return self.val(x, y); } true }
            _ => true,
        }
    }
    fn unknown(&mut self, k: &Val) {
        let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
        val_syms(k, &mut s, &mut c);
        for a in s { if !self.sub.atoms.contains_key(&a) { self.unk = true; let (lo, hi) = atom_range(a); let f = fresh_sym("unk", lo, hi); self.sub.atoms.insert(a, f); } }
        for x in c { if !self.sub.contents.contains_key(&x) { self.unk = true; let n = new_content("unk"); self.sub.contents.insert(x, (n, Lin::k(0))); } }
    }
}
