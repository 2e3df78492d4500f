//! The abstract interpreter over monomorphic MIR.
use crate::join::*;
use crate::lin::*;
use crate::models::FS_UNPOSITIONED;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub struct Cfg {
    pub succs: Vec<Vec<usize>>,
    pub rpo: Vec<usize>,
    /// innermost loop of each block (index into loops)
    pub in_loop: Vec<Option<usize>>,
    pub loops: Vec<Loop>,
    pub head_of: HashMap<usize, usize>,
    /// locals to clear on entry of a block
    pub kill: Vec<Vec<usize>>,
}
pub struct Loop { pub head: usize, pub body: BTreeSet<usize>, pub parent: Option<usize> }

#[derive(Clone, Debug)]
pub struct Ob { pub ok: bool, pub n: u64, pub msg: String, pub root: String, pub line: u32, pub file: String }

pub type Ret = Vec<(State, Val)>;

pub struct Eng {
    pub p: &'static Program,
    pub tk: Rc<Vec<TK>>,
    pub ptr_bits: u16,
    pub isize_max: i128,
    pub cfgs: HashMap<FnId, Rc<Cfg>>,
    /// (fn path, kind, line) -> result
    pub obs: BTreeMap<(String, String, u32), Ob>,
    pub stack: Vec<(FnId, u32)>,
    pub warns: BTreeMap<String, u64>,
    pub root: String,
    pub invs: HashMap<crate::inv::Key, crate::inv::Inv>,
    pub inside: HashMap<TyId, bool>,
    pub making: Vec<crate::inv::Key>,
    pub collecting: bool,
    pub root_obs: Vec<BTreeMap<(String, String, u32), Ob>>,
    pub inv_used: BTreeSet<TyId>,
    pub inv_types: BTreeSet<TyId>,
    pub konst: HashMap<(usize, usize), Val>,
    pub trace: bool,
    pub nstates: u64,
    pub steps: u64,
    pub limit: u64,
    pub t0: std::time::Instant,
    pub fsteps: HashMap<(FnId, FnId), u64>,
    pub plain_phi: bool, pub deadline: Option<std::time::Instant>, pub aborted: bool, pub k_join: usize,
    /// a fine case distinction: error exits stay apart, and the functions a specified one calls are interpreted in its context
    pub fine: bool, /// loops are followed for so many rounds before they are summarised
    pub unroll: usize, /// how many levels of calls
    pub depth: usize,
    pub k_ret: usize,
    pub mon: Option<crate::mon::Mon>,
    pub fn_by_path: HashMap<String, Vec<FnId>>,
    pub prof: HashMap<FnId, (u64, std::time::Duration)>,
    pub models: HashMap<FnId, Option<crate::models::Model>>,
    pub spec: crate::spec::Hooks,
    pub fails: Vec<(String, u32, String, bool)>,
    pub heavy_map: HashMap<FnId, bool>,
    pub weights: HashMap<FnId, usize>,
    pub heavy_limit: usize,
    pub ctxs: HashMap<FnId, Vec<crate::memo::Ctx>>,
    pub root_of: HashMap<FnId, usize>,
    pub root_deps: Vec<BTreeSet<TyId>>,
    pub root_runs: Vec<u32>,
    pub dirty: BTreeSet<usize>,
    pub mine: Option<BTreeSet<usize>>,
    pub heads: HashMap<FnId, BTreeSet<FnId>>,
    pub ran: BTreeSet<usize>,
    pub outdated: Vec<bool>,
    pub callers: Vec<BTreeSet<usize>>,
    pub active: Vec<FnId>,
    pub touched: Vec<BTreeSet<TyId>>,
}

#[derive(Clone, Debug)]
pub struct Target { pub loc: Loc, pub path: Vec<PE>, pub slice: Option<(Lin, Lin)>, pub ty: Option<TyId> }

/// marks the value of a pointer to a known function
pub const FNPTR: usize = 1 << 40;
impl Eng {
    pub fn new(p: &'static Program, ptr_bits: u16) -> Eng {
        let tk = classify(p, ptr_bits);
        let mut fn_by_path: HashMap<String, Vec<FnId>> = HashMap::default();
        for (i, f) in p.fns.iter().enumerate() { fn_by_path.entry(f.path.clone()).or_default().push(i); }
        Eng { p, tk: Rc::new(tk), ptr_bits, isize_max: (1i128 << (ptr_bits - 1)) - 1, cfgs: HashMap::default(), obs: BTreeMap::new(), stack: vec![], warns: BTreeMap::new(),
            root: String::new(), invs: HashMap::default(), inside: HashMap::default(), making: vec![], collecting: true, root_obs: vec![], inv_used: BTreeSet::new(), inv_types: BTreeSet::new(), konst: HashMap::default(), trace: std::env::var("TRACE").is_ok(), nstates: 0, steps: 0, limit: std::env::var("LIMIT").ok().and_then(|x| x.parse().ok()).unwrap_or(0), t0: std::time::Instant::now(), fsteps: HashMap::default(), plain_phi: false, deadline: None, aborted: false, k_join: 2, k_ret: 3, mon: None, fine: false, unroll: 0, depth: 1, fn_by_path, prof: HashMap::default(), models: HashMap::default(), spec: Default::default(), fails: vec![], heavy_map: HashMap::default(), weights: HashMap::default(), heavy_limit: std::env::var("HEAVY").ok().and_then(|x| x.parse().ok()).unwrap_or(60), ctxs: HashMap::default(), root_of: HashMap::default(), root_deps: vec![], root_runs: vec![], dirty: BTreeSet::new(), mine: None, heads: HashMap::default(), ran: BTreeSet::new(), outdated: vec![], callers: vec![], active: vec![], touched: vec![] }
    }
    pub fn warn(&mut self, s: String) { if std::env::var("WSTACK").map(|x| s.contains(&x)).unwrap_or(false) { eprintln!("W {s}: {:?}", self.stack.iter().rev().take(6).map(|(f, l)| format!("{}:{}", self.p.fns[*f].path, l)).collect::<Vec<_>>()); } *self.warns.entry(s).or_insert(0) += 1; }

    // ---------- sites and obligations ----------
    /// the innermost frame of the crate under analysis, and a suffix naming the library callee
    pub fn site(&self) -> (FnId, u32, String) {
        let mut suffix = String::new();
        for (f, l) in self.stack.iter().rev() {
            let fun = &self.p.fns[*f];
            if fun.krate == "ntfs" { return (*f, *l, suffix); }
            suffix = fun.path.clone();
        }
        (self.stack.first().map(|x| x.0).unwrap_or(0), 0, suffix)
    }
    pub fn oblige(&mut self, st: &mut State, kind: &str, b: &B) {
        let dec = b.decide(&st.cons);
        let ok = dec == Some(true);
        let (f, line, suf) = self.site();
        let path = self.p.fns[f].path.clone();
        let kind = if suf.is_empty() { kind.to_string() } else { format!("{kind} in {}", shorten(&suf)) };
        let root = self.root.clone();
        let file = self.p.fns[f].file.clone();
        let e = self.obs.entry((path, kind, line)).or_insert_with(|| Ob { ok: true, n: 0, msg: String::new(), root: String::new(), line, file });
        e.n += 1;
        if !ok && e.ok { e.ok = false; e.root = root; e.msg = format!("cannot show {} [stack {}] {}", show_b(b), self.stack.iter().map(|(f, l)| format!("{}:{}", self.p.fns[*f].path.rsplit("::").next().unwrap(), l)).collect::<Vec<_>>().join(" > "), if std::env::var("DUMPC").is_ok() { dump_cons(st, b) } else { String::new() }); }
    }
    pub fn unreachable_site(&mut self, st: &mut State, kind: &str) {
        if st.cons.feasible() { self.oblige(st, kind, &B::K(false)); }
    }

    // ---------- assumptions ----------
    pub fn assume(&self, st: State, b: &B, truth: bool) -> Vec<State> {
        let b = if truth { b.clone() } else { b.clone().not() };
        self.assume_true(st, &b)
    }
    fn assume_true(&self, mut st: State, b: &B) -> Vec<State> {
        match b {
            B::K(true) => vec![st],
            B::K(false) => vec![],
            B::Ge(l) => { if !st.cons.compatible(l) { return vec![]; } st.cons.add(l.clone()); if st.cons.obviously_false() { vec![] } else { vec![st] } }
            B::Eq(l) => {
                if !st.cons.compatible(l) || !st.cons.compatible(&l.neg()) { return vec![]; }
                st.cons.add_eq(l);
                if st.cons.obviously_false() || !st.cons.compatible(l) { vec![] } else { vec![st] }
            }
            B::And(x, y) => { let mut r = vec![]; for s in self.assume_true(st, x) { r.extend(self.assume_true(s, y)); } r }
            B::Or(x, y) => {
                let mut r = self.assume_true(st.clone(), x);
                let ny = (**x).clone().not();
                for s in self.assume_true(st, &ny) { r.extend(self.assume_true(s, y)); }
                r
            }
            B::Not(x) => match &**x {
                B::Eq(l) => {
                    let pos = l.addk(-1); let neg = l.neg().addk(-1);
                    let cp = st.cons.compatible(&pos); let cn = st.cons.compatible(&neg);
                    match (cp, cn) {
                        (false, false) => vec![],
                        (true, false) => { st.cons.add(pos); vec![st] }
                        (false, true) => { st.cons.add(neg); vec![st] }
                        _ if self.fine => { let mut s2 = st.clone(); st.cons.add(pos); s2.cons.add(neg); vec![st, s2] }
                        _ => vec![st],
                    }
                }
                B::Not(y) => self.assume_true(st, y),
                y => { let n = y.clone().not(); if matches!(n, B::Not(_)) { vec![st] } else { self.assume_true(st, &n) } }
            },
        }
    }

    // ---------- types ----------
    pub fn ty(&self, t: TyId) -> &'static Ty { &self.p.types[t] }
    pub fn field_ty(&self, t: TyId, variant: usize, i: usize) -> Option<TyId> {
        match self.ty(t) {
            Ty::Adt { variants, .. } => variants.get(variant)?.fields.get(i).map(|x| x.1),
            Ty::Tuple(v) => v.get(i).copied(),
            Ty::Closure { upvars, .. } => upvars.get(i).copied(),
            Ty::Array { elem, .. } => Some(*elem),
            _ => None,
        }
    }
    pub fn ty_name(&self, t: TyId) -> String { type_name(self.p, t) }
    pub fn int_range(&self, t: TyId) -> (i128, i128) {
        match &self.tk[t] { TK::Int { lo, hi, .. } | TK::CEnum { lo, hi } | TK::NonZero { lo, hi } | TK::OptNonZero { lo, hi } => (*lo, *hi), TK::Bool => (0, 1), _ => (-(1i128 << 100), 1i128 << 100) }
    }

    /// an arbitrary value of the type (enums stay lazy)
    pub fn mk_top(&mut self, st: &mut State, t: TyId, name: &str) -> Val {
        match self.tk[t].clone() {
            TK::Int { lo, hi, .. } | TK::CEnum { lo, hi } | TK::NonZero { lo, hi } | TK::OptNonZero { lo, hi } => Val::Int(fresh_sym(name, lo, hi)),
            TK::Bool => Val::Bool(B::bit(fresh_sym(name, 0, 1))),
            TK::Fs => Val::Int(fresh_sym("fspos0", 0, FS_UNPOSITIONED)),
            TK::Zst => Val::unit(),
            TK::Opaque => Val::Opaque,
            TK::Seq { w, fixed, cap, .. } => {
                let len = match fixed { Some(n) => Lin::k(n as i128), None => fresh_sym(&format!("{name}.len"), 0, cap.map(|c| c as i128).unwrap_or(self.isize_max)) };
                Val::seq(len, new_content(name), Lin::k(0), w)
            }
            TK::SeqT { elem, fixed } => {
                if let Some(n) = fixed { if n <= 8 { return Val::agg(0, (0..n).map(|i| self.mk_top(st, elem, &format!("{name}.{i}"))).collect()); } }
                let len = match fixed { Some(n) => Lin::k(n as i128), None => fresh_sym(&format!("{name}.len"), 0, self.isize_max) };
                Val::SeqT { len, elem, last: None }
            }
            TK::Struct => {
                let Ty::Adt { variants, .. } = self.ty(t) else { return Val::Opaque };
                let _ = variants;
                self.mk_variant(st, t, 0, name)
            }
            TK::Tuple => {
                let ts: Vec<TyId> = match self.ty(t) { Ty::Tuple(v) => v.clone(), Ty::Closure { upvars, .. } => upvars.clone(), _ => vec![] };
                Val::agg(0, ts.iter().enumerate().map(|(i, ft)| self.mk_top(st, *ft, &format!("{name}.{i}"))).collect())
            }
            TK::Enum => {
                let Ty::Adt { variants, .. } = self.ty(t) else { return Val::Opaque };
                if variants.len() == 1 { return self.mk_variant(st, t, 0, name); }
                Val::Top(t)
            }
            TK::Ref(to) => {
                let v = self.mk_top(st, to, name);
                self.mk_ref_to(st, to, v)
            }
            TK::Unknown => Val::Top(t),
        }
    }
    pub fn mk_ref_to(&mut self, st: &mut State, to: TyId, v: Val) -> Val {
        let slice = match self.ty(to) { Ty::Slice(_) | Ty::Str => match &v { Val::Seq(s) => Some((Lin::k(0), s.len.clone())), Val::SeqT { len, .. } => Some((Lin::k(0), len.clone())), _ => None }, _ => None };
        let loc = st.heap(v);
        Val::Ref(RefV { loc, path: Rc::new(vec![]), slice })
    }
    pub fn mk_variant(&mut self, st: &mut State, t: TyId, v: usize, name: &str) -> Val {
        let r = self.mk_variant_raw(st, t, v, name);
        if self.inv_types.contains(&t) { self.assume_inv(st, t, v, &r); }
        r
    }
    pub fn mk_variant_raw(&mut self, st: &mut State, t: TyId, v: usize, name: &str) -> Val {
        let Ty::Adt { variants, .. } = self.ty(t) else { return Val::Opaque };
        let fs = variants[v].fields.clone();
        let vn = variants[v].name.clone();
        let pre = if matches!(self.tk[t], TK::Struct) { name.to_string() } else { format!("{name}.{vn}") };
        Val::agg(v, fs.iter().map(|(n, ft)| self.mk_top(st, *ft, &format!("{pre}.{n}"))).collect())
    }

    // ---------- places ----------
    pub fn get_path(&mut self, st: &mut State, loc: Loc, path: &[PE]) -> Val {
        let mut v = st.slot(loc);
        for (i, e) in path.iter().enumerate() {
            if let Val::Top(t) = v {
                // a field of an enum whose variant was not examined, or of an unmaterialised value
                v = self.force(st, t);
                self.put_path(st, loc, &path[..i], v.clone());
            }
            v = match (&v, e) {
                (Val::Agg(_, f), PE::F(i)) => f.get(*i as usize).cloned().unwrap_or(Val::Uninit),
                (Val::Agg(_, f), PE::At(l)) => match l.is_const() { Some(c) if (c as usize) < f.len() => f[c as usize].clone(), _ => Val::Opaque },
                (Val::Seq(s), PE::At(l)) => self.seq_read(st, s, l),
                (Val::SeqT { last: Some(x), .. }, PE::Last) => (**x).clone(),
                (Val::SeqT { elem, .. }, PE::At(_)) | (Val::SeqT { elem, .. }, PE::Last) => { let e = *elem; self.instance1(st, e, "elem") }
                (Val::Int(l), PE::F(_)) => Val::Int(l.clone()),
                (Val::Seq(s), PE::F(_)) => Val::Seq(s.clone()),
                (Val::Opaque, _) => Val::Opaque,
                _ => Val::Uninit,
            };
        }
        v
    }
    fn force(&mut self, st: &mut State, t: TyId) -> Val {
        match &self.tk[t] { TK::Enum | TK::Unknown => { self.warn(format!("forced {}", self.ty_name(t))); Val::Opaque } _ => self.instance1(st, t, "forced") }
    }
    pub fn seq_read(&mut self, st: &State, s: &SeqV, i: &Lin) -> Val { let (lo, hi) = type_range(s.w as u16 * 8, s.signed); Val::Int(read_content(&st.cons, s.c, s.off.add(i), 1, s.signed, false, lo, hi)) }
    pub fn put_path(&mut self, st: &mut State, loc: Loc, path: &[PE], v: Val) {
        if loc.fr == CONSTS { return; }
        // ensure materialised
        for i in 0..path.len() {
            let x = self.get_path_ro(st, loc, &path[..i]);
            if let Val::Top(t) = x { let m = self.force(st, t); let pre: Vec<PE> = path[..i].to_vec(); self.put_path(st, loc, &pre, m); }
        }
        if let Some(s) = st.slot_mut(loc) { put(s, path, v); }
    }
    fn get_path_ro(&self, st: &State, loc: Loc, path: &[PE]) -> Val {
        let mut v = st.slot(loc);
        for e in path { v = match (&v, e) { (Val::Agg(_, f), PE::F(i)) => f.get(*i as usize).cloned().unwrap_or(Val::Uninit), (Val::SeqT { last: Some(x), .. }, PE::Last) => (**x).clone(), _ => return Val::Uninit }; }
        v
    }
    pub fn resolve(&mut self, st: &mut State, p: &Place) -> Target {
        let fr = st.top();
        let f = st.frames[fr as usize].f;
        let lty = self.p.fns[f].body.as_ref().map(|b| b.locals[p.local]);
        let mut t = Target { loc: Loc { fr, l: p.local as u32 }, path: vec![], slice: None, ty: lty };
        let mut variant = 0;
        for e in &p.proj {
            match e {
                Proj::Deref => {
                    let mut v = self.get_path(st, t.loc, &t.path);
                    if let Val::Top(ty) = v { v = self.force(st, ty); self.put_path(st, t.loc, &t.path.clone(), v.clone()); }
                    let nty = t.ty.and_then(|x| match self.ty(x) { Ty::Ref { to, .. } | Ty::Ptr { to, .. } => Some(*to), Ty::Adt { path, args, .. } if path == "std::boxed::Box" => args.first().copied(), _ => None });
                    match v {
                        Val::Ref(r) => { t = Target { loc: r.loc, path: r.path.as_ref().clone(), slice: r.slice.clone(), ty: nty }; }
                        other => {
                            if !matches!(other, Val::Opaque) { self.warn(format!("deref of {}", show(&other).chars().take(40).collect::<String>())); }
                            let ty = nty;
                            let v = match ty { Some(ty) => self.mk_top(st, ty, "deref"), None => Val::Opaque };
                            let l = st.heap(v);
                            let slice = match ty.map(|x| self.ty(x)) { Some(Ty::Slice(_)) | Some(Ty::Str) => match st.slot(l) { Val::Seq(s) => Some((Lin::k(0), s.len.clone())), _ => None }, _ => None };
                            t = Target { loc: l, path: vec![], slice, ty };
                        }
                    }
                    variant = 0;
                }
                Proj::Field(i, fty) => {
                    // transparent scalar wrappers
                    let cur = self.get_path_ro(st, t.loc, &t.path);
                    let _ = variant;
                    if matches!(cur, Val::Int(_)) || (matches!(cur, Val::Uninit) && t.ty.map(|x| matches!(self.tk[x], TK::NonZero { .. } | TK::OptNonZero { .. })).unwrap_or(false)) { /* same value */ }
                    else { t.path.push(PE::F(*i as u32)); }
                    t.ty = Some(*fty);
                }
                Proj::Downcast(v) => {
                    variant = *v;
                    let cur = self.get_path(st, t.loc, &t.path);
                    if let (Val::Top(ty), TK::Enum) = (&cur, t.ty.map(|x| self.tk[x].clone()).unwrap_or(TK::Unknown)) {
                        let nv = self.mk_variant(st, *ty, *v, "dc");
                        self.put_path(st, t.loc, &t.path.clone(), nv);
                    }
                }
                Proj::Index(l) => {
                    let i = match st.slot(Loc { fr, l: *l as u32 }) { Val::Int(i) => i, _ => fresh_sym("idx", 0, self.isize_max) };
                    self.index(st, &mut t, i);
                }
                Proj::ConstIndex { offset, from_end, .. } => {
                    let i = if *from_end { let n = self.target_len(st, &t); n.addk(-(*offset as i128)) } else { Lin::k(*offset as i128) };
                    self.index(st, &mut t, i);
                }
                Proj::Subslice { from, to, from_end } => {
                    let n = self.target_len(st, &t);
                    let (s, l) = t.slice.clone().unwrap_or((Lin::k(0), n.clone()));
                    let end = if *from_end { l.addk(-(*to as i128)) } else { Lin::k(*to as i128) };
                    t.slice = Some((s.addk(*from as i128), end.addk(-(*from as i128))));
                }
                Proj::Other => { self.warn("proj other".into()); }
            }
        }
        t
    }
    fn index(&mut self, _st: &mut State, t: &mut Target, i: Lin) {
        let i = match &t.slice { Some((s, _)) => s.add(&i), None => i };
        t.slice = None;
        t.path.push(PE::At(i));
        t.ty = t.ty.and_then(|x| match self.ty(x) { Ty::Array { elem, .. } => Some(*elem), Ty::Slice(e) => Some(*e), _ => None });
    }
    pub fn target_len(&mut self, st: &mut State, t: &Target) -> Lin {
        if let Some((_, l)) = &t.slice { return l.clone(); }
        match self.get_path(st, t.loc, &t.path) { Val::Seq(s) => s.len.clone(), Val::SeqT { len, .. } => len, Val::Agg(_, f) => Lin::k(f.len() as i128), _ => fresh_sym("len", 0, self.isize_max) }
    }
    pub fn read(&mut self, st: &mut State, p: &Place) -> Val {
        let t = self.resolve(st, p);
        let v = self.get_path(st, t.loc, &t.path);
        // a value of a scalar type lies in the range of the type
        if let (Val::Int(l), Some(ty)) = (&v, t.ty) {
            if let TK::Int { lo, hi, .. } | TK::CEnum { lo, hi } | TK::NonZero { lo, hi } = &self.tk[ty] {
                let (a, b) = st.cons.range(l);
                if a < *lo { st.cons.add(l.addk(-*lo)); }
                if b > *hi { st.cons.add(l.neg().addk(*hi)); }
            }
        }
        v
    }
    pub fn write(&mut self, st: &mut State, p: &Place, v: Val) {
        let t = self.resolve(st, p);
        // writing a field into an uninitialised aggregate
        if !t.path.is_empty() {
            let base = self.get_path_ro(st, t.loc, &[]);
            if matches!(base, Val::Uninit) && t.loc.fr != CONSTS {
                let f = st.frames[t.loc.fr as usize].f;
                if t.loc.fr != HEAP { let ty = self.p.fns[f].body.as_ref().unwrap().locals[t.loc.l as usize]; let v0 = self.mk_top(st, ty, "uninit"); if let Some(s) = st.slot_mut(t.loc) { *s = v0; } }
            }
        }
        let path = t.path;
        self.put_path(st, t.loc, &path, v);
    }
    /// read a reference's target
    pub fn load(&mut self, st: &mut State, r: &RefV) -> Val { self.get_path(st, r.loc, &r.path) }
    pub fn store(&mut self, st: &mut State, r: &RefV, v: Val) { self.put_path(st, r.loc, &r.path, v) }

    pub fn operand(&mut self, st: &mut State, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.read(st, p),
            Operand::Const(t, c) => self.constant(st, *t, c),
            Operand::RtCheck(_) => Val::Bool(B::K(false)),
        }
    }
    pub fn constant(&mut self, st: &mut State, t: TyId, c: &Const) -> Val {
        match c {
            Const::Int(i) => match &self.tk[t] { TK::Bool => Val::Bool(B::K(*i != 0)), TK::Struct | TK::Tuple => Val::agg(0, vec![Val::k(*i)]), _ => Val::k(*i) },
            Const::Zst => match self.tk[t].clone() {
                TK::Struct | TK::Tuple => self.mk_top(st, t, "zst"),
                TK::Seq { w, .. } => Val::seq(Lin::k(0), mk_content(ContentKind::Const(vec![])), Lin::k(0), w),
                TK::SeqT { elem, .. } => Val::SeqT { len: Lin::k(0), elem, last: None },
                _ => Val::unit(),
            },
            Const::Fn(_) => Val::unit(),
            Const::Str(b) => {
                let key = (c as *const Const as usize, t);
                if let Some(v) = self.konst.get(&key) { return v.clone(); }
                let len = Lin::k(b.len() as i128);
                let s = Val::seq(len.clone(), mk_content(ContentKind::Const(b.iter().map(|x| *x as i128).collect())), Lin::k(0), 1);
                let v = Val::Ref(RefV { loc: const_obj(s), path: Rc::new(vec![]), slice: Some((Lin::k(0), len)) });
                self.konst.insert(key, v.clone());
                v
            }
            Const::RefTo(pt, inner) => {
                let key = (c as *const Const as usize, t);
                if let Some(v) = self.konst.get(&key) { return v.clone(); }
                let mut tmp = State::new();
                let x = self.constant(&mut tmp, *pt, inner);
                let v = Val::Ref(RefV { loc: const_obj(x), path: Rc::new(vec![]), slice: None });
                self.konst.insert(key, v.clone());
                v
            }
            Const::SliceOf(et, elems) => {
                let key = (c as *const Const as usize, t);
                if let Some(v) = self.konst.get(&key) { return v.clone(); }
                let len = Lin::k(elems.len() as i128);
                let x = self.const_array(*et, elems);
                let v = Val::Ref(RefV { loc: const_obj(x), path: Rc::new(vec![]), slice: Some((Lin::k(0), len)) });
                self.konst.insert(key, v.clone());
                v
            }
            Const::Bytes(b) => match &self.tk[t] {
                TK::Seq { w: 1, .. } => Val::seq(Lin::k(b.len() as i128), mk_content(ContentKind::Const(b.iter().map(|x| *x as i128).collect())), Lin::k(0), 1),
                _ => self.mk_top(st, t, "bytes"),
            },
            Const::Agg { variant, fields } => match self.tk[t].clone() {
                TK::CEnum { .. } => { let Ty::Adt { variants, .. } = self.ty(t) else { unreachable!() }; Val::k(variants[*variant].discr) }
                TK::Int { bits: 127, .. } => { let mut v = vec![]; const_ints(c, &mut v); if v.len() >= 2 { Val::k(v[0] * 1_000_000_000 + v[1]) } else { self.mk_top(st, t, "time") } }
                TK::NonZero { .. } => self.first_int(st, t, c),
                TK::OptNonZero { .. } => if *variant == 0 { Val::k(0) } else { self.first_int(st, t, c) },
                TK::Seq { elem, .. } => self.const_array(elem, fields),
                TK::Opaque => Val::Opaque,
                TK::Zst => Val::unit(),
                TK::SeqT { elem, fixed } => { if fixed.is_some() { let mut v = vec![]; for f in fields { v.push(self.constant(st, elem, f)); } Val::agg(0, v) } else { Val::SeqT { len: Lin::k(0), elem, last: None } } }
                _ => {
                    let mut v = vec![];
                    for (i, f) in fields.iter().enumerate() { let ft = self.field_ty(t, *variant, i).unwrap_or(t); v.push(self.constant(st, ft, f)); }
                    Val::agg(*variant, v)
                }
            },
            Const::Unknown => self.mk_top(st, t, "const"),
        }
    }
    fn first_int(&mut self, st: &mut State, t: TyId, c: &Const) -> Val {
        match c { Const::Int(i) => Val::k(*i), Const::Agg { fields, .. } if !fields.is_empty() => self.first_int(st, t, &fields[0]), _ => { let (lo, hi) = self.int_range(t); Val::Int(fresh_sym("c", lo, hi)) } }
    }
    fn const_array(&mut self, et: TyId, elems: &[Const]) -> Val {
        match &self.tk[et] {
            TK::Int { bits, .. } => { let w = (*bits / 8) as u8; let v = elems.iter().map(|e| if let Const::Int(i) = e { *i } else { 0 }).collect(); Val::seq(Lin::k(elems.len() as i128), mk_content(ContentKind::Const(v)), Lin::k(0), w) }
            _ => { let mut tmp = State::new(); Val::agg(0, elems.iter().map(|e| self.constant(&mut tmp, et, e)).collect()) }
        }
    }
    pub fn int_of(&mut self, v: &Val, t: Option<TyId>) -> Lin {
        match v {
            Val::Int(l) => l.clone(),
            Val::Bool(B::K(b)) => Lin::k(*b as i128),
            Val::Bool(B::Ge(l)) => { let x = l.addk(1); let (lo, hi) = x.range(); if lo == 0 && hi == 1 { x } else { fresh_sym("b", 0, 1) } }
            Val::Bool(_) => fresh_sym("b", 0, 1),
            Val::Agg(_, f) if f.len() == 1 => self.int_of(&f[0].clone(), t),
            _ => { let (lo, hi) = t.map(|t| self.int_range(t)).unwrap_or((-(1 << 100), 1 << 100)); fresh_sym("i", lo, hi) }
        }
    }
    pub fn bool_of(&self, v: &Val) -> B { match v { Val::Bool(b) => b.clone(), Val::Int(l) => B::bit(l.clone()), _ => B::bit(fresh_sym("b", 0, 1)) } }

    // ---------- rvalues ----------
    fn rvalue(&mut self, st: &mut State, r: &Rvalue, dest: &Place) -> Val {
        match r {
            Rvalue::Use(o) => self.operand(st, o),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o);
                let dt = self.resolve(st, dest).ty;
                match (&v, dt.map(|t| self.tk[t].clone())) {
                    (Val::Int(l), Some(TK::Seq { w, .. })) => Val::seq(Lin::k(*n as i128), mk_content(ContentKind::Fill(l.clone())), Lin::k(0), w),
                    (_, Some(TK::SeqT { elem, .. })) => if *n <= 8 { Val::agg(0, vec![v; *n as usize]) } else { Val::SeqT { len: Lin::k(*n as i128), elem, last: None } },
                    (_, Some(TK::Seq { w, .. })) => Val::seq(Lin::k(*n as i128), new_content("rep"), Lin::k(0), w),
                    _ => Val::Opaque,
                }
            }
            Rvalue::Ref { place, .. } | Rvalue::RawPtr { place } => {
                let t = self.resolve(st, place);
                let dt = t.ty;
                let slice = match dt.map(|x| self.ty(x)) { Some(Ty::Slice(_)) | Some(Ty::Str) => { let n = self.target_len(st, &t); Some(t.slice.clone().unwrap_or((Lin::k(0), n))) } _ => t.slice.clone() };
                Val::Ref(RefV { loc: t.loc, path: Rc::new(t.path), slice })
            }
            Rvalue::Cast { kind, op, from, to } => { let v = self.operand(st, op); self.cast(st, kind, v, *from, *to) }
            Rvalue::Bin { op, a, b, ty } => { let x = self.operand(st, a); let y = self.operand(st, b); self.binop(st, op, x, y, *ty) }
            Rvalue::Un { op, a, ty } => {
                let v = self.operand(st, a);
                match op.as_str() {
                    "Not" => match v { Val::Bool(b) => Val::Bool(b.not()), v => { let l = self.int_of(&v, Some(*ty)); match &self.tk[*ty] { TK::Int { signed: false, hi, .. } => Val::Int(Lin::k(*hi).sub(&l)), _ => Val::Int(l.neg().addk(-1)) } } },
                    "Neg" => { let l = self.int_of(&v, Some(*ty)); match &self.tk[*ty] { TK::Int { bits, signed, .. } => { let (b, s) = (*bits, *signed); Val::Int(self.wrap(st, &l.neg(), b, s)) } _ => Val::Int(l.neg()) } }
                    "PtrMetadata" => match v { Val::Ref(r) => match &r.slice { Some((_, l)) => Val::Int(l.clone()), None => { let t = Target { loc: r.loc, path: r.path.as_ref().clone(), slice: None, ty: None }; Val::Int(self.target_len(st, &t)) } }, _ => Val::Int(fresh_sym("meta", 0, self.isize_max)) },
                    _ => { self.warn(format!("unop {op}")); self.mk_top(st, *ty, "unop") }
                }
            }
            Rvalue::Discr(p, ty) => {
                // resolved by fork_discr before
                let v = self.read(st, p);
                self.discr_of(st, &v, *ty)
            }
            Rvalue::Agg { ty, variant, field, ops } => {
                let mut fs: Vec<Val> = vec![];
                for o in ops { fs.push(self.operand(st, o)); }
                match self.tk[*ty].clone() {
                    TK::CEnum { .. } => { let Ty::Adt { variants, .. } = self.ty(*ty) else { unreachable!() }; Val::k(variants[*variant].discr) }
                    TK::NonZero { .. } => fs.pop().unwrap_or(Val::Opaque),
                    TK::OptNonZero { .. } => if *variant == 0 { Val::k(0) } else { fs.pop().unwrap() },
                    TK::Opaque => Val::Opaque,
                    TK::Seq { w, .. } => {
                        if fs.iter().all(|f| f.as_int().and_then(|l| l.is_const()).is_some()) {
                            let v = fs.iter().map(|f| f.as_int().unwrap().is_const().unwrap()).collect();
                            Val::seq(Lin::k(ops.len() as i128), mk_content(ContentKind::Const(v)), Lin::k(0), w)
                        } else {
                            let mut c = mk_content(ContentKind::Fill(Lin::k(0)));
                            for (i, f) in fs.iter().enumerate() { let l = self.int_of(f, None); c = mk_content(ContentKind::Put { base: (c, Lin::k(0)), at: Lin::k(i as i128), val: l }); }
                            Val::seq(Lin::k(ops.len() as i128), c, Lin::k(0), w)
                        }
                    }
                    TK::Ref(_) => { // fat pointer from parts
                        match (fs.first(), fs.get(1)) { (Some(Val::Ref(r)), Some(Val::Int(l))) => { let mut r = r.clone(); let s = r.slice.as_ref().map(|x| x.0.clone()).unwrap_or(Lin::k(0)); r.slice = Some((s, l.clone())); Val::Ref(r) } _ => Val::Opaque }
                    }
                    TK::SeqT { elem, .. } => { if fs.len() <= 8 { Val::agg(0, fs) } else { Val::SeqT { len: Lin::k(fs.len() as i128), elem, last: None } } }
                    TK::Unknown => match field { Some(_) => Val::agg(0, fs), None => Val::agg(*variant, fs) },
                    _ => {
                        let v = Val::agg(*variant, fs);
                        self.spec_agg(st, *ty, *variant, &v);
                        v
                    }
                }
            }
            Rvalue::Other(s) => { self.warn(format!("rvalue {s}")); Val::Opaque }
        }
    }
    /// a failure comes into being where an error result is made of an error value
    fn spec_agg(&mut self, st: &mut State, ty: TyId, variant: usize, v: &Val) {
        if variant != 1 { return; }
        let Ty::Adt { path, .. } = self.ty(ty) else { return };
        if path != "std::result::Result" { return; }
        let Val::Agg(_, f) = v else { return };
        let (Some(Val::Agg(ev, _)), Some(et)) = (f.first(), self.field_ty(ty, 1, 0)) else { return };
        let Ty::Adt { path, variants, .. } = self.ty(et) else { return };
        if !matches!(path.as_str(), "ntfs::NtfsError" | "binrw::Error") && !path.ends_with("::NtfsError") { return; }
        // absence is not a failure; unknown attribute types are skipped where allowed
        if variants.get(*ev).map(|v| absence(&v.name)).unwrap_or(false) { return; }
        let soft = variants.get(*ev).map(|v| v.name == "UnsupportedAttributeType").unwrap_or(false);
        self.failed(st, soft);
    }
    pub fn fail(&mut self, st: &mut State) { self.failed(st, false) }
    /// iterating attributes yields those of unknown type, too
    pub fn pass_over(&self, st: &mut State, f: FnId) {
        let n = &self.p.fns[f].path;
        if n.contains("NtfsAttributes::") && n.ends_with("::next") && !st.pend.is_empty() && st.pend.iter().all(|i| self.fails[*i as usize].3) { st.pend = Rc::new(vec![]); }
    }
    /// the innermost failure of this call that was not reported yet
    fn failed(&mut self, st: &mut State, soft: bool) {
        let (f, line, _) = self.site();
        let k = (self.p.fns[f].path.clone(), line, self.p.fns[f].file.clone(), soft);
        let id = match self.fails.iter().position(|x| *x == k) { Some(i) => i, None => { self.fails.push(k.clone()); self.fails.len() - 1 } };
        let file = k.2.clone();
        let e = self.obs.entry((k.0, "failure not reported".into(), line)).or_insert_with(|| Ob { ok: true, n: 0, msg: String::new(), root: String::new(), line, file });
        e.n += 1;
        if st.pend.is_empty() || !soft && st.pend.iter().all(|i| self.fails[*i as usize].3) { st.pend = Rc::new(vec![id as u32]); }
    }
    /// does the result tell the caller about the failure?
    pub fn reported(&self, v: &Val, t: TyId) -> bool {
        let Ty::Adt { path, .. } = self.ty(t) else { return false };
        match (path.as_str(), v) {
            // a failure must not be passed off as absence
            ("std::result::Result", Val::Agg(1, f)) => !matches!((f.first(), self.field_ty(t, 1, 0)), (Some(e), Some(et)) if crate::join::is_error_ty(self.p, et) && crate::join::absent(self, e, et)),
            ("std::option::Option", Val::Agg(1, f)) | ("std::result::Result", Val::Agg(0, f)) => match (f.first(), self.field_ty(t, if path.ends_with("Option") { 1 } else { 0 }, 0)) { (Some(x), Some(t)) => self.reported(x, t), _ => false },
            _ => false,
        }
    }
    /// every failure of an API call is reported by its result
    pub fn check_reported(&mut self, st: &State, v: &Val, t: TyId) {
        if st.pend.is_empty() || self.reported(v, t) { return; }
        if std::env::var("LOST").is_ok() { eprintln!("LOST {} {} {:?}", self.root, show(v), st.pend.iter().map(|i| self.fails[*i as usize].clone()).collect::<Vec<_>>()); }
        for id in st.pend.iter() {
            let (path, line, file, _) = self.fails[*id as usize].clone();
            let root = self.root.clone();
            let e = self.obs.entry((path, "failure not reported".into(), line)).or_insert_with(|| Ob { ok: true, n: 0, msg: String::new(), root: String::new(), line, file });
            if e.ok { e.ok = false; e.msg = format!("{root} can fail here and yet return {}", show(v)); e.root = root; }
        }
    }
    fn discr_of(&mut self, st: &mut State, v: &Val, _ty: TyId) -> Val {
        match v {
            Val::Int(l) => Val::Int(l.clone()),
            Val::Agg(v, _) => Val::Agg(*v, Rc::new(vec![])),
            _ => { let _ = st; Val::Int(fresh_sym("discr", -(1 << 63), 1 << 63)) }
        }
    }
    pub fn wrap(&self, st: &State, l: &Lin, bits: u16, signed: bool) -> Lin {
        let (tl, th) = type_range(bits, signed);
        let (lo, hi) = st.cons.range(l);
        if lo >= tl && hi <= th { return l.clone(); }
        if st.cons.entails(&l.addk(-tl)) && st.cons.entails(&l.neg().addk(th)) { return l.clone(); }
        if bits < 127 {
            let m = 1i128 << bits;
            let l = unwrap_mod(l, bits);
            if st.cons.entails(&l.addk(-tl)) && st.cons.entails(&l.neg().addk(th)) { return l; }
            if st.cons.entails(&l.addk(-th - 1)) && st.cons.entails(&l.neg().addk(th + m)) { return l.addk(-m); }
            if st.cons.entails(&l.addk(-tl + m)) && st.cons.entails(&l.neg().addk(tl - 1)) { return l.addk(m); }
        }
        mk_wrap(l, bits, signed)
    }
    fn cast(&mut self, st: &mut State, kind: &str, v: Val, from: TyId, to: TyId) -> Val {
        if let Some(g) = kind.strip_prefix("FnPtr:") { return Val::agg(FNPTR + g.parse::<usize>().unwrap(), vec![]); }
        match kind {
            "IntToInt" => {
                let l = match &v { Val::Agg(vi, f) if f.is_empty() => match self.ty(from) { Ty::Adt { variants, .. } => Lin::k(variants[*vi].discr), _ => Lin::k(*vi as i128) }, _ => self.int_of(&v, Some(from)) };
                match self.tk[to].clone() {
                    TK::Int { bits, signed, lo, hi } => {
                        let w = self.wrap(st, &l, bits, signed);
                        if let (TK::Int { bits: fb, .. }, Some(f)) = (&self.tk[from], self.stack.last().map(|x| x.0)) {
                            // a reinterpretation of the same width is fine where its result is known
                            let known = *fb == bits && !w.as_atom().map(|a| matches!(atom_kind(a), AtomKind::Wrap(..))).unwrap_or(false);
                            if self.p.fns[f].krate == "ntfs" && !known { self.spec_cast(st, &l, lo, hi, from, to); }
                        }
                        Val::Int(w)
                    }
                    _ => Val::Int(l),
                }
            }
            k if k.contains("Unsize") => match v {
                Val::Ref(mut r) => {
                    match (self.ty(from), self.ty(to)) {
                        (Ty::Ref { to: ft, .. } | Ty::Ptr { to: ft, .. }, Ty::Ref { to: tt, .. } | Ty::Ptr { to: tt, .. }) => {
                            if let (Ty::Array { len, .. }, Ty::Slice(_)) = (self.ty(*ft), self.ty(*tt)) { r.slice = Some((Lin::k(0), Lin::k(*len as i128))); }
                        }
                        _ => {}
                    }
                    Val::Ref(r)
                }
                v => v,
            },
            "Transmute" => match (&v, &self.tk[to].clone()) {
                (Val::Ref(_), TK::Ref(_)) => v,
                (Val::Int(_), TK::Int { .. } | TK::CEnum { .. } | TK::NonZero { .. } | TK::OptNonZero { .. }) => v,
                (Val::Agg(_, f), TK::Ref(_)) if !f.is_empty() => { let mut x = v.clone(); while let Val::Agg(_, f) = &x { if f.is_empty() { break; } let y = f[0].clone(); x = y; } x }
                (Val::Agg(_, f), TK::Int { .. }) if f.len() == 1 => f[0].clone(),
                _ => { self.warn(format!("transmute {} -> {}", self.ty_name(from), self.ty_name(to))); self.mk_top(st, to, "transmute") }
            },
            "PointerExposeProvenance" => match &v {
                Val::Ref(r) => {
                    // address of the object plus the offset of the field
                    let fr = r.loc.fr as usize;
                    let mut t = st.frames.get(fr).and_then(|f| self.p.fns.get(f.f)).and_then(|f| f.body.as_ref()).map(|b| b.locals[r.loc.l as usize]);
                    let mut off = Some(0i128);
                    for e in r.path.iter() {
                        if let Some(Ty::Adt { path, args, .. }) = t.map(|t| self.ty(t)) { if path.ends_with("MaybeUninit") { t = args.first().copied(); } }
                        let o = match (t.map(|t| self.ty(t)), e) { (Some(Ty::Adt { variants, .. }), PE::F(i)) => variants[0].offs.get(*i as usize).map(|x| *x as i128), _ => None };
                        off = match (off, o) { (Some(a), Some(b)) => Some(a + b), _ => None };
                        t = match (t, e) { (Some(x), PE::F(i)) => self.field_ty(x, 0, *i as usize), _ => None };
                    }
                    match off { Some(o) => Val::Int(mk_fun(FUN_ADDR, vec![Lin::k(fr as i128), Lin::k(r.loc.l as i128)], 1 << 12, self.isize_max / 2).addk(o)), None => self.mk_top(st, to, "addr") }
                }
                _ => self.mk_top(st, to, "addr"),
            },
            k if k.starts_with("PtrToPtr") || k.starts_with("Pointer") || k.contains("Subtype") => v,
            _ => { self.warn(format!("cast {kind} {} -> {}", self.ty_name(from), self.ty_name(to))); self.mk_top(st, to, "cast") }
        }
    }
    fn spec_cast(&mut self, st: &mut State, l: &Lin, lo: i128, hi: i128, from: TyId, to: TyId) {
        if l.range().0 >= lo && l.range().1 <= hi { return; }
        let b = B::and(B::ge(l, &Lin::k(lo)), B::ge(&Lin::k(hi), l));
        let k = format!("lossy cast {} as {}", self.ty_name(from), self.ty_name(to));
        self.oblige(st, &k, &b);
    }
    pub fn binop(&mut self, st: &mut State, op: &str, x: Val, y: Val, ty: TyId) -> Val {
        // pointer / bool comparisons
        if let (Val::Bool(a), Val::Bool(b)) = (&x, &y) {
            let (a, b) = (a.clone(), b.clone());
            let iff = |a: B, b: B| match (&a, &b) { (B::K(true), _) => b, (_, B::K(true)) => a, (B::K(false), _) => b.not(), (_, B::K(false)) => a.not(), _ => B::or(B::and(a.clone(), b.clone()), B::and(a.not(), b.not())) };
            return Val::Bool(match op { "BitAnd" => B::and(a, b), "BitOr" => B::or(a, b), "Eq" => iff(a, b), "Ne" | "BitXor" => iff(a, b).not(), _ => { self.warn(format!("bool op {op}")); B::bit(fresh_sym("b", 0, 1)) } });
        }
        if matches!(x, Val::Ref(_)) || matches!(y, Val::Ref(_)) {
            return match op { "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => Val::Bool(B::bit(fresh_sym("ptrcmp", 0, 1))), _ => { self.warn(format!("ptr op {op}")); Val::Opaque } };
        }
        let (a, b) = (self.int_of(&x, Some(ty)), self.int_of(&y, Some(ty)));
        let (bits, signed) = match &self.tk[ty] { TK::Int { bits, signed, .. } => (*bits, *signed), TK::Bool => (8, false), _ => (64, false) };
        let (tl, th) = type_range(bits, signed);
        let inr = |l: &Lin| B::and(B::ge(l, &Lin::k(tl)), B::ge(&Lin::k(th), l));
        match op {
            "Add" | "AddUnchecked" => Val::Int(self.wrap(st, &a.add(&b), bits, signed)),
            "Sub" | "SubUnchecked" => Val::Int(self.wrap(st, &a.sub(&b), bits, signed)),
            "Mul" | "MulUnchecked" => { let r = self.mul(st, &a, &b); Val::Int(self.wrap(st, &r, bits, signed)) }
            "AddWithOverflow" => { let r = a.add(&b); let o = inr(&r).not(); Val::agg(0, vec![Val::Int(r), Val::Bool(o)]) }
            "SubWithOverflow" => { let r = a.sub(&b); let o = inr(&r).not(); Val::agg(0, vec![Val::Int(r), Val::Bool(o)]) }
            "MulWithOverflow" => { let r = self.mul(st, &a, &b); let o = inr(&r).not(); Val::agg(0, vec![Val::Int(r), Val::Bool(o)]) }
            "Div" => if signed && st.cons.range(&a).0 < 0 { Val::Int(self.sdiv(&a, &b, tl, th)) } else { Val::Int(self.div(st, &a, &b)) },
            "Rem" => if signed && st.cons.range(&a).0 < 0 { Val::Int(mk_rem(&a, &b)) } else { Val::Int(self.rem(st, &a, &b)) },
            "BitAnd" => Val::Int(self.bitand(st, &a, &b, tl, th)),
            "BitOr" => Val::Int(self.bitor(st, &a, &b, tl, th, bits)),
            "BitXor" => Val::Int(mk_bit('^', &a, &b, tl, th)),
            "Shl" | "ShlUnchecked" => {
                let r = match b.is_const() { Some(k) if (0..126).contains(&k) => a.scale(1i128 << k), _ => { let p = self.pow2(st, &b); self.mul(st, &a, &p) } };
                Val::Int(self.wrap(st, &r, bits, signed))
            }
            "Shr" | "ShrUnchecked" => match b.is_const() {
                Some(k) if (0..126).contains(&k) => Val::Int(mk_quot(&a, 1i128 << k)),
                _ => Val::Int(if st.cons.range(&a).0 >= 0 { mk_div(&a, &mk_pow2(&b)) } else { mk_fun(FUN_SHR, vec![a.clone(), b.clone()], tl, th) }),
            },
            "Eq" => Val::Bool(B::eq(&a, &b)),
            "Ne" => Val::Bool(B::eq(&a, &b).not()),
            "Lt" => Val::Bool(B::lt(&a, &b)),
            "Le" => Val::Bool(B::ge(&b, &a)),
            "Gt" => Val::Bool(B::lt(&b, &a)),
            "Ge" => Val::Bool(B::ge(&a, &b)),
            "Cmp" => Val::Int(self.cmp3(st, &a, &b)),
            _ => { self.warn(format!("binop {op}")); Val::Int(fresh_sym("op", tl, th)) }
        }
    }
    /// -1 / 0 / 1 (as a derived term)
    pub fn cmp3(&mut self, st: &State, a: &Lin, b: &Lin) -> Lin {
        let d = a.sub(b);
        let (lo, hi) = st.cons.range(&d);
        if lo > 0 { return Lin::k(1); } if hi < 0 { return Lin::k(-1); } if lo == 0 && hi == 0 { return Lin::k(0); }
        mk_fun(FUN_SGN, vec![d], -1, 1)
    }
    fn sdiv(&mut self, a: &Lin, b: &Lin, tl: i128, th: i128) -> Lin { if let (Some(x), Some(y)) = (a.is_const(), b.is_const()) { if y != 0 { return Lin::k(x / y); } } mk_fun(FUN_SDIV, vec![a.clone(), b.clone()], tl, th) }
    pub fn mul(&self, st: &mut State, a: &Lin, b: &Lin) -> Lin {
        let r = mk_mul(a, b);
        if let Some(at) = r.as_atom() {
            if !matches!(atom_kind(at), AtomKind::Mul(..)) { return r; }
            let ((al, ah), (bl, bh)) = (st.cons.range(a), st.cons.range(b));
            let ps = [al.saturating_mul(bl), al.saturating_mul(bh), ah.saturating_mul(bl), ah.saturating_mul(bh)];
            let (lo, hi) = (*ps.iter().min().unwrap(), *ps.iter().max().unwrap());
            let (l0, h0) = st.cons.bound(at);
            if lo > l0 { st.cons.add(r.addk(-lo)); }
            if hi < h0 { st.cons.add(r.neg().addk(hi)); }
            if al >= 0 && bl >= 1 { st.cons.add(r.sub(a)); }
            if bl >= 0 && al >= 1 { st.cons.add(r.sub(b)); }
        }
        r
    }
    pub fn pow2(&self, st: &mut State, b: &Lin) -> Lin {
        let r = mk_pow2(b);
        if let Some(at) = r.as_atom() {
            let (bl, bh) = st.cons.range(b);
            let f = |v: i128| 1i128 << v.clamp(0, 125);
            let (l0, h0) = st.cons.bound(at);
            if f(bl) > l0 { st.cons.add(r.addk(-f(bl))); }
            if f(bh) < h0 { st.cons.add(r.neg().addk(f(bh))); }
        }
        r
    }
    pub fn div(&self, st: &State, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = b.is_const() { if k > 0 && (st.cons.range(a).0 >= 0 || st.cons.entails(a)) { return mk_quot(a, k); } }
        mk_div(a, b)
    }
    pub fn rem(&self, st: &State, a: &Lin, b: &Lin) -> Lin {
        if let Some(k) = b.is_const() { if k > 0 && (st.cons.range(a).0 >= 0 || st.cons.entails(a)) { return a.sub(&mk_quot(a, k).scale(k)); } }
        mk_rem(a, b)
    }
    fn bitand(&mut self, st: &State, a: &Lin, b: &Lin, tl: i128, th: i128) -> Lin {
        for (p, q) in [(a, b), (b, a)] {
            if let Some(m) = q.is_const() {
                if tl == 0 && m >= 0 {
                    let inv = th - m;
                    // mask of high bits: x & !(2^k-1)
                    if inv > 0 && (inv & (inv + 1)) == 0 && st.cons.range(p).0 >= 0 { return mk_quot(p, inv + 1).scale(inv + 1); }
                }
            }
        }
        mk_bit('&', a, b, tl, th)
    }
    fn bitor(&mut self, st: &State, a: &Lin, b: &Lin, tl: i128, th: i128, _bits: u16) -> Lin {
        for (p, q) in [(a, b), (b, a)] {
            let (lo, hi) = st.cons.range(q);
            if lo >= 0 && !p.t.is_empty() {
                // p multiple of 2^k, q < 2^k
                let mut g = p.c; for (_, k) in &p.t { g = gcd(g, *k); }
                if g > 0 { let low = g & g.wrapping_neg(); if hi < low { return p.add(q); } }
            }
        }
        mk_bit('|', a, b, tl, th)
    }

    // ---------- functions ----------
    pub fn cfg(&mut self, f: FnId) -> Rc<Cfg> {
        if let Some(c) = self.cfgs.get(&f) { return c.clone(); }
        let c = Rc::new(mk_cfg(self.p.fns[f].body.as_ref().unwrap()));
        self.cfgs.insert(f, c.clone());
        c
    }

    pub fn call(&mut self, st: State, f: FnId, args: Vec<Val>) -> Ret {
        if self.mon.is_some() { if let Some(ev) = self.watched(&st, f) { return self.mon_call(st, f, args, ev); } }
        self.call_inner(st, f, args)
    }
    pub fn binop_and(&mut self, st: &State, l: &Lin, m: i128) -> Lin { self.bitand(st, l, &Lin::k(m), 0, m) }
    pub fn call_inner(&mut self, mut st: State, f: FnId, mut args: Vec<Val>) -> Ret {
        if let Some(r) = self.model(&mut st, f, &args) { return r; }
        let fun = &self.p.fns[f];
        if let Some(b) = &fun.body {
            if self.stack.len() > 60 || self.stack.iter().filter(|x| x.0 == f).count() > 1 {
                self.warn(format!("recursion {}", fun.path));
                return self.havoc(st, f, &args);
            }
            // closure bodies receive their arguments spread
            if (fun.path.ends_with("}") && fun.path.contains("{closure#")) && fun.kind == "item" && args.len() == 2 {
                if let Val::Agg(_, fs) = args.pop().unwrap() { args.extend(fs.iter().cloned()); }
            }
            if args.len() != b.arg_count { self.warn(format!("arity {} {} vs {}", fun.path, args.len(), b.arg_count)); }
            if self.stack.len() > (if self.fine && self.active.is_empty() { self.depth } else { 0 }) && self.root_of.contains_key(&f) && self.heavy(f) { return self.call_root(st, f, args); }
            return self.exec(st, f, args);
        }
        self.warn(format!("no model: {} [{}]", fun.path, fun.kind));
        self.havoc(st, f, &args)
    }
    pub fn havoc(&mut self, mut st: State, f: FnId, args: &[Val]) -> Ret {
        let fun = &self.p.fns[f];
        for (i, a) in args.iter().enumerate() {
            if let Val::Ref(r) = a {
                let t = fun.inputs.get(i).copied();
                if let Some(Ty::Ref { m: true, to }) = t.map(|t| self.ty(t)) { let v = self.mk_top(&mut st, *to, "havoc"); if !matches!(self.ty(*to), Ty::Slice(_) | Ty::Str) { self.store(&mut st, r, v); } }
            }
        }
        let v = self.mk_top(&mut st, fun.output, "ret");
        vec![(st, v)]
    }
    pub fn exec(&mut self, mut st: State, f: FnId, args: Vec<Val>) -> Ret {
        let t0 = std::time::Instant::now();
        let p = self.p;
        let body = p.fns[f].body.as_ref().unwrap();
        let cfg = self.cfg(f);
        let mut vals = vec![Val::Uninit; body.locals.len()];
        for (i, a) in args.into_iter().enumerate() { if i + 1 < vals.len() { vals[i + 1] = a; } }
        st.frames.push(Rc::new(Frame { f, vals }));
        self.stack.push((f, p.fns[f].line));
        let mut rets: Vec<State> = vec![];
        let mut outs = self.run_scope(f, body, &cfg, None, vec![(0, st)], &mut rets);
        debug_assert!(outs.is_empty());
        outs.clear();
        self.stack.pop();
        let mut r: Ret = vec![];
        for mut s in rets {
            if let Ok(x) = std::env::var("RETS") { if p.fns[f].path.contains(&x) { eprintln!("RET {} = {}", p.fns[f].path, show(&s.frames.last().unwrap().vals[0])); for c in s.cons.all() { eprintln!("     {} >= 0", c.show()); } } }
            gc(&mut s, 24);
            let fr = s.frames.pop().unwrap();
            r.push((s, fr.vals[0].clone()));
        }
        let out_ty = p.fns[f].output;
        let r = self.merge_rets(r, if self.ty_is_unit_like(out_ty) && body.locals.is_empty() { None } else { Some(body.locals[0]) });
        let e = self.prof.entry(f).or_default(); e.0 += 1; e.1 += t0.elapsed(); if let Some(c) = self.stack.last() { *self.fsteps.entry((c.0, f)).or_insert(0) += t0.elapsed().as_micros() as u64; }
        r
    }
    fn ty_is_unit_like(&self, t: TyId) -> bool { matches!(self.tk[t], TK::Zst) }
    fn merge_rets(&mut self, r: Ret, ty: Option<TyId>) -> Ret {
        if r.len() <= 1 { return r; }
        // put the value in a scratch frame so that it takes part in shape and join
        let mut all: Vec<State> = r.into_iter().map(|(mut s, v)| { s.frames.push(Rc::new(Frame { f: usize::MAX, vals: vec![v] })); s }).collect();
        for level in 0..4 {
            if level > 0 && all.len() <= (if level == 3 { 16 } else { 10 }).max(self.k_ret) { break; }
            let mut groups: Vec<(u64, Vec<State>)> = vec![];
            for s in all { let k = shape_l(self, &s, ty, level); match groups.iter_mut().find(|g| g.0 == k) { Some(g) => g.1.push(s), None => groups.push((k, vec![s])) } }
            all = vec![];
            for (_, g) in groups {
                let err = ty.map(|t| self.is_err(&g[0], t)).unwrap_or(false);
                if level > 0 && g.len() > 1 || g.len() > self.k_ret || (err && g.len() > 1 && !(self.fine && self.active.is_empty())) { all.push(self.join_all(g, ty)) } else { all.extend(g) };
            }
        }
        let mut out = vec![];
        for mut s in all { let fr = s.frames.pop().unwrap(); out.push((s, fr.vals[0].clone())); }
        out
    }
    /// drop exact duplicates
    fn dedupe(&mut self, g: Vec<State>, _ty: Option<TyId>) -> Vec<State> { g }
    fn is_err(&self, s: &State, t: TyId) -> bool {
        let Ty::Adt { path, .. } = self.ty(t) else { return false };
        let v = &s.frames.last().unwrap().vals[0];
        match (path.as_str(), v) { ("std::result::Result", Val::Agg(1, _)) => true, ("std::option::Option", Val::Agg(1, f)) => match (&f[0], self.field_ty(t, 1, 0)) { (Val::Agg(1, _), Some(t2)) => matches!(self.ty(t2), Ty::Adt { path, .. } if path == "std::result::Result"), _ => false }, ("std::ops::ControlFlow", Val::Agg(1, _)) => true, _ => false }
    }
    pub fn join_all(&mut self, g: Vec<State>, ret_ty: Option<TyId>) -> State {
        let mut it = g.into_iter();
        let mut a = it.next().unwrap();
        for b in it { a = join(self, &a, &b, ret_ty, false); }
        a
    }

    fn run_scope(&mut self, f: FnId, body: &'static Body, cfg: &Rc<Cfg>, scope: Option<usize>, init: Vec<(usize, State)>, rets: &mut Vec<State>) -> Vec<(usize, State)> {
        let mut pend: BTreeMap<usize, (usize, Vec<State>)> = BTreeMap::new();
        let mut out = vec![];
        for (b, s) in init { pend.entry(cfg.rpo[b]).or_insert((b, vec![])).1.push(s); }
        while let Some((_, (b, mut states))) = pend.pop_first() {
            for s in &mut states { for l in &cfg.kill[b] { s.set(*l, Val::Uninit); } }
            let inner = match cfg.head_of.get(&b) { Some(l) if Some(*l) != scope => Some(*l), _ => None };
            let mut push = |b2: usize, s: State, pend: &mut BTreeMap<usize, (usize, Vec<State>)>, out: &mut Vec<(usize, State)>| {
                let outside = match scope { Some(l) => !cfg.loops[l].body.contains(&b2) || b2 == cfg.loops[l].head, None => false };
                if outside { out.push((b2, s)) } else { pend.entry(cfg.rpo[b2]).or_insert((b2, vec![])).1.push(s) }
            };
            if let Some(l) = inner {
                if self.unroll > 0 && self.active.is_empty() {
                    let head = cfg.loops[l].head;
                    for _ in 0..self.unroll {
                        if states.is_empty() { break; }
                        let outs = self.run_scope(f, body, cfg, Some(l), states.into_iter().map(|s| (head, s)).collect(), rets);
                        states = vec![];
                        for (b2, mut s) in outs { if b2 == head { for x in &cfg.kill[head] { s.set(*x, Val::Uninit); } states.push(s) } else { push(b2, s, &mut pend, &mut out) } }
                    }
                    if states.is_empty() { continue; }
                }
                let exits = self.stabilise(f, body, cfg, l, states, rets);
                for (b2, s) in exits { push(b2, s, &mut pend, &mut out); }
                continue;
            }
            if states.len() > 1 { states = self.merge_states(states, self.k_join); }
            for s in states {
                for (b2, s2) in self.exec_block(f, body, b, s, rets) { push(b2, s2, &mut pend, &mut out); }
            }
        }
        out
    }
    fn merge_states(&mut self, states: Vec<State>, k: usize) -> Vec<State> {
        let mut states = states;
        for s in &mut states { clip(self, s, None); gc(s, 24); }
        let mut out = states;
        for level in 0..3 {
            if level > 0 && out.len() <= 12.max(self.k_join) { break; }
            let mut groups: Vec<(u64, Vec<State>)> = vec![];
            for s in out { let key = shape_l(self, &s, None, level); match groups.iter_mut().find(|g| g.0 == key) { Some(g) => g.1.push(s), None => groups.push((key, vec![s])) } }
            out = vec![];
            for (_, g) in groups { if g.len() > if level > 0 { 1 } else { k } { out.push(self.join_all(g, None)); } else { out.extend(g); } }
        }
        if out.len() > 40 { self.warn(format!("{} shapes at a point of {}", out.len(), self.stack.last().map(|x| self.p.fns[x.0].path.clone()).unwrap_or_default())); }
        out
    }
    fn stabilise(&mut self, f: FnId, body: &'static Body, cfg: &Rc<Cfg>, l: usize, entry: Vec<State>, rets: &mut Vec<State>) -> Vec<(usize, State)> {
        struct Inv { key: u64, st: State, dirty: bool, exits: Vec<(usize, State)>, rets: Vec<State>, n: u32 }
        let head = cfg.loops[l].head;
        let mut invs: Vec<Inv> = vec![];
        for mut s in self.merge_states(entry, 1) { gc_now(&mut s); let key = shape(self, &s, None); invs.push(Inv { key, st: s, dirty: true, exits: vec![], rets: vec![], n: 0 }); }
        let mut rounds = 0;
        while let Some(i) = invs.iter().position(|x| x.dirty) {
            rounds += 1;
            if rounds > 200 { self.warn(format!("loop did not stabilise in {}", self.p.fns[f].path)); break; }
            invs[i].dirty = false;
            let s = invs[i].st.clone();
            let mut my = vec![];
            let outs = self.run_scope(f, body, cfg, Some(l), vec![(head, s)], &mut my);
            invs[i].rets = my;
            let (backs, exits): (Vec<_>, Vec<_>) = outs.into_iter().partition(|x| x.0 == head);
            invs[i].exits = exits;
            let mut bs: Vec<State> = backs.into_iter().map(|x| x.1).collect();
            for s in &mut bs { for l in &cfg.kill[head] { s.set(*l, Val::Uninit); } }
            for mut b in bs {
                clip(self, &mut b, None);
                let key = shape(self, &b, None);
                match invs.iter().position(|x| x.key == key) {
                    Some(j) => {
                        if leq(self, &b, &invs[j].st) { continue; }
                        invs[j].n += 1;
                        let w = if invs[j].n > 12 { self.warn(format!("forced widening in {}", self.p.fns[f].path)); 2 } else if invs[j].n > 1 { 1 } else { 0 };
                        let cur = invs[j].st.clone();
                        self.plain_phi = invs[j].n > 6;
                        let mut ns = join_w(self, &cur, &b, None, w); self.plain_phi = false; gc_now(&mut ns); invs[j].st = ns;
                        invs[j].dirty = true;
                        if std::env::var("LOOPS").is_ok() { eprintln!("loop {} bb{} n={} w={}", self.p.fns[f].path, head, invs[j].n, w); }
                    }
                    None => { gc_now(&mut b); invs.push(Inv { key, st: b, dirty: true, exits: vec![], rets: vec![], n: 0 }) }
                }
            }
        }
        let mut out = vec![];
        for i in invs { out.extend(i.exits); rets.extend(i.rets); }
        out
    }

    fn exec_block(&mut self, f: FnId, body: &'static Body, b: usize, st: State, rets: &mut Vec<State>) -> Vec<(usize, State)> {
        let blk = &body.blocks[b];
        self.steps += 1;
        if self.aborted { return vec![]; }
        if self.steps % 64 == 0 { if let Some(d) = self.deadline { if std::time::Instant::now() > d { self.aborted = true; return vec![]; } } }
        if self.limit > 0 && self.steps % 1000 == 0 && self.t0.elapsed().as_secs() > self.limit { crate::report(self); eprintln!("LIMIT"); std::process::exit(4); }
        if self.trace { eprintln!("{}bb{} of {}", " ".repeat(self.stack.len()), b, self.p.fns[f].path); }
        if std::env::var("CHK").is_ok() { if let Some((i, k, l)) = dangling(&st) { eprintln!("dangling frame {} {} local {} -> {:?} at bb{} stack {:?}", i, if st.frames[i].f < usize::MAX / 2 { self.p.fns[st.frames[i].f].name.clone() } else { "-".into() }, k, l, b, self.stack.iter().map(|x| self.p.fns[x.0].name.clone()).collect::<Vec<_>>()); std::process::exit(5); } }
        let mut states = vec![st];
        for (s, line) in &blk.stmts {
            self.stack.last_mut().unwrap().1 = *line;
            let mut next = vec![];
            for mut st in states {
                match s {
                    Stmt::Assign(p, Rvalue::Discr(q, ty)) => {
                        for (mut s2, v) in self.fork_discr(st, q, *ty) { self.write(&mut s2, p, v); next.push(s2); }
                        continue;
                    }
                    Stmt::Assign(p, r) => { let v = self.rvalue(&mut st, r, p); self.write(&mut st, p, v); }
                    Stmt::SetDiscr(p, v) => { let cur = self.read(&mut st, p); let t = self.resolve(&mut st, p); let nv = match (cur, t.ty.map(|t| self.tk[t].clone())) { (_, Some(TK::CEnum { .. })) => Val::k(*v as i128), (Val::Agg(_, f), _) => Val::Agg(*v, f), _ => match t.ty { Some(ty) => self.mk_variant(&mut st, ty, *v, "sd"), None => Val::Opaque } }; self.write(&mut st, p, nv); }
                    Stmt::Live(l) | Stmt::Dead(l) => st.set(*l, Val::Uninit),
                    Stmt::Assume(o) => { let v = self.operand(&mut st, o); let c = self.bool_of(&v); next.extend(self.assume(st, &c, true)); continue; }
                }
                next.push(st);
            }
            states = next;
        }
        self.stack.last_mut().unwrap().1 = blk.line;
        let mut out = vec![];
        for mut st in states {
            self.stack.last_mut().unwrap().1 = blk.line;
            match &blk.term {
                Term::Goto(t) => out.push((*t, st)),
                Term::Drop { target, .. } => out.push((*target, st)),
                Term::Return => rets.push(st),
                Term::Unreachable => { if self.p.fns[f].krate == "ntfs" && false { self.unreachable_site(&mut st, "unreachable"); } }
                Term::Resume => {}
                Term::Switch { discr, ty, targets, otherwise } => {
                    let v = self.operand(&mut st, discr);
                    match &self.tk[*ty] {
                        TK::Bool => {
                            let c = self.bool_of(&v);
                            let mut rest = st;
                            let mut handled = [false; 2];
                            for (val, t) in targets { handled[(*val != 0) as usize] = true; for s in self.assume(rest.clone(), &c, *val != 0) { out.push((*t, s)); } }
                            for (i, h) in handled.iter().enumerate() { if !h { for s in self.assume(std::mem::replace(&mut rest, State::new()), &c, i != 0) { out.push((*otherwise, s)); } break; } }
                        }
                        _ => {
                            let l = self.int_of(&v, Some(*ty));
                            let tr = |val: u128| -> i128 { match self.ty(*ty) { Ty::Int { bits, signed: true, .. } => { let sh = 128 - *bits as u32; ((val << sh) as i128) >> sh } _ => val as i128 } };
                            if let Some(c) = l.is_const() {
                                let t = targets.iter().find(|x| tr(x.0) == c).map(|x| x.1).unwrap_or(*otherwise);
                                out.push((t, st));
                                continue;
                            }
                            let mut rest = vec![st];
                            for (val, t) in targets {
                                let c = self.sgn_cond(&l, tr(*val));
                                let mut nr = vec![];
                                for s in rest { for x in self.assume(s.clone(), &c, true) { out.push((*t, x)); } nr.extend(self.assume(s, &c, false)); }
                                rest = nr;
                            }
                            for s in rest { out.push((*otherwise, s)); }
                        }
                    }
                }
                Term::Assert { cond, expected, msg, target } => {
                    let v = self.operand(&mut st, cond);
                    let mut c = self.bool_of(&v);
                    if !*expected { c = c.not(); }
                    let kind = match msg { AssertMsg::Bounds { .. } => "index out of bounds".to_string(), AssertMsg::Overflow(o, ..) => format!("overflow {o}"), AssertMsg::OverflowNeg(_) => "overflow Neg".into(), AssertMsg::DivZero => "division by zero".into(), AssertMsg::RemZero => "remainder by zero".into(), AssertMsg::Other(_) => { out.push((*target, st)); continue } };
                    self.oblige(&mut st, &kind, &c);
                    for s in self.assume(st, &c, true) { out.push((*target, s)); }
                }
                Term::Call { callee, args, dest, target } => {
                    let mut vs = vec![];
                    for a in args { vs.push(self.operand(&mut st, a)); }
                    let r: Ret = match callee {
                        Callee::Fn(g) => { self.spec_call(&mut st, *g, &vs); self.call(st, *g, vs) }
                        Callee::Indirect(o) => {
                            // a known function behind a pointer
                            let known = match self.operand(&mut st, o) { Val::Agg(k, fs) if k >= FNPTR && fs.is_empty() => Some(k - FNPTR), _ => None };
                            if let Some(g) = known {
                                let vs = if self.p.fns[g].name.contains("{closure") || self.p.fns[g].path.contains("{closure#") { vec![Val::Opaque, Val::agg(0, vs)] } else { vs };
                                let r = self.call(st, g, vs);
                                if let Some(t) = target { for (mut s, v) in r { self.write(&mut s, dest, v); out.push((*t, s)); } }
                                continue;
                            }
                            // user-supplied function pointer or closure through a pointer
                            let t = self.resolve(&mut st, dest).ty;
                            let v = match t { Some(t) => self.mk_top(&mut st, t, "indirect"), None => Val::Opaque };
                            vec![(st, v)]
                        }
                    };
                    if let Some(t) = target { for (mut s, v) in r { self.write(&mut s, dest, v); out.push((*t, s)); } }
                }
            }
        }
        out
    }
    fn spec_call(&mut self, _st: &mut State, _g: FnId, _args: &[Val]) {}
    /// condition l == val, with three-way comparisons resolved
    pub fn sgn_cond(&self, l: &Lin, val: i128) -> B {
        if let Some(a) = l.as_atom() {
            if let AtomKind::Fun(FUN_SGN, xs) = atom_kind(a) {
                return match val { -1 => B::Ge(xs[0].neg().addk(-1)), 0 => B::Eq(xs[0].clone()), 1 => B::Ge(xs[0].addk(-1)), _ => B::K(false) };
            }
        }
        B::eq(l, &Lin::k(val))
    }
    fn fork_discr(&mut self, mut st: State, q: &Place, ty: TyId) -> Vec<(State, Val)> {
        let _ = ty;
        let t = self.resolve(&mut st, q);
        let v = self.get_path(&mut st, t.loc, &t.path);
        let ety = match (&v, t.ty) { (Val::Top(x), _) => *x, (_, Some(x)) => x, _ => return vec![(st, Val::Int(fresh_sym("discr", 0, 1 << 62)))] };
        match (&v, self.tk[ety].clone()) {
            (Val::Int(l), TK::OptNonZero { .. }) => {
                let c = B::eq(l, &Lin::k(0));
                let mut r = vec![];
                for s in self.assume(st.clone(), &c, true) { r.push((s, Val::k(0))); }
                for s in self.assume(st, &c, false) { r.push((s, Val::k(1))); }
                r
            }
            (Val::Int(l), _) => vec![(st, Val::Int(l.clone()))],
            (Val::Agg(vi, _), _) => { let d = match self.ty(ety) { Ty::Adt { variants, .. } => variants[*vi].discr, _ => *vi as i128 }; vec![(st, Val::k(d))] }
            (_, TK::Enum) => {
                let Ty::Adt { variants, .. } = self.ty(ety) else { unreachable!() };
                let mut r = vec![];
                for i in 0..variants.len() {
                    if self.uninhabited(ety, i) { continue; }
                    // this error is no mere absence
                    if !st.pend.is_empty() && crate::join::is_error_ty(self.p, ety) && absence(&variants[i].name) { continue; }
                    for (mut s, nv) in self.instances(st.clone(), ety, Some(i), "var") {
                        self.put_path(&mut s, t.loc, &t.path.clone(), nv);
                        r.push((s, Val::k(variants[i].discr)));
                    }
                }
                r
            }
            _ => { if !matches!(v, Val::Opaque) { self.warn(format!("discr of {} : {}", show(&v), self.ty_name(ety))); } 
                match self.ty(ety) { Ty::Adt { variants, .. } if !variants.is_empty() => {
                    let mut r = vec![];
                    for i in 0..variants.len() {
                        if self.uninhabited(ety, i) { continue; }
                        r.push((st.clone(), Val::k(variants[i].discr)));
                    }
                    r }
                    _ => vec![(st, Val::Int(fresh_sym("discr", 0, 1 << 62)))] } }
        }
    }
    fn uninhabited(&self, t: TyId, v: usize) -> bool {
        let Ty::Adt { variants, .. } = self.ty(t) else { return false };
        variants[v].fields.iter().any(|(_, ft)| matches!(self.ty(*ft), Ty::Never) || matches!(self.ty(*ft), Ty::Adt { kind: AdtKind::Enum, variants, .. } if variants.is_empty()))
    }

    // ---------- instances of types by inferred invariants ----------
    pub fn instances(&mut self, mut st: State, t: TyId, variant: Option<usize>, name: &str) -> Ret {
        let vs: Vec<usize> = match (variant, &self.tk[t], self.ty(t)) {
            (Some(v), _, _) => vec![v],
            (None, TK::Enum, Ty::Adt { variants, .. }) => (0..variants.len()).filter(|v| !self.uninhabited(t, *v)).collect(),
            _ => { let v = self.mk_top(&mut st, t, name); return vec![(st, v)] }
        };
        vs.into_iter().map(|v| { let mut s = st.clone(); let x = self.mk_variant(&mut s, t, v, name); (s, x) }).filter(|x| !x.0.cons.obviously_false()).collect()
    }
    /// single instance used where a fork is not possible
    pub fn instance1(&mut self, st: &mut State, t: TyId, name: &str) -> Val { self.mk_top(st, t, name) }
}

/// absence is not a failure
pub fn absence(variant: &str) -> bool { variant == "AttributeNotFound" }
fn const_ints(c: &Const, v: &mut Vec<i128>) { match c { Const::Int(i) => v.push(*i), Const::Agg { fields, .. } => for f in fields { const_ints(f, v) }, _ => {} } }
/// arithmetic shift to the right
pub const FUN_SHR: u32 = 20;
pub const FUN_ADDR: u32 = 21;
pub const FUN_SGN: u32 = 1;
pub const FUN_SDIV: u32 = 6;
pub const FUN_NZ: u32 = 7;
pub const FUN_POS: u32 = 8;

pub fn shorten(s: &str) -> String { s.replace("std::", "").replace("core::", "") }

pub fn dump_cons(st: &State, b: &B) -> String {
    let mut v = vec![]; b.lins(&mut v);
    let mut atoms: BTreeSet<Atom> = v.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
    let mut s = String::new();
    for _ in 0..3 {
        let mut more = BTreeSet::new();
        let all = v.is_empty();
    for c in st.cons.all() { if c.t.iter().any(|x| atoms.contains(&x.0)) { for x in &c.t { more.insert(x.0); } } }
        atoms.extend(more);
    }
    let all = v.is_empty();
    for c in st.cons.all() { if all || c.t.iter().any(|x| atoms.contains(&x.0)) { s.push_str(&format!("\n      {} >= 0", c.show())); } }
    s
}

pub fn type_name(p: &Program, t: TyId) -> String {
    match &p.types[t] {
        Ty::Int { bits, signed, ptr } => if *ptr { if *signed { "isize".into() } else { "usize".into() } } else { format!("{}{}", if *signed { "i" } else { "u" }, bits) },
        Ty::Bool => "bool".into(), Ty::Char => "char".into(), Ty::Str => "str".into(),
        Ty::Adt { path, args, .. } => if args.is_empty() { path.clone() } else { format!("{}<{}>", path, args.iter().map(|a| type_name(p, *a)).collect::<Vec<_>>().join(",")) },
        Ty::Ref { m, to } => format!("&{}{}", if *m { "mut " } else { "" }, type_name(p, *to)),
        Ty::Ptr { to, .. } => format!("*{}", type_name(p, *to)),
        Ty::Slice(e) => format!("[{}]", type_name(p, *e)),
        Ty::Array { elem, len } => format!("[{};{}]", type_name(p, *elem), len),
        Ty::Tuple(v) => format!("({})", v.iter().map(|a| type_name(p, *a)).collect::<Vec<_>>().join(",")),
        t => format!("{t:?}").chars().take(40).collect(),
    }
}

pub fn put(slot: &mut Val, path: &[PE], v: Val) {
    if path.is_empty() { *slot = v; return; }
    match (&mut *slot, &path[0]) {
        (Val::Agg(_, f), PE::F(i)) => { let f = Rc::make_mut(f); while f.len() <= *i as usize { f.push(Val::Uninit); } put(&mut f[*i as usize], &path[1..], v) }
        (Val::Agg(_, f), PE::At(l)) => { let f = Rc::make_mut(f); if let Some(c) = l.is_const() { if (c as usize) < f.len() { return put(&mut f[c as usize], &path[1..], v); } } for x in f.iter_mut() { *x = Val::Opaque; } }
        (Val::Seq(s), PE::At(l)) => {
            let s2 = Rc::make_mut(s);
            if let Val::Int(x) = v { let at = s2.off.add(l); s2.c = mk_content(ContentKind::Put { base: (s2.c, Lin::k(0)), at, val: x }); } else { s2.c = new_content("put"); s2.off = Lin::k(0); }
        }
        (Val::SeqT { last, .. }, PE::Last) => { match last { Some(x) => put(Rc::make_mut(x), &path[1..], v), None => if path.len() == 1 { *last = Some(Rc::new(v)) } } }
        (Val::Int(_), PE::F(_)) => put(slot, &path[1..], v),
        (Val::Uninit, PE::F(i)) => { let mut f = vec![Val::Uninit; *i as usize + 1]; put(&mut f[*i as usize], &path[1..], v); *slot = Val::agg(0, f); }
        _ => {}
    }
}

/// resolve a read through overlays using the constraints
pub fn read_content(c: &crate::solver::Cons, mut content: ContentId, mut off: Lin, width: u8, signed: bool, be: bool, lo: i128, hi: i128) -> Lin {
    loop {
        match content_kind(content) {
            ContentKind::Overlay { base, start, len, src } => {
                let d = off.sub(&start);
                if c.entails(&d) && c.entails(&len.sub(&d).addk(-(width as i128))) { content = src.0; off = src.1.add(&d); continue; }
                if c.entails(&start.sub(&off).addk(-(width as i128))) || c.entails(&d.sub(&len)) { content = base.0; off = base.1.add(&off); continue; }
                break;
            }
            ContentKind::Put { base, at, val } => {
                let d = off.sub(&at);
                if width == 1 && d.is_const() == Some(0) { return val; }
                if width == 1 && c.entails_eq(&d) { return val; }
                if c.entails(&d.addk(-1)) || c.entails(&d.neg().addk(-(width as i128))) { content = base.0; off = base.1.add(&off); continue; }
                break;
            }
            _ => break,
        }
    }
    mk_read(content, off, width, signed, be, lo, hi)
}

pub fn mk_cfg(body: &Body) -> Cfg {
    let n = body.blocks.len();
    let mut succs: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, b) in body.blocks.iter().enumerate() {
        succs[i] = match &b.term {
            Term::Goto(t) => vec![*t], Term::Drop { target, .. } => vec![*target],
            Term::Switch { targets, otherwise, .. } => { let mut v: Vec<usize> = targets.iter().map(|x| x.1).collect(); v.push(*otherwise); v }
            Term::Call { target, .. } => target.iter().copied().collect(),
            Term::Assert { target, .. } => vec![*target],
            _ => vec![],
        };
    }
    // dfs postorder
    let mut post = vec![]; let mut seen = vec![false; n];
    let mut stack = vec![(0usize, 0usize)]; seen[0] = true;
    while let Some((b, i)) = stack.pop() {
        if i < succs[b].len() { stack.push((b, i + 1)); let s = succs[b][i]; if !seen[s] { seen[s] = true; stack.push((s, 0)); } }
        else { post.push(b); }
    }
    let mut rpo = vec![usize::MAX; n];
    for (i, b) in post.iter().rev().enumerate() { rpo[*b] = i; }
    let order: Vec<usize> = post.iter().rev().copied().collect();
    // dominators
    let mut preds: Vec<Vec<usize>> = vec![vec![]; n];
    for b in &order { for s in &succs[*b] { preds[*s].push(*b); } }
    let mut idom = vec![usize::MAX; n]; idom[0] = 0;
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().skip(1) {
            let mut d = usize::MAX;
            for &p in &preds[b] { if idom[p] == usize::MAX { continue; } d = if d == usize::MAX { p } else { let (mut x, mut y) = (p, d); while x != y { while rpo[x] > rpo[y] { x = idom[x]; } while rpo[y] > rpo[x] { y = idom[y]; } } x }; }
            if d != idom[b] { idom[b] = d; ch = true; }
        }
    }
    let dom = |a: usize, mut b: usize| loop { if a == b { return true; } if b == 0 || idom[b] == usize::MAX { return false; } b = idom[b]; };
    let mut heads: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for &b in &order { for &s in &succs[b] { if rpo[s] <= rpo[b] && dom(s, b) {
        let body = heads.entry(s).or_default(); body.insert(s);
        let mut w = vec![b];
        while let Some(x) = w.pop() { if body.insert(x) { for &p in &preds[x] { w.push(p); } } }
    } } }
    let mut loops: Vec<Loop> = heads.into_iter().map(|(h, b)| Loop { head: h, body: b, parent: None }).collect();
    loops.sort_by_key(|l| std::cmp::Reverse(l.body.len()));
    let mut in_loop = vec![None; n]; let mut head_of = HashMap::default();
    for i in 0..loops.len() {
        let h = loops[i].head;
        let par = (0..i).rev().find(|j| loops[*j].body.contains(&h));
        loops[i].parent = par;
        for b in loops[i].body.iter() { in_loop[*b] = Some(i); }
        head_of.insert(h, i);
    }
    // liveness of locals that are never borrowed
    let nl = body.locals.len();
    let mut borrowed = vec![false; nl];
    for b in &body.blocks { for (s, _) in &b.stmts { if let Stmt::Assign(_, Rvalue::Ref { place, .. } | Rvalue::RawPtr { place }) = s { if !place.proj.contains(&Proj::Deref) { borrowed[place.local] = true; } } } }
    let mut useb: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n]; let mut defb: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for i in 0..n {
        let b = &body.blocks[i];
        let (u, d) = (&mut useb[i], &mut defb[i]);
        fn pu(p: &Place, u: &mut BTreeSet<usize>, d: &BTreeSet<usize>) { if !d.contains(&p.local) { u.insert(p.local); } for e in &p.proj { if let Proj::Index(l) = e { if !d.contains(l) { u.insert(*l); } } } }
        fn ou(o: &Operand, u: &mut BTreeSet<usize>, d: &BTreeSet<usize>) { if let Operand::Copy(p) | Operand::Move(p) = o { pu(p, u, d) } }
        fn pd(p: &Place, u: &mut BTreeSet<usize>, d: &mut BTreeSet<usize>) { if p.proj.is_empty() { d.insert(p.local); } else { pu(p, u, d) } }
        for (s, _) in &b.stmts { match s {
            Stmt::Assign(p, r) => {
                match r { Rvalue::Use(o) | Rvalue::Repeat(o, _) => ou(o, u, d), Rvalue::Ref { place, .. } | Rvalue::RawPtr { place } => pu(place, u, d), Rvalue::Cast { op, .. } => ou(op, u, d), Rvalue::Bin { a, b, .. } => { ou(a, u, d); ou(b, u, d) } Rvalue::Un { a, .. } => ou(a, u, d), Rvalue::Discr(p, _) => pu(p, u, d), Rvalue::Agg { ops, .. } => for o in ops { ou(o, u, d) }, Rvalue::Other(_) => {} }
                pd(p, u, d);
            }
            Stmt::SetDiscr(p, _) => pu(p, u, d), Stmt::Live(l) | Stmt::Dead(l) => { d.insert(*l); } Stmt::Assume(o) => ou(o, u, d),
        } }
        match &b.term {
            Term::Switch { discr, .. } => ou(discr, u, d),
            Term::Return => { if !d.contains(&0) { u.insert(0); } }
            Term::Drop { .. } => {}
            Term::Call { callee, args, dest, .. } => { if let Callee::Indirect(o) = callee { ou(o, u, d) } for a in args { ou(a, u, d) } pd(dest, u, d) }
            Term::Assert { cond, .. } => ou(cond, u, d),
            _ => {}
        }
    }
    let mut live_in: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    let mut ch = true;
    while ch {
        ch = false;
        for &b in order.iter().rev() {
            let mut o: BTreeSet<usize> = BTreeSet::new();
            for &s in &succs[b] { o.extend(live_in[s].iter().copied()); }
            let mut i: BTreeSet<usize> = o.difference(&defb[b]).copied().collect();
            i.extend(useb[b].iter().copied());
            if i != live_in[b] { live_in[b] = i; ch = true; }
        }
    }
    let mut kill = vec![vec![]; n];
    for &b in &order {
        for l in 0..nl {
            if borrowed[l] || live_in[b].contains(&l) { continue; }
            // only where it may have become dead: some predecessor has it live-in or defines it
            if preds[b].iter().any(|p| live_in[*p].contains(&l) || defb[*p].contains(&l)) { kill[b].push(l); }
        }
    }
    Cfg { succs, rpo, in_loop, loops, head_of, kill }
}
