//! Functional obligations over the abstract exits of exported functions. A specification names a
//! chain of calls; the chain is interpreted abstractly for every admissible argument, and at every
//! exit the stated relation between result, final state and entry state must be entailed by the
//! exit's constraints.
use crate::interp::*;
use crate::inv::pointee;
use crate::join::*;
use crate::lin::*;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::collections::BTreeSet;
use std::rc::Rc;

#[derive(Clone, Debug)]
enum Ex { K(i128), Path(String, Vec<String>), Add(Box<Ex>, Box<Ex>), Sub(Box<Ex>, Box<Ex>), Mul(Box<Ex>, Box<Ex>), Call(String, Vec<Ex>) }
#[derive(Clone, Debug)]
enum Co { Cmp(String, Ex, Ex), Is(Ex, String), And(Box<Co>, Box<Co>), Or(Box<Co>, Box<Co>), Not(Box<Co>), Iff(Ex, Box<Co>), Iff2(Box<Co>, Box<Co>) }

struct Parser { t: Vec<String>, i: usize }
fn lex(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect(); let mut i = 0; let mut out = vec![];
    while i < c.len() {
        if c[i].is_whitespace() { i += 1; continue; }
        let st = i;
        if c[i].is_ascii_digit() { while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_') { i += 1; } }
        else if c[i].is_alphabetic() || c[i] == '_' { while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '.') { i += 1; } }
        else { let two: String = c[i..(i + 2).min(c.len())].iter().collect(); i += if ["==", "!=", ">=", "<=", "&&", "||"].contains(&two.as_str()) { 2 } else { 1 }; }
        out.push(c[st..i].iter().collect());
    }
    out
}
impl Parser {
    fn peek(&self) -> &str { self.t.get(self.i).map(|s| s.as_str()).unwrap_or("") }
    fn next(&mut self) -> String { let s = self.peek().to_string(); self.i += 1; s }
    fn eat(&mut self, x: &str) -> bool { if self.peek() == x { self.i += 1; true } else { false } }
    fn cond(&mut self) -> Co { let mut a = self.conj(); while self.eat("||") { let b = self.conj(); a = Co::Or(Box::new(a), Box::new(b)); } a }
    fn conj(&mut self) -> Co { let mut a = self.atom(); while self.eat("&&") { let b = self.atom(); a = Co::And(Box::new(a), Box::new(b)); } a }
    fn atom(&mut self) -> Co {
        if self.eat("!") { return Co::Not(Box::new(self.atom())); }
        if self.eat("[") { let c = self.cond(); assert!(self.eat("]"), "missing ] in {:?}", self.t); return c; }
        let a = self.expr();
        let op = self.next();
        match op.as_str() {
            "is" => { let v = self.next(); let x = Co::Is(a, v); if self.eat("iff") { let c = self.cond(); Co::Iff2(Box::new(x), Box::new(c)) } else { x } }
            "iff" => { let c = self.cond(); Co::Iff(a, Box::new(c)) }
            "==" | "!=" | ">=" | "<=" | "<" | ">" => { let b = self.expr(); Co::Cmp(op, a, b) }
            _ => panic!("operator {op} in {:?}", self.t),
        }
    }
    fn expr(&mut self) -> Ex {
        let mut a = self.term();
        loop { if self.eat("+") { a = Ex::Add(Box::new(a), Box::new(self.term())); } else if self.eat("-") { a = Ex::Sub(Box::new(a), Box::new(self.term())); } else { return a; } }
    }
    fn term(&mut self) -> Ex { let mut a = self.prim(); while self.eat("*") { a = Ex::Mul(Box::new(a), Box::new(self.prim())); } a }
    fn prim(&mut self) -> Ex {
        if self.eat("(") { let e = self.expr(); assert!(self.eat(")"), "missing ) in {:?}", self.t); return e; }
        if self.eat("-") { return Ex::Sub(Box::new(Ex::K(0)), Box::new(self.prim())); }
        let s = self.next();
        if s.chars().next().map(|c| c.is_ascii_digit()).unwrap_or(false) {
            let s = s.replace('_', "");
            return Ex::K(if let Some(h) = s.strip_prefix("0x") { i128::from_str_radix(h, 16).unwrap() } else { s.parse().unwrap_or_else(|_| panic!("number {s}")) });
        }
        if self.eat("(") {
            let mut v = vec![];
            while !self.eat(")") { v.push(self.expr()); self.eat(","); }
            return Ex::Call(s, v);
        }
        let mut p: Vec<String> = s.split('.').map(|x| x.to_string()).collect();
        let h = p.remove(0);
        Ex::Path(h, p)
    }
}

#[derive(Clone)]
enum V { L(Lin), B(B), S(ContentId, Lin, Lin, u8), Val(State, Val, TyId) }
/// why an expression has no value here
enum No { Variant, Missing(String) }
type R<T> = Result<T, No>;
type Exits = std::collections::HashMap<String, Rc<Vec<(State, Val, Env)>>>;

#[derive(Clone)]
struct Env { /// argument snapshots per call: value, type, state at the call, name of the parameter
    args: Vec<(Vec<(Val, TyId)>, State)>, ret: (Val, TyId), post: State, live: Vec<Vec<(Val, TyId)>>, /// results of the earlier calls
    rets: Vec<(Val, TyId, State)> }

#[derive(Clone)]
pub struct Out { pub id: String, pub prop: String, pub text: String, pub exits: u32, pub held: u32, pub vacuous: u32, pub unknown: u32, pub missing: String, pub bad: Vec<String> }

impl Out { fn clear(&mut self) { self.missing.clear(); self.exits = 0; self.held = 0; self.vacuous = 0; self.unknown = 0; self.bad.clear(); } }
/// names without module paths, lifetimes and the type parameters of the harness
pub fn norm(s: &str) -> String {
    let mut s = s.replace("::<Fs>", "").replace(", Fs>", ">").replace(" '_", "'_");
    loop { let t = s.replace("'_,", "").replace("<'_>", "").replace("::<>", "").replace("<>", ""); if t == s { break; } s = t; }
    let mut out = String::new(); let mut cur = String::new();
    let c: Vec<char> = s.chars().collect(); let mut i = 0;
    while i < c.len() {
        if c[i].is_alphanumeric() || c[i] == '_' { cur.push(c[i]); i += 1; continue; }
        if c[i] == ':' && i + 1 < c.len() && c[i + 1] == ':' && !cur.is_empty() && cur.chars().next().unwrap().is_lowercase() && i + 2 < c.len() && (c[i + 2].is_alphabetic() || c[i + 2] == '_') { cur.clear(); i += 2; continue; }
        out.push_str(&cur); cur.clear(); out.push(c[i]); i += 1;
    }
    out.push_str(&cur);
    out.replace("<'_>", "").replace("::::", "::").replace("< ", "<")
}

impl Eng {
    fn strip(&mut self, st: &State, v: Val, t: TyId) -> (Val, TyId, Option<(Lin, Lin)>) {
        let (mut v, mut t, mut sl) = (v, t, None);
        for _ in 0..16 {
            match (&v, self.ty(t)) {
                (Val::Ref(r), Ty::Ref { to, .. }) | (Val::Ref(r), Ty::Ptr { to, .. }) => { match pointee(st, r) { Some((x, s)) => { sl = s; v = x; t = *to; } None => return (v, t, sl) } }
                (Val::Ref(r), _) => { match pointee(st, r) { Some((x, s)) => { sl = s; v = x; } None => return (v, t, sl) } }
                _ => return (v, t, sl),
            }
        }
        (v, t, sl)
    }
    fn walk(&mut self, st: &State, v: Val, t: TyId, path: &[String]) -> R<V> {
        let (mut v, mut t) = (v, t);
        for p in path {
            let (x, y, _) = self.strip(st, v, t);
            v = x; t = y;
            match self.ty(t) {
                Ty::Adt { variants, .. } => {
                    if matches!(self.tk[t], TK::Enum) {
                        if let (Ok(n), Val::Agg(i, f)) = (p.parse::<usize>(), &v) { if n < f.len() && variants[*i].fields.len() > 1 { let nf = f[n].clone(); t = variants[*i].fields[n].1; v = nf; continue; } }
                        if p == "0" { if let Val::Agg(_, f) = &v { if f.len() == 1 { let Val::Agg(i, f) = &v else { unreachable!() }; t = self.field_ty(t, *i, 0).unwrap(); v = f[0].clone(); continue; } } }
                        let Some(i) = variants.iter().position(|x| &x.name == p) else { return Err(No::Missing(format!("variant {p}"))) };
                        match &v { Val::Agg(j, _) if *j == i => { if variants[i].fields.len() == 1 { let Val::Agg(_, f) = &v else { unreachable!() }; let nf = f[0].clone(); t = variants[i].fields[0].1; v = nf; } } Val::Agg(..) => return Err(No::Variant), _ => return Err(No::Missing(format!("{p}: lazy"))) }
                        continue;
                    }
                    let i = match variants.first().and_then(|x| x.fields.iter().position(|f| &f.0 == p)) { Some(i) => i, None => return Err(No::Missing(format!("field {p} of {}", self.ty_name(t)))) };
                    match &v { Val::Agg(j, f) if f.len() > i => { let nf = f[i].clone(); t = self.field_ty(t, *j, i).unwrap(); v = nf; } Val::Int(_) | Val::Seq(_) if i == 0 => { t = self.field_ty(t, 0, 0).unwrap_or(t); } _ => return Err(No::Missing(format!("{p} of {}", show(&v)))) }
                }
                Ty::Tuple(_) | Ty::Array { .. } => { let i: usize = p.parse().map_err(|_| No::Missing(p.clone()))?; match &v { Val::Agg(_, f) if f.len() > i => { let nf = f[i].clone(); t = self.field_ty(t, 0, i).unwrap(); v = nf; } _ => return Err(No::Missing(p.clone())) } }
                _ => return Err(No::Missing(format!("{p} of {}", self.ty_name(t)))),
            }
        }
        Ok(V::Val(st.clone(), v, t))
    }
    /// descend through references and wrappers to a number, a truth value or a sequence
    fn scalar(&mut self, x: V) -> R<V> {
        let V::Val(st, v, t) = x else { return Ok(x) };
        let (mut v, mut t) = (v, t);
        for _ in 0..16 {
            let (x, y, _) = self.strip(&st, v, t);
            v = x; t = y;
            match &v {
                Val::Int(l) => return Ok(V::L(l.clone())),
                Val::Bool(b) => return Ok(V::B(b.clone())),
                Val::Seq(s) => return Ok(V::S(s.c, s.off.clone(), s.len.clone(), s.w)),
                Val::SeqT { len, .. } => return Ok(V::S(u32::MAX, Lin::k(0), len.clone(), 0)),
                Val::Agg(i, f) => {
                    if let (TK::Enum, Ty::Adt { path, .. }) = (&self.tk[t], self.ty(t)) { if path == "std::option::Option" || path == "std::result::Result" { return Err(No::Missing("number in an enum".into())) } }
                    let fs: Vec<usize> = (0..f.len()).filter(|k| self.field_ty(t, *i, *k).map(|x| !matches!(self.tk[x], TK::Zst)).unwrap_or(true)).collect();
                    if fs.len() != 1 { return Err(No::Missing(format!("number in {}", show(&v)))); }
                    let nf = f[fs[0]].clone(); t = match self.field_ty(t, *i, fs[0]) { Some(x) => x, None => return Err(No::Missing("type".into())) }; v = nf;
                }
                Val::Top(_) | Val::Opaque | Val::Uninit => return Ok(V::L(fresh_sym("unknown", -(1i128 << 100), 1i128 << 100))),
                _ => return Err(No::Missing(format!("number in {}", show(&v)))),
            }
        }
        Err(No::Missing("depth".into()))
    }
    /// one state per combination of variants
    fn cases(&mut self, st: State, v: Val, t: TyId, depth: u32) -> Vec<(State, Val)> {
        if depth == 0 { return vec![(st, v)]; }
        match &v {
            Val::Top(x) if matches!(self.tk[*x], TK::Enum) => { let x = *x; let r = self.instances(st, x, None, "case"); r.into_iter().flat_map(|(s, v)| self.cases(s, v, x, depth - 1)).collect() }
            Val::Agg(i, f) => {
                let mut out = vec![(st, vec![])];
                for (k, x) in f.iter().enumerate() {
                    let Some(ft) = self.field_ty(t, *i, k) else { for o in &mut out { o.1.push(x.clone()); } continue };
                    out = out.into_iter().flat_map(|(s, vs): (State, Vec<Val>)| self.cases(s, x.clone(), ft, depth - 1).into_iter().map(move |(s, v)| { let mut w = vs.clone(); w.push(v); (s, w) })).collect();
                }
                out.into_iter().map(|(s, f)| (s, Val::Agg(*i, Rc::new(f)))).collect()
            }
            Val::Ref(r) if r.path.is_empty() && r.slice.is_none() && r.loc.fr == HEAP => {
                let Ty::Ref { to, .. } = self.ty(t) else { return vec![(st, v)] };
                let x = st.slot(r.loc);
                let (loc, to) = (r.loc, *to);
                self.cases(st, x, to, depth - 1).into_iter().map(|(mut s, x)| { *s.slot_mut(loc).unwrap() = x; (s, v.clone()) }).collect()
            }
            _ => vec![(st, v)],
        }
    }
    fn root_of_path(&mut self, env: &Env, h: &str, post: bool) -> R<(State, Val, TyId)> {
        if h == "ret" { return Ok((env.post.clone(), env.ret.0.clone(), env.ret.1)); }
        // retA: what the first call returned
        if let Some(k) = h.strip_prefix("ret").and_then(|x| x.bytes().next()).filter(|_| h.len() == 4) { return match env.rets.get((k - b'A') as usize) { Some((v, t, s)) => Ok((s.clone(), v.clone(), *t)), None => Err(No::Missing(h.to_string())) }; }
        let b = h.as_bytes();
        if b.len() >= 2 && b[0].is_ascii_uppercase() && b[1..].iter().all(|c| c.is_ascii_digit()) {
            let (k, i): (usize, usize) = ((b[0] - b'A') as usize, h[1..].parse().unwrap());
            if post { if let Some(x) = env.live.get(k).and_then(|x| x.get(i)) { return Ok((env.post.clone(), x.0.clone(), x.1)); } }
            else if let Some((a, st)) = env.args.get(k) { if let Some(x) = a.get(i) { return Ok((st.clone(), x.0.clone(), x.1)); } }
        }
        Err(No::Missing(h.to_string()))
    }
    fn ev(&mut self, env: &Env, e: &Ex) -> R<V> {
        Ok(match e {
            Ex::K(k) => V::L(Lin::k(*k)),
            Ex::Path(h, p) => {
                let (h, p, post) = if h == "P" { (p[0].clone(), p[1..].to_vec(), true) } else { (h.clone(), p.clone(), false) };
                if h == "X" && p.is_empty() { return Ok(V::L(any_number())); }
                let (st, v, t) = self.root_of_path(env, &h, post)?;
                self.walk(&st, v, t, &p)?
            }
            Ex::Add(a, b) => V::L(self.num(env, a)?.add(&self.num(env, b)?)),
            Ex::Sub(a, b) => V::L(self.num(env, a)?.sub(&self.num(env, b)?)),
            Ex::Mul(a, b) => { let (x, y) = (self.num(env, a)?, self.num(env, b)?); let mut st = env.post.clone(); V::L(self.mul(&mut st, &x, &y)) }
            Ex::Call(f, a) => match f.as_str() {
                "u8" | "u16" | "u32" | "u64" | "i8" | "i16" | "i24" | "i32" | "i40" | "i48" | "i56" | "i64" | "be16" | "u24" | "u40" | "u48" | "u56" => {
                    let V::S(c, off, _, w) = self.seq(env, &a[0])? else { return Err(No::Missing("sequence".into())) };
                    if c == u32::MAX { return Err(No::Missing("sequence of scalars".into())); }
                    let i = self.num(env, &a[1])?;
                    let bits: u16 = f.trim_start_matches(|c: char| c.is_alphabetic()).parse().unwrap();
                    let signed = f.starts_with('i');
                    let (lo, hi) = type_range(bits, signed);
                    let _ = w;
                    V::L(read_content(&env.post.cons, c, off.add(&i), (bits / 8) as u8, signed, f.starts_with("be"), lo, hi))
                }
                // bytes of the filesystem itself
                "d8" | "d16" | "d32" | "d64" | "di8" | "di64" => {
                    let i = self.num(env, &a[0])?;
                    let bits: u16 = f.trim_start_matches(|c: char| c.is_alphabetic()).parse().unwrap();
                    let signed = f.starts_with("di");
                    let (lo, hi) = type_range(bits, signed);
                    V::L(mk_read(disk_content(), i, (bits / 8) as u8, signed, false, lo, hi))
                }
                "len" => { let V::S(_, _, n, _) = self.seq(env, &a[0])? else { return Err(No::Missing("len".into())) }; V::L(n) }
                "slice" => { let V::S(c, o, _, w) = self.seq(env, &a[0])? else { return Err(No::Missing("slice".into())) }; let (s, n) = (self.num(env, &a[1])?, self.num(env, &a[2])?); V::S(c, o.add(&s), n, w) }
                "disk" => { let (s, n) = (self.num(env, &a[0])?, self.num(env, &a[1])?); V::S(disk_content(), s, n, 1) }
                "div" => { let (x, y) = (self.num(env, &a[0])?, self.num(env, &a[1])?); V::L(mk_div(&x, &y)) }
                "mod" => { let (x, y) = (self.num(env, &a[0])?, self.num(env, &a[1])?); V::L(mk_rem(&x, &y)) }
                // bit k of a number
                "bit" => { let (x, k) = (self.num(env, &a[0])?, self.num(env, &a[1])?.is_const().expect("bit number")); V::L(mk_rem(&mk_div(&x, &Lin::k(1 << k)), &Lin::k(2))) }
                "and" => { let (x, y) = (self.num(env, &a[0])?, self.num(env, &a[1])?); let m = y.is_const().expect("mask"); V::L(mk_bit('&', &x, &y, 0, m)) }
                "ispow2" => { let x = self.num(env, &a[0])?; V::L(mk_fun(crate::models::FUN_ISPOW2, vec![x], 0, 1)) }
                "pow2" => { let x = self.num(env, &a[0])?; V::L(mk_pow2(&x)) }
                _ => panic!("unknown function {f}"),
            },
        })
    }
    fn num(&mut self, env: &Env, e: &Ex) -> R<Lin> { let v = self.ev(env, e)?; match self.scalar(v)? { V::L(l) => Ok(l), V::B(b) => bitlin(&b).ok_or_else(|| No::Missing("number".into())), _ => Err(No::Missing("number".into())) } }
    fn seq(&mut self, env: &Env, e: &Ex) -> R<V> { let v = self.ev(env, e)?; match self.scalar(v)? { V::S(c, o, n, w) => Ok(V::S(c, o, n, w)), _ => Err(No::Missing("sequence".into())) } }
    fn co(&mut self, env: &Env, c: &Co) -> R<B> {
        Ok(match c {
            Co::And(a, b) => B::and(self.co(env, a)?, self.co(env, b)?),
            Co::Or(a, b) => { // a part that does not apply is false
                let x = match self.co(env, a) { Err(No::Variant) => B::K(false), x => x? }; let y = match self.co(env, b) { Err(No::Variant) => B::K(false), x => x? }; B::or(x, y)
            }
            Co::Not(a) => self.co(env, a)?.not(),
            Co::Is(e, n) => {
                let V::Val(st, v, t) = self.ev(env, e)? else { return Err(No::Missing("is".into())) };
                let (v, t, _) = self.strip(&st, v, t);
                let Ty::Adt { variants, path, .. } = self.ty(t) else { return Err(No::Missing(format!("is {n}"))) };
                let Some(i) = variants.iter().position(|x| &x.name == n) else { return Err(No::Missing(format!("variant {n}"))) };
                match (&v, &self.tk[t]) {
                    (Val::Agg(j, _), _) => B::K(*j == i),
                    (Val::Int(l), TK::CEnum { .. }) => B::eq(l, &Lin::k(variants[i].discr)),
                    (Val::Int(l), TK::OptNonZero { .. }) if path == "std::option::Option" => { let z = B::eq(l, &Lin::k(0)); if n == "None" { z } else { z.not() } }
                    (Val::Top(_), _) => return Err(No::Missing("lazy".into())),
                    _ => return Err(No::Missing(format!("{} is {n}", show(&v)))),
                }
            }
            Co::Iff(e, c) => {
                let v = self.ev(env, e)?;
                let a = match self.scalar(v)? { V::B(b) => b, V::L(l) => B::bit(l), _ => return Err(No::Missing("truth value".into())) };
                let b = self.co(env, c)?;
                B::or(B::and(a.clone(), b.clone()), B::and(a.not(), b.not()))
            }
            Co::Iff2(a, b) => { let (a, b) = (self.co(env, a)?, self.co(env, b)?); B::or(B::and(a.clone(), b.clone()), B::and(a.not(), b.not())) }
            Co::Cmp(op, a, b) => {
                let (x, y) = (self.ev(env, a)?, self.ev(env, b)?);
                let (x, y) = (self.scalar(x)?, self.scalar(y)?);
                match (x, y) {
                    (V::S(c, o, n, w), V::S(d, p, m, _)) => {
                        assert!(op == "==", "sequences are compared with ==");
                        let _ = w;
                        let e = self.seq_same(&env.post, c, &o, d, &p, &n);
                        B::and(B::eq(&n, &m), e)
                    }
                    (x, y) => {
                        let f = |v: V| match v { V::L(l) => Ok(l), V::B(b) => bitlin(&b).ok_or(No::Missing("number".into())), _ => Err(No::Missing("number".into())) };
                        let (x, y) = (f(x)?, f(y)?);
                        match op.as_str() { "==" => B::eq(&x, &y), "!=" => B::eq(&x, &y).not(), ">=" => B::ge(&x, &y), "<=" => B::ge(&y, &x), "<" => B::lt(&x, &y), _ => B::lt(&y, &x) }
                    }
                }
            }
        })
    }
    /// both stretches of content have the same origin
    fn seq_same(&mut self, st: &State, c: ContentId, o: &Lin, d: ContentId, p: &Lin, n: &Lin) -> B {
        let (c, o) = origin(st, c, o.clone(), n);
        let (d, p) = origin(st, d, p.clone(), n);
        if st.cons.entails(&n.neg()) { return B::K(true); }
        // short stretches byte by byte
        if c != d && c != u32::MAX && d != u32::MAX {
            for k in 1..=8 { if st.cons.entails_eq(&n.addk(-k)) {
                let mut b = B::K(true);
                for i in 0..k { let x = read_content(&st.cons, c, o.addk(i), 1, false, false, 0, 255); let y = read_content(&st.cons, d, p.addk(i), 1, false, false, 0, 255); b = B::and(b, B::eq(&x, &y)); }
                return b;
            } }
        }
        if c == d { B::eq(&o, &p) } else { B::bit(fresh_sym("same", 0, 1)) }
    }
}
fn origin(st: &State, mut c: ContentId, mut o: Lin, n: &Lin) -> (ContentId, Lin) {
    for _ in 0..32 {
        if c == u32::MAX { break; }
        match content_kind(c) {
            ContentKind::Overlay { base, start, len, src } => {
                let d = o.sub(&start);
                if st.cons.entails(&d) && st.cons.entails(&len.sub(&d).sub(n)) { c = src.0; o = src.1.add(&d); continue; }
                if st.cons.entails(&start.sub(&o).sub(n)) || st.cons.entails(&d.sub(&len)) { c = base.0; o = base.1.add(&o); continue; }
                break;
            }
            ContentKind::Put { base, at, .. } => {
                let d = o.sub(&at);
                if st.cons.entails(&d.addk(-1)) || st.cons.entails(&d.neg().sub(n)) { c = base.0; o = base.1.add(&o); continue; }
                break;
            }
            _ => break,
        }
    }
    (c, o)
}
thread_local! { static ANY: std::cell::RefCell<Option<Lin>> = Default::default(); }
/// X: an arbitrary number
fn any_number() -> Lin { ANY.with(|d| { let mut d = d.borrow_mut(); if d.is_none() { *d = Some(fresh_sym("X", 0, u32::MAX as i128)); } d.clone().unwrap() }) }
thread_local! { static DISK: std::cell::RefCell<Option<ContentId>> = Default::default(); }
pub fn disk_content() -> ContentId { DISK.with(|d| { let mut d = d.borrow_mut(); if d.is_none() { *d = Some(new_content("disk")); } d.unwrap() }) }

/// one line: property | call => selection ; call => selection ; ... | [when cond :] cond
pub fn run(e: &mut Eng, text: &str) -> Vec<Out> {
    let mut out = vec![];
    let p = e.p;
    let mut names: std::collections::BTreeMap<String, Vec<FnId>> = Default::default();
    let roots: BTreeSet<FnId> = p.roots.iter().map(|r| r.f).collect();
    for (f, x) in p.fns.iter().enumerate() { if x.krate == "ntfs" && x.body.is_some() && !x.path.contains('{') && !roots.contains(&f) { let n = norm(&x.name); if !roots.iter().any(|r| norm(&p.fns[*r].name) == n) { names.entry(n).or_default().push(f); } } }
    for f in &roots { names.entry(norm(&p.fns[*f].name)).or_default().push(*f); }
    if std::env::var("NAMES").is_ok() { for n in names.keys() { eprintln!("{n}"); } }
    let mut cache: Exits = Default::default();
    let mut budget = std::time::Duration::from_secs(150);
    for (ln, line) in text.lines().enumerate() {
        let line = line.split("#!").next().unwrap().trim();
        if line.is_empty() || line.starts_with('#') { continue; }
        if let Ok(x) = std::env::var("ONLY") { if !line.contains(&x) { continue; } }
        let parts: Vec<&str> = line.splitn(3, '|').map(|x| x.trim()).collect();
        assert!(parts.len() == 3, "line {}: {line}", ln + 1);
        if let Some(k) = parts[2].strip_prefix("automaton ") { let o = crate::mon::run(e, &format!("{} {}", parts[0], parts[1]), k.trim(), parts[1]); out.push(o); continue; }
        // a star asks for a fine case distinction
        let fine = parts[0].contains('*');
        let (pid, unroll) = match parts[0].split_once('*') { Some((a, b)) => (a, b.parse::<usize>().unwrap_or(0)), None => (parts[0], 0) };
        let (kr, kj) = (e.k_ret, e.k_join);
        let mut o = Out { id: format!("{} {}", pid, parts[1]), prop: pid.to_string(), text: parts[2].to_string(), exits: 0, held: 0, vacuous: 0, unknown: 0, missing: String::new(), bad: vec![] };
        // given: a case of the arguments of the first call
        let (given, rest) = match parts[2].strip_prefix("given ") { Some(x) => { let (a, b) = x.split_once(':').expect("given cond: stmt"); let mut q = Parser { t: lex(a), i: 0 }; let c = q.cond(); assert!(q.i == q.t.len(), "trailing {:?}", q.t); (Some((a.to_string(), c)), b.trim()) } None => (None, parts[2]) };
        let (when, stmt) = match rest.strip_prefix("when ") { Some(x) => { let (a, b) = x.split_once(':').expect("when cond: stmt"); let mut q = Parser { t: lex(a), i: 0 }; let c = q.cond(); assert!(q.i == q.t.len(), "trailing {:?}", q.t); (Some(c), b.trim()) } None => (None, rest) };
        let stmt = match stmt { "rejects" => "!ret is Ok".to_string(), "accepts" => "ret is Ok".to_string(), s => s.to_string() };
        let mut q = Parser { t: lex(&stmt), i: 0 };
        let cond = q.cond(); assert!(q.i == q.t.len(), "trailing {:?}", q.t);
        let steps: Vec<(String, Option<String>)> = parts[1].split(" ; ").map(|s| match s.split_once("=>") { Some((a, b)) => (a.trim().to_string(), Some(b.trim().to_string())), None => (s.trim().to_string(), None) }).collect();
        let mut fs = vec![];
        for (n, _) in &steps { match names.get(n).map(|v| v.as_slice()) { Some([f]) => fs.push(*f), Some(v) => { o.missing = format!("{n}: {} functions", v.len()); } None => { o.missing = format!("no function {n}"); } } }
        if fs.len() == steps.len() {
            // what cannot be shown is looked at again with a finer case distinction
            let mut coarse: Option<Out> = None;
            for f in [0, 1, 3, 12] {
                if f > 0 && std::env::var("F0").is_ok() { break; }
                if fine && f == 0 || (unroll > 0) != (f == 12) { continue; }
                e.unroll = unroll;
                if f > 0 { e.k_ret = 64; e.k_join = 64; e.fine = true; e.depth = f; }
                let t = std::time::Instant::now();
                // a finer look costs time: what is not settled within the budget stays as the coarser look left it
                if coarse.is_some() { if budget.as_secs() < 1 { break; } e.deadline = Some(t + budget.min(std::time::Duration::from_secs(60))); }
                o.clear();
                one(e, &steps, &fs, given.as_ref(), when.as_ref(), &cond, &mut o, false, &mut cache);
                // with a case distinction on the enumerations inside the arguments
                if o.missing.ends_with("lazy") { o.clear(); one(e, &steps, &fs, given.as_ref(), when.as_ref(), &cond, &mut o, true, &mut cache); }
                e.deadline = None;
                if coarse.is_some() { budget = budget.saturating_sub(t.elapsed()); }
                if e.aborted { e.aborted = false; cache.clear(); o = coarse.take().unwrap(); break; }
                if o.bad.is_empty() && o.unknown == 0 { break; }
                coarse = Some(o.clone());
            }
        }
        e.k_ret = kr; e.k_join = kj; e.fine = false; e.depth = 1; e.unroll = 0;
        out.push(o);
    }
    out
}

pub fn params(e: &mut Eng, st: State, f: FnId, first: Option<Val>, k: usize, cases: bool) -> Vec<(State, Vec<Val>)> {
    let inputs = e.p.fns[f].inputs.clone();
    let mut out = vec![(st, vec![])];
    for (i, t) in inputs.iter().enumerate() {
        let mut next = vec![];
        for (st, vs) in out {
            if let (0, Some(v)) = (i, &first) { let mut w: Vec<Val> = vs; w.push(v.clone()); next.push((st, w)); continue; }
            let n = format!("{}{}", (b'A' + k as u8) as char, i);
            for (s, v) in crate::arg(e, st, *t, &n) {
                // every variant of an enumeration passed by value
                if let (Val::Top(x), TK::Enum) = (&v, e.tk[*t].clone()) { for (s, v) in e.instances(s.clone(), *x, None, &n) { let mut w = vs.clone(); w.push(v); next.push((s, w)); } continue; }
                let l = if cases { e.cases(s, v, *t, 5) } else { vec![(s, v)] };
                for (s, v) in l { let mut w = vs.clone(); w.push(v); next.push((s, w)); }
            }
        }
        out = next;
    }
    out
}

fn one(e: &mut Eng, steps: &[(String, Option<String>)], fs: &[FnId], given: Option<&(String, Co)>, when: Option<&Co>, cond: &Co, o: &mut Out, cases: bool, cache: &mut Exits) {
    // (state, current value, env)
    let mut work: Vec<(State, Option<Val>, Env)> = vec![(State::new(), None, Env { args: vec![], ret: (Val::unit(), 0), post: State::new(), live: vec![], rets: vec![] })];
    let dbg = std::env::var("SHOWX").is_ok();
    let mut key = format!("{} {} {} {} {}", e.unroll, e.fine, e.depth, cases, given.map(|g| g.0.as_str()).unwrap_or(""));
    for (k, f) in fs.iter().enumerate() {
        let p = e.p;
        key.push_str(" ; "); key.push_str(&steps[k].0);
        let exits = match cache.get(&key) { Some(x) => x.clone(), None => { let x = match exits_of(e, *f, k, work, cases, &o.id, given.filter(|_| k == 0).map(|g| &g.1)) { Ok(x) => Rc::new(x), Err(m) => { o.missing = m; return; } }; cache.insert(key.clone(), x.clone()); x } };
        key.push_str(" => "); key.push_str(steps[k].1.as_deref().unwrap_or(""));
        let mut next = vec![];
        for (s, v, env3) in exits.iter() {
            match &steps[k].1 {
                None if k + 1 == fs.len() => next.push((s.clone(), None, env3.clone())),
                x => {
                    let x = x.clone().unwrap_or_default();
                    let mut keep = None; let mut path: Vec<String> = vec![];
                    for w in x.split_whitespace() { if let Some(a) = w.strip_prefix('@') { keep = Some(a.to_string()); } else { path = w.split('.').map(|x| x.to_string()).collect(); } }
                    match e.walk(s, v.clone(), p.fns[*f].output, &path) {
                        Ok(V::Val(_, v, _)) => {
                            let v = match keep { Some(a) => match e.root_of_path(env3, &a, true) { Ok((_, v, _)) => v, Err(_) => { o.missing = format!("no {a}"); return; } }, None => v };
                            next.push((s.clone(), Some(v), env3.clone()));
                        }
                        Ok(_) => {}
                        Err(No::Variant) => {}
                        Err(No::Missing(m)) => { o.missing = m; return; }
                    }
                }
            }
        }
        work = next;
    }
    for (_, _, mut env) in work {
        canon(e, &mut env);
        let states: Vec<State> = match when {
            None => vec![env.post.clone()],
            Some(c) => match e.co(&env, c) { Ok(b) => e.assume(env.post.clone(), &b, true).into_iter().flat_map(|s| narrow(&s, &b).unwrap_or_else(|| vec![s])).collect(), Err(No::Variant) => { o.vacuous += 1; continue; } Err(No::Missing(m)) => { o.missing = m; return; } },
        };
        for s in states {
            if s.cons.obviously_false() || !s.cons.feasible() { o.vacuous += 1; continue; }
            env.post = s;
            o.exits += 1;
            let b = match e.co(&env, cond) { Ok(b) => b, Err(No::Variant) => { o.exits -= 1; o.vacuous += 1; continue; } Err(No::Missing(m)) => { o.missing = m; return; } };
            if dbg { eprintln!("EXIT {} ret {}\n   need {}\n   {}", o.id, show(&env.ret.0), show_b(&b), env.post.cons.all().iter().map(|c| format!("{} >= 0", c.show())).collect::<Vec<_>>().join("\n   ")); }
            let mut cn = crate::canon::Canon::default();
            let rows = env.post.cons.all();
            let mut ls = rows.clone(); { let mut v = vec![]; b.lins(&mut v); ls.extend(v.into_iter().cloned()); }
            let mut s = env.post.clone();
            for _ in 0..2 {
                s.cons = crate::solver::Cons::default();
                for r in &rows { let x = cn.lin(r); s.cons.add(x); }
                if !cn.same.is_empty() { break; }
                cn.congruence(&s.cons, &ls);
                if cn.same.is_empty() { break; }
            }
            // values fixed by the case under consideration
            if given.is_some() {
                for _ in 0..2 {
                    cn.resolve(&s.cons, &ls);
                    s.cons = crate::solver::Cons::default();
                    for r in &rows { let x = cn.lin(r); s.cons.add(x); }
                }
            }
            let b = b.map(&mut |l| cn.lin(l));
            env.post = s;
            if !env.post.cons.feasible() { o.exits -= 1; o.vacuous += 1; continue; }
            if dbg { eprintln!("   canonical {}\n   {}", show_b(&b), env.post.cons.all().iter().map(|c| format!("{} >= 0", c.show())).collect::<Vec<_>>().join("\n   ")); }
            match b.decide(&env.post.cons) {
                Some(true) => o.held += 1,
                d => if proves(&env.post, &b) { o.held += 1 } else if d == Some(false) || known(&env, &b) { o.bad.push(format!("at an exit returning {}: cannot show {}", clipped(&show(&env.ret.0)), clipped(&show_b(&b)))) } else { o.unknown += 1; if dbg { eprintln!("   unknown"); } }
            }
        }
    }
}
fn exits_of(e: &mut Eng, f: FnId, k: usize, work: Vec<(State, Option<Val>, Env)>, cases: bool, id: &str, given: Option<&Co>) -> Result<Vec<(State, Val, Env)>, String> {
    let p = e.p;
    let mut out = vec![];
    for (st, cur, env) in work {
        let inputs = p.fns[f].inputs.clone();
        let mut st = st;
        let first = match cur {
            None => None,
            Some(v) => Some(match (&v, e.ty(inputs[0])) { (Val::Ref(_), Ty::Ref { .. }) => v, (_, Ty::Ref { to, .. }) => { let to = *to; e.mk_ref_to(&mut st, to, v) } (Val::Ref(r), _) => match pointee(&st, r) { Some((x, _)) => x, None => v }, _ => v }),
        };
        for (s, args) in params(e, st, f, first.clone(), k, cases) {
            let snap: Vec<(Val, TyId)> = args.iter().cloned().zip(inputs.iter().copied()).collect();
            let mut args2 = env.args.clone();
            args2.push((snap, s.clone()));
            let starts = match given { None => vec![s], Some(g) => { let en = Env { args: args2.clone(), ret: (Val::unit(), 0), post: s.clone(), live: vec![], rets: vec![] }; match e.co(&en, g) { Ok(b) => e.assume(s, &b, true).into_iter().flat_map(|s| narrow(&s, &b).unwrap_or_else(|| vec![s])).collect(), Err(No::Variant) => vec![], Err(No::Missing(m)) => return Err(m) } } };
            for mut s in starts {
            e.root = format!("spec {id}");
            // the arguments stay alive through the call
            s.frames.push(Rc::new(Frame { f: usize::MAX - 1 - f, vals: args.clone() }));
            // the function itself is interpreted; functions it calls may be represented by their summaries
            for (s, v) in e.call(s, f, args.clone()) {
                let live: Vec<Vec<(Val, TyId)>> = (0..=k).map(|i| s.frames[i + 1].vals.iter().cloned().zip(args2[i].0.iter().map(|x| x.1)).collect()).collect();
                let mut rets = env.rets.clone(); rets.push((v.clone(), p.fns[f].output, s.clone()));
                let env3 = Env { args: args2.clone(), ret: (v.clone(), p.fns[f].output), post: s.clone(), live, rets };
                out.push((s, v, env3));
            }
            }
        }
    }
    Ok(out)
}
fn clipped(s: &str) -> String { s.chars().take(400).collect() }
/// case distinction on the parts of a disjunction
fn proves(st: &State, b: &B) -> bool {
    match b {
        B::And(x, y) => proves(st, x) && proves(st, y),
        B::Or(x, y) => { if proves(st, x) || proves(st, y) { return true; } let n = (**x).clone().not(); match narrow(st, &n) { Some(ss) => ss.iter().all(|s| proves(s, y)), None => false } }
        B::Not(x) => match &**x { B::Eq(l) => !st.cons.compatible(l) || !{ let mut c = st.cons.clone(); c.add_eq(l); c.feasible() }, _ => b.decide(&st.cons) == Some(true) },
        _ => b.decide(&st.cons) == Some(true) || !st.cons.feasible(),
    }
}
fn narrow(st: &State, b: &B) -> Option<Vec<State>> {
    Some(match b {
        B::K(true) => vec![st.clone()], B::K(false) => vec![],
        B::Ge(l) => { let mut s = st.clone(); s.cons.add(l.clone()); if s.cons.feasible() { vec![s] } else { vec![] } }
        B::Eq(l) => { let mut s = st.clone(); s.cons.add_eq(l); if s.cons.feasible() { vec![s] } else { vec![] } }
        B::And(x, y) => { let mut o = vec![]; for s in narrow(st, x)? { o.extend(narrow(&s, y)?); } o }
        B::Or(x, y) => { let mut o = narrow(st, x)?; o.extend(narrow(st, y)?); o }
        B::Not(x) => match &**x { B::Eq(l) => { let mut o = vec![]; for d in [l.addk(-1), l.neg().addk(-1)] { let mut s = st.clone(); s.cons.add(d); if s.cons.feasible() { o.push(s); } } o } _ => return None },
    })
}
/// everything the formula talks about is determined by the arguments and the filesystem
fn known(env: &Env, b: &B) -> bool {
    let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
    for (k, (a, st)) in env.args.iter().enumerate() {
        // later calls: what the caller passes in addition
        for (v, _) in a.iter().skip((k > 0) as usize) { val_syms(v, &mut s, &mut c); }
        if k > 0 { continue; }
        for fr in &st.frames { for v in &fr.vals { val_syms(v, &mut s, &mut c); } }
    }
    c.insert(disk_content());
    base_syms(&any_number(), &mut s, &mut c);
    let mut ls = vec![]; b.lins(&mut ls);
    let (mut s2, mut c2) = (BTreeSet::new(), BTreeSet::new());
    for l in ls { base_syms(l, &mut s2, &mut c2); }
    s2.is_subset(&s) && c2.is_subset(&c)
}
/// what was read from the filesystem becomes a part of one content named "disk"
fn canon(e: &mut Eng, env: &mut Env) {
    let mut sub = Subst::new();
    let d = disk_content();
    for (c, p) in &e.spec.disk { sub.contents.insert(*c, (d, p.clone())); }
    if sub.contents.is_empty() { return; }
    let id: Vec<Loc> = (0..env.post.frames[0].vals.len()).map(|i| Loc { fr: HEAP, l: i as u32 }).collect();
    let old = env.post.cons.all();
    let mut s = State::new();
    s.frames = env.post.frames.clone();
    let f0 = Frame { f: usize::MAX, vals: env.post.frames[0].vals.iter().map(|v| subst_val(v, &mut sub, &id)).collect() };
    s.frames[0] = Rc::new(f0);
    for l in &old { let x = sub.lin(l); s.cons.add(x); s.cons.add(l.clone()); }
    env.ret.0 = subst_val(&env.ret.0, &mut sub, &id);
    for l in &mut env.live { for x in l.iter_mut() { x.0 = subst_val(&x.0, &mut sub, &id); } }
    for (v, _, st) in &mut env.rets {
        *v = subst_val(v, &mut sub, &id);
        let f0 = Frame { f: usize::MAX, vals: st.frames[0].vals.iter().map(|v| subst_val(v, &mut sub, &id)).collect() };
        st.frames[0] = Rc::new(f0);
    }
    for (a, st) in &mut env.args {
        for x in a.iter_mut() { x.0 = subst_val(&x.0, &mut sub, &id); }
        let f0 = Frame { f: usize::MAX, vals: st.frames[0].vals.iter().map(|v| subst_val(v, &mut sub, &id)).collect() };
        st.frames[0] = Rc::new(f0);
    }
    env.post = s;
}
