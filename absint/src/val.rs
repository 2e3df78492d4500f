//! Abstract values and states.
use crate::lin::*;
use crate::solver::Cons;
use ir::*;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum B {
    K(bool),
    /// lin >= 0
    Ge(Lin),
    /// lin == 0
    Eq(Lin),
    And(Rc<B>, Rc<B>),
    Or(Rc<B>, Rc<B>),
    Not(Rc<B>),
}
impl B {
    pub fn not(self) -> B {
        match self {
            B::K(b) => B::K(!b),
            B::Ge(l) => B::Ge(l.neg().addk(-1)),
            B::Not(b) => (*b).clone(),
            B::And(a, b) => B::Or(Rc::new((*a).clone().not()), Rc::new((*b).clone().not())),
            B::Or(a, b) => B::And(Rc::new((*a).clone().not()), Rc::new((*b).clone().not())),
            b => B::Not(Rc::new(b)),
        }
    }
    pub fn and(a: B, b: B) -> B { match (a, b) { (B::K(true), x) | (x, B::K(true)) => x, (B::K(false), _) | (_, B::K(false)) => B::K(false), (a, b) => B::And(Rc::new(a), Rc::new(b)) } }
    pub fn or(a: B, b: B) -> B { match (a, b) { (B::K(false), x) | (x, B::K(false)) => x, (B::K(true), _) | (_, B::K(true)) => B::K(true), (a, b) => B::Or(Rc::new(a), Rc::new(b)) } }
    pub fn ge(a: &Lin, b: &Lin) -> B { let d = a.sub(b); match d.is_const() { Some(c) => B::K(c >= 0), None => B::Ge(d) } }
    pub fn lt(a: &Lin, b: &Lin) -> B { B::ge(b, &a.addk(1)) }
    pub fn eq(a: &Lin, b: &Lin) -> B { let d = a.sub(b); match d.is_const() { Some(c) => B::K(c == 0), None => B::Eq(d) } }
    pub fn bit(l: Lin) -> B { match l.is_const() { Some(c) => B::K(c != 0), None => B::Ge(l.addk(-1)) } }
    pub fn lins<'a>(&'a self, v: &mut Vec<&'a Lin>) {
        match self { B::K(_) => {}, B::Ge(l) | B::Eq(l) => v.push(l), B::And(a, b) | B::Or(a, b) => { a.lins(v); b.lins(v) } B::Not(a) => a.lins(v) }
    }
    pub fn map(&self, f: &mut dyn FnMut(&Lin) -> Lin) -> B {
        match self {
            B::K(b) => B::K(*b), B::Ge(l) => B::ge(&f(l), &Lin::k(0)), B::Eq(l) => B::eq(&f(l), &Lin::k(0)),
            B::And(a, b) => B::and(a.map(f), b.map(f)), B::Or(a, b) => B::or(a.map(f), b.map(f)), B::Not(a) => a.map(f).not(),
        }
    }
    /// Some(truth) if decided
    pub fn decide(&self, c: &Cons) -> Option<bool> {
        match self {
            B::K(b) => Some(*b),
            B::Ge(l) => if c.entails(l) { Some(true) } else if c.entails(&l.neg().addk(-1)) { Some(false) } else { None },
            B::Eq(l) => {
                let (lo, hi) = c.range(l);
                if lo > 0 || hi < 0 { return Some(false); }
                if c.entails_eq(l) { Some(true) } else if c.entails(&l.addk(-1)) || c.entails(&l.neg().addk(-1)) { Some(false) } else { None }
            }
            B::And(a, b) => match (a.decide(c), b.decide(c)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
            B::Or(a, b) => match (a.decide(c), b.decide(c)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
            B::Not(a) => a.decide(c).map(|x| !x),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Loc { pub fr: u32, pub l: u32 }
pub const HEAP: u32 = 0;
pub const CONSTS: u32 = u32::MAX;

#[derive(Clone, PartialEq, Debug)]
pub enum PE { F(u32), At(Lin), Last }

#[derive(Clone, PartialEq, Debug)]
pub struct RefV { pub loc: Loc, pub path: Rc<Vec<PE>>, pub slice: Option<(Lin, Lin)> }

#[derive(Clone, PartialEq, Debug)]
pub struct SeqV { pub len: Lin, pub c: ContentId, pub off: Lin, pub w: u8, pub signed: bool }

#[derive(Clone, Debug)]
pub enum Val {
    Uninit,
    Int(Lin),
    Bool(B),
    Agg(usize, Rc<Vec<Val>>),
    /// an unknown value of a type
    Top(TyId),
    Ref(RefV),
    Seq(Rc<SeqV>),
    /// sequence of non-scalar elements; `last` is the element at len-1 when known
    SeqT { len: Lin, elem: TyId, last: Option<Rc<Val>> },
    Opaque,
}
impl Val {
    pub fn unit() -> Val { Val::Agg(0, Rc::new(vec![])) }
    pub fn int(l: Lin) -> Val { Val::Int(l) }
    pub fn k(c: i128) -> Val { Val::Int(Lin::k(c)) }
    pub fn agg(v: usize, f: Vec<Val>) -> Val { Val::Agg(v, Rc::new(f)) }
    pub fn some(v: Val) -> Val { Val::agg(1, vec![v]) }
    pub fn none() -> Val { Val::agg(0, vec![]) }
    pub fn ok(v: Val) -> Val { Val::agg(0, vec![v]) }
    pub fn err(v: Val) -> Val { Val::agg(1, vec![v]) }
    pub fn seq(len: Lin, c: ContentId, off: Lin, w: u8) -> Val { Val::Seq(Rc::new(SeqV { len, c, off, w, signed: false })) }
    pub fn as_int(&self) -> Option<&Lin> { if let Val::Int(l) = self { Some(l) } else { None } }
}

#[derive(Clone)]
pub struct Frame { pub f: FnId, pub vals: Vec<Val> }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub cons: Cons,
    /// error values created in this API call and not yet handed to the caller
    pub pend: Rc<Vec<u32>>,
}
impl State {
    pub fn new() -> State { State { frames: vec![Rc::new(Frame { f: usize::MAX, vals: vec![] })], cons: Cons::default(), pend: Rc::new(vec![]) } }
    pub fn heap(&mut self, v: Val) -> Loc {
        let f = Rc::make_mut(&mut self.frames[0]);
        f.vals.push(v);
        Loc { fr: HEAP, l: (f.vals.len() - 1) as u32 }
    }
    pub fn top(&self) -> u32 { (self.frames.len() - 1) as u32 }
    pub fn slot(&self, l: Loc) -> Val {
        if l.fr == CONSTS { return CONST_HEAP.with(|c| c.borrow()[l.l as usize].clone()); }
        match self.frames.get(l.fr as usize) { Some(f) => f.vals.get(l.l as usize).cloned().unwrap_or(Val::Uninit), None => Val::Uninit }
    }
    pub fn slot_mut(&mut self, l: Loc) -> Option<&mut Val> {
        if l.fr == CONSTS { return None; }
        let f = Rc::make_mut(self.frames.get_mut(l.fr as usize)?);
        f.vals.get_mut(l.l as usize)
    }
    pub fn set(&mut self, local: usize, v: Val) { let t = self.top(); *self.slot_mut(Loc { fr: t, l: local as u32 }).unwrap() = v; }
}

thread_local! { pub static CONST_HEAP: std::cell::RefCell<Vec<Val>> = std::cell::RefCell::new(vec![]); }
pub fn const_obj(v: Val) -> Loc {
    CONST_HEAP.with(|c| { let mut c = c.borrow_mut(); c.push(v); Loc { fr: CONSTS, l: (c.len() - 1) as u32 } })
}

pub fn show(v: &Val) -> String {
    match v {
        Val::Uninit => "_".into(),
        Val::Int(l) => l.show(),
        Val::Bool(b) => show_b(b),
        Val::Agg(v, f) => format!("{}{{{}}}", if *v > 0 { format!("#{v}") } else { String::new() }, f.iter().map(show).collect::<Vec<_>>().join(", ")),
        Val::Top(t) => format!("?{t}"),
        Val::Ref(r) => format!("&{}.{}{:?}{}", r.loc.fr, r.loc.l, r.path.iter().map(|p| match p { PE::F(i) => format!("{i}"), PE::At(l) => format!("[{}]", l.show()), PE::Last => "last".into() }).collect::<Vec<_>>(), r.slice.as_ref().map(|(s, l)| format!("[{};{}]", s.show(), l.show())).unwrap_or_default()),
        Val::Seq(s) => format!("seq(len={}, c{}+{})", s.len.show(), s.c, s.off.show()),
        Val::SeqT { len, last, .. } => format!("seqT(len={}, last={})", len.show(), last.as_ref().map(|x| show(x)).unwrap_or("?".into())),
        Val::Opaque => "opaque".into(),
    }
}
pub fn show_b(b: &B) -> String {
    match b { B::K(b) => format!("{b}"), B::Ge(l) => format!("{} >= 0", l.show()), B::Eq(l) => format!("{} == 0", l.show()),
        B::And(a, b) => format!("({} && {})", show_b(a), show_b(b)), B::Or(a, b) => format!("({} || {})", show_b(a), show_b(b)), B::Not(a) => format!("!({})", show_b(a)) }
}
