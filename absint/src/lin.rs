//! Linear terms over hash-consed atoms.
use std::cell::RefCell;


pub type Atom = u32;
pub type ContentId = u32;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Lin { pub c: i128, pub t: Vec<(Atom, i128)> }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum AtomKind {
    Sym(u32),
    /// value read from byte/scalar content at element offset `off`
    Read { content: ContentId, off: Lin, width: u8, signed: bool, be: bool },
    Mul(Lin, Lin),
    Div(Lin, Lin),
    Rem(Lin, Lin),
    And(Lin, Lin),
    Or(Lin, Lin),
    Xor(Lin, Lin),
    Pow2(Lin),
    /// x wrapped into (bits, signed)
    Wrap(Lin, u16, bool),
    /// multiplicity witnesses: Aux(k) of defining atom
    Quot(Lin, i128),
    /// uninterpreted function of its arguments
    Fun(u32, Vec<Lin>),
}

#[derive(Clone, Debug)]
pub struct AtomInfo { pub kind: AtomKind, pub lo: i128, pub hi: i128, pub name: String, pub axioms: Vec<Lin>, pub deps: Vec<Atom> }

/// how the elements of a piece of content are known
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ContentKind {
    Sym(u32),
    Fill(Lin),
    Const(Vec<i128>),
    /// `src` written over `base` in [start, start+len)
    Overlay { base: (ContentId, Lin), start: Lin, len: Lin, src: (ContentId, Lin) },
    /// element `at` replaced by a value
    Put { base: (ContentId, Lin), at: Lin, val: Lin },
}

#[derive(Default)]
pub struct Tables {
    pub atoms: Vec<AtomInfo>,
    pub map: HashMap<AtomKind, Atom>,
    pub contents: Vec<(ContentKind, String)>,
    pub cmap: HashMap<ContentKind, ContentId>,
    pub next_sym: u32,
}

thread_local! { pub static T: RefCell<Tables> = RefCell::new(Tables::default()); }

impl Lin {
    pub fn k(c: i128) -> Lin { Lin { c, t: vec![] } }
    pub fn atom(a: Atom) -> Lin { Lin { c: 0, t: vec![(a, 1)] } }
    pub fn is_const(&self) -> Option<i128> { if self.t.is_empty() { Some(self.c) } else { None } }
    pub fn as_atom(&self) -> Option<Atom> { if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 { Some(self.t[0].0) } else { None } }
    pub fn add(&self, o: &Lin) -> Lin { self.addmul(o, 1) }
    pub fn sub(&self, o: &Lin) -> Lin { self.addmul(o, -1) }
    pub fn addk(&self, k: i128) -> Lin { let mut r = self.clone(); r.c = r.c.saturating_add(k); r }
    pub fn neg(&self) -> Lin { self.scale(-1) }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 { return Lin::k(0); }
        Lin { c: self.c.saturating_mul(k), t: self.t.iter().map(|(a, x)| (*a, x.saturating_mul(k))).collect() }
    }
    pub fn addmul(&self, o: &Lin, k: i128) -> Lin {
        if k == 0 { return self.clone(); }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) { t.push(self.t[i]); i += 1; }
            else if i >= self.t.len() || o.t[j].0 < self.t[i].0 { t.push((o.t[j].0, o.t[j].1.saturating_mul(k))); j += 1; }
            else {
                let s = self.t[i].1.saturating_add(o.t[j].1.saturating_mul(k));
                if s != 0 { t.push((self.t[i].0, s)); }
                i += 1; j += 1;
            }
        }
        Lin { c: self.c.saturating_add(o.c.saturating_mul(k)), t }
    }
    pub fn coef(&self, a: Atom) -> i128 { match self.t.binary_search_by_key(&a, |x| x.0) { Ok(i) => self.t[i].1, Err(_) => 0 } }
    /// range from the atoms' static ranges
    pub fn range(&self) -> (i128, i128) {
        T.with(|t| {
            let t = t.borrow();
            let (mut lo, mut hi) = (self.c, self.c);
            for (a, k) in &self.t {
                let i = &t.atoms[*a as usize];
                let (x, y) = if *k >= 0 { (i.lo.saturating_mul(*k), i.hi.saturating_mul(*k)) } else { (i.hi.saturating_mul(*k), i.lo.saturating_mul(*k)) };
                lo = lo.saturating_add(x); hi = hi.saturating_add(y);
            }
            (lo, hi)
        })
    }
    /// normalised `self >= 0` over the integers
    pub fn tighten(mut self) -> Lin {
        let mut g: i128 = 0;
        for (_, k) in &self.t { g = gcd(g, *k); }
        if g > 1 {
            for x in &mut self.t { x.1 /= g; }
            self.c = self.c.div_euclid(g);
        }
        self
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for (a, k) in &self.t {
            if !s.is_empty() { s.push_str(if *k < 0 { " - " } else { " + " }); } else if *k < 0 { s.push('-'); }
            if k.abs() != 1 { s.push_str(&format!("{}*", k.abs())); }
            s.push_str(&atom_name(*a));
        }
        if self.c != 0 || s.is_empty() {
            if s.is_empty() { s = format!("{}", self.c) } else { s.push_str(&format!(" {} {}", if self.c < 0 { "-" } else { "+" }, self.c.unsigned_abs())); }
        }
        s
    }
}

pub fn gcd(a: i128, b: i128) -> i128 { let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs()); while b != 0 { let t = a % b; a = b; b = t; } a as i128 }

pub fn atom_name(a: Atom) -> String {
    let (k, n) = T.with(|t| { let t = t.borrow(); let i = &t.atoms[a as usize]; (i.kind.clone(), i.name.clone()) });
    match k {
        AtomKind::Sym(_) => if n.is_empty() { format!("v{a}") } else { format!("{n}#{a}") },
        AtomKind::Read { content, off, width, signed, be } => format!("{}{}{}(c{}[{}])", if signed { "i" } else { "u" }, width * 8, if be { "be" } else { "" }, content, off.show()),
        AtomKind::Mul(x, y) => format!("({})*({})", x.show(), y.show()),
        AtomKind::Div(x, y) => format!("({})/({})", x.show(), y.show()),
        AtomKind::Rem(x, y) => format!("({})%({})", x.show(), y.show()),
        AtomKind::And(x, y) => format!("({})&({})", x.show(), y.show()),
        AtomKind::Or(x, y) => format!("({})|({})", x.show(), y.show()),
        AtomKind::Xor(x, y) => format!("({})^({})", x.show(), y.show()),
        AtomKind::Pow2(x) => format!("2^({})", x.show()),
        AtomKind::Wrap(x, b, s) => format!("{}{}({})", if s { "i" } else { "u" }, b, x.show()),
        AtomKind::Quot(x, k) => format!("({})div{}", x.show(), k),
        AtomKind::Fun(f, xs) => format!("{}#{}({})", n, f, xs.iter().map(|x| x.show()).collect::<Vec<_>>().join(",")),
    }
}

pub fn fresh_sym(name: &str, lo: i128, hi: i128) -> Lin {
    T.with(|t| {
        let mut t = t.borrow_mut();
        let id = t.atoms.len() as Atom;
        t.next_sym += 1;
        let k = AtomKind::Sym(t.next_sym);
        t.atoms.push(AtomInfo { kind: k, lo, hi, name: name.to_string(), axioms: vec![], deps: vec![] });
        if lo == hi { Lin::k(lo) } else { Lin::atom(id) }
    })
}

pub fn intern(kind: AtomKind, lo: i128, hi: i128) -> Atom {
    if let Some(a) = T.with(|t| t.borrow().map.get(&kind).copied()) { return a; }
    T.with(|t| {
        let mut t = t.borrow_mut();
        let id = t.atoms.len() as Atom;
        let mut deps = vec![];
        let mut add = |l: &Lin| for (a, _) in &l.t { deps.push(*a) };
        match &kind {
            AtomKind::Sym(_) => {}
            AtomKind::Read { off, .. } => add(off),
            AtomKind::Mul(x, y) | AtomKind::Div(x, y) | AtomKind::Rem(x, y) | AtomKind::And(x, y) | AtomKind::Or(x, y) | AtomKind::Xor(x, y) => { add(x); add(y) }
            AtomKind::Pow2(x) | AtomKind::Wrap(x, _, _) | AtomKind::Quot(x, _) => add(x),
            AtomKind::Fun(_, xs) => for x in xs { add(x) },
        }
        t.atoms.push(AtomInfo { kind: kind.clone(), lo, hi, name: String::new(), axioms: vec![], deps });
        t.map.insert(kind, id);
        id
    })
}
pub fn set_axioms(a: Atom, ax: Vec<Lin>) { T.with(|t| t.borrow_mut().atoms[a as usize].axioms = ax) }
pub fn has_axioms(a: Atom) -> bool { T.with(|t| !t.borrow().atoms[a as usize].axioms.is_empty()) }
pub fn atom_kind(a: Atom) -> AtomKind { T.with(|t| t.borrow().atoms[a as usize].kind.clone()) }
pub fn atom_range(a: Atom) -> (i128, i128) { T.with(|t| { let t = t.borrow(); let i = &t.atoms[a as usize]; (i.lo, i.hi) }) }
pub fn atom_count() -> usize { T.with(|t| t.borrow().atoms.len()) }

pub fn new_content(name: &str) -> ContentId {
    T.with(|t| {
        let mut t = t.borrow_mut();
        t.next_sym += 1;
        let k = ContentKind::Sym(t.next_sym);
        t.contents.push((k, name.to_string()));
        (t.contents.len() - 1) as ContentId
    })
}
pub fn mk_content(k: ContentKind) -> ContentId {
    T.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(c) = t.cmap.get(&k) { return *c; }
        t.contents.push((k.clone(), String::new()));
        let id = (t.contents.len() - 1) as ContentId;
        t.cmap.insert(k, id);
        id
    })
}
pub fn content_kind(c: ContentId) -> ContentKind { T.with(|t| t.borrow().contents[c as usize].0.clone()) }

pub fn type_range(bits: u16, signed: bool) -> (i128, i128) {
    if signed {
        if bits >= 128 { (i128::MIN / 2, i128::MAX / 2) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
    } else if bits >= 127 { (0, i128::MAX / 2) } else { (0, (1i128 << bits) - 1) }
}

/// Substitution of atoms and contents, applied recursively into derived atoms.
#[derive(Default)]
pub struct Subst {
    pub atoms: HashMap<Atom, Lin>,
    pub contents: HashMap<ContentId, (ContentId, Lin)>,
    memo: HashMap<Atom, Option<Lin>>,
    cmemo: HashMap<ContentId, Option<(ContentId, Lin)>>,
}
impl Subst {
    pub fn new() -> Self { Self::default() }
    pub fn clear_memo(&mut self) { self.memo.clear(); self.cmemo.clear(); }
    pub fn lin(&mut self, l: &Lin) -> Lin {
        let mut r: Option<Lin> = None;
        for (i, (a, k)) in l.t.iter().enumerate() {
            if let Some(x) = self.atom(*a) {
                let mut base = match r.take() { Some(b) => b, None => { let mut b = l.clone(); b.t.truncate(i); b } };
                base = base.addmul(&x, *k);
                r = Some(base);
            } else if let Some(b) = &mut r { *b = b.addmul(&Lin::atom(*a), *k); }
        }
        r.unwrap_or_else(|| l.clone())
    }
    /// None: unchanged
    pub fn atom(&mut self, a: Atom) -> Option<Lin> {
        if let Some(x) = self.atoms.get(&a) { return Some(x.clone()); }
        if let Some(x) = self.memo.get(&a) { return x.clone(); }
        let kind = atom_kind(a);
        let (lo, hi) = atom_range(a);
        let r = match &kind {
            AtomKind::Sym(_) => None,
            AtomKind::Read { content, off, width, signed, be } => {
                let o2 = self.lin(off);
                let c2 = self.content(*content);
                if o2 == *off && c2.is_none() { None } else {
                    let (c, o) = match c2 { Some((c, d)) => (c, o2.add(&d)), None => (*content, o2) };
                    Some(mk_read(c, o, *width, *signed, *be, lo, hi))
                }
            }
            AtomKind::Mul(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_mul(&x2, &y2)) } }
            AtomKind::Div(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_div(&x2, &y2)) } }
            AtomKind::Rem(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_rem(&x2, &y2)) } }
            AtomKind::And(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_bit('&', &x2, &y2, lo, hi)) } }
            AtomKind::Or(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_bit('|', &x2, &y2, lo, hi)) } }
            AtomKind::Xor(x, y) => { let (x2, y2) = (self.lin(x), self.lin(y)); if x2 == *x && y2 == *y { None } else { Some(mk_bit('^', &x2, &y2, lo, hi)) } }
            AtomKind::Pow2(x) => { let x2 = self.lin(x); if x2 == *x { None } else { Some(mk_pow2(&x2)) } }
            AtomKind::Wrap(x, b, s) => { let x2 = self.lin(x); if x2 == *x { None } else { Some(mk_wrap(&x2, *b, *s)) } }
            AtomKind::Quot(x, k) => { let x2 = self.lin(x); if x2 == *x { None } else { Some(mk_quot(&x2, *k)) } }
            AtomKind::Fun(f, xs) => { let x2: Vec<Lin> = xs.iter().map(|x| self.lin(x)).collect(); if x2 == *xs { None } else { Some(mk_fun(*f, x2, lo, hi)) } }
        };
        self.memo.insert(a, r.clone());
        r
    }
    pub fn content(&mut self, c: ContentId) -> Option<(ContentId, Lin)> {
        if let Some(x) = self.contents.get(&c) { return Some(x.clone()); }
        if let Some(x) = self.cmemo.get(&c) { return x.clone(); }
        let r = match content_kind(c) {
            ContentKind::Sym(_) | ContentKind::Const(_) => None,
            ContentKind::Fill(l) => { let l2 = self.lin(&l); if l2 == l { None } else { Some((mk_content(ContentKind::Fill(l2)), Lin::k(0))) } }
            ContentKind::Overlay { base, start, len, src } => {
                let b2 = self.cref(&base); let s2 = self.cref(&src); let (st, ln) = (self.lin(&start), self.lin(&len));
                let n = ContentKind::Overlay { base: b2, start: st, len: ln, src: s2 };
                let id = mk_content(n);
                if id == c { None } else { Some((id, Lin::k(0))) }
            }
            ContentKind::Put { base, at, val } => {
                let b2 = self.cref(&base);
                let n = ContentKind::Put { base: b2, at: self.lin(&at), val: self.lin(&val) };
                let id = mk_content(n);
                if id == c { None } else { Some((id, Lin::k(0))) }
            }
        };
        self.cmemo.insert(c, r.clone());
        r
    }
    pub fn cref(&mut self, x: &(ContentId, Lin)) -> (ContentId, Lin) {
        let o = self.lin(&x.1);
        match self.content(x.0) { Some((c, d)) => (c, o.add(&d)), None => (x.0, o) }
    }
}

pub fn mk_read(content: ContentId, off: Lin, width: u8, signed: bool, be: bool, lo: i128, hi: i128) -> Lin {
    let be = be && width > 1;
    match content_kind(content) {
        ContentKind::Const(v) => {
            if let Some(o) = off.is_const() {
                if o >= 0 && (o as usize + width as usize) <= v.len() {
                    let o = o as usize;
                    if width == 1 { return Lin::k(v[o]); }
                    let mut x: i128 = 0;
                    for i in 0..width as usize { let b = v[o + if be { i } else { width as usize - 1 - i }] & 0xff; x = (x << 8) | b; }
                    if signed && width < 16 { let sh = 128 - 8 * width as u32; x = (x << sh) >> sh; }
                    return Lin::k(x);
                }
            }
        }
        ContentKind::Fill(l) => {
            if width == 1 { return l; }
            if l.is_const() == Some(0) { return Lin::k(0); }
        }
        _ => {}
    }
    Lin::atom(intern(AtomKind::Read { content, off, width, signed, be }, lo, hi))
}
pub fn mk_mul(x: &Lin, y: &Lin) -> Lin {
    if let Some(k) = x.is_const() { return y.scale(k); }
    if let Some(k) = y.is_const() { return x.scale(k); }
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    let (a, b) = x.range(); let (c, d) = y.range();
    let ps = [a.saturating_mul(c), a.saturating_mul(d), b.saturating_mul(c), b.saturating_mul(d)];
    let at = intern(AtomKind::Mul(x.clone(), y.clone()), *ps.iter().min().unwrap(), *ps.iter().max().unwrap());
    Lin::atom(at)
}
/// floor division of nonnegative x by constant k>0
pub fn mk_quot(x: &Lin, k: i128) -> Lin {
    if k == 1 { return x.clone(); }
    if let Some(c) = x.is_const() { return Lin::k(c.div_euclid(k)); }
    // exact parts
    let mut q = Lin::k(0); let mut r = Lin { c: x.c.rem_euclid(k), t: vec![] };
    q.c = x.c.div_euclid(k);
    for (a, c) in &x.t { if c % k == 0 { q.t.push((*a, c / k)); } else { r.t.push((*a, *c)); } }
    if r.t.is_empty() { return q; }
    let (lo, hi) = r.range();
    if lo >= 0 && hi < k { return q; }
    let at = intern(AtomKind::Quot(r.clone(), k), lo.div_euclid(k), hi.div_euclid(k));
    if !has_axioms(at) {
        let qa = Lin::atom(at);
        set_axioms(at, vec![r.sub(&qa.scale(k)), qa.scale(k).addk(k - 1).sub(&r)]);
    }
    q.add(&Lin::atom(at))
}
pub fn mk_div(x: &Lin, y: &Lin) -> Lin {
    if let Some(k) = y.is_const() { if k > 0 && x.range().0 >= 0 { return mk_quot(x, k); } }
    let (a, b) = x.range();
    let m = a.saturating_abs().max(b.saturating_abs());
    let at = intern(AtomKind::Div(x.clone(), y.clone()), if a >= 0 && y.range().0 >= 0 { 0 } else { -m }, m);
    if !has_axioms(at) && a >= 0 && y.range().0 >= 0 { set_axioms(at, vec![x.sub(&Lin::atom(at))]); }
    Lin::atom(at)
}
pub fn mk_rem(x: &Lin, y: &Lin) -> Lin {
    if let Some(k) = y.is_const() { if k > 0 && x.range().0 >= 0 { return x.sub(&mk_quot(x, k).scale(k)); } }
    let (a, b) = x.range();
    let (_, d) = y.range();
    let m = a.saturating_abs().max(b.saturating_abs());
    let at = intern(AtomKind::Rem(x.clone(), y.clone()), if a >= 0 { 0 } else { -m }, m.min(d.max(1) - 1).max(0));
    if !has_axioms(at) && a >= 0 && y.range().0 >= 0 { set_axioms(at, vec![x.sub(&Lin::atom(at)), y.sub(&Lin::atom(at)).addk(-1)]); }
    Lin::atom(at)
}
pub fn mk_pow2(x: &Lin) -> Lin {
    if let Some(k) = x.is_const() { if (0..126).contains(&k) { return Lin::k(1i128 << k); } }
    let (lo, hi) = x.range();
    let f = |v: i128| 1i128 << v.clamp(0, 125);
    Lin::atom(intern(AtomKind::Pow2(x.clone()), f(lo), f(hi)))
}
pub fn mk_wrap(x: &Lin, bits: u16, signed: bool) -> Lin {
    let (lo, hi) = x.range();
    let (tl, th) = type_range(bits, signed);
    if lo >= tl && hi <= th { return x.clone(); }
    if let Some(c) = x.is_const() {
        if bits < 127 {
            let m = 1i128 << bits;
            let mut r = c.rem_euclid(m);
            if signed && r > th { r -= m; }
            return Lin::k(r);
        }
    }
    let at = intern(AtomKind::Wrap(x.clone(), bits, signed), tl, th);
    if !signed && lo >= 0 && !has_axioms(at) { set_axioms(at, vec![x.sub(&Lin::atom(at))]); }
    Lin::atom(at)
}
pub fn mk_bit(op: char, x: &Lin, y: &Lin, lo: i128, hi: i128) -> Lin {
    if let (Some(a), Some(b)) = (x.is_const(), y.is_const()) {
        return Lin::k(match op { '&' => a & b, '|' => a | b, _ => a ^ b });
    }
    if op == '&' {
        for (p, q) in [(x, y), (y, x)] {
            if let Some(m) = p.is_const() {
                if m == 0 { return Lin::k(0); }
                if m > 0 && (m & (m + 1)) == 0 && q.range().0 >= 0 { return q.sub(&mk_quot(q, m + 1).scale(m + 1)); }
            }
        }
    }
    if op != '&' { if x.is_const() == Some(0) { return y.clone(); } if y.is_const() == Some(0) { return x.clone(); } }
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    let nonneg = x.range().0 >= 0 && y.range().0 >= 0;
    let (lo, hi) = match (op, x.is_const().or(y.is_const())) { ('&', Some(m)) if m >= 0 => (0, hi.min(m)), _ => (lo, hi) };
    let (k, lo2, hi2) = match op {
        '&' => (AtomKind::And(x.clone(), y.clone()), if nonneg { 0 } else { lo }, if nonneg { x.range().1.min(y.range().1).min(hi) } else { hi }),
        '|' => (AtomKind::Or(x.clone(), y.clone()), if nonneg { 0 } else { lo }, hi),
        _ => (AtomKind::Xor(x.clone(), y.clone()), if nonneg { 0 } else { lo }, hi),
    };
    let at = intern(k, lo2, hi2);
    if nonneg && !has_axioms(at) {
        let r = Lin::atom(at);
        match op { '&' => set_axioms(at, vec![x.sub(&r), y.sub(&r)]), '|' => set_axioms(at, vec![r.sub(x), r.sub(y), x.add(y).sub(&r)]), _ => set_axioms(at, vec![x.add(y).sub(&r)]) }
    }
    Lin::atom(at)
}
/// the same value modulo 2^bits with inner wrappings of at least that width removed
pub fn unwrap_mod(l: &Lin, bits: u16) -> Lin {
    let mut r = Lin::k(l.c);
    for (a, k) in &l.t { match atom_kind(*a) { AtomKind::Wrap(x, b, _) if b >= bits => r = r.addmul(&unwrap_mod(&x, bits), *k), _ => r = r.addmul(&Lin::atom(*a), *k) } }
    r
}
pub fn mk_fun(f: u32, xs: Vec<Lin>, lo: i128, hi: i128) -> Lin {
    if f == crate::interp::FUN_SDIV {
        if let (Some(k), (l, h)) = (xs[1].is_const(), xs[0].range()) {
            if k > 0 {
                let (lo, hi) = (lo.max(l / k), hi.min(h / k));
                let a = xs[0].clone();
                let at = intern(AtomKind::Fun(f, xs), lo, hi);
                if !has_axioms(at) { let q = Lin::atom(at).scale(k); set_axioms(at, vec![a.addk(k - 1).sub(&q), q.sub(&a).addk(k - 1)]); }
                return Lin::atom(at);
            }
        }
    }
    if f == crate::interp::FUN_NZ { return mk_nz(&xs[0]); }
    if f == crate::interp::FUN_POS { return mk_pos(&xs[0]); }
    mk_fun0(f, xs, lo, hi)
}
/// 1 if the nonnegative term is not zero, else 0
pub fn mk_nz(x: &Lin) -> Lin {
    let (lo, hi) = x.range();
    if lo >= 1 { return Lin::k(1); }
    if hi <= 0 { return Lin::k(0); }
    if hi == 1 && lo == 0 { return x.clone(); }
    let at = intern(AtomKind::Fun(crate::interp::FUN_NZ, vec![x.clone()]), 0, 1);
    if !has_axioms(at) { let n = Lin::atom(at); set_axioms(at, vec![x.sub(&n), n.scale(hi).sub(x)]); }
    Lin::atom(at)
}
/// max(0, x)
pub fn mk_pos(x: &Lin) -> Lin {
    let (lo, hi) = x.range();
    if lo >= 0 { return x.clone(); }
    if hi <= 0 { return Lin::k(0); }
    let at = intern(AtomKind::Fun(crate::interp::FUN_POS, vec![x.clone()]), 0, hi);
    if !has_axioms(at) { set_axioms(at, vec![Lin::atom(at).sub(x)]); }
    Lin::atom(at)
}
pub fn pos_arg(a: Atom) -> Option<Lin> { T.with(|t| match &t.borrow().atoms[a as usize].kind { AtomKind::Fun(crate::interp::FUN_POS, xs) => Some(xs[0].clone()), _ => None }) }
fn mk_fun0(f: u32, xs: Vec<Lin>, lo: i128, hi: i128) -> Lin { Lin::atom(intern(AtomKind::Fun(f, xs), lo, hi)) }

/// a fast deterministic hasher
#[derive(Default, Clone, Copy)]
pub struct FxH { h: u64 }
impl FxH { #[inline] fn a(&mut self, i: u64) { self.h = (self.h.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95); } }
impl std::hash::Hasher for FxH {
    #[inline] fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.a(u64::from_le_bytes(x)); } }
    #[inline] fn write_u8(&mut self, i: u8) { self.a(i as u64) }
    #[inline] fn write_u16(&mut self, i: u16) { self.a(i as u64) }
    #[inline] fn write_u32(&mut self, i: u32) { self.a(i as u64) }
    #[inline] fn write_u64(&mut self, i: u64) { self.a(i) }
    #[inline] fn write_usize(&mut self, i: usize) { self.a(i as u64) }
    #[inline] fn write_i128(&mut self, i: i128) { self.a(i as u64); self.a((i >> 64) as u64) }
    #[inline] fn write_u128(&mut self, i: u128) { self.a(i as u64); self.a((i >> 64) as u64) }
    #[inline] fn finish(&self) -> u64 { self.h ^ (self.h >> 29) }
}
pub type Bh = std::hash::BuildHasherDefault<FxH>;
pub type HashMap<K, V> = std::collections::HashMap<K, V, Bh>;
pub type HashSet<K> = std::collections::HashSet<K, Bh>;
