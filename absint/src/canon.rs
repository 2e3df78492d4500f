//! Normal forms of terms: integers read from bytes become sums over the bytes, products of sums are
//! expanded, shifts and masks become quotients, so that two ways to write the same number meet.
use crate::lin::*;
use crate::solver::Cons;

#[derive(Default)]
pub struct Canon { memo: HashMap<Atom, Lin>, /// offsets (without constant) known to equal another one
    pub same: HashMap<(ContentId, Lin), Lin>, /// bytes which the constraints determine
    consts: HashMap<Atom, i128>, cons: Option<Cons> }

impl Canon {
    pub fn lin(&mut self, l: &Lin) -> Lin {
        let mut r = Lin::k(l.c);
        for (a, k) in &l.t { let x = self.atom(*a); r = r.addmul(&x, *k); }
        mixed(&r)
    }
    fn atom(&mut self, a: Atom) -> Lin {
        if let Some(x) = self.memo.get(&a) { return x.clone(); }
        let (lo, hi) = atom_range(a);
        let r = match atom_kind(a) {
            AtomKind::Sym(_) => Lin::atom(a),
            AtomKind::Read { content, off, width, signed, be } => {
                let o = self.lin(&off);
                let o = self.off(content, o);
                if let (Some(k), 1) = (self.cons.is_some().then(|| self.content(content)).flatten(), (width == 1) as u8) {
                    // the byte was copied from somewhere else
                    let x = crate::interp::read_content(self.cons.as_ref().unwrap(), k, o.clone(), 1, signed, be, lo, hi);
                    if let Some(b) = x.as_atom() { if let AtomKind::Read { content, .. } = atom_kind(b) { if content == k { self.memo.insert(a, x.clone()); return x; } } }
                    let r = self.lin(&x);
                    self.memo.insert(a, r.clone());
                    return r;
                }
                if self.cons.is_some() && width > 1 {
                    let mut s = Lin::k(0);
                    for i in 0..width as i128 { let sh = 8 * if be { width as i128 - 1 - i } else { i }; let x = self.lin(&mk_read(content, o.addk(i), 1, false, false, 0, 255)); s = s.addmul(&x, 1i128 << sh); }
                    if signed { wrap(&s, width as u16 * 8, true) } else { s }
                } else if width == 1 && (hi > 255 || lo < -128) { mk_read(content, o, 1, signed, be, lo, hi) }
                else {
                    let mut s = Lin::k(0);
                    for i in 0..width as i128 {
                        let sh = 8 * if be { width as i128 - 1 - i } else { i };
                        s = s.addmul(&mk_read(content, o.addk(i), 1, false, false, 0, 255), 1i128 << sh);
                    }
                    if signed { wrap(&s, width as u16 * 8, true) } else { s }
                }
            }
            AtomKind::Mul(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); mul(&x, &y) }
            AtomKind::Div(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); match y.is_const() { Some(k) if k > 0 && x.range().0 >= 0 => quot(&x, k), _ => mk_div(&x, &y) } }
            AtomKind::Rem(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); match y.is_const() { Some(k) if k > 0 && x.range().0 >= 0 => mixed(&x.sub(&quot(&x, k).scale(k))), _ => mk_rem(&x, &y) } }
            AtomKind::And(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); and(&x, &y, lo, hi) }
            AtomKind::Or(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); if disjoint(&x, &y) { x.add(&y) } else { mk_bit('|', &x, &y, lo, hi) } }
            AtomKind::Xor(x, y) => { let (x, y) = (self.lin(&x), self.lin(&y)); if disjoint(&x, &y) { x.add(&y) } else { mk_bit('^', &x, &y, lo, hi) } }
            AtomKind::Pow2(x) => { let x = self.lin(&x); mk_pow2(&x) }
            AtomKind::Wrap(x, b, s) => { let x = self.lin(&x); wrap(&x, b, s) }
            AtomKind::Quot(x, k) => { let x = self.lin(&x); quot(&x, k) }
            AtomKind::Fun(f, xs) => { let xs: Vec<Lin> = xs.iter().map(|x| self.lin(x)).collect(); if f == crate::interp::FUN_SHR { shr(&xs, lo, hi) } else { mk_fun(f, xs, lo, hi) } }
        };
        let r = if let Some(k) = r.as_atom().and_then(|x| self.consts.get(&x)) { Lin::k(*k) } else { r };
        self.memo.insert(a, r.clone());
        r
    }
    /// content written over other content, with canonical bounds
    fn content(&mut self, c: ContentId) -> Option<ContentId> {
        Some(match content_kind(c) {
            ContentKind::Overlay { base, start, len, src } => {
                let b = self.content(base.0).unwrap_or(base.0); let s = self.content(src.0).unwrap_or(src.0);
                mk_content(ContentKind::Overlay { base: (b, self.lin(&base.1)), start: self.lin(&start), len: self.lin(&len), src: (s, self.lin(&src.1)) })
            }
            ContentKind::Put { base, at, val } => { let b = self.content(base.0).unwrap_or(base.0); mk_content(ContentKind::Put { base: (b, self.lin(&base.1)), at: self.lin(&at), val: self.lin(&val) }) }
            _ => return None,
        })
    }
    /// from now on bytes with one possible value are written as that value, and copied bytes as their origin
    pub fn resolve(&mut self, cons: &Cons, ls: &[Lin]) {
        self.memo.clear();
        for l in ls {
            let x = self.lin(l);
            for (a, _) in &x.t { self.fixed(cons, *a); }
            // a number of several bytes with one possible value
            let mut s = x.clone(); s.c = 0;
            let neg = s.t.iter().all(|t| t.1 < 0);
            if neg { s = s.neg(); }
            let mut ks: Vec<i128> = s.t.iter().map(|t| t.1).collect(); ks.sort();
            if ks.len() > 1 && ks.len() <= 8 && ks.iter().enumerate().all(|(i, k)| *k == 1i128 << (8 * i)) && s.t.iter().all(|t| is_byte(t.0)) {
                let (lo, hi) = cons.range(&s);
                let k = if lo == hi { Some(lo) } else { let k = if neg { x.c } else { -x.c }; if cons.entails_eq(&s.addk(-k)) { Some(k) } else { None } };
                if let Some(k) = k { for (a, m) in &s.t { self.consts.insert(*a, k / m % 256); } }
            }
        }
        self.memo.clear();
        self.cons = Some(cons.clone());
    }
    fn fixed(&mut self, cons: &Cons, a: Atom) {
        if self.consts.contains_key(&a) { return; }
        match atom_kind(a) {
            AtomKind::Read { off, width: 1, .. } => { for (b, _) in &off.t { self.fixed(cons, *b); } }
            AtomKind::Fun(FUN_BIT, xs) => { for (b, _) in &xs[0].t { self.fixed(cons, *b); } return; }
            AtomKind::Sym(_) => {}
            _ => return,
        }
        let (lo, hi) = cons.range(&Lin::atom(a));
        if lo == hi { self.consts.insert(a, lo); }
    }
    fn off(&mut self, c: ContentId, o: Lin) -> Lin {
        if self.same.is_empty() { return o; }
        let mut v = o.clone(); v.c = 0;
        match self.same.get(&(c, v)) { Some(x) => x.addk(o.c), None => o }
    }
    /// make offsets which the constraints show to be equal the same term
    pub fn congruence(&mut self, cons: &Cons, ls: &[Lin]) {
        let mut seen: Vec<(ContentId, Lin)> = vec![];
        let mut done: HashSet<Atom> = HashSet::default();
        let mut todo: Vec<Atom> = ls.iter().flat_map(|l| l.t.iter().map(|x| x.0)).collect();
        while let Some(a) = todo.pop() {
            if !done.insert(a) { continue; }
            let mut add = |l: &Lin| todo.extend(l.t.iter().map(|x| x.0));
            match atom_kind(a) {
                AtomKind::Read { content, off, .. } => { add(&off); let mut o = self.lin(&off); o.c = 0; if !seen.contains(&(content, o.clone())) { seen.push((content, o)); } }
                AtomKind::Mul(x, y) | AtomKind::Div(x, y) | AtomKind::Rem(x, y) | AtomKind::And(x, y) | AtomKind::Or(x, y) | AtomKind::Xor(x, y) => { add(&x); add(&y) }
                AtomKind::Pow2(x) | AtomKind::Wrap(x, _, _) | AtomKind::Quot(x, _) => add(&x),
                AtomKind::Fun(_, xs) => for x in &xs { add(x) },
                AtomKind::Sym(_) => {}
            }
        }
        seen.sort_by_key(|x| (x.0, x.1.t.len(), x.1.clone()));
        let mut same: HashMap<(ContentId, Lin), Lin> = HashMap::default();
        let known: Vec<Lin> = cons.all();
        for i in 0..seen.len() {
            if seen[i].1.t.is_empty() { continue; }
            for j in 0..i {
                if seen[i].0 != seen[j].0 || same.contains_key(&seen[j]) { continue; }
                let d = seen[i].1.sub(&seen[j].1);
                // a constant distance shows as a row on one side at least
                let (lo, hi) = cons.range(&d);
                let mut ks: Vec<i128> = vec![];
                if lo == hi { ks.push(lo); }
                for r in &known { let mut x = r.clone(); x.c = 0; if x == d { ks.push(-r.c); } else if x == d.neg() { ks.push(r.c); } }
                ks.sort(); ks.dedup();
                if let Some(k) = ks.into_iter().find(|k| cons.entails_eq(&d.addk(-*k))) { same.insert(seen[i].clone(), seen[j].1.addk(k)); break; }
            }
        }
        self.memo.clear();
        self.same = same;
    }
}
fn factors(a: Atom, v: &mut Vec<Atom>) -> bool {
    match atom_kind(a) {
        AtomKind::Mul(x, y) => { let (Some(p), Some(q)) = (x.as_atom(), y.as_atom()) else { return false }; factors(p, v) && factors(q, v) }
        _ => { v.push(a); true }
    }
}
fn mul(x: &Lin, y: &Lin) -> Lin {
    if x.is_const().is_some() || y.is_const().is_some() || x.t.len() * y.t.len() > 80 { return mk_mul(x, y); }
    let mut r = Lin::k(x.c.saturating_mul(y.c));
    for (a, k) in &x.t { r = r.addmul(&Lin::atom(*a), k.saturating_mul(y.c)); }
    for (a, k) in &y.t { r = r.addmul(&Lin::atom(*a), k.saturating_mul(x.c)); }
    for (a, k) in &x.t {
        for (b, l) in &y.t {
            let mut f = vec![];
            let m = if factors(*a, &mut f) && factors(*b, &mut f) { f.sort(); let mut m = Lin::atom(f[0]); for z in &f[1..] { m = mk_mul(&m, &Lin::atom(*z)); } m } else { mk_mul(&Lin::atom(*a), &Lin::atom(*b)) };
            r = r.addmul(&m, k.saturating_mul(*l));
        }
    }
    r
}
fn part(x: &Lin, keep: impl Fn(i128) -> bool) -> Lin { Lin { c: 0, t: x.t.iter().filter(|t| keep(t.1)).cloned().collect() } }
pub const FUN_BIT: u32 = 90;
fn is_byte(a: Atom) -> bool { matches!(atom_kind(a), AtomKind::Read { width: 1, signed: false, .. }) && atom_range(a).1 == 255 }
/// bits of a byte
fn bits(a: Atom) -> Vec<Lin> {
    let v: Vec<Lin> = (0..8).map(|i| mk_fun(FUN_BIT, vec![Lin::atom(a), Lin::k(i)], 0, 1)).collect();
    let mut d = Lin::atom(a);
    for (i, b) in v.iter().enumerate() { d = d.addmul(b, -(1 << i)); }
    for b in &v { let b = b.as_atom().unwrap(); if !has_axioms(b) { set_axioms(b, vec![d.clone(), d.neg()]); } }
    v
}
fn whole(a: Atom) -> Lin { let mut s = Lin::k(0); for (i, b) in bits(a).iter().enumerate() { s = s.addmul(b, 1 << i); } s }
/// a byte which occurs together with its bits is written as bits
fn mixed(l: &Lin) -> Lin {
    let mut r = l.clone();
    for (a, _) in &l.t { if let AtomKind::Fun(FUN_BIT, xs) = atom_kind(*a) { let b = xs[0].as_atom().unwrap(); let k = r.coef(b); if k != 0 { r = r.addmul(&Lin::atom(b), -k).addmul(&whole(b), k); } } }
    // all bits in their places make the byte again
    let r0 = r.clone();
    for (a, k) in &r0.t { if let AtomKind::Fun(FUN_BIT, xs) = atom_kind(*a) { if xs[1].is_const() == Some(0) { let b = xs[0].as_atom().unwrap(); let v = bits(b); if v.iter().enumerate().all(|(i, x)| r.coef(x.as_atom().unwrap()) == k << i) { r = r.addmul(&whole(b), -*k).addmul(&Lin::atom(b), *k); } } } }
    r
}
/// floor(x / k) for x >= 0
pub fn quot(x: &Lin, k: i128) -> Lin {
    if k <= 1 { return x.clone(); }
    let mut x = mixed(x);
    if k & (k - 1) == 0 && x.t.iter().all(|t| t.1 > 0) {
        for (a, c) in x.t.clone() { if is_byte(a) && c & (c - 1) == 0 && c < k && c * 256 > k { x = x.addmul(&Lin::atom(a), -c).addmul(&whole(a), c); } }
    }
    let x = &x;
    let q = mk_quot(x, k);
    let mut r = Lin::k(q.c);
    for (a, c) in &q.t {
        match atom_kind(*a) {
            AtomKind::Quot(y, k) => {
                // floor(floor(z/a)/k) = floor(z/(a*k))
                if let Some(b) = y.as_atom() { if let AtomKind::Quot(z, a) = atom_kind(b) { r = r.addmul(&quot(&z, a.saturating_mul(k)), *c); continue; } }
                // low parts which cannot carry into the quotient
                let mut best = None;
                let mut g = 2;
                while g <= k && k % g == 0 {
                    let mut rest = part(&y, |c| c % g != 0); rest.c = y.c.rem_euclid(g);
                    let (lo, hi) = rest.range();
                    if lo >= 0 && hi < g && (!rest.t.is_empty() || rest.c != 0 || y.t.iter().all(|t| t.1 % g == 0)) { best = Some((g, rest)); }
                    g *= 2;
                }
                match best {
                    Some((g, rest)) => { let hi = y.sub(&rest); let hi = Lin { c: hi.c / g, t: hi.t.iter().map(|(a, c)| (*a, c / g)).collect() }; let z = if g == k { hi } else { quot(&hi, k / g) }; r = r.addmul(&z, *c); }
                    None => r = r.addmul(&Lin::atom(*a), *c),
                }
            }
            _ => r = r.addmul(&Lin::atom(*a), *c),
        }
    }
    r
}
fn wrap(x: &Lin, bits: u16, signed: bool) -> Lin {
    if bits < 100 {
        let m = 1i128 << bits;
        let mut y = Lin { c: x.c.rem_euclid(m), t: vec![] };
        for (a, k) in &unwrap_mod(x, bits).t { let k = k.rem_euclid(m); if k != 0 { y.t.push((*a, k)); } }
        y.c = unwrap_mod(x, bits).c.rem_euclid(m);
        // negative coefficients keep the term small
        let neg = Lin { c: if signed && y.c >= m / 2 { y.c - m } else { y.c }, t: y.t.iter().map(|(a, k)| (*a, if *k > m / 2 { *k - m } else { *k })).collect() };
        let (lo, hi) = neg.range(); let (tl, th) = type_range(bits, signed);
        if lo >= tl && hi <= th { return neg; }
        let (lo, hi) = y.range();
        if lo >= tl && hi <= th { return y; }
        // the unsigned image of nonnegative parts
        if !signed && y.range().0 >= 0 { return mixed(&y.sub(&quot(&y, m).scale(m))); }
        // two's complement: the top bit counts negatively
        if signed && y.range() == (0, m - 1) {
            if let Some((a, _)) = y.t.iter().find(|t| t.1 == 1i128 << (bits - 8) && is_byte(t.0)) { return y.addmul(&self::bits(*a)[7], -m); }
            if let Some((a, _)) = y.t.iter().find(|t| t.1 == 1i128 << (bits - 1)) { return y.addmul(&Lin::atom(*a), -m); }
        }
        return mk_wrap(&y, bits, signed);
    }
    mk_wrap(x, bits, signed)
}
/// floor(x / 2^k) for x of either sign
fn shr(xs: &[Lin], lo: i128, hi: i128) -> Lin {
    if let Some(k) = xs[1].is_const() {
        if k == 0 { return xs[0].clone(); }
        if let (true, Some(AtomKind::Wrap(y, b, true))) = (k > 0 && k < 64, xs[0].as_atom().map(atom_kind)) {
            let m = 1i128 << k;
            // (2^k * z mod 2^b) / 2^k = z mod 2^(b-k)
            if y.c % m == 0 && y.t.iter().all(|t| t.1 % m == 0) { return wrap(&Lin { c: y.c / m, t: y.t.iter().map(|(a, c)| (*a, c / m)).collect() }, b - k as u16, true); }
        }
        if k > 0 && k < 126 && xs[0].range().0 >= 0 { return quot(&xs[0], 1 << k); }
    }
    mk_fun(crate::interp::FUN_SHR, xs.to_vec(), lo, hi)
}
/// x & mask as a sum of bit ranges
fn and(x: &Lin, y: &Lin, lo: i128, hi: i128) -> Lin {
    for (p, q) in [(x, y), (y, x)] {
        if let Some(m) = p.is_const() {
            if m >= 0 && q.range().0 >= 0 {
                let mut r = Lin::k(0);
                let top = { let h = q.range().1; if h >= i128::MAX / 2 { 126 } else { 128 - (h.max(1)).leading_zeros() as i128 } };
                let mut b = 0;
                while b < top {
                    if m >> b & 1 == 0 { b += 1; continue; }
                    let s = b;
                    while b < top && m >> b & 1 == 1 { b += 1; }
                    let hi = quot(q, 1i128 << s);
                    let bits = if b >= top { hi } else { let n = b - s; mixed(&hi.sub(&quot(q, 1i128 << b).scale(1i128 << n))) };
                    r = r.addmul(&bits, 1i128 << s);
                }
                return r;
            }
        }
    }
    mk_bit('&', x, y, lo, hi)
}
/// no bit can be set in both
fn disjoint(x: &Lin, y: &Lin) -> bool {
    for (p, q) in [(x, y), (y, x)] {
        // p is a multiple of 2^k and q is below
        let g = p.t.iter().map(|t| t.1).chain(if p.c != 0 { Some(p.c) } else { None }).fold(0, gcd);
        if g == 0 { return true; }
        let k = g & g.wrapping_neg();
        let (lo, hi) = q.range();
        if p.range().0 >= 0 && lo >= 0 && hi < k { return true; }
    }
    false
}
