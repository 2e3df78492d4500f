//! Entailment in conjunctions of linear inequalities (the abstract domain's order), decided by an
//! exact rational simplex with integer tightening of the constraints.
use crate::lin::*;
use std::cell::RefCell;

use std::rc::Rc;

thread_local! { pub static STATS: RefCell<(u64, u64, u64, u64)> = RefCell::new((0, 0, 0, 0)); }

#[derive(Clone, Default)]
pub struct Cons {
    /// each `>= 0`, multi-atom
    pub list: Rc<Vec<Lin>>,
    set: Rc<HashSet<Lin>>,
    /// single-atom bounds
    pub bounds: Rc<HashMap<Atom, (i128, i128)>>,
    pub gc_at: usize,
    /// points known to satisfy the conjunction (on a closed set of atoms); they refute most queries
    models: RefCell<Vec<Rc<HashMap<Atom, R>>>>,
}

impl Cons {
    pub fn bound(&self, a: Atom) -> (i128, i128) {
        let (lo, hi) = atom_range(a);
        match self.bounds.get(&a) { Some((l, h)) => (lo.max(*l), hi.min(*h)), None => (lo, hi) }
    }
    pub fn range(&self, l: &Lin) -> (i128, i128) {
        let (mut lo, mut hi) = (l.c, l.c);
        for (a, k) in &l.t {
            let (x, y) = self.bound(*a);
            let (x, y) = if *k >= 0 { (x.saturating_mul(*k), y.saturating_mul(*k)) } else { (y.saturating_mul(*k), x.saturating_mul(*k)) };
            lo = lo.saturating_add(x); hi = hi.saturating_add(y);
        }
        (lo, hi)
    }
    fn value(m: &HashMap<Atom, R>, l: &Lin) -> Option<R> {
        let mut s = R::i(l.c);
        for (a, k) in &l.t { s = s.add(m.get(a)?.mul(R::i(*k))?)?; }
        Some(s)
    }
    fn refuted(&self, g: &Lin) -> bool { self.models.borrow().iter().any(|m| Cons::value(m, g).map(|v| v.n <= -v.d).unwrap_or(false)) }
    fn narrow(&self, l: &Lin) { self.models.borrow_mut().retain(|m| l.t.iter().all(|(a, _)| !m.contains_key(a)) || Cons::value(m, l).map(|v| v.n >= 0).unwrap_or(false)); }
    /// add `l >= 0` without any feasibility check
    pub fn add(&mut self, l: Lin) {
        let l = l.tighten();
        if l.t.is_empty() {
            if l.c < 0 { // contradiction: record as impossible bound
                Rc::make_mut(&mut self.list).push(l);
            }
            return;
        }
        if l.t.len() == 1 {
            let (a, k) = l.t[0];
            let (lo, hi) = self.bound(a);
            // k*a + c >= 0
            let b = if k > 0 { ((-l.c + k - 1).div_euclid(k), i128::MAX) } else { (i128::MIN, l.c.div_euclid(-k)) };
            let n = (lo.max(b.0), hi.min(b.1));
            if n != (lo, hi) { self.narrow(&l); Rc::make_mut(&mut self.bounds).insert(a, n); if lo < 1 && n.0 >= 1 { if let Some(x) = pos_arg(a) { self.add(x.sub(&Lin::atom(a))); } } }
            return;
        }
        if self.range(&l).0 >= 0 && l.range().0 >= 0 { return; }
        if self.set.contains(&l) { return; }
        self.narrow(&l);
        let pos: Vec<(Atom, Lin)> = l.t.iter().filter_map(|(a, k)| if *k > 0 { pos_arg(*a).map(|x| (*a, x)) } else { None }).collect();
        Rc::make_mut(&mut self.set).insert(l.clone());
        Rc::make_mut(&mut self.list).push(l);
        for (a, x) in pos { let d = x.sub(&Lin::atom(a)); if self.bound(a).0 < 1 && !self.set.contains(&d) && self.entails(&Lin::atom(a).addk(-1)) { self.add(d); } }
    }
    pub fn add_eq(&mut self, l: &Lin) { self.add(l.clone()); self.add(l.neg()); }

    pub fn all(&self) -> Vec<Lin> {
        let mut v: Vec<Lin> = self.list.as_ref().clone();
        for (a, (lo, hi)) in self.bounds.iter() {
            let (l, h) = atom_range(*a);
            if *lo > l { v.push(Lin { c: -*lo, t: vec![(*a, 1)] }); }
            if *hi < h { v.push(Lin { c: *hi, t: vec![(*a, -1)] }); }
        }
        v
    }
    pub fn obviously_false(&self) -> bool {
        self.list.iter().any(|l| l.t.is_empty() && l.c < 0) || self.bounds.iter().any(|(_, (l, h))| l > h)
    }

    /// does the conjunction imply `g >= 0`?
    pub fn entails(&self, g: &Lin) -> bool {
        STATS.with(|s| s.borrow_mut().0 += 1);
        if let Some(c) = g.is_const() { if c >= 0 { return true; } }
        let g = g.clone().tighten();
        let (lo, hi) = self.range(&g);
        if lo >= 0 { return true; }
        let _ = hi;
        if self.set.contains(&g) { return true; }
        for c in self.list.iter() {
            // g = c + nonneg?
            if c.t.len() <= g.t.len() + 2 && !g.t.is_empty() && c.t.iter().any(|(a, k)| { let gk = g.coef(*a); gk.signum() == k.signum() && gk != 0 }) {
                if self.range(&g.sub(c)).0 >= 0 { return true; }
            }
        }
        if !g.t.is_empty() && self.list.is_empty() && g.t.iter().all(|(a, _)| !has_axioms(*a)) { return false; }
        if self.refuted(&g) { return false; }
        STATS.with(|s| s.borrow_mut().1 += 1);
        // g <= -1 infeasible?
        let neg = g.neg().addk(-1);
        !self.feasible_with(Some(&neg))
    }
    pub fn entails_eq(&self, g: &Lin) -> bool { self.entails(g) && self.entails(&g.neg()) }
    pub fn feasible(&self) -> bool { if self.obviously_false() { return false; } self.feasible_with(None) }
    /// is `conjunction and l>=0` possible (approximately: true if unsure)
    pub fn compatible(&self, l: &Lin) -> bool {
        if let Some(c) = l.is_const() { return c >= 0; }
        let l = l.clone().tighten();
        if self.range(&l).1 < 0 { return false; }
        STATS.with(|s| s.borrow_mut().2 += 1);
        self.feasible_with(Some(&l))
    }

    fn feasible_with(&self, extra: Option<&Lin>) -> bool {
        // relevant constraints: closure from the atoms of `extra`
        let mut rows: Vec<Lin> = vec![];
        let mut atoms: Vec<Atom> = vec![];
        let mut idx: HashMap<Atom, usize> = HashMap::default();
        let mut used = vec![false; self.list.len()];
        let mut work: Vec<Atom> = vec![];
        let mut seen_ax: HashSet<Atom> = HashSet::default();
        let push = |l: &Lin, atoms: &mut Vec<Atom>, idx: &mut HashMap<Atom, usize>, work: &mut Vec<Atom>| {
            for (a, _) in &l.t { if !idx.contains_key(a) { idx.insert(*a, atoms.len()); atoms.push(*a); work.push(*a); } }
        };
        if let Some(e) = extra { push(e, &mut atoms, &mut idx, &mut work); rows.push(e.clone()); }
        else { for (i, c) in self.list.iter().enumerate() { used[i] = true; push(c, &mut atoms, &mut idx, &mut work); rows.push(c.clone()); } }
        // bounded terms defined by other quantities
        let mut derived: Vec<(Atom, Vec<Atom>)> = T.with(|t| { let t = t.borrow(); self.bounds.keys().filter(|a| !t.atoms[**a as usize].axioms.is_empty()).map(|a| (*a, t.atoms[*a as usize].deps.clone())).collect() });
        while let Some(a) = work.pop() {
            if !derived.is_empty() { derived.retain(|(x, deps)| if deps.contains(&a) { push(&Lin::atom(*x), &mut atoms, &mut idx, &mut work); false } else { true }); }
            if seen_ax.insert(a) {
                let ax = T.with(|t| t.borrow().atoms[a as usize].axioms.clone());
                for x in ax { push(&x, &mut atoms, &mut idx, &mut work); rows.push(x); }
            }
            for (i, c) in self.list.iter().enumerate() {
                if !used[i] && c.coef(a) != 0 { used[i] = true; push(c, &mut atoms, &mut idx, &mut work); rows.push(c.clone()); }
            }
        }
        for c in self.list.iter() { if c.t.is_empty() && c.c < 0 { return false; } }
        let bounds: Vec<(i128, i128)> = atoms.iter().map(|a| self.bound(*a)).collect();
        for (l, h) in &bounds { if l > h { return false; } }
        // max(0, x) is 0 or x
        let pos: Vec<(Atom, Lin)> = atoms.iter().filter_map(|a| pos_arg(*a).map(|x| (*a, x))).take(2).collect();
        for (_, x) in &pos { push(x, &mut atoms, &mut idx, &mut work); }
        let bounds: Vec<(i128, i128)> = if pos.is_empty() { bounds } else { atoms.iter().map(|a| self.bound(*a)).collect() };
        for k in 0..1usize << pos.len() {
            let mut rows = rows.clone();
            for (i, (a, x)) in pos.iter().enumerate() { if k >> i & 1 == 0 { rows.push(x.sub(&Lin::atom(*a))); } else { rows.push(Lin::atom(*a).neg()); rows.push(x.neg()); } }
            if self.feasible_rows(&rows, &atoms, &idx, bounds.clone()) { return true; }
        }
        false
    }
    fn feasible_rows(&self, rows: &[Lin], atoms: &[Atom], idx: &HashMap<Atom, usize>, mut b: Vec<(i128, i128)>) -> bool {
        // presolve: bound propagation
        for _ in 0..4 {
            let mut ch = false;
            for r in rows {
                // sum k*x + c >= 0  =>  k*x >= -c - max(others)
                let mut mx: i128 = r.c; 
                for (a, k) in &r.t { let (l, h) = b[idx[a]]; mx = mx.saturating_add(if *k > 0 { h.saturating_mul(*k) } else { l.saturating_mul(*k) }); }
                if mx < 0 { return false; }
                if mx > i128::MAX / 4 { continue; }
                for (a, k) in &r.t {
                    let i = idx[a];
                    let (l, h) = b[i];
                    let own = if *k > 0 { h * *k } else { l * *k };
                    let rest = mx - own; // max of others + c
                    // k*x >= -rest; the new bound does not change what is used of x above
                    if *k > 0 { let nl = (-rest + *k - 1).div_euclid(*k); if nl > l { b[i].0 = nl; ch = true; } }
                    else { let nh = rest.div_euclid(-*k); if nh < h { b[i].1 = nh; ch = true; } }
                    if b[i].0 > b[i].1 { return false; }
                }
            }
            if !ch { break; }
        }
        STATS.with(|s| s.borrow_mut().3 += 1);
        match simplex_opt(rows, idx, &b) {
            Some(None) => false,
            Some(Some(v)) => {
                let m: HashMap<Atom, R> = atoms.iter().copied().zip(v).collect();
                let mut ms = self.models.borrow_mut();
                if ms.len() >= 80 { ms.remove(0); }
                ms.push(Rc::new(m));
                true
            }
            None => true,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
struct R { n: i128, d: i128 }
type O<T> = Option<T>;
impl R {
    fn i(n: i128) -> R { R { n, d: 1 } }
    fn norm(n: i128, d: i128) -> O<R> {
        if d == 0 { return None; }
        let g = gcd(n, d); let g = if g == 0 { 1 } else { g };
        let (mut n, mut d) = (n / g, d / g);
        if d < 0 { n = n.checked_neg()?; d = d.checked_neg()?; }
        Some(R { n, d })
    }
    fn add(self, o: R) -> O<R> { if self.d == 1 && o.d == 1 { return Some(R { n: self.n.checked_add(o.n)?, d: 1 }); } R::norm(self.n.checked_mul(o.d)?.checked_add(o.n.checked_mul(self.d)?)?, self.d.checked_mul(o.d)?) }
    fn mul(self, o: R) -> O<R> { if self.d == 1 && o.d == 1 { return Some(R { n: self.n.checked_mul(o.n)?, d: 1 }); } 
        let g1 = gcd(self.n, o.d).max(1); let g2 = gcd(o.n, self.d).max(1);
        R::norm((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?) }
    fn neg(self) -> R { R { n: -self.n, d: self.d } }
    fn sub(self, o: R) -> O<R> { self.add(o.neg()) }
    fn inv(self) -> O<R> { R::norm(self.d, self.n) }
    fn lt(self, o: R) -> O<bool> { Some(self.n.checked_mul(o.d)? < o.n.checked_mul(self.d)?) }
    fn is0(self) -> bool { self.n == 0 }
}

/// Feasibility of rows (>=0) within bounds: a feasible point; outer None if unsure.
fn simplex_opt(rows: &[Lin], idx: &HashMap<Atom, usize>, b: &[(i128, i128)]) -> O<O<Vec<R>>> {
    let n = b.len();
    let m = rows.len();
    const BIG: i128 = 1 << 100;
    // variables 0..n structural, n..n+m slacks (row value), slack lower bound -c
    let mut lo: Vec<O<R>> = Vec::with_capacity(n + m);
    let mut hi: Vec<O<R>> = Vec::with_capacity(n + m);
    for (l, h) in b { lo.push(if *l <= -BIG { None } else { Some(R::i(*l)) }); hi.push(if *h >= BIG { None } else { Some(R::i(*h)) }); }
    // tableau: basic row r: x_{basic[r]} = sum T[r][j] x_{nb[j]}
    let mut t: Vec<Vec<R>> = vec![vec![R::i(0); n]; m];
    for (r, row) in rows.iter().enumerate() {
        for (a, k) in &row.t { t[r][idx[a]] = R::i(*k); }
        lo.push(Some(R::i(row.c.checked_neg()?))); hi.push(None);
    }
    let mut basic: Vec<usize> = (n..n + m).collect();
    let mut nb: Vec<usize> = (0..n).collect();
    let mut val: Vec<R> = vec![R::i(0); n + m];
    for i in 0..n {
        val[i] = match (lo[i], hi[i]) { (Some(l), Some(h)) => if R::i(0).lt(l)? { l } else if h.lt(R::i(0))? { h } else { R::i(0) }, (Some(l), None) => if R::i(0).lt(l)? { l } else { R::i(0) }, (None, Some(h)) => if h.lt(R::i(0))? { h } else { R::i(0) }, _ => R::i(0) };
    }
    for r in 0..m { let mut s = R::i(0); for j in 0..n { if !t[r][j].is0() && !val[j].is0() { s = s.add(t[r][j].mul(val[j])?)?; } } val[n + r] = s; }
    for _iter in 0..400 {
        // Bland: smallest basic var violating a bound
        let mut pick: O<(usize, bool)> = None; // (row, needs increase)
        let mut best = usize::MAX;
        for r in 0..m {
            let v = basic[r];
            if v >= best { continue; }
            if let Some(l) = lo[v] { if val[v].lt(l)? { pick = Some((r, true)); best = v; continue; } }
            if let Some(h) = hi[v] { if h.lt(val[v])? { pick = Some((r, false)); best = v; } }
        }
        let Some((r, inc)) = pick else { return Some(Some(val[..n].to_vec())) };
        let bv = basic[r];
        let target = if inc { lo[bv].unwrap() } else { hi[bv].unwrap() };
        let mut ent: O<usize> = None; let mut bestv = usize::MAX;
        for j in 0..n {
            let c = t[r][j];
            if c.is0() { continue; }
            let v = nb[j];
            if v >= bestv { continue; }
            let up = (c.n > 0) == inc; // must the nonbasic increase?
            let ok = if up { match hi[v] { Some(h) => val[v].lt(h)?, None => true } } else { match lo[v] { Some(l) => l.lt(val[v])?, None => true } };
            if ok { ent = Some(j); bestv = v; }
        }
        let Some(j) = ent else { return Some(None) };
        // pivot
        let nv = nb[j];
        let a = t[r][j];
        let theta = target.sub(val[bv])?.mul(a.inv()?)?;
        val[bv] = target;
        val[nv] = val[nv].add(theta)?;
        for k in 0..m { if k != r && !t[k][j].is0() { let d = t[k][j].mul(theta)?; val[basic[k]] = val[basic[k]].add(d)?; } }
        let ai = a.inv()?;
        // row r: nv = (1/a) bv - sum_{k!=j} (t[r][k]/a) nb_k
        let mut newrow = vec![R::i(0); n];
        for k in 0..n { newrow[k] = if k == j { ai } else if t[r][k].is0() { R::i(0) } else { t[r][k].mul(ai)?.neg() }; }
        for k in 0..m {
            if k == r { continue; }
            let c = t[k][j];
            if c.is0() { continue; }
            for q in 0..n {
                if q == j { t[k][q] = c.mul(ai)?; } else if !newrow[q].is0() { t[k][q] = t[k][q].add(c.mul(newrow[q])?)?; }
            }
        }
        t[r] = newrow;
        basic[r] = nv; nb[j] = bv;
    }
    None
}
