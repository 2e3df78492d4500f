//! Abstract semantics of the library functions below the crate under analysis.
use crate::interp::*;
use crate::join::mk_template;
use crate::lin::*;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::rc::Rc;
/// position of a reader nobody has positioned: beyond every u64
pub const FS_UNPOSITIONED: i128 = 1 << 80;

pub type Model = fn(&mut Eng, State, FnId, &[Val]) -> Ret;
pub const FUN_ISPOW2: u32 = 2;

/// years -999999 to 999999 (feature large-dates of the time crate) in nanoseconds since 1970
pub const DT_MIN: i128 = -31619087596800 * 1_000_000_000;
pub const DT_MAX: i128 = 31494784780799 * 1_000_000_000 + 999_999_999;

fn one(st: State, v: Val) -> Ret { vec![(st, v)] }

impl Eng {
    /// slice reference -> (reference, start, len); works for &Vec, &[T;N] too
    pub fn slice_of(&mut self, st: &mut State, v: &Val) -> Option<(RefV, Lin, Lin)> {
        let Val::Ref(r) = v else { return None };
        if let Some((s, l)) = &r.slice { return Some((RefV { slice: None, ..r.clone() }, s.clone(), l.clone())); }
        match self.load(st, r) { Val::Seq(s) => Some((r.clone(), Lin::k(0), s.len.clone())), Val::SeqT { len, .. } => Some((r.clone(), Lin::k(0), len)), Val::Agg(_, f) => Some((r.clone(), Lin::k(0), Lin::k(f.len() as i128))), _ => None }
    }
    pub fn seq_at(&mut self, st: &mut State, r: &RefV) -> Option<Rc<SeqV>> { match self.get_path(st, r.loc, &r.path) { Val::Seq(s) => Some(s), _ => None } }
    pub fn sub_slice(r: &RefV, s: Lin, l: Lin) -> Val { Val::Ref(RefV { loc: r.loc, path: r.path.clone(), slice: Some((s, l)) }) }

    /// (start, len) selected by a range-like index within a slice of length `n`
    fn range_of(&mut self, st: &State, it: TyId, v: &Val, n: &Lin) -> Option<(Lin, Lin)> {
        let _ = st;
        let name = match self.ty(it) { Ty::Adt { path, .. } => path.clone(), _ => return None };
        let f = |i: usize| -> Option<Lin> { match v { Val::Agg(_, f) => f.get(i).and_then(|x| x.as_int().cloned()), _ => None } };
        let (a, b) = match name.rsplit("::").next().unwrap() {
            "Range" => (f(0)?, f(1)?), "RangeFrom" => (f(0)?, n.clone()), "RangeTo" => (Lin::k(0), f(0)?), "RangeFull" => (Lin::k(0), n.clone()),
            "RangeInclusive" => (f(0)?, f(1)?.addk(1)), "RangeToInclusive" => (Lin::k(0), f(0)?.addk(1)), _ => return None };
        Some((a.clone(), b.sub(&a)))
    }
    fn elem_ref(&mut self, st: &mut State, r: &RefV, start: &Lin, i: &Lin) -> Val {
        let mut p = r.path.as_ref().clone();
        // non-scalar elements live in instances
        if let Val::SeqT { elem, .. } = self.get_path(st, r.loc, &r.path) { let v = self.instance1(st, elem, "elem"); let l = st.heap(v); return Val::Ref(RefV { loc: l, path: Rc::new(vec![]), slice: None }); }
        p.push(PE::At(start.add(i)));
        Val::Ref(RefV { loc: r.loc, path: Rc::new(p), slice: None })
    }
    fn m_index(&mut self, mut st: State, f: FnId, args: &[Val], checked: bool) -> Ret {
        let it = self.p.fns[f].inputs[1];
        let Some((r, s, n)) = self.slice_of(&mut st, &args[0]) else { self.warn(format!("index base {}", show(&args[0]))); return self.havoc(st, f, args) };
        if let TK::Int { .. } = self.tk[it] {
            let i = self.int_of(&args[1], Some(it));
            let c = B::and(B::ge(&i, &Lin::k(0)), B::lt(&i, &n));
            if checked { return self.opt_fork(st, c, |e, st| e.elem_ref(st, &r, &s, &i)); }
            self.oblige(&mut st, "index out of bounds", &c);
            let mut out = vec![];
            for mut x in self.assume(st, &c, true) { let v = self.elem_ref(&mut x, &r, &s, &i); out.push((x, v)); }
            return out;
        }
        let Some((a, l)) = self.range_of(&st, it, &args[1], &n) else { self.warn(format!("index by {}", self.ty_name(it))); return self.havoc(st, f, args) };
        let c = B::and(B::Ge(l.clone()), B::ge(&n, &a.add(&l)));
        let c = B::and(match l.is_const() { Some(k) => B::K(k >= 0), None => B::Ge(l.clone()) }, match &c { B::And(_, y) => (**y).clone(), x => x.clone() });
        let v = Self::sub_slice(&r, s.add(&a), l.clone());
        if checked { return self.opt_fork(st, c, |_, _| v.clone()); }
        self.oblige(&mut st, "slice out of bounds", &c);
        self.assume(st, &c, true).into_iter().map(|x| (x, v.clone())).collect()
    }
    pub fn opt_fork(&mut self, st: State, c: B, mut some: impl FnMut(&mut Eng, &mut State) -> Val) -> Ret {
        let mut out = vec![];
        for mut s in self.assume(st.clone(), &c, true) { let v = some(self, &mut s); out.push((s, Val::some(v))); }
        for s in self.assume(st, &c, false) { out.push((s, Val::none())); }
        out
    }
    /// overwrite [start, start+len) of the sequence behind `r`
    pub fn overlay(&mut self, st: &mut State, r: &RefV, start: &Lin, len: &Lin, src: (ContentId, Lin)) {
        if let Some(q) = self.seq_at(st, r) {
            let whole = start.is_const() == Some(0) && *len == q.len;
            let n = if whole { SeqV { len: q.len.clone(), c: src.0, off: src.1, w: q.w, signed: q.signed } } else {
                let c = mk_content(ContentKind::Overlay { base: (q.c, q.off.clone()), start: start.clone(), len: len.clone(), src });
                SeqV { len: q.len.clone(), c, off: Lin::k(0), w: q.w, signed: q.signed }
            };
            let path = r.path.as_ref().clone();
            self.put_path(st, r.loc, &path, Val::Seq(Rc::new(n)));
        } else { self.warn("overlay of a non-sequence".into()); }
    }
    /// first-field integer parser: `core::num::<impl u64>::checked_add`
    fn m_num(&mut self, st: State, f: FnId, args: &[Val], tyname: &str, op: &str) -> Option<Ret> {
        let (bits, signed) = match tyname { "u8" => (8, false), "u16" => (16, false), "u32" => (32, false), "u64" => (64, false), "u128" => (128, false), "usize" => (self.ptr_bits, false), "i8" => (8, true), "i16" => (16, true), "i32" => (32, true), "i64" => (64, true), "i128" => (128, true), "isize" => (self.ptr_bits, true), _ => return None };
        let (lo, hi) = type_range(bits, signed);
        let a = |e: &mut Eng, i: usize| -> Lin { e.int_of(&args[i], None) };
        let inr = |l: &Lin| B::and(B::ge(l, &Lin::k(lo)), B::ge(&Lin::k(hi), l));
        Some(match op {
            "from_le_bytes" | "from_be_bytes" | "from_ne_bytes" => {
                let Val::Seq(s) = &args[0] else { return None };
                let v = read_content(&st.cons, s.c, s.off.clone(), (bits / 8) as u8, signed, op == "from_be_bytes", lo, hi);
                one(st, Val::Int(v))
            }
            "to_le_bytes" | "to_be_bytes" | "to_ne_bytes" => { let c = new_content("bytes"); one(st, Val::seq(Lin::k(bits as i128 / 8), c, Lin::k(0), 1)) }
            "checked_add" | "checked_sub" | "checked_mul" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let mut st = st;
                let r = match op { "checked_add" => x.add(&y), "checked_sub" => x.sub(&y), _ => self.mul(&mut st, &x, &y) };
                let c = inr(&r);
                self.opt_fork(st, c, |_, _| Val::Int(r.clone()))
            }
            "checked_div" | "checked_rem" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let c = B::eq(&y, &Lin::k(0)).not();
                let op = op.to_string();
                self.opt_fork(st, c, |e, st| Val::Int(if op == "checked_div" { e.div(st, &x, &y) } else { e.rem(st, &x, &y) }))
            }
            "checked_shl" | "checked_shr" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let c = B::and(B::ge(&y, &Lin::k(0)), B::lt(&y, &Lin::k(bits as i128)));
                let op = if op == "checked_shl" { "Shl" } else { "Shr" };
                let t = self.p.fns[f].inputs[0];
                self.opt_fork(st, c, |e, st| e.binop(st, op, Val::Int(x.clone()), Val::Int(y.clone()), t))
            }
            "checked_neg" => { let r = a(self, 0).neg(); let c = inr(&r); self.opt_fork(st, c, |_, _| Val::Int(r.clone())) }
            "checked_next_power_of_two" | "checked_pow" => { let o = self.p.fns[f].output; let _ = o; let x = fresh_sym("pow", lo, hi); let b = B::bit(fresh_sym("some", 0, 1)); self.opt_fork(st, b, |_, _| Val::Int(x.clone())) }
            "saturating_sub" => { let (x, y) = (a(self, 0), a(self, 1)); let d = x.sub(&y); self.sat(st, d, lo, hi) }
            "saturating_add" => { let (x, y) = (a(self, 0), a(self, 1)); let d = x.add(&y); self.sat(st, d, lo, hi) }
            "saturating_mul" => { let (x, y) = (a(self, 0), a(self, 1)); let mut st = st; let d = self.mul(&mut st, &x, &y); self.sat(st, d, lo, hi) }
            "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "wrapping_neg" => {
                let x = a(self, 0);
                let r = match op { "wrapping_add" => x.add(&a(self, 1)), "wrapping_sub" => x.sub(&a(self, 1)), "wrapping_mul" => mk_mul(&x, &a(self, 1)), _ => x.neg() };
                let v = self.wrap(&st, &r, bits, signed); one(st, Val::Int(v))
            }
            "overflowing_add" | "overflowing_sub" | "overflowing_mul" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let r = match op { "overflowing_add" => x.add(&y), "overflowing_sub" => x.sub(&y), _ => mk_mul(&x, &y) };
                let v = self.wrap(&st, &r, bits, signed); let o = inr(&r).not();
                one(st, Val::agg(0, vec![Val::Int(v), Val::Bool(o)]))
            }
            "wrapping_shl" | "wrapping_shr" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let t = self.p.fns[f].inputs[0];
                let ok = B::and(B::ge(&y, &Lin::k(0)), B::lt(&y, &Lin::k(bits as i128))).decide(&st.cons) == Some(true);
                if !ok && bits >= 8 {
                    // the amount is taken modulo the width, which makes a difference for the width itself
                    let full = B::eq(&y, &Lin::k(bits as i128));
                    if st.cons.range(&y).1 <= bits as i128 {
                        let mut out = vec![];
                        for s in self.assume(st.clone(), &full, true) { out.push((s, Val::Int(x.clone()))); }
                        for mut s in self.assume(st, &full, false) { let v = self.binop(&mut s, if op == "wrapping_shl" { "Shl" } else { "Shr" }, Val::Int(x.clone()), Val::Int(y.clone()), t); out.push((s, v)); }
                        return Some(out);
                    }
                }
                let mut st = st;
                let v = if ok { self.binop(&mut st, if op == "wrapping_shl" { "Shl" } else { "Shr" }, Val::Int(x), Val::Int(y), t) } else { Val::Int(fresh_sym("shift", lo, hi)) };
                one(st, v)
            }
            "is_power_of_two" => {
                let x = a(self, 0);
                one(st, Val::Bool(match x.is_const() { Some(k) => B::K(k > 0 && k & (k - 1) == 0), None => B::bit(mk_fun(FUN_ISPOW2, vec![x], 0, 1)) }))
            }
            "unsigned_abs" => {
                let x = a(self, 0);
                let c = B::ge(&x, &Lin::k(0));
                let mut out = vec![];
                for s in self.assume(st.clone(), &c, true) { out.push((s, Val::Int(x.clone()))); }
                for s in self.assume(st, &c, false) { out.push((s, Val::Int(x.neg()))); }
                out
            }
            "abs_diff" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let c = B::ge(&x, &y);
                let mut out = vec![];
                for s in self.assume(st.clone(), &c, true) { out.push((s, Val::Int(x.sub(&y)))); }
                for s in self.assume(st, &c, false) { out.push((s, Val::Int(y.sub(&x)))); }
                out
            }
            "div_ceil" => { let (x, y) = (a(self, 0), a(self, 1)); let q = match y.is_const() { Some(k) if k > 0 => mk_quot(&x.addk(k - 1), k), _ => fresh_sym("divceil", lo, hi) }; one(st, Val::Int(q)) }
            "div_euclid" | "rem_euclid" if signed && a(self, 1).is_const().map(|k| k > 0).unwrap_or(false) => { let x = a(self, 0); let k = a(self, 1).is_const().unwrap(); let q = mk_quot(&x, k); one(st, Val::Int(if op == "div_euclid" { q } else { x.sub(&q.scale(k)) })) }
            "div_euclid" | "rem_euclid" if !signed => { let (x, y) = (a(self, 0), a(self, 1)); let v = if op == "div_euclid" { self.div(&st, &x, &y) } else { self.rem(&st, &x, &y) }; one(st, Val::Int(v)) }
            "is_multiple_of" => { let (x, y) = (a(self, 0), a(self, 1)); let r = self.rem(&st, &x, &y); one(st, Val::Bool(B::eq(&r, &Lin::k(0)))) }
            "pow" => {
                let (x, y) = (a(self, 0), a(self, 1));
                let mut st = st; let r = if x.is_const() == Some(2) { self.pow2(&mut st, &y) } else if let (Some(b), Some(k)) = (x.is_const(), y.is_const()) { Lin::k(b.checked_pow(k.max(0) as u32).unwrap_or(i128::MAX / 2)) } else { fresh_sym("pow", -(1 << 120), 1 << 120) };
                let c = inr(&r);
                self.oblige(&mut st, "overflow pow", &c);
                self.assume(st, &c, true).into_iter().map(|s| (s, Val::Int(r.clone()))).collect()
            }
            "leading_zeros" | "trailing_zeros" | "count_ones" | "count_zeros" | "ilog2" => { let x = a(self, 0); let v = match (op, x.is_const()) { ("count_ones", Some(k)) => Lin::k(k.count_ones() as i128), ("trailing_zeros", Some(k)) if k != 0 => Lin::k(k.trailing_zeros() as i128), _ => fresh_sym("bits", 0, bits as i128) }; one(st, Val::Int(v)) }
            "swap_bytes" | "to_be" | "from_be" => one(st, Val::Int(fresh_sym("swapped", lo, hi))),
            "to_le" | "from_le" => { let x = a(self, 0); one(st, Val::Int(x)) }
            "max_value" => one(st, Val::k(hi)), "min_value" => one(st, Val::k(lo)),
            "rotate_left" | "rotate_right" => one(st, Val::Int(fresh_sym("rot", lo, hi))),
            _ => return None,
        })
    }
    fn sat(&mut self, st: State, d: Lin, lo: i128, hi: i128) -> Ret {
        let mut out = vec![];
        let low = B::lt(&d, &Lin::k(lo)); let high = B::lt(&Lin::k(hi), &d);
        for s in self.assume(st.clone(), &low, true) { out.push((s, Val::k(lo))); }
        for s in self.assume(st, &low, false) {
            for x in self.assume(s.clone(), &high, true) { out.push((x, Val::k(hi))); }
            for x in self.assume(s, &high, false) { out.push((x, Val::Int(d.clone()))); }
        }
        out
    }
    pub fn io_err(&mut self, st: &mut State, out_ty: TyId) -> Val { self.fail(st); let et = self.field_ty(out_ty, 1, 0); let v = match et { Some(t) => self.mk_top(st, t, "err"), None => Val::Opaque }; Val::err(v) }
    fn fs_pos(&mut self, st: &mut State, r: &Val) -> Lin { match r { Val::Ref(x) => match self.load(st, x) { Val::Int(l) => l, _ => fresh_sym("fspos?", 0, FS_UNPOSITIONED) }, _ => fresh_sym("fspos?", 0, FS_UNPOSITIONED) } }
    fn set_fs(&mut self, st: &mut State, r: &Val, v: Lin) { if let Val::Ref(x) = r { self.store(st, x, Val::Int(v)); } }
    /// read into the buffer: `exact` fills all of it
    fn m_fs_read(&mut self, mut st: State, f: FnId, args: &[Val], exact: bool) -> Ret {
        let out_ty = self.p.fns[f].output;
        let pos = self.fs_pos(&mut st, &args[0]);
        self.spec_fs_read(&mut st, &pos);
        let mut out = vec![];
        let mut e = st.clone();
        let np = fresh_sym("fspos_e", 0, FS_UNPOSITIONED);
        self.set_fs(&mut e, &args[0], np);
        // the buffer may have been written partially
        if let Some((r, s, l)) = self.slice_of(&mut e, &args[1]) { let n = new_content("partial"); self.overlay(&mut e, &r, &s, &l, (n, Lin::k(0))); }
        let ev = self.io_err(&mut e, out_ty);
        out.push((e, ev));
        if let Some((r, s, l)) = self.slice_of(&mut st, &args[1]) {
            let n = if exact { l.clone() } else { let n = fresh_sym("nread", 0, self.isize_max); st.cons.add(l.sub(&n)); n };
            let c = new_content("disk");
            self.spec.disk.insert(c, pos.clone());
            self.overlay(&mut st, &r, &s, &n, (c, Lin::k(0)));
            st.cons.add(Lin::k(u64::MAX as i128).sub(&pos).sub(&n)); // a reader's position is a u64
            self.set_fs(&mut st, &args[0], pos.add(&n));
            let v = if exact { Val::unit() } else { Val::Int(n) };
            out.push((st, Val::ok(v)));
        }
        out
    }
    fn spec_fs_read(&mut self, st: &mut State, pos: &Lin) {
        // an unpositioned reader has a position beyond every u64
        self.oblige(st, "fs read without a preceding absolute seek", &B::ge(&Lin::k(u64::MAX as i128), pos));
        st.cons.add(Lin::k(u64::MAX as i128).sub(pos));
    }
    fn m_seek(&mut self, mut st: State, f: FnId, args: &[Val]) -> Ret {
        let out_ty = self.p.fns[f].output;
        let mut out = vec![];
        let pos = self.fs_pos(&mut st, &args[0]);
        let mut e = st.clone();
        let np = fresh_sym("fspos_e", 0, FS_UNPOSITIONED); self.set_fs(&mut e, &args[0], np);
        let ev = self.io_err(&mut e, out_ty); out.push((e, ev));
        let n = match &args[1] {
            Val::Agg(0, x) => self.int_of(&x[0].clone(), None),
            Val::Agg(2, x) => { let d = self.int_of(&x[0].clone(), None); if d.is_const() == Some(0) { pos } else { let mut n = pos.add(&d); let (lo, hi) = n.range(); if lo < 0 || hi > FS_UNPOSITIONED { n = fresh_sym("fspos0", 0, FS_UNPOSITIONED); } n } }
            _ => fresh_sym("fspos0", 0, FS_UNPOSITIONED),
        };
        self.set_fs(&mut st, &args[0], n.clone());
        out.push((st, Val::ok(Val::Int(n))));
        out
    }
    /// read `w` bytes from a binrw reader: content and offset on success
    fn binrw_take(&mut self, mut st: State, reader: &Val, t: Option<TyId>, w: i128) -> (Option<(State, ContentId, Lin)>, Option<State>) {
        let Val::Ref(r) = reader else { return (None, Some(st)) };
        let mut r = r.clone();
        // through &mut &mut R
        let mut t = t;
        let deref = |e: &Eng, t: Option<TyId>| t.and_then(|t| match e.ty(t) { Ty::Ref { to, .. } => Some(*to), _ => None });
        t = deref(self, t);
        loop { match self.load(&mut st, &r) { Val::Ref(x) => { r = x; t = deref(self, t); } _ => break } }
        let own = match t { Some(t) => !matches!(self.tk[t], TK::Fs) && !matches!(self.ty(t), Ty::Adt { path, .. } if path.ends_with("Cursor")), None => false };
        if own {
            // a reader of the library itself: what it does is interpreted where it is called directly;
            // here it is in an arbitrary state of its type afterwards, and so is the filesystem's position
            let v = self.load(&mut st, &r);
            let n = self.unknown_state(&mut st, &v, t.unwrap(), 0);
            self.store(&mut st, &r, n);
            let e = st.clone();
            return (Some((st, new_content("read"), Lin::k(0))), Some(e));
        }
        match self.load(&mut st, &r) {
            Val::Int(pos) => {
                self.spec_fs_read(&mut st, &pos);
                let mut e = st.clone();
                let np = fresh_sym("fspos_e", 0, FS_UNPOSITIONED); self.store(&mut e, &r, Val::Int(np));
                let c = new_content("disk"); self.spec.disk.insert(c, pos.clone());
                st.cons.add(Lin::k(u64::MAX as i128 - w).sub(&pos));
                self.store(&mut st, &r, Val::Int(pos.addk(w)));
                (Some((st, c, Lin::k(0))), Some(e))
            }
            Val::Agg(_, fs) if fs.len() == 2 => {
                // Cursor { inner: &[u8], pos }
                let (inner, pos) = (fs[0].clone(), self.int_of(&fs[1].clone(), None));
                let Some((sr, s, l)) = self.slice_of(&mut st, &inner) else { return (None, Some(st)) };
                let c = B::ge(&l, &pos.addk(w));
                let e = self.assume(st.clone(), &c, false).pop();
                let mut ok = None;
                if let Some(mut x) = self.assume(st, &c, true).pop() {
                    if let Some(q) = self.seq_at(&mut x, &sr) {
                        self.store(&mut x, &r, Val::agg(0, vec![inner, Val::Int(pos.addk(w))]));
                        ok = Some((x, q.c, q.off.add(&s).add(&pos)));
                    }
                }
                (ok, e)
            }
            v => { self.warn(format!("binrw reader {}", show(&v))); (None, Some(st)) }
        }
    }
    /// an arbitrary value of the type with the references of this one
    fn unknown_state(&mut self, st: &mut State, v: &Val, t: TyId, depth: u32) -> Val {
        match (v, self.tk[t].clone()) {
            (Val::Ref(r), TK::Ref(to)) => { if matches!(self.tk[to], TK::Fs) { let p = fresh_sym("fspos0", 0, FS_UNPOSITIONED); self.store(st, r, Val::Int(p)); } v.clone() }
            (Val::Agg(k, fs), TK::Struct | TK::Enum) if matches!(self.tk[t], TK::Struct) || depth <= 1 => {
                let fs = fs.clone();
                let gs: Vec<Val> = fs.iter().enumerate().map(|(i, x)| match self.field_ty(t, *k, i) { Some(ft) => self.unknown_state(st, x, ft, depth + 1), None => x.clone() }).collect();
                let n = Val::agg(*k, gs);
                if self.inv_types.contains(&t) { self.assume_inv(st, t, *k, &n); }
                n
            }
            _ => self.mk_top(st, t, "reader"),
        }
    }
    fn binrw_io(&mut self, t: TyId) -> Val {
        // Error::Io(_)
        if let Ty::Adt { variants, .. } = self.ty(t) { if let Some(i) = variants.iter().position(|v| v.name == "Io") { return Val::agg(i, vec![Val::Opaque]); } }
        Val::Top(t)
    }
    pub fn escape_val(&mut self, st: &State, v: &Val, t: TyId) { self.check_val(st, v, t); }
    fn alloc(&mut self, st: &mut State, n: &Lin, what: &str) { let b = self.spec.alloc_bound(st, n); self.oblige(st, &format!("allocation ({what}) not bounded"), &b); }

    pub fn model(&mut self, st: &mut State, f: FnId, args: &[Val]) -> Option<Ret> {
        let fun = &self.p.fns[f];
        if fun.krate == "ntfs" { return None; }
        let p = fun.path.as_str();
        let take = |st: &mut State| std::mem::replace(st, State::new());
        if fun.body.is_none() || matches!(fun.krate.as_str(), "core" | "alloc" | "std") {
            if let Some(rest) = p.strip_prefix("core::num::<impl ") {
                if let Some((t, op)) = rest.split_once(">::") { let s = st.clone(); if let Some(r) = self.m_num(s, f, args, t, op) { return Some(r); } }
            }
        }
        let out = fun.output;
        Some(match p {
            // ---- panics ----
            "core::panicking::panic" | "core::panicking::panic_fmt" | "core::panicking::assert_failed" | "core::panicking::unreachable_default_msg" | "std::rt::begin_panic" | "core::panicking::panic_nounwind_fmt" | "core::panicking::panic_explicit" | "core::panicking::panic_display" | "std::rt::panic_fmt" | "std::rt::panic_display" => { self.unreachable_site(st, "explicit panic"); vec![] }
            "std::option::unwrap_failed" | "std::option::expect_failed" | "std::result::unwrap_failed" => { self.unreachable_site(st, "unwrap or expect fails"); vec![] }
            "core::slice::index::slice_index_fail" | "arrayvec::arrayvec::extend_panic" => { self.unreachable_site(st, "explicit panic"); vec![] }
            "std::process::exit" | "std::process::abort" => vec![],
            // ---- slices and vectors ----
            "core::slice::<impl [T]>::len" | "std::vec::Vec::<T, A>::len" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::len" | "core::str::<impl str>::len" => { let mut s = take(st); let l = self.slice_of(&mut s, &args[0]).map(|x| x.2).unwrap_or_else(|| fresh_sym("len", 0, self.isize_max)); one(s, Val::Int(l)) }
            "core::slice::<impl [T]>::is_empty" | "std::vec::Vec::<T, A>::is_empty" | "core::str::<impl str>::is_empty" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::is_empty" => { let mut s = take(st); let l = self.slice_of(&mut s, &args[0]).map(|x| x.2).unwrap_or_else(|| fresh_sym("len", 0, self.isize_max)); one(s, Val::Bool(B::eq(&l, &Lin::k(0)))) }
            "<std::vec::Vec<T, A> as std::ops::Deref>::deref" | "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut" | "std::vec::Vec::<T, A>::as_slice" | "std::vec::Vec::<T, A>::as_mut_slice" | "<arrayvec::arrayvec::ArrayVec<T, CAP> as std::ops::Deref>::deref" | "<arrayvec::arrayvec::ArrayVec<T, CAP> as std::ops::DerefMut>::deref_mut" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::as_slice" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::as_mut_slice"
            | "<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref" | "<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow" => {
                let mut s = take(st);
                match self.slice_of(&mut s, &args[0]) { Some((r, a, l)) => one(s, Self::sub_slice(&r, a, l)), None => self.havoc(s, f, args) }
            }
            "core::slice::index::<impl std::ops::Index<I> for [T]>::index" | "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut" | "<std::vec::Vec<T, A> as std::ops::Index<I>>::index" | "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut" => { let s = take(st); self.m_index(s, f, args, false) }
            "core::slice::<impl [T]>::get" | "core::slice::<impl [T]>::get_mut" => { let s = take(st); self.m_index(s, f, args, true) }
            "core::slice::<impl [T]>::split_at" | "core::slice::<impl [T]>::split_at_mut" | "core::slice::<impl [T]>::split_at_checked" => {
                let mut s = take(st);
                let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let m = self.int_of(&args[1], None);
                let c = B::ge(&l, &m);
                let v = Val::agg(0, vec![Self::sub_slice(&r, a.clone(), m.clone()), Self::sub_slice(&r, a.add(&m), l.sub(&m))]);
                if p.ends_with("checked") { return Some(self.opt_fork(s, c, |_, _| v.clone())); }
                self.oblige(&mut s, "split_at out of bounds", &c);
                self.assume(s, &c, true).into_iter().map(|x| (x, v.clone())).collect()
            }
            "core::slice::<impl [T]>::first" | "core::slice::<impl [T]>::last" | "core::slice::<impl [T]>::last_mut" | "core::slice::<impl [T]>::first_mut" => {
                let mut s = take(st);
                let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let c = B::ge(&l, &Lin::k(1));
                let last = p.contains("last");
                let mut outv = vec![];
                for x in self.assume(s.clone(), &c, false) { outv.push((x, Val::none())); }
                for mut x in self.assume(s, &c, true) {
                    if let Val::SeqT { len, elem, last: lst } = self.get_path(&mut x, r.loc, &r.path) {
                        if last {
                            let insts: Ret = match lst { Some(v) => vec![(x, (*v).clone())], None => self.instances(x, elem, None, "last") };
                            for (mut y, v) in insts {
                                let path = r.path.as_ref().clone();
                                self.put_path(&mut y, r.loc, &path, Val::SeqT { len: len.clone(), elem, last: Some(Rc::new(v)) });
                                let mut pp = path; pp.push(PE::Last);
                                outv.push((y, Val::some(Val::Ref(RefV { loc: r.loc, path: Rc::new(pp), slice: None }))));
                            }
                            continue;
                        }
                    }
                    let i = if last { l.addk(-1) } else { Lin::k(0) };
                    let v = self.elem_ref(&mut x, &r, &a, &i);
                    outv.push((x, Val::some(v)));
                }
                outv
            }
            "core::slice::<impl [T]>::copy_from_slice" | "core::slice::copy_from_slice_impl" | "core::slice::<impl [T]>::clone_from_slice" => {
                let mut s = take(st);
                let (Some((r, a, l)), Some((r2, a2, l2))) = (self.slice_of(&mut s, &args[0]), self.slice_of(&mut s, &args[1])) else { return Some(self.havoc(s, f, args)) };
                let c = B::eq(&l, &l2);
                self.oblige(&mut s, "copy_from_slice length mismatch", &c);
                let mut outv = vec![];
                for mut x in self.assume(s, &c, true) {
                    let src = match self.seq_at(&mut x, &r2) { Some(q) => (q.c, q.off.add(&a2)), None => (new_content("?"), Lin::k(0)) };
                    self.overlay(&mut x, &r, &a, &l, src);
                    outv.push((x, Val::unit()));
                }
                outv
            }
            "core::slice::<impl [T]>::fill" => {
                let mut s = take(st);
                if let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) { let v = self.int_of(&args[1], None); self.overlay(&mut s, &r, &a, &l, (mk_content(ContentKind::Fill(v)), Lin::k(0))); }
                one(s, Val::unit())
            }
            "core::slice::<impl [T]>::to_vec" | "std::slice::<impl [T]>::to_vec" | "<std::vec::Vec<T, A> as std::clone::Clone>::clone" | "alloc::slice::<impl [T]>::to_vec" | "<[T] as std::borrow::ToOwned>::to_owned" => {
                let mut s = take(st);
                let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                self.alloc(&mut s, &l, "copy of a slice");
                match self.get_path(&mut s, r.loc, &r.path) {
                    Val::Seq(q) => one(s, Val::Seq(Rc::new(SeqV { len: l, c: q.c, off: q.off.add(&a), w: q.w, signed: q.signed }))),
                    Val::SeqT { len, elem, last } => one(s, Val::SeqT { len, elem, last }),
                    _ => self.havoc(s, f, args),
                }
            }
            "<arrayvec::arrayvec::ArrayVec<T, CAP> as std::clone::Clone>::clone" | "std::array::<impl std::clone::Clone for [T; N]>::clone" => { let mut s = take(st); let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) }; let v = self.load(&mut s, r); one(s, v) }
            "std::vec::Vec::<T>::new" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::new" | "std::vec::Vec::<T>::with_capacity" => {
                let mut s = take(st);
                if p.ends_with("with_capacity") { let n = self.int_of(&args[0], None); self.alloc(&mut s, &n, "with_capacity"); }
                match self.tk[out].clone() { TK::Seq { w, .. } => one(s, Val::seq(Lin::k(0), mk_content(ContentKind::Const(vec![])), Lin::k(0), w)), TK::SeqT { elem, .. } => one(s, Val::SeqT { len: Lin::k(0), elem, last: None }), _ => self.havoc(s, f, args) }
            }
            "<arrayvec::arrayvec::ArrayVec<T, CAP> as std::convert::From<[T; CAP]>>::from" => { let s = take(st); one(s, args[0].clone()) }
            "<std::vec::Vec<T> as std::convert::From<&[T]>>::from" => { let mut s = take(st); let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) }; self.alloc(&mut s, &l, "copy of a slice"); match self.seq_at(&mut s, &r) { Some(q) => one(s, Val::seq(l, q.c, q.off.add(&a), q.w)), None => self.havoc(s, f, args) } }
            "std::vec::from_elem" => {
                let mut s = take(st);
                let n = self.int_of(&args[1], None);
                self.alloc(&mut s, &n, "vec![x; n]");
                let mut outv = vec![];
                let c = B::ge(&Lin::k(self.isize_max), &n);
                for x in self.assume(s, &c, true) {
                    let v = match (self.tk[out].clone(), &args[0]) { (TK::Seq { w, .. }, Val::Int(l)) => Val::seq(n.clone(), mk_content(ContentKind::Fill(l.clone())), Lin::k(0), w), (TK::SeqT { elem, .. }, v) => { self.escape_val(&x, v, elem); Val::SeqT { len: n.clone(), elem, last: None } } _ => Val::Opaque };
                    outv.push((x, v));
                }
                outv
            }
            "std::vec::Vec::<T, A>::push" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::push" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                match self.load(&mut s, r) {
                    Val::Seq(q) => {
                        let v = self.int_of(&args[1], None);
                        let at = q.off.add(&q.len);
                        let n = SeqV { len: q.len.addk(1), c: mk_content(ContentKind::Put { base: (q.c, Lin::k(0)), at, val: v }), off: q.off.clone(), w: q.w, signed: q.signed };
                        if let Some(TK::Seq { cap: Some(c), .. }) = fun.inputs.first().and_then(|t| match self.ty(*t) { Ty::Ref { to, .. } => Some(self.tk[*to].clone()), _ => None }) { self.oblige(&mut s, "ArrayVec capacity exceeded", &B::ge(&Lin::k(c as i128), &n.len)); }
                        else { let nl = n.len.clone(); self.alloc(&mut s, &nl, "push"); }
                        s.cons.add(Lin::k(self.isize_max).sub(&n.len));
                        self.store(&mut s, r, Val::Seq(Rc::new(n)));
                    }
                    Val::SeqT { len, elem, last } => {
                        if let Some(x) = last { self.escape_val(&s, &x, elem); }
                        let nl = len.addk(1);
                        self.alloc(&mut s, &nl, "push");
                        s.cons.add(Lin::k(self.isize_max).sub(&nl));
                        self.store(&mut s, r, Val::SeqT { len: nl, elem, last: Some(Rc::new(args[1].clone())) });
                    }
                    _ => return Some(self.havoc(s, f, args)),
                }
                one(s, Val::unit())
            }
            "std::vec::Vec::<T, A>::pop" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let Some((_, _, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let c = B::ge(&l, &Lin::k(1));
                let mut outv = vec![];
                for x in self.assume(s.clone(), &c, false) { outv.push((x, Val::none())); }
                for mut x in self.assume(s, &c, true) {
                    match self.load(&mut x, r) {
                        Val::Seq(q) => { let v = self.seq_read(&x, &q, &l.addk(-1)); let n = SeqV { len: l.addk(-1), ..(*q).clone() }; self.store(&mut x, r, Val::Seq(Rc::new(n))); outv.push((x, Val::some(v))); }
                        Val::SeqT { len, elem, last } => {
                            let insts: Ret = match last { Some(v) => vec![(x, (*v).clone())], None => self.instances(x, elem, None, "popped") };
                            for (mut y, v) in insts { self.store(&mut y, r, Val::SeqT { len: len.addk(-1), elem, last: None }); outv.push((y, Val::some(v))); }
                        }
                        _ => {}
                    }
                }
                outv
            }
            "std::vec::Vec::<T, A>::truncate" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::truncate" | "std::vec::Vec::<T, A>::clear" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::clear" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::set_len" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let n = if p.ends_with("clear") { Lin::k(0) } else { self.int_of(&args[1], None) };
                let Some((_, _, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let c = if p.ends_with("set_len") { B::K(true) } else { B::ge(&l, &n) };
                let mut outv = vec![];
                for mut x in self.assume(s.clone(), &c, true) {
                    match self.load(&mut x, r) { Val::Seq(q) => { let q2 = SeqV { len: n.clone(), ..(*q).clone() }; self.store(&mut x, r, Val::Seq(Rc::new(q2))); } Val::SeqT { elem, last, len } => { if let Some(v) = &last { self.escape_val(&x, v, elem); } let _ = len; self.store(&mut x, r, Val::SeqT { len: n.clone(), elem, last: None }); } _ => {} }
                    outv.push((x, Val::unit()));
                }
                for x in self.assume(s, &c, false) { outv.push((x, Val::unit())); }
                outv
            }
            "std::vec::Vec::<T, A>::extend_from_slice" | "std::vec::Vec::<T, A>::append" | "arrayvec::arrayvec::ArrayVec::<T, CAP>::try_extend_from_slice" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let (Some((_, _, l)), Some((r2, a2, l2))) = (self.slice_of(&mut s, &args[0]), self.slice_of(&mut s, &args[1])) else { return Some(self.havoc(s, f, args)) };
                let n = l.add(&l2);
                self.alloc(&mut s, &n, "append");
                s.cons.add(Lin::k(self.isize_max).sub(&n));
                match (self.load(&mut s, r), self.get_path(&mut s, r2.loc, &r2.path)) {
                    (Val::Seq(q), Val::Seq(q2)) => {
                        let c = mk_content(ContentKind::Overlay { base: (q.c, q.off.clone()), start: l, len: l2, src: (q2.c, q2.off.add(&a2)) });
                        self.store(&mut s, r, Val::Seq(Rc::new(SeqV { len: n, c, off: Lin::k(0), w: q.w, signed: q.signed })));
                        if p.ends_with("append") { let q3 = SeqV { len: Lin::k(0), ..(*q2).clone() }; let path = r2.path.as_ref().clone(); self.put_path(&mut s, r2.loc, &path, Val::Seq(Rc::new(q3))); }
                    }
                    (Val::SeqT { elem, last, .. }, Val::SeqT { last: last2, .. }) => {
                        if let Some(v) = last { self.escape_val(&s, &v, elem); }
                        self.store(&mut s, r, Val::SeqT { len: n, elem, last: last2 });
                        let path = r2.path.as_ref().clone();
                        self.put_path(&mut s, r2.loc, &path, Val::SeqT { len: Lin::k(0), elem, last: None });
                    }
                    _ => return Some(self.havoc(s, f, args)),
                }
                if let TK::Enum = self.tk[out] { one(s, Val::ok(Val::unit())) } else { one(s, Val::unit()) }
            }
            "std::vec::Vec::<T, A>::insert" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let Some((_, _, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let i = self.int_of(&args[1], None);
                self.oblige(&mut s, "insert out of bounds", &B::ge(&l, &i));
                let n = l.addk(1);
                self.alloc(&mut s, &n, "insert");
                s.cons.add(Lin::k(self.isize_max).sub(&n));
                match self.load(&mut s, r) {
                    Val::Seq(q) => { let c = new_content("ins"); self.store(&mut s, r, Val::seq(n, c, Lin::k(0), q.w)); }
                    Val::SeqT { elem, last, .. } => { if let Some(v) = last { self.escape_val(&s, &v, elem); } self.escape_val(&s, &args[2], elem); self.store(&mut s, r, Val::SeqT { len: n, elem, last: None }); }
                    _ => {}
                }
                one(s, Val::unit())
            }
            "core::slice::<impl [T]>::chunks_exact" | "core::slice::<impl [T]>::chunks" => {
                let mut s = take(st);
                let exact = if p.ends_with("exact") { Val::unit() } else { Val::Opaque };
                let n = self.int_of(&args[1], None);
                self.oblige(&mut s, "chunk size zero", &B::ge(&n, &Lin::k(1)));
                one(s, Val::agg(0, vec![args[0].clone(), exact, Val::Int(n)]))
            }
            "<std::slice::ChunksExact<'a, T> as std::iter::Iterator>::next" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let Val::Agg(_, fs) = self.load(&mut s, r) else { return Some(self.havoc(s, f, args)) };
                let n = self.int_of(&fs[2].clone(), None);
                let Some((sr, a, l)) = self.slice_of(&mut s, &fs[0]) else { return Some(self.havoc(s, f, args)) };
                let c = B::ge(&l, &n);
                let mut outv = vec![];
                for x in self.assume(s.clone(), &c, false) { outv.push((x, Val::none())); }
                for mut x in self.assume(s, &c, true) {
                    let nv = Val::agg(0, vec![Self::sub_slice(&sr, a.add(&n), l.sub(&n)), fs[1].clone(), fs[2].clone()]);
                    self.store(&mut x, r, nv);
                    outv.push((x, Val::some(Self::sub_slice(&sr, a.clone(), n.clone()))));
                }
                outv
            }
            "core::slice::<impl [T]>::iter" | "core::slice::<impl [T]>::iter_mut" => { let s = take(st); one(s, Val::agg(0, vec![args[0].clone(), Val::unit(), Val::unit()])) }
            "<std::slice::Iter<'a, T> as std::iter::Iterator>::next" | "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let Val::Agg(_, fs) = self.load(&mut s, r) else { return Some(self.havoc(s, f, args)) };
                let Some((sr, a, l)) = self.slice_of(&mut s, &fs[0]) else { return Some(self.havoc(s, f, args)) };
                let c = B::ge(&l, &Lin::k(1));
                let mut outv = vec![];
                for x in self.assume(s.clone(), &c, false) { outv.push((x, Val::none())); }
                for mut x in self.assume(s, &c, true) {
                    let nv = Val::agg(0, vec![Self::sub_slice(&sr, a.addk(1), l.addk(-1)), Val::unit(), Val::unit()]);
                    self.store(&mut x, r, nv);
                    let v = self.elem_ref(&mut x, &sr, &a, &Lin::k(0));
                    outv.push((x, Val::some(v)));
                }
                outv
            }
            "<std::str::EncodeUtf16<'a> as std::iter::Iterator>::next" => { let s = take(st); let x = fresh_sym("utf16", 0, 0xffff); let b = B::bit(fresh_sym("more", 0, 1)); self.opt_fork(s, b, |_, _| Val::Int(x.clone())) }
            "core::str::<impl str>::encode_utf16" => { let s = take(st); one(s, Val::Opaque) }
            "core::str::traits::<impl std::cmp::PartialEq for str>::eq" => { let s = take(st); one(s, Val::Bool(B::bit(fresh_sym("streq", 0, 1)))) }
            "core::str::<impl str>::as_bytes" => { let s = take(st); one(s, args[0].clone()) }
            "std::array::<impl std::convert::TryFrom<&[T]> for [T; N]>::try_from" | "std::array::<impl std::convert::TryFrom<&'a [T]> for &'a [T; N]>::try_from" => {
                let mut s = take(st);
                let Some((r, a, l)) = self.slice_of(&mut s, &args[0]) else { return Some(self.havoc(s, f, args)) };
                let okt = self.field_ty(out, 0, 0).unwrap();
                let (by_ref, at) = match self.ty(okt) { Ty::Ref { to, .. } => (true, *to), _ => (false, okt) };
                let TK::Seq { fixed: Some(n), w, .. } = self.tk[at].clone() else { return Some(self.havoc(s, f, args)) };
                let c = B::eq(&l, &Lin::k(n as i128));
                let mut outv = vec![];
                for mut x in self.assume(s.clone(), &c, true) {
                    let v = if by_ref { Self::sub_slice(&r, a.clone(), Lin::k(n as i128)) } else { match self.seq_at(&mut x, &r) { Some(q) => Val::seq(Lin::k(n as i128), q.c, q.off.add(&a), w), None => Val::Opaque } };
                    outv.push((x, Val::ok(v)));
                }
                for x in self.assume(s, &c, false) { outv.push((x, Val::err(Val::unit()))); }
                outv
            }
            "std::intrinsics::raw_eq" => {
                let mut s = take(st);
                let (Val::Ref(a), Val::Ref(b)) = (&args[0], &args[1]) else { return Some(self.havoc(s, f, args)) };
                match (self.load(&mut s, a), self.load(&mut s, b)) { (Val::Seq(x), Val::Seq(y)) => { let v = self.seq_eq(&s, &x, &Lin::k(0), &y, &Lin::k(0), &x.len.clone()); one(s, Val::Bool(v)) } _ => one(s, Val::Bool(B::bit(fresh_sym("eq", 0, 1)))) }
            }
            "<[T] as std::cmp::PartialEq<[U]>>::eq" | "<[T] as core::slice::cmp::SlicePartialEq<U>>::equal" | "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq" | "core::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq"
            | "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq" | "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::ne" | "std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq" | "std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::ne"
            | "core::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::ne" | "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq" | "std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::ne" => {
                let mut s = take(st);
                let neg = p.ends_with("ne");
                let (Some((r, a, l)), Some((r2, a2, l2))) = (self.slice_of(&mut s, &args[0]), self.slice_of(&mut s, &args[1])) else { return Some(self.havoc(s, f, args)) };
                let v = match (self.seq_at(&mut s, &r), self.seq_at(&mut s, &r2)) { (Some(x), Some(y)) => { let lens = B::eq(&l, &l2); let n = if l.is_const().is_some() { l } else { l2 }; let e = self.seq_eq(&s, &x, &a, &y, &a2, &n); match lens { B::K(true) => e, x => B::and(x, e) } } _ => B::bit(fresh_sym("eq", 0, 1)) };
                one(s, Val::Bool(if neg { v.not() } else { v }))
            }
            // ---- options, memory ----
            "std::option::Option::<T>::take" => { let mut s = take(st); let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) }; let v = self.load(&mut s, r); let none = match self.tk[out] { TK::OptNonZero { .. } => Val::k(0), _ => Val::none() }; self.store(&mut s, r, none); one(s, v) }
            "std::option::Option::<T>::replace" => { let mut s = take(st); let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) }; let v = self.load(&mut s, r); self.store(&mut s, r, Val::some(args[1].clone())); one(s, v) }
            "std::mem::replace" => { let mut s = take(st); let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) }; let v = self.load(&mut s, r); self.store(&mut s, r, args[1].clone()); one(s, v) }
            "std::mem::swap" | "std::intrinsics::typed_swap_nonoverlapping" => { let mut s = take(st); let (Val::Ref(a), Val::Ref(b)) = (&args[0], &args[1]) else { return Some(self.havoc(s, f, args)) }; let (x, y) = (self.load(&mut s, a), self.load(&mut s, b)); self.store(&mut s, a, y); self.store(&mut s, b, x); one(s, Val::unit()) }
            "std::iter::ExactSizeIterator::len" => {
                let Val::Ref(r) = &args[0] else { return None };
                let Val::Agg(_, x) = self.load(st, r) else { return None };
                let (Val::Int(a), Val::Int(b)) = (x.first()?, x.get(1)?) else { return None };
                let d = b.sub(a);
                let v = if st.cons.entails(&d) { d } else if st.cons.entails(&d.neg()) { Lin::k(0) } else { mk_pos(&d) };
                let s = take(st); one(s, Val::Int(v))
            }
            "std::mem::drop" | "std::mem::forget" | "std::intrinsics::cold_path" | "std::ptr::drop_in_place" => { let s = take(st); one(s, Val::unit()) }
            "std::mem::needs_drop" => { let s = take(st); one(s, Val::Bool(B::K(false))) }
            "std::num::NonZero::<T>::get" => { let s = take(st); one(s, args[0].clone()) }
            "std::num::NonZero::<T>::new" => { let s = take(st); one(s, args[0].clone()) }
            "<std::num::NonZero<T> as std::cmp::PartialEq>::eq" => { let mut s = take(st); let (Val::Ref(a), Val::Ref(b)) = (&args[0], &args[1]) else { return Some(self.havoc(s, f, args)) }; let (x, y) = (self.load(&mut s, a), self.load(&mut s, b)); let (x, y) = (self.int_of(&x, None), self.int_of(&y, None)); one(s, Val::Bool(B::eq(&x, &y))) }
            "<std::num::NonZero<T> as std::cmp::Ord>::cmp" => { let mut s = take(st); let (Val::Ref(a), Val::Ref(b)) = (&args[0], &args[1]) else { return Some(self.havoc(s, f, args)) }; let (x, y) = (self.load(&mut s, a), self.load(&mut s, b)); let (x, y) = (self.int_of(&x, None), self.int_of(&y, None)); let v = self.cmp3(&s, &x, &y); one(s, Val::Int(v)) }
            "std::boxed::Box::<T>::new" => { let s = take(st); one(s, Val::Opaque) }
            "std::boxed::Box::<T>::new_uninit" => { let mut s = take(st); let l = s.heap(Val::Uninit); one(s, Val::Ref(RefV { loc: l, path: Rc::new(vec![]), slice: None })) }
            "std::boxed::box_assume_init_into_vec_unsafe" => {
                let mut s = take(st);
                let Val::Ref(r) = &args[0] else { return Some(self.havoc(s, f, args)) };
                let v = self.load(&mut s, r);
                match (v, self.tk[out].clone()) {
                    (Val::Seq(q), _) => one(s, Val::Seq(q)),
                    (Val::Agg(_, fs), TK::SeqT { elem, .. }) => { for x in fs.iter().take(fs.len().saturating_sub(1)) { self.escape_val(&s, x, elem); } one(s, Val::SeqT { len: Lin::k(fs.len() as i128), elem, last: fs.last().map(|x| Rc::new(x.clone())) }) }
                    (v, _) => { self.warn(format!("into_vec of {}", show(&v))); self.havoc(s, f, args) }
                }
            }
            "std::mem::MaybeUninit::<T>::as_ptr" => { let s = take(st); one(s, args[0].clone()) }
            "std::intrinsics::integer_min" | "std::intrinsics::integer_max" => {
                let s = take(st);
                let (x, y) = (self.int_of(&args[0], None), self.int_of(&args[1], None));
                let c = B::ge(&y, &x); // x <= y
                let mut r = vec![];
                for z in self.assume(s.clone(), &c, true) { r.push((z, Val::Int(if p.ends_with("min") { x.clone() } else { y.clone() }))); }
                for z in self.assume(s, &c, false) { r.push((z, Val::Int(if p.ends_with("min") { y.clone() } else { x.clone() }))); }
                r
            }
            "<std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter" => {
                // the number of items is known for adapters that keep the number of chunks
                let mut s = take(st);
                let mut v = args[0].clone();
                let n = loop {
                    match &v {
                        Val::Agg(_, fs) if fs.len() == 3 && matches!(fs[0], Val::Ref(_)) && matches!(fs[1], Val::Agg(..)) && matches!(fs[2], Val::Int(_)) => {
                            let (l, k) = (self.slice_of(&mut s, &fs[0]).map(|x| x.2), self.int_of(&fs[2].clone(), None));
                            break match (l, k.is_const()) { (Some(l), Some(k)) if k > 0 => Some(mk_quot(&l, k)), _ => None };
                        }
                        Val::Agg(_, fs) if fs.len() == 2 => { let x = fs[0].clone(); v = x; }
                        _ => break None,
                    }
                };
                match (n, self.tk[out].clone()) {
                    (Some(n), TK::Seq { w, .. }) => one(s, Val::seq(n, new_content("collected"), Lin::k(0), w)),
                    _ => self.havoc(s, f, args),
                }
            }
            p if p.ends_with(" for std::borrow::Cow<'a, str>>::from") => { let s = take(st); one(s, Val::Opaque) }
            "std::mem::MaybeUninit::<T>::uninit" => { let mut s = take(st); let v = self.mk_maybe(&mut s, out); one(s, v) }
            // ---- reader ----
            "<Fs as std::io::Read>::read" | "<probe::Fs as std::io::Read>::read" => { let s = take(st); self.m_fs_read(s, f, args, false) }
            "std::io::Read::read_exact" | "alloc::io::read::default_read_exact" if fun.targs.iter().any(|t| matches!(self.tk[*t], TK::Fs)) || fun.self_ty.map(|t| matches!(self.tk[t], TK::Fs)).unwrap_or(false) => { let s = take(st); self.m_fs_read(s, f, args, true) }
            "<Fs as std::io::Seek>::seek" | "<probe::Fs as std::io::Seek>::seek" => { let s = take(st); self.m_seek(s, f, args) }
            "alloc::io::error::<impl std::io::Error>::new" | "std::io::Error::new" | "std::io::Error::other" => { let s = take(st); one(s, Val::Opaque) }
            // an interrupted operation is tried again: not a failure
            "std::io::Error::kind" => {
                let mut s = take(st);
                let i = match self.ty(out) { Ty::Adt { variants, .. } => variants.iter().find(|v| v.name == "Interrupted").map(|v| v.discr), _ => None };
                let v = self.mk_top(&mut s, out, "errkind");
                let (Some(i), Val::Int(k)) = (i, &v) else { return Some(one(s, v)) };
                let mut outv = vec![];
                for mut x in self.assume(s.clone(), &B::eq(k, &Lin::k(i)), true) { x.pend = Rc::new(vec![]); outv.push((x, Val::k(i))); }
                for x in self.assume(s.clone(), &B::Ge(k.addk(-i - 1)), true) { outv.push((x, v.clone())); }
                for x in self.assume(s, &B::Ge(k.neg().addk(i - 1)), true) { outv.push((x, v.clone())); }
                outv
            }
            "std::io::Error::is_interrupted" => { let s = take(st); let mut x = s.clone(); x.pend = Rc::new(vec![]); vec![(x, Val::Bool(B::K(true))), (s, Val::Bool(B::K(false)))] }
            // ---- binrw ----
            p if p.starts_with("binrw::binread::impls::<impl binrw::BinRead for ") && p.ends_with("::read_options") => {
                let s = take(st);
                let okt = self.field_ty(out, 0, 0).unwrap(); let et = self.field_ty(out, 1, 0).unwrap();
                let (w, arr) = match self.tk[okt].clone() { TK::Int { bits, .. } => (bits as i128 / 8, false), TK::Seq { fixed: Some(n), w: 1, .. } => (n as i128, true), _ => { self.warn("binrw read of unsupported type".into()); return Some(self.havoc(s, f, args)) } };
                let little = args.get(1).and_then(|e| e.as_int().and_then(|l| l.is_const())) == Some(1);
                let (ok, err) = self.binrw_take(s, &args[0], fun.inputs.first().copied(), w);
                let mut outv = vec![];
                if let Some((x, c, off)) = ok {
                    let v = if arr { Val::seq(Lin::k(w), c, off, 1) } else { let TK::Int { lo, hi, signed, .. } = self.tk[okt] else { unreachable!() }; Val::Int(read_content(&x.cons, c, off, w as u8, signed, !little, lo, hi)) };
                    outv.push((x, Val::ok(v)));
                }
                if let Some(mut x) = err { self.fail(&mut x); let e = self.binrw_io(et); outv.push((x, Val::err(e))); }
                outv
            }
            "<binrw::Error as binrw::error::ContextExt>::with_context" => { let s = take(st); let v = if let Ty::Adt { variants, .. } = self.ty(out) { variants.iter().position(|v| v.name == "Backtrace").map(|i| Val::agg(i, vec![Val::Opaque])) } else { None }; one(s, v.unwrap_or(Val::Top(out))) }
            "binrw::__private::restore_position_err" => { let s = take(st); one(s, Val::Top(out)) }
            "binrw::Error::root_cause" => {
                // the innermost error: anything but a backtrace
                let mut s = take(st);
                let Ty::Ref { to, .. } = self.ty(out) else { return Some(self.havoc(s, f, args)) };
                let Ty::Adt { variants, .. } = self.ty(*to) else { return Some(self.havoc(s, f, args)) };
                let mut outv = vec![];
                for (i, v) in variants.iter().enumerate() { if v.name == "Backtrace" { continue; } let mut x = s.clone(); let val = self.mk_variant(&mut x, *to, i, "root"); let r = self.mk_ref_to(&mut x, *to, val); outv.push((x, r)); }
                let _ = &mut s;
                outv
            }
            // ---- time ----
            "std::time::Duration::as_secs" => { let mut s = take(st); let d = self.arg_int(&mut s, &args[0]); one(s, Val::Int(mk_quot(&d, 1_000_000_000))) }
            "std::time::Duration::as_nanos" => { let mut s = take(st); let d = self.arg_int(&mut s, &args[0]); one(s, Val::Int(d)) }
            "std::time::Duration::as_micros" | "std::time::Duration::as_millis" => { let mut s = take(st); let d = self.arg_int(&mut s, &args[0]); one(s, Val::Int(mk_quot(&d, if p.ends_with("micros") { 1000 } else { 1_000_000 }))) }
            "std::time::Duration::subsec_nanos" => { let mut s = take(st); let d = self.arg_int(&mut s, &args[0]); one(s, Val::Int(d.sub(&mk_quot(&d, 1_000_000_000).scale(1_000_000_000)))) }
            "std::time::SystemTime::duration_since" => {
                let mut s = take(st);
                let (a, b) = (self.arg_int(&mut s, &args[0]), self.arg_int(&mut s, &args[1]));
                let d = a.sub(&b); let c = B::ge(&a, &b);
                let mut r = vec![];
                for x in self.assume(s.clone(), &c, true) { r.push((x, Val::ok(Val::Int(d.clone())))); }
                for x in self.assume(s, &c, false) { r.push((x, Val::err(Val::Opaque))); }
                r
            }
            p if p.ends_with("OffsetDateTime::unix_timestamp_nanos") => { let mut s = take(st); let x = self.arg_int(&mut s, &args[0]); one(s, Val::Int(x)) }
            p if p.ends_with("OffsetDateTime::unix_timestamp") => { let s = take(st); one(s, Val::Int(fresh_sym("unixsecs", DT_MIN / 1_000_000_000, DT_MAX / 1_000_000_000))) }
            p if p.ends_with("OffsetDateTime::from_unix_timestamp_nanos") => {
                let s = take(st); let x = self.int_of(&args[0], None);
                let c = B::and(B::ge(&x, &Lin::k(DT_MIN)), B::ge(&Lin::k(DT_MAX), &x));
                let mut r = vec![]; for y in self.assume(s.clone(), &c, true) { r.push((y, Val::ok(Val::Int(x.clone())))); } for y in self.assume(s, &c, false) { r.push((y, Val::err(Val::Opaque))); } r
            }
            p if p.ends_with("precondition_check") => { let s = take(st); one(s, Val::unit()) }
            p if p.starts_with("std::fmt::") || p.starts_with("core::fmt::") || p.contains("std::fmt::") => { let mut s = take(st); let v = self.mk_top(&mut s, out, "fmt"); one(s, v) }
            p if p.starts_with("<AnyKey as ") || p.starts_with("<AnyData as ") => { let mut s = take(st); let v = self.mk_top(&mut s, out, "any"); one(s, v) }
            _ => return None,
        })
    }
    fn arg_int(&mut self, st: &mut State, v: &Val) -> Lin { let v = match v { Val::Ref(r) => self.load(st, r), x => x.clone() }; match v { Val::Int(l) => l, _ => fresh_sym("time", DT_MIN, DT_MAX) } }
    fn mk_maybe(&mut self, st: &mut State, t: TyId) -> Val { let _ = (st, t); Val::Uninit }
    pub fn seq_eq(&mut self, st: &State, x: &SeqV, xo: &Lin, y: &SeqV, yo: &Lin, n: &Lin) -> B {
        match n.is_const() {
            Some(0) => B::K(true),
            Some(k) if k <= 8 && x.w == 1 => {
                let (lo, hi) = type_range(8 * k as u16, false);
                let a = read_content(&st.cons, x.c, x.off.add(xo), k as u8, false, false, lo, hi);
                let b = read_content(&st.cons, y.c, y.off.add(yo), k as u8, false, false, lo, hi);
                B::eq(&a, &b)
            }
            _ => if x.c == y.c && x.off.add(xo) == y.off.add(yo) { B::K(true) } else { B::bit(fresh_sym("seqeq", 0, 1)) },
        }
    }
}
