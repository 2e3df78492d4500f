//! Typestate automata: a ghost value in the frame of the caller records what the operation did so
//! far (which calls it made, with which outcome); states of the abstract interpreter in different
//! automaton states are never joined. A transition or a result the automaton does not allow is a violation.
use crate::check::Out;
use crate::interp::*;
use crate::lin::*;
use crate::tys::*;
use crate::val::*;
use ir::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Find, Iterate, Lookup, Record }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ev { No, Next, Key, Cmp, Subnode, Record, Flags, PushSaved, PopSaved, PushNode, PopNode, LastNode, Item, TypeOf, Name, Match, Namespace, Number, Seek, Position, Open }
pub struct Mon { pub kind: Kind, pub quiet: u32, pub bad: BTreeMap<String, u32>, pub events: BTreeMap<String, u32>, pub saved: bool, pub want: Want, evs: HashMap<FnId, Ev> }

/// what a lookup is asked for
#[derive(Clone, Default)]
pub struct Want { ty: Option<Lin>, empty: Option<bool>, named: bool, ns: Option<Lin>, num: Option<Lin>, size: Option<Lin> }

fn elem_of(e: &Eng, f: FnId) -> Option<TyId> {
    // what the vector or slice holds
    let t = *e.p.fns[f].inputs.first()?;
    let t = match e.ty(t) { Ty::Ref { to, .. } => *to, _ => t };
    match e.ty(t) { Ty::Adt { path, args, .. } if path.ends_with("::Vec") => args.first().copied(), Ty::Slice(x) => Some(*x), _ => None }
}
fn is_node(e: &Eng, t: TyId) -> bool { matches!(e.ty(t), Ty::Adt { path, .. } if path.ends_with("IndexNodeEntryRanges")) }
fn is_saved(e: &Eng, t: TyId) -> bool { matches!(e.ty(t), Ty::Adt { path, args, .. } if path == "std::option::Option" && matches!(args.first().map(|a| e.ty(*a)), Some(Ty::Adt { path, .. }) if path.ends_with("IndexEntryRange"))) }

impl Eng {
    fn mon_ev(&mut self, f: FnId) -> Ev {
        if let Some(e) = self.mon.as_ref().unwrap().evs.get(&f) { return *e; }
        let p = self.p;
        let n = &p.fns[f].path;
        let kind = self.mon.as_ref().unwrap().kind;
        let entry = n.contains("NtfsIndexEntry::<");
        let ev = if n.contains("IndexNodeEntryRanges<") && n.ends_with("Iterator>::next") { Ev::Next }
            else if entry && n.ends_with("::key") { Ev::Key }
            else if entry && n.ends_with("::subnode_vcn") { Ev::Subnode }
            else if entry && n.ends_with("::flags") { Ev::Flags }
            else if n.contains("NtfsIndexAllocation") && n.ends_with("::record_from_vcn") { Ev::Record }
            else if (n.starts_with("std::ops::Fn") && p.fns[f].kind == "shim:fnptr" || n.contains("{closure")) && matches!(self.ty(p.fns[f].body.as_ref().and_then(|b| b.locals.first().copied()).unwrap_or(p.fns[f].output)), Ty::Adt { path, .. } if path.ends_with("cmp::Ordering")) { Ev::Cmp }
            else if n == "std::vec::Vec::<T, A>::push" || n == "std::vec::Vec::<T, A>::pop" || n == "core::slice::<impl [T]>::last_mut" || n == "core::slice::<impl [T]>::last" {
                match elem_of(self, f) {
                    Some(t) if is_node(self, t) => if n.ends_with("push") { Ev::PushNode } else if n.ends_with("pop") { Ev::PopNode } else { Ev::LastNode },
                    Some(t) if is_saved(self, t) => if n.ends_with("push") { Ev::PushSaved } else if n.ends_with("pop") { Ev::PopSaved } else { Ev::No },
                    _ => Ev::No,
                }
            } else if kind == Kind::Record {
                if n.contains("NtfsAttributeValue<") && n.ends_with("NtfsReadSeek>::seek") { Ev::Seek } else if n.contains("NtfsAttributeValue::<") && n.ends_with("::data_position") { Ev::Position } else if n.contains("NtfsFile::<") && n.ends_with(">::new") { Ev::Open } else { Ev::No }
            } else if kind != Kind::Lookup { Ev::No }
            else if (n.contains("NtfsAttributes::<") && n.ends_with("::next")) || (n.contains("NtfsAttributesRaw<") && n.ends_with("Iterator>::next")) { Ev::Item }
            else if n.contains("NtfsAttribute::<") && n.ends_with("::ty") { Ev::TypeOf }
            else if n.contains("NtfsAttribute::<") && n.ends_with("::name") { Ev::Name }
            else if n.contains("NtfsAttribute::<") && n.ends_with("::instance") { Ev::Number }
            else if n.ends_with("NtfsFileReference::file_record_number") { Ev::Number }
            else if n.ends_with("NtfsFileName::namespace") { Ev::Namespace }
            else if n.ends_with("::upcase_cmp") && n.contains("UpcaseOrd") || n.contains("U16StrLe") && n.contains("as std::cmp::PartialEq<") { Ev::Match }
            else { Ev::No };
        let ev = match (kind, ev) { (Kind::Find, Ev::Next | Ev::Key | Ev::Cmp | Ev::Subnode | Ev::Record) => ev, (Kind::Iterate, Ev::Key | Ev::Cmp) => Ev::No, (Kind::Iterate | Kind::Lookup | Kind::Record, _) => ev, _ => Ev::No };
        self.mon.as_mut().unwrap().evs.insert(f, ev);
        ev
    }
    /// is the call an event of the automaton that watches this state?
    pub fn watched(&mut self, st: &State, f: FnId) -> Option<Ev> {
        let m = self.mon.as_ref()?;
        if m.quiet > 0 || !ghosted(self.p, st) { return None; }
        match self.mon_ev(f) { Ev::No => None, e => Some(e) }
    }
    fn complain(&mut self, what: &str) {
        let site = self.stack.iter().rev().find(|(f, _)| self.p.fns[*f].krate == "ntfs").map(|(f, l)| format!("{} ({}:{l})", self.p.fns[*f].path, self.p.fns[*f].file)).unwrap_or_default();
        *self.mon.as_mut().unwrap().bad.entry(format!("{what}, in {site}")).or_insert(0) += 1;
    }
    pub fn mon_call(&mut self, mut st: State, f: FnId, args: Vec<Val>, ev: Ev) -> Ret {
        let g = ghost(&st);
        let kind = { let m = self.mon.as_mut().unwrap(); *m.events.entry(format!("{ev:?}")).or_insert(0) += 1; m.kind };
        if let Some((c, vals)) = &g { match kind { Kind::Find => self.find_pre(&st, *c, vals, ev, f, &args), Kind::Iterate => self.iter_pre(&mut st, *c, ev, f, &args), Kind::Lookup => self.look_pre(*c, ev), Kind::Record => self.rec_pre(&mut st, *c, vals, ev, &args) } }
        let pre = ghost(&st);
        self.mon.as_mut().unwrap().quiet += 1;
        let r = self.call_inner(st, f, args.clone());
        self.mon.as_mut().unwrap().quiet -= 1;
        let Some((c, vals)) = pre else { return r };
        let mut out = vec![];
        if std::env::var("MONT").is_ok() { for (s, v) in &r { eprintln!("MON {ev:?} from {c} -> {:?} {} {}", ghost(s).map(|g| g.0), self.p.fns[f].name, show(v)); } }
        for (s, v) in r { match kind { Kind::Find => self.find_post(s, v, c, &vals, ev, f, &args, &mut out), Kind::Iterate => self.iter_post(s, v, c, ev, f, &mut out), Kind::Lookup => self.look_post(s, v, c, ev, f, &mut out), Kind::Record => self.rec_post(s, v, c, ev, &mut out) } }
        out
    }
    /// the bytes an iterator over a node's entries walks through
    fn node_data(&mut self, st: &State, v: &Val) -> Option<(ContentId, Lin)> {
        let Val::Ref(r) = v else { return None };
        let (x, _) = crate::inv::pointee(st, r)?;
        let Val::Agg(_, f) = &x else { return None };
        f.iter().find_map(|y| match y { Val::Seq(q) => Some((q.c, q.off.clone())), _ => None })
    }
    /// cases by the variant of an enumeration
    fn by_variant(&mut self, st: State, v: Val, t: TyId) -> Ret {
        match &v { Val::Top(x) if matches!(self.tk[*x], TK::Enum) => { let x = *x; self.instances(st, x, None, "event") } Val::Top(_) if matches!(self.tk[t], TK::Enum) => self.instances(st, t, None, "event"), _ => vec![(st, v)] }
    }
    fn find_pre(&mut self, st: &State, c: usize, vals: &[Val], ev: Ev, _f: FnId, args: &[Val]) {
        use find::*;
        match ev {
            Ev::Next => {
                match c {
                    START | GREATER | NODE => {}
                    ENTRY => self.complain("the search goes on to the next entry without having compared the key of this one"),
                    EQUAL => self.complain("the search goes on although the entry compares equal"),
                    LESS | NOKEY => self.complain("the search goes on in the node although what is searched comes before this entry: its subnode is not searched"),
                    ERROR => self.complain("the search goes on after a failed step"),
                    END => self.complain("the search goes on after the last entry of a node"),
                    _ => {}
                }
                if let Some((k, o)) = self.node_data(st, &args[0]) {
                    if let Some(Val::Seq(q)) = vals.first() {
                        let same = q.c == k && st.cons.entails_eq(&q.off.sub(&o));
                        if c == START && same { self.complain("the search does not start with the entries of the index root, but where an earlier search ended"); }
                        if c == NODE && same { self.complain("the search reads the subnode, but goes on in the node it came from"); }
                    }
                }
            }
            Ev::Cmp => match c { ENTRY | LESS | GREATER | EQUAL => {} _ => {} },
            Ev::Record => match c {
                EQUAL => self.complain("the search descends below an entry that compares equal"),
                GREATER => self.complain("the search descends below an entry although what is searched comes after it"),
                ENTRY => self.complain("the search descends below an entry whose key was not compared"),
                _ => {}
            },
            _ => {}
        }
    }
    fn find_post(&mut self, s: State, v: Val, c: usize, vals: &[Val], ev: Ev, f: FnId, args: &[Val], out: &mut Ret) {
        use find::*;
        let t = self.p.fns[f].output;
        match ev {
            Ev::Next | Ev::Key | Ev::Subnode | Ev::Record => {
                for (s, v) in self.by_variant(s, v, t) {
                    let inner = match (&v, ev) { (Val::Agg(1, fs), Ev::Next | Ev::Key | Ev::Subnode) => self.field_ty(t, 1, 0).map(|x| (fs[0].clone(), x)), _ => None };
                    let list = match inner { Some((x, xt)) => self.by_variant(s, x, xt).into_iter().map(|(s, x)| (s, Val::some(x))).collect(), None => vec![(s, v)] };
                    for (mut s, v) in list {
                        let ok = match &v { Val::Agg(0, _) => 0, Val::Agg(1, fs) => match fs.first() { Some(Val::Agg(0, _)) => 1, Some(Val::Agg(1, _)) => 2, _ => 9 }, _ => 9 };
                        let mut vs = vals.to_vec();
                        let n = match ev {
                            Ev::Next => { if let Some((k, o)) = self.node_data(&s, &args[0]) { vs = vec![Val::Seq(Rc::new(SeqV { len: Lin::k(0), c: k, off: o, w: 1, signed: false }))]; } match ok { 0 => END, 1 => ENTRY, 2 => ERROR, _ => UNKNOWN } }
                            Ev::Key => match ok { 0 => if c == ENTRY { NOKEY } else { c }, 1 => c, 2 => ERROR, _ => UNKNOWN },
                            Ev::Subnode => match (ok, c) { (0, LESS | LEAF_L) => LEAF_L, (0, NOKEY | LEAF_K) => LEAF_K, (0, _) => c, (1, _) => c, (2, _) => ERROR, _ => UNKNOWN },
                            _ => match &v { Val::Agg(0, _) => NODE, Val::Agg(1, _) => ERROR, _ => UNKNOWN },
                        };
                        set_ghost(&mut s, n, vs);
                        out.push((s, v));
                    }
                }
            }
            Ev::Cmp => {
                let l = match &v { Val::Int(l) => l.clone(), Val::Agg(0, fs) if fs.len() == 1 => match &fs[0] { Val::Int(l) => l.clone(), _ => { out.push((s, v)); return } }, _ => { let mut s = s; set_ghost(&mut s, UNKNOWN, vals.to_vec()); out.push((s, v)); return } };
                for (k, n) in [(-1, LESS), (0, EQUAL), (1, GREATER)] {
                    for mut x in self.assume(s.clone(), &B::eq(&l, &Lin::k(k)), true) { if c == ENTRY { set_ghost(&mut x, n, vals.to_vec()); } out.push((x, Val::k(k))); }
                }
            }
            _ => out.push((s, v)),
        }
    }
    fn find_exit(&mut self, c: usize, ok: u32) {
        use find::*;
        match (ok, c) {
            (1, EQUAL) | (2, _) | (_, UNKNOWN) => {}
            (1, _) => self.complain("the search returns an entry that was not found to compare equal"),
            (0, END | LEAF_L | LEAF_K) => {}
            (0, START) => self.complain("the search reports absence without looking at the index"),
            (0, LESS | NOKEY) => self.complain("the search reports absence although the entry may have a subnode"),
            (0, _) => self.complain("the search reports absence before it is established"),
            _ => {}
        }
    }

    // in-order iteration
    fn iter_pre(&mut self, st: &mut State, c: usize, ev: Ev, f: FnId, args: &[Val]) {
        use iter::*;
        let mut s = St::of(c);
        let saved = self.mon.as_ref().unwrap().saved;
        match ev {
            Ev::Next => match s.phase {
                START | NONE_SAVED => {}
                ENTRY => {
                    if s.sub == NO && s.last == YES {}
                    else if s.sub == NO && s.last == NO { self.complain("an entry without a subnode is skipped"); }
                    else if s.sub == NO { self.complain("an entry without a subnode is skipped, no matter whether it is the last one of its node"); }
                    else if s.sub == YES && s.rec == NO { self.complain("the subnode of an entry is not visited"); }
                    else if s.sub == UNK { self.complain("an entry is skipped without having looked for a subnode"); }
                    else if s.sub == YES && saved && s.saved == NO { self.complain("an entry with a subnode is not saved for later"); }
                    else if s.sub == YES && saved && s.node == NO { self.complain("the iteration does not descend into the subnode it read"); }
                }
                EXHAUSTED => { if saved { self.complain("the iteration goes on in an exhausted node without returning to its parent") } }
                SAVED => self.complain("the entry that follows a subnode is skipped"),
                ERROR => self.complain("the iteration goes on after a failed step"),
                _ => {}
            },
            Ev::Record => { if s.phase == ENTRY && s.rec == YES { self.complain("the subnode of an entry is visited twice"); } }
            Ev::PushSaved => {
                let v = args.get(1);
                match (v, s.last) {
                    (Some(Val::Agg(1, _)), YES) => self.complain("the terminating entry of a node is saved for delivery"),
                    (Some(Val::Agg(0, _)), NO) => self.complain("an entry with a subnode is not saved for later"),
                    (Some(Val::Agg(_, _)), UNK) if s.phase == ENTRY => self.complain("whether an entry is saved for later does not depend on whether it is the last one of its node"),
                    _ => {}
                }
                s.saved = YES;
                set_ghost(st, s.code(), vec![]);
            }
            Ev::PushNode => { s.node = YES; set_ghost(st, s.code(), vec![]); }
            Ev::PopNode => { if s.phase == ENTRY || s.phase == START { self.complain("a node is left that is not exhausted"); } s.pop = YES; set_ghost(st, s.code(), vec![]); }
            _ => {}
        }
        let _ = f;
    }
    fn iter_post(&mut self, s: State, v: Val, c: usize, ev: Ev, f: FnId, out: &mut Ret) {
        use iter::*;
        let t = self.p.fns[f].output;
        let g = St::of(c);
        match ev {
            Ev::Next | Ev::Subnode | Ev::PopSaved | Ev::Record | Ev::LastNode => {
                for (s, v) in self.by_variant(s, v, t) {
                    let inner = match (&v, ev) { (Val::Agg(1, fs), Ev::Next | Ev::Subnode | Ev::PopSaved) => self.field_ty(t, 1, 0).map(|x| (fs[0].clone(), x)), _ => None };
                    let list = match inner { Some((x, xt)) => self.by_variant(s, x, xt).into_iter().map(|(s, x)| (s, Val::some(x))).collect(), None => vec![(s, v)] };
                    for (mut s, v) in list {
                        let mut g = g;
                        let ok = match &v { Val::Agg(0, _) => 0, Val::Agg(1, fs) => match fs.first() { Some(Val::Agg(0, _)) => 1, Some(Val::Agg(1, _)) => 2, _ => 9 }, _ => 9 };
                        match ev {
                            Ev::Next => { g = St::new(match ok { 0 => EXHAUSTED, 1 => ENTRY, 2 => ERROR, _ => UNKNOWN }); }
                            Ev::Subnode => match ok { 0 => g.sub = NO, 1 => g.sub = YES, 2 => g.phase = ERROR, _ => g.phase = UNKNOWN },
                            Ev::PopSaved => { if g.phase != UNKNOWN { let pop = g.pop; if g.phase != EXHAUSTED { g.phase = UNKNOWN } else { g = St::new(match ok { 0 => ALL_DONE, 1 => NONE_SAVED, 2 => SAVED, _ => UNKNOWN }); g.pop = pop; } } }
                            Ev::Record => match &v { Val::Agg(0, _) => g.rec = YES, Val::Agg(1, _) => g.phase = ERROR, _ => g.phase = UNKNOWN },
                            _ => { if ok == 0 && matches!(g.phase, START | NONE_SAVED | EXHAUSTED) { g.phase = ALL_DONE } }
                        }
                        set_ghost(&mut s, g.code(), vec![]);
                        out.push((s, v));
                    }
                }
            }
            Ev::Flags => {
                // is the flag of the terminating entry set?
                let mut x = &v;
                while let Val::Agg(0, fs) = x { if fs.len() != 1 { break; } x = &fs[0]; }
                if g.phase != ENTRY || g.last != UNK { out.push((s, v)); return; }
                let Val::Int(l) = x else { let mut s = s; set_ghost(&mut s, St::new(UNKNOWN).code(), vec![]); out.push((s, v)); return };
                let b = self.binop_and(&s, l, 2);
                for (k, n) in [(0, NO), (2, YES)] { for mut y in self.assume(s.clone(), &B::eq(&b, &Lin::k(k)), true) { let mut g = g; g.last = n; set_ghost(&mut y, g.code(), vec![]); out.push((y, v.clone())); } }
            }
            _ => out.push((s, v)),
        }
    }
    fn iter_exit(&mut self, c: usize, ok: u32) {
        use iter::*;
        let s = St::of(c);
        let saved = self.mon.as_ref().unwrap().saved;
        match (ok, s.phase) {
            (2, _) | (_, UNKNOWN) => {}
            (1, SAVED) => { if s.pop == NO { self.complain("an exhausted node is not left before the entry of its parent is delivered"); } }
            (1, ENTRY) => match (s.last, s.sub) {
                (NO, NO) => {}
                (YES, _) => self.complain("the terminating entry of a node is delivered"),
                (_, YES) => self.complain("an entry is delivered before its subnode"),
                (_, UNK) => self.complain("an entry is delivered without having looked for a subnode"),
                _ => self.complain("an entry is delivered without having checked whether it is the terminating one"),
            },
            (1, EXHAUSTED) if !saved => {}
            (1, _) => self.complain("an entry is delivered that the iteration did not arrive at"),
            (0, START) => {}
            (0, ALL_DONE) => {}
            (0, EXHAUSTED) if !saved => {}
            (0, SAVED) => self.complain("the iteration ends although an entry is saved"),
            (0, _) => self.complain("the iteration ends before all nodes are exhausted"),
            _ => {}
        }
    }

    // lookup of an attribute or a file name among the attributes of a file
    fn matched(&self, g: &look::St) -> (bool, Vec<&'static str>) {
        use look::*;
        let w = &self.mon.as_ref().unwrap().want;
        let mut bad = vec![];
        let mut all = true;
        let mut need = |x: usize, m: &'static str| { if x != YES { all = false; } if x != YES { bad.push(m); } };
        if w.ty.is_some() { need(g.ty, "whose type is not the requested one"); }
        match w.empty { Some(true) => need(g.empty, "that has a name although the unnamed one is requested"), Some(false) => need(g.cmp, "whose name does not compare equal to the requested one"), None => {} }
        if w.named { need(g.cmp, "whose name does not compare equal to the requested one"); }
        if w.ns.is_some() { need(g.ns, "whose namespace is not the requested one"); }
        if w.num.is_some() { need(g.num, "whose number is not the requested one"); }
        (all, bad)
    }
    fn look_pre(&mut self, c: usize, ev: Ev) {
        use look::*;
        let g = St::of(c);
        if ev == Ev::Item && g.phase == ITEM && self.matched(&g).0 { self.complain("an attribute that matches what is asked for is passed over"); }
        if ev == Ev::Item && g.phase == END { self.complain("the lookup goes on after the last attribute"); }
    }
    fn look_post(&mut self, s: State, v: Val, c: usize, ev: Ev, f: FnId, out: &mut Ret) {
        use look::*;
        let t = self.p.fns[f].output;
        let g = St::of(c);
        let want = self.mon.as_ref().unwrap().want.clone();
        let put = |mut s: State, v: Val, g: St, out: &mut Ret| { set_ghost(&mut s, g.code(), vec![]); out.push((s, v)); };
        match ev {
            Ev::Item => for (s, v) in self.by_variant(s, v, t) {
                let inner = match &v { Val::Agg(1, fs) => self.field_ty(t, 1, 0).map(|x| (fs[0].clone(), x)), _ => None };
                let list = match inner { Some((x, xt)) => self.by_variant(s, x, xt).into_iter().map(|(s, x)| (s, Val::some(x))).collect(), None => vec![(s, v)] };
                for (s, v) in list {
                    let phase = match &v { Val::Agg(0, _) => END, Val::Agg(1, fs) => match fs.first() { Some(Val::Agg(0, _)) => ITEM, _ => UNKNOWN }, _ => UNKNOWN };
                    put(s, v, St::new(phase), out);
                }
            },
            Ev::TypeOf => for (s, v) in self.by_variant(s, v, t) {
                let inner = match &v { Val::Agg(0, fs) => self.field_ty(t, 0, 0).map(|x| (fs[0].clone(), x)), _ => None };
                let list = match inner { Some((x, xt)) => self.by_variant(s, x, xt).into_iter().map(|(s, x)| (s, Val::ok(x))).collect(), None => vec![(s, v)] };
                for (s, v) in list {
                    let l = match &v { Val::Agg(0, fs) => match &fs[0] { Val::Int(l) => Some(l.clone()), _ => None }, _ => None };
                    match (l, &want.ty) {
                        (Some(l), Some(w)) => for (b, k) in [(B::eq(&l, w), YES), (B::lt(&l, w), NO), (B::lt(w, &l), MORE)] { for y in self.assume(s.clone(), &b, true) { let mut g = g; g.ty = k; put(y, v.clone(), g, out); } },
                        (Some(_), None) => put(s, v, g, out),
                        _ => { let mut g = g; g.phase = UNKNOWN; put(s, v, g, out); }
                    }
                }
            },
            Ev::Namespace => match (&v, &want.ns) {
                (Val::Int(l), Some(w)) => for (b, k) in [(B::eq(l, w), YES), (B::lt(l, w), NO), (B::lt(w, l), MORE)] { for y in self.assume(s.clone(), &b, true) { let mut g = g; g.ns = k; put(y, v.clone(), g, out); } },
                (_, None) => out.push((s, v)),
                _ => { let mut g = g; g.phase = UNKNOWN; put(s, v, g, out); }
            },
            Ev::Name => for (s, v) in self.by_variant(s, v, t) {
                let len = match &v { Val::Agg(0, fs) => match &fs[0] { Val::Agg(0, gs) => match gs.first() { Some(Val::Ref(r)) => r.slice.as_ref().map(|x| x.1.clone()), Some(Val::Seq(q)) => Some(q.len.clone()), _ => None }, _ => None }, _ => None };
                match len {
                    None => { if std::env::var("SHOWX").is_ok() { eprintln!("NAME {}", show(&v)); } let mut g = g; g.phase = UNKNOWN; put(s, v, g, out); }
                    Some(l) => for (b, n) in [(true, YES), (false, NO)] { for x in self.assume(s.clone(), &B::eq(&l, &Lin::k(0)), b) { let mut g = g; g.empty = n; put(x, v.clone(), g, out); } },
                }
            },
            Ev::Number => {
                let mut x = &v;
                while let Val::Agg(0, fs) = x { if fs.len() != 1 { break; } x = &fs[0]; }
                match (x, &want.num) {
                    (Val::Int(l), Some(n)) => for (b, k) in [(B::eq(l, n), YES), (B::lt(l, n), NO), (B::lt(n, l), MORE)] { for y in self.assume(s.clone(), &b, true) { let mut g = g; g.num = k; put(y, v.clone(), g, out); } },
                    (_, None) => out.push((s, v)),
                    _ => { let mut g = g; g.phase = UNKNOWN; put(s, v, g, out); }
                }
            }
            Ev::Match => {
                let negated = self.p.fns[f].path.ends_with("::ne");
                let mut x = &v;
                while let Val::Agg(0, fs) = x { if fs.len() != 1 { break; } x = &fs[0]; }
                match x {
                    Val::Int(l) => for k in [-1, 0, 1] { for y in self.assume(s.clone(), &B::eq(l, &Lin::k(k)), true) { let mut g = g; g.cmp = if k == 0 { YES } else { NO }; put(y, Val::k(k), g, out); } },
                    Val::Bool(b) => for k in [true, false] { for y in self.assume(s.clone(), b, k) { let mut g = g; g.cmp = if k != negated { YES } else { NO }; put(y, Val::Bool(B::K(k)), g, out); } },
                    _ => { let mut g = g; g.phase = UNKNOWN; put(s, v, g, out); }
                }
            }
            _ => out.push((s, v)),
        }
    }
    fn look_exit(&mut self, c: usize, found: bool) {
        use look::*;
        let g = St::of(c);
        if g.phase == UNKNOWN { return; }
        if found {
            if g.phase != ITEM { self.complain("something is found that the iteration did not arrive at"); }
            for b in self.matched(&g).1 { self.complain(&format!("the lookup finds an attribute {b}")); }
        } else if g.phase != END { self.complain("absence is reported before all attributes were looked at"); }
    }

    // a record of the MFT by its number
    fn rec_pre(&mut self, st: &mut State, c: usize, vals: &[Val], ev: Ev, args: &[Val]) {
        use rec::*;
        let w = self.mon.as_ref().unwrap().want.clone();
        let (Some(num), Some(size)) = (w.num, w.size) else { return };
        let int = |v: Option<&Val>| { let mut x = v?; while let Val::Agg(0, fs) = x { if fs.len() != 1 { return None; } x = &fs[0]; } if let Val::Int(l) = x { Some(l.clone()) } else { None } };
        match ev {
            Ev::Seek => {
                let n = match args.get(2) { Some(Val::Agg(0, fs)) => int(fs.first()), _ => None };
                let want = self.mul(st, &num, &size);
                match n { Some(n) if st.cons.entails_eq(&n.sub(&want)) => set_ghost(st, SOUGHT, vec![]), Some(_) => { self.complain("the seek does not go to the record number times the record size"); set_ghost(st, UNKNOWN, vec![]) } None => set_ghost(st, UNKNOWN, vec![]) }
            }
            Ev::Open => if let (Some(p), Some(k)) = (int(args.get(2)), int(args.get(3))) {
                if st.cons.entails_eq(&k.sub(&num)) {
                    match (c, int(vals.first())) {
                        (POSITIONED, Some(q)) if st.cons.entails_eq(&p.sub(&q)) => set_ghost(st, OPENED, vec![]),
                        (UNKNOWN, _) => {}
                        _ => { self.complain("the record is not read from the position found for its number"); set_ghost(st, UNKNOWN, vec![]) }
                    }
                }
            },
            _ => {}
        }
    }
    fn rec_post(&mut self, mut s: State, v: Val, c: usize, ev: Ev, out: &mut Ret) {
        use rec::*;
        if ev == Ev::Position && c == SOUGHT {
            let mut x = &v;
            while let Val::Agg(0, fs) = x { if fs.len() != 1 { break; } x = &fs[0]; }
            let l = if let Val::Int(l) = x { Some(l.clone()) } else { None };
            match l { Some(l) => set_ghost(&mut s, POSITIONED, vec![Val::Int(l)]), None => set_ghost(&mut s, UNKNOWN, vec![]) }
        }
        out.push((s, v));
    }
    fn rec_exit(&mut self, c: usize) {
        use rec::*;
        if c != OPENED && c != UNKNOWN { self.complain("a record is returned that was not read for the requested number"); }
    }
}
mod rec { pub const SOUGHT: usize = 1; pub const POSITIONED: usize = 2; pub const OPENED: usize = 3; pub const UNKNOWN: usize = 4; }
mod look {
    pub const START: usize = 0; pub const ITEM: usize = 1; pub const END: usize = 2; pub const UNKNOWN: usize = 3;
    pub const UNK: usize = 0; pub const NO: usize = 1; pub const YES: usize = 2; pub const MORE: usize = 3;
    #[derive(Clone, Copy)]
    pub struct St { pub phase: usize, pub ty: usize, pub empty: usize, pub cmp: usize, pub ns: usize, pub num: usize }
    impl St {
        pub fn new(phase: usize) -> St { St { phase, ty: UNK, empty: UNK, cmp: UNK, ns: UNK, num: UNK } }
        pub fn code(&self) -> usize { ((((self.phase * 4 + self.ty) * 4 + self.empty) * 4 + self.cmp) * 4 + self.ns) * 4 + self.num }
        pub fn of(c: usize) -> St { let mut x = c; let mut n = || { let r = x % 4; x /= 4; r }; let num = n(); let ns = n(); let cmp = n(); let empty = n(); let ty = n(); St { phase: x, ty, empty, cmp, ns, num } }
    }
}
mod find { pub const START: usize = 0; pub const ENTRY: usize = 1; pub const END: usize = 2; pub const ERROR: usize = 3; pub const NOKEY: usize = 4; pub const LESS: usize = 5; pub const EQUAL: usize = 6; pub const GREATER: usize = 7; pub const LEAF_L: usize = 8; pub const LEAF_K: usize = 9; pub const NODE: usize = 10; pub const UNKNOWN: usize = 11; }
mod iter {
    pub const START: usize = 0; pub const ENTRY: usize = 1; pub const ERROR: usize = 2; pub const EXHAUSTED: usize = 3; pub const ALL_DONE: usize = 4; pub const NONE_SAVED: usize = 5; pub const SAVED: usize = 6; pub const UNKNOWN: usize = 7;
    pub const UNK: usize = 0; pub const NO: usize = 1; pub const YES: usize = 2;
    #[derive(Clone, Copy)]
    pub struct St { pub phase: usize, pub last: usize, pub sub: usize, pub rec: usize, pub saved: usize, pub node: usize, pub pop: usize }
    impl St {
        pub fn new(phase: usize) -> St { St { phase, last: UNK, sub: UNK, rec: NO, saved: NO, node: NO, pop: NO } }
        pub fn code(&self) -> usize { ((((((self.phase * 3 + self.last) * 3 + self.sub) * 3 + self.rec) * 3 + self.saved) * 3) + self.node) * 3 + self.pop }
        pub fn of(c: usize) -> St { let mut x = c; let mut n = || { let r = x % 3; x /= 3; r }; let pop = n(); let node = n(); let saved = n(); let rec = n(); let sub = n(); let last = n(); St { phase: x, last, sub, rec, saved, node, pop } }
    }
}
fn ghosted(p: &Program, st: &State) -> bool { match st.frames.get(1) { Some(fr) if fr.f > usize::MAX / 2 && fr.f != usize::MAX => fr.vals.len() > p.fns[usize::MAX - 1 - fr.f].inputs.len(), _ => false } }
fn ghost(st: &State) -> Option<(usize, Vec<Val>)> { match st.frames[1].vals.last() { Some(Val::Agg(c, v)) => Some((*c, v.as_ref().clone())), _ => None } }
fn set_ghost(st: &mut State, c: usize, v: Vec<Val>) { let n = st.frames[1].vals.len() - 1; Rc::make_mut(&mut st.frames[1]).vals[n] = Val::agg(c, v); }

/// `a::T::<X>::m` and `<a::T<X> as Trait>::m` are both `T::m`
fn type_method(path: &str) -> String {
    let m = path.rsplit("::").next().unwrap();
    let head = &path[..path.len() - m.len()];
    let head = match head.strip_prefix('<') { Some(h) => h.split(" as ").next().unwrap(), None => head };
    let mut depth = 0; let mut t = String::new();
    for c in head.chars() { match c { '<' => depth += 1, '>' => depth -= 1, c if depth == 0 => t.push(c), _ => {} } }
    format!("{}::{m}", t.split("::").filter(|x| !x.is_empty()).last().unwrap_or(""))
}

/// all cases of the arguments, and what they ask for
fn wanted(e: &mut Eng, f: FnId, kind: &str) -> Vec<(State, Vec<Val>, Want)> {
    let inputs = e.p.fns[f].inputs.clone();
    let list = crate::check::params(e, State::new(), f, None, 0, false);
    if kind == "record" {
        // the requested number and the size of a record
        return list.into_iter().map(|(mut s, a)| {
            let mut w = Want::default();
            if let (Some(Val::Ref(r)), Some(Val::Int(n))) = (a.first(), a.get(2)) {
                let t = match e.ty(inputs[0]) { Ty::Ref { to, .. } => *to, _ => inputs[0] };
                let i = match e.ty(t) { Ty::Adt { variants, .. } => variants[0].fields.iter().position(|f| f.0 == "file_record_size"), _ => None };
                if let (Some(i), Some((Val::Agg(_, fs), _))) = (i, crate::inv::pointee(&s, r)) { if let Val::Int(l) = &fs[i] { w.num = Some(n.clone()); w.size = Some(l.clone()); } }
            }
            let _ = &mut s;
            (s, a, w)
        }).collect();
    }
    let Some(ty) = kind.strip_prefix("lookup") else { return list.into_iter().map(|(s, a)| (s, a, Want::default())).collect() };
    let mut list: Vec<(State, Vec<Val>, Want)> = list.into_iter().map(|(s, a)| (s, a, Want::default())).collect();
    let variant = |e: &Eng, n: &str| e.p.types.iter().find_map(|t| match t { Ty::Adt { path, variants, .. } if path.ends_with("::NtfsAttributeType") => variants.iter().find(|v| v.name == n).map(|v| v.discr), _ => None });
    if !ty.trim().is_empty() { let v = variant(e, ty.trim()); for x in &mut list { x.2.ty = v.map(|d| Lin::k(d)); } }
    for (i, t) in inputs.iter().enumerate() {
        let mut next = vec![];
        for (s, a, w) in list {
            let mut w = w;
            match (e.ty(*t).clone(), a[i].clone()) {
                (Ty::Adt { path, .. }, Val::Int(k)) if path.ends_with("::NtfsAttributeType") => { w.ty = Some(k); next.push((s, a, w)); }
                (Ty::Adt { path, args, .. }, Val::Agg(1, fs)) if path == "std::option::Option" => match (e.ty(args[0]).clone(), fs[0].clone()) {
(Ty::Adt { path, .. }, Val::Int(k)) if path.ends_with("::NtfsFileNamespace") => { w.ns = Some(k); next.push((s, a, w)); }
                    (_, Val::Int(l)) => { w.num = Some(l); next.push((s, a, w)); }
                    (Ty::Ref { to, .. }, _) if matches!(e.ty(to), Ty::Str) => { w.named = true; next.push((s, a, w)); }
                    _ => next.push((s, a, w)),
                },
                (Ty::Ref { to, .. }, Val::Ref(r)) if matches!(e.ty(to), Ty::Str) => { match &r.slice {
                    Some((_, l)) => for b in [true, false] { for s in e.assume(s.clone(), &B::eq(l, &Lin::k(0)), b) { let mut w = w.clone(); w.empty = Some(b); next.push((s, a.clone(), w)); } },
                    None => next.push((s, a, w)),
                } }
                _ => next.push((s, a, w)),
            }
        }
        list = next;
    }
    list
}

/// one line: property | automaton of the functions whose path ends so | text
pub fn run(e: &mut Eng, id: &str, kind: &str, path: &str) -> Out {
    let p = e.p;
    let mut o = Out { id: id.to_string(), prop: id.split(' ').next().unwrap().to_string(), text: String::new(), exits: 0, held: 0, vacuous: 0, unknown: 0, missing: String::new(), bad: vec![] };
    let k = match kind { "find" => Kind::Find, "iterate" => Kind::Iterate, "record" => Kind::Record, _ if kind.starts_with("lookup") => Kind::Lookup, _ => panic!("automaton {kind}") };
    let fs: Vec<FnId> = (0..p.fns.len()).filter(|f| p.fns[*f].krate == "ntfs" && type_method(&p.fns[*f].path) == path).collect();
    if fs.is_empty() { o.missing = format!("no function {path}"); return o; }
    let mut events: BTreeMap<String, u32> = BTreeMap::new();
    for f in fs {
        let inputs = p.fns[f].inputs.clone();
        let saved = match inputs.first().map(|t| e.ty(*t)) { Some(Ty::Ref { to, .. }) => matches!(e.ty(*to), Ty::Adt { variants, .. } if variants.iter().any(|v| v.fields.iter().any(|x| matches!(e.ty(x.1), Ty::Adt { path, args, .. } if path.ends_with("::Vec") && args.first().map(|t| is_saved(e, *t)).unwrap_or(false))))), _ => false };
        e.mon = Some(Mon { kind: k, quiet: 0, bad: BTreeMap::new(), events: BTreeMap::new(), saved, want: Want::default(), evs: HashMap::default() });
        for (mut s, args, want) in wanted(e, f, kind) {
            e.mon.as_mut().unwrap().want = want;
            let mut vals = args.clone();
            let own = match (k, args.first()) { (Kind::Find, Some(Val::Ref(r))) => crate::inv::pointee(&s, r).and_then(|(x, _)| match &x { Val::Agg(_, fs) => fs.iter().find_map(|y| match y { Val::Agg(_, gs) => gs.iter().find_map(|z| match z { Val::Seq(q) => Some(Val::Seq(q.clone())), _ => None }), _ => None }), _ => None }), _ => None };
            vals.push(Val::agg(if k == Kind::Iterate { iter::St::new(0).code() } else { 0 }, own.into_iter().collect()));
            s.frames.push(Rc::new(Frame { f: usize::MAX - 1 - f, vals }));
            e.root = format!("automaton {id}");
            for (s, v) in e.call(s, f, args.clone()) {
                o.exits += 1;
                let result = matches!(e.ty(p.fns[f].output), Ty::Adt { path, .. } if path.ends_with("Result"));
                let Some((c, _)) = ghost(&s) else { o.unknown += 1; continue };
                let ok = match &v { Val::Agg(0, _) => 0, Val::Agg(1, fs) => match fs.first() { Some(Val::Agg(0, _)) => 1, Some(Val::Agg(1, _)) => 2, _ => 9 }, _ => 9 };
                let ok = if result { match &v { Val::Agg(0, _) => 1, Val::Agg(1, _) => 2, _ => 9 } } else { ok };
                if ok == 9 { o.unknown += 1; continue; }
                if std::env::var("SHOWX").is_ok() { eprintln!("EXIT {id} {ok} ghost {c}"); }
                e.stack.push((f, p.fns[f].line));
                let n = e.mon.as_ref().unwrap().bad.len();
                match k { Kind::Find => e.find_exit(c, ok), Kind::Iterate => e.iter_exit(c, ok), Kind::Lookup => if ok != 2 { e.look_exit(c, ok == 1) }, Kind::Record => if ok == 1 { e.rec_exit(c) } }
                e.stack.pop();
                if e.mon.as_ref().unwrap().bad.len() == n { o.held += 1; }
            }
        }
        let m = e.mon.take().unwrap();
        o.bad.extend(m.bad.into_keys());
        for (k, n) in m.events { *events.entry(k).or_insert(0) += n; }
    }
    if std::env::var("SV").is_ok() { eprintln!("events {events:?}"); }
    // an automaton that sees none of its events decides nothing
    let seen = |x: &str| events.contains_key(x);
    if k == Kind::Lookup { if !seen("Item") || !seen("TypeOf") { o.missing = format!("only the events {:?} were seen", events.keys().collect::<Vec<_>>()); o.bad.clear(); } }
    else if k == Kind::Record { if !seen("Seek") || !seen("Position") || !seen("Open") { o.missing = format!("only the events {:?} were seen", events.keys().collect::<Vec<_>>()); o.bad.clear(); } }
    else if !events.contains_key("Next") || (k == Kind::Find && !events.contains_key("Cmp")) { o.missing = format!("only the events {:?} were seen", events.keys().collect::<Vec<_>>()); o.bad.clear(); }
    o.text = format!("automaton {kind}");
    o
}
