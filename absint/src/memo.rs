//! Relational function summaries: a heavy function is analysed once per (generalised) abstract
//! entry, and its exits are reused wherever the actual arguments are described by that entry.
use crate::interp::*;
use crate::join::*;
use crate::lin::*;
use crate::val::*;
use crate::tys::*;
use ir::*;
use std::collections::BTreeSet;
use std::rc::Rc;

pub struct Exit { st: State, val: Val, cons: Vec<Lin>, syms: Vec<Atom>, conts: Vec<ContentId> }
pub struct Ctx { pub entry: State, pub exits: Rc<Vec<Exit>>, pub inv_used: BTreeSet<TyId> }


pub fn lookup(st: &State, l: Loc, p: &[PE]) -> Val {
    let mut v = st.slot(l);
    for e in p { v = match (&v, e) { (Val::Agg(_, f), PE::F(i)) => f.get(*i as usize).cloned().unwrap_or(Val::Uninit), (Val::SeqT { last: Some(x), .. }, PE::Last) => (**x).clone(), (Val::Int(_), PE::F(_)) => v.clone(), _ => return Val::Uninit }; }
    v
}
fn rename(v: &Val, f: &dyn Fn(&RefV) -> RefV) -> Val {
    match v {
        Val::Agg(i, fs) => Val::Agg(*i, Rc::new(fs.iter().map(|x| rename(x, f)).collect())),
        Val::Ref(r) => if r.loc.fr == CONSTS { v.clone() } else { Val::Ref(f(r)) },
        Val::SeqT { len, elem, last } => Val::SeqT { len: len.clone(), elem: *elem, last: last.as_ref().map(|x| Rc::new(rename(x, f))) },
        x => x.clone(),
    }
}
fn leaves(v: &Val, out: &mut Vec<Lin>) {
    match v {
        Val::Int(l) => out.push(l.clone()),
        Val::Bool(b) => { let mut ls = vec![]; b.lins(&mut ls); for l in ls { out.push(l.clone()) } }
        Val::Agg(_, f) => for x in f.iter() { leaves(x, out) },
        Val::Ref(r) => { for p in r.path.iter() { if let PE::At(l) = p { out.push(l.clone()) } } if let Some((a, b)) = &r.slice { out.push(a.clone()); out.push(b.clone()) } }
        Val::Seq(q) => { out.push(q.len.clone()); out.push(q.off.clone()) }
        Val::SeqT { len, last, .. } => { out.push(len.clone()); if let Some(x) = last { leaves(x, out) } }
        _ => {}
    }
}

impl Eng {
    pub fn heavy(&mut self, f: FnId) -> bool {
        if let Some(h) = self.heavy_map.get(&f) { return *h; }
        self.weight(f, &mut vec![]);
        self.heavy_map[&f]
    }
    fn weight(&mut self, f: FnId, stack: &mut Vec<FnId>) -> usize {
        if let Some(w) = self.weights.get(&f) { return *w; }
        if stack.contains(&f) { return 20; }
        let p = self.p;
        let Some(b) = &p.fns[f].body else { self.weights.insert(f, 1); self.heavy_map.insert(f, false); return 1 };
        stack.push(f);
        let mut w = b.blocks.iter().filter(|x| !x.cleanup).count();
        for k in &b.blocks { if let Term::Call { callee: Callee::Fn(g), .. } = &k.term { if !k.cleanup { w += self.weight(*g, stack); } } }
        stack.pop();
        let h = w > self.heavy_limit && self.root_of.contains_key(&f);
        self.heavy_map.insert(f, h);
        let r = if h { 15 } else { w };
        self.weights.insert(f, r);
        r
    }

    /// the part of the state visible to the callee, with objects renumbered; what is behind shared
    /// references is copied (nothing can change it), what is behind mutable ones is written back
    fn entry_of(&self, st: &mut State, f: FnId, args: &[Val]) -> (State, Vec<(Loc, Vec<PE>)>) {
        let tys = self.p.fns[f].inputs.clone();
        let mut muts: Vec<(Loc, Vec<PE>)> = vec![];
        for (a, t) in args.iter().zip(&tys) { self.mut_refs(st, a, Some(*t), &mut muts); }
        let mut keep: Vec<(Loc, Vec<PE>)> = vec![];
        for m in &muts { if !muts.iter().any(|n| n != m && n.0 == m.0 && n.1.len() < m.1.len() && m.1[..n.1.len()] == n.1[..]) && !keep.contains(m) { keep.push(m.clone()); } }
        let mut e = State::new();
        for _ in &keep { e.heap(Val::Uninit); }
        let mut objs = keep.clone();
        let mut vals = vec![Val::Uninit];
        for (a, t) in args.iter().zip(&tys) { let v = self.imp(st, &mut e, a, Some(*t), &keep, &mut objs); vals.push(v); }
        for (i, (l, p)) in keep.iter().enumerate() { let v = lookup(st, *l, p); let y = self.imp(st, &mut e, &v, muts_ty(self, st, args, &tys, (*l, p)), &keep, &mut objs); *e.slot_mut(Loc { fr: HEAP, l: i as u32 }).unwrap() = y; }
        e.frames.push(Rc::new(Frame { f, vals }));
        e.cons = st.cons.clone();
        (e, objs)
    }
    fn mut_refs(&self, st: &State, v: &Val, t: Option<TyId>, out: &mut Vec<(Loc, Vec<PE>)>) {
        match v {
            Val::Agg(i, f) => for (k, x) in f.iter().enumerate() { self.mut_refs(st, x, t.and_then(|t| self.field_ty(t, *i, k)), out) },
            Val::SeqT { elem, last: Some(x), .. } => self.mut_refs(st, x, Some(*elem), out),
            Val::Ref(r) => {
                if r.loc.fr == CONSTS { return; }
                if let Some(Ty::Ref { m: false, to }) = t.map(|x| self.ty(x)) { if let Some((x, _)) = crate::inv::pointee(st, r) { return self.mut_refs(st, &x, Some(*to), out); } }
                let p: Vec<PE> = r.path.iter().take_while(|p| matches!(p, PE::F(_))).cloned().collect();
                if out.iter().any(|o| o.0 == r.loc && o.1 == p) { return; }
                out.push((r.loc, p.clone()));
                let x = lookup(st, r.loc, &p);
                let to = if p.len() == r.path.len() { match t.map(|x| self.ty(x)) { Some(Ty::Ref { to, .. }) | Some(Ty::Ptr { to, .. }) => Some(*to), _ => None } } else { None };
                self.mut_refs(st, &x, to, out);
            }
            _ => {}
        }
    }
    fn imp(&self, st: &mut State, e: &mut State, v: &Val, t: Option<TyId>, keep: &[(Loc, Vec<PE>)], objs: &mut Vec<(Loc, Vec<PE>)>) -> Val {
        match v {
            Val::Agg(i, f) => { let fs = f.iter().enumerate().map(|(k, x)| self.imp(st, e, x, t.and_then(|t| self.field_ty(t, *i, k)), keep, objs)).collect(); Val::Agg(*i, Rc::new(fs)) }
            Val::SeqT { len, elem, last } => Val::SeqT { len: len.clone(), elem: *elem, last: last.clone().map(|x| Rc::new(self.imp(st, e, &x, Some(*elem), keep, objs))) },
            Val::Ref(r) => {
                if let Some(Ty::Ref { m: false, to }) = t.map(|x| self.ty(x)) {
                    if let Some((x, slice)) = crate::inv::pointee(st, r) {
                        let (l, p) = if r.slice.is_none() { (r.loc, r.path.as_ref().clone()) } else { (st.heap(x.clone()), vec![]) };
                        let y = self.imp(st, e, &x, Some(*to), keep, objs);
                        let el = e.heap(y);
                        while objs.len() < el.l as usize { objs.push((Loc { fr: HEAP, l: u32::MAX }, vec![])); }
                        objs.push((l, p));
                        return Val::Ref(RefV { loc: el, path: Rc::new(vec![]), slice });
                    }
                }
                if r.loc.fr == CONSTS { return v.clone(); }
                if std::env::var("WHY").is_ok() && matches!(lookup(st, r.loc, &r.path), Val::Uninit) { eprintln!("imp uninit {} ty {:?} stack {:?} root {}", show(v), t.map(|t| self.ty_name(t)), self.stack.iter().map(|x| self.p.fns[x.0].name.clone()).collect::<Vec<_>>(), self.root); }
                let (i, n) = keep.iter().enumerate().find_map(|(i, (l, p))| if *l == r.loc && r.path.len() >= p.len() && r.path[..p.len()] == p[..] { Some((i, p.len())) } else { None }).unwrap_or((0, 0));
                Val::Ref(RefV { loc: Loc { fr: HEAP, l: i as u32 }, path: Rc::new(r.path[n..].to_vec()), slice: r.slice.clone() })
            }
            x => x.clone(),
        }
    }
    /// exported functions at which recursion is cut, each with the functions on a cycle through it
    pub fn find_heads(&mut self) {
        let p = self.p;
        for f in 0..p.fns.len() { self.heavy(f); }
        let succ: Vec<Vec<FnId>> = p.fns.iter().map(|f| match &f.body { Some(b) => { let mut v: Vec<FnId> = b.blocks.iter().filter(|x| !x.cleanup).filter_map(|x| if let Term::Call { callee: Callee::Fn(g), .. } = &x.term { Some(*g) } else { None }).collect(); v.sort(); v.dedup(); v } None => vec![] }).collect();
        loop {
            let comp = scc(p.fns.len(), &|f| succ[f].iter().copied().filter(|g| !self.heads.get(g).map(|s: &BTreeSet<FnId>| s.contains(&f)).unwrap_or(false)).collect());
            let mut by: std::collections::BTreeMap<usize, Vec<FnId>> = Default::default();
            for f in 0..p.fns.len() { by.entry(comp[f]).or_default().push(f); }
            let mut new = vec![];
            for (_, fs) in by {
                if fs.len() < 2 && !fs.iter().any(|f| succ[*f].contains(f) && !self.heads.contains_key(f)) { continue; }
                // nothing but the reader is changed by the head
                let muts = |f: FnId| p.fns[f].inputs.iter().filter(|t| matches!(self.ty(**t), Ty::Ref { m: true, to } if !matches!(self.tk[*to], TK::Fs))).count();
                let head = fs.iter().copied().filter(|f| self.root_of.contains_key(f) && self.heavy_map[f] && !self.heads.contains_key(f)).min_by_key(|f| (muts(*f), p.fns[*f].name.clone()));
                if let Some(h) = head { new.push((h, fs.iter().copied().collect())); }
            }
            if new.is_empty() { break; }
            for (h, s) in new { if std::env::var("V").is_ok() { eprintln!("recursion through {} is cut, {} functions", p.fns[h].name, (&s as &BTreeSet<FnId>).len()); } self.heads.insert(h, s); }
        }
    }
    /// the effect of a recursive call: everything the types' invariants allow
    fn havoc_root(&mut self, mut st: State, f: FnId, args: &[Val]) -> Ret {
        let inputs = self.p.fns[f].inputs.clone();
        let mut muts = vec![];
        for (a, t) in args.iter().zip(&inputs) { self.check_val(&st, a, *t); self.mut_refs(&st, a, Some(*t), &mut muts); }
        for (l, p) in &muts {
            let old = lookup(&st, *l, p);
            let Some(t) = muts_ty(self, &st, args, &inputs, (*l, p)) else { continue };
            let new = match &old {
                Val::Seq(q) => Val::Seq(Rc::new(SeqV { len: q.len.clone(), c: new_content("havoc"), off: Lin::k(0), w: q.w, signed: q.signed })),
                Val::SeqT { len, elem, .. } => Val::SeqT { len: len.clone(), elem: *elem, last: None },
                _ => self.mk_top(&mut st, t, "havoc"),
            };
            self.put_path(&mut st, *l, p, new);
        }
        let out = self.p.fns[f].output;
        let mut r = self.instances(st, out, None, "havoc");
        for (s, v) in r.iter_mut() { if self.reported(v, out) { self.fail(s); } }
        r
    }
    /// call of an exported function: analysed once for every admissible argument, its exits reused
    pub fn call_root(&mut self, mut st: State, f: FnId, args: Vec<Val>) -> Ret {
        if self.active.contains(&f) || self.stack.last().map(|c| self.heads.get(&f).map(|s| s.contains(&c.0)).unwrap_or(false)).unwrap_or(false) { return self.havoc_root(st, f, &args); }
        // an argument whose variant was not examined yet
        let inputs = self.p.fns[f].inputs.clone();
        for (i, a) in args.iter().enumerate() {
            let (t, r) = match (a, self.ty(inputs[i])) { (Val::Ref(r), Ty::Ref { to, .. }) => (*to, Some(r.clone())), _ => (inputs[i], None) };
            let v = match &r { Some(r) => self.load(&mut st, r), None => a.clone() };
            if let (Val::Top(_), TK::Enum) = (&v, self.tk[t].clone()) {
                let mut out = vec![];
                for (mut s, v) in self.instances(st, t, None, "arg") {
                    let mut args = args.clone();
                    match &r { Some(r) => self.store(&mut s, r, v), None => args[i] = v }
                    out.extend(self.call_root(s, f, args));
                }
                return out;
            }
        }
        for (a, t) in args.iter().zip(inputs.iter()) { self.check_val(&st, a, *t); }
        let ri = self.root_of[&f];
        if let Some(a) = self.active.last() { let a = self.root_of[a]; self.callers[ri].insert(a); }
        self.ensure_root(f);
        let deps = self.root_deps[ri].clone();
        self.inv_used.extend(deps);
        let n = match self.ctxs.get(&f) { Some(v) => v.len(), None => { self.warn(format!("recursive call of {}", self.p.fns[f].path)); return self.exec(st, f, args); } };
        // an outdated summary: its assumptions are kept for now, the caller is analysed again with the new one
        let stale = self.dirty.contains(&ri);
        let (e, objs) = self.entry_of(&mut st, f, &args);
        let mut out = vec![]; let mut matched = n == 0;
        for i in 0..n {
            let c = &self.ctxs[&f][i];
            let (exits, entry) = (c.exits.clone(), c.entry.clone());
            let mut call = crate::inv::Call::new(&e, &entry);
            if !call.run() { continue; }
            matched = true;
            let mut s = st.clone();
            if call.unk || stale { for l in entry.cons.all() { let d = call.sub.lin(&l); s.cons.add(d); } if !s.cons.feasible() { continue; } }
            let (sub, bwd, part) = (call.sub, call.bwd, call.part);
            out.extend(self.apply(&mut s, &exits, sub, &bwd, &part, &objs, &entry));
        }
        if !matched { self.warn(format!("summary of {} does not cover a call in {}", self.p.fns[f].path, self.stack.last().map(|x| self.p.fns[x.0].path.clone()).unwrap_or_default())); return self.exec(st, f, args); }
        out
    }
    pub fn ensure_root(&mut self, f: FnId) {
        if self.active.contains(&f) { return; }
        let ri = self.root_of[&f];
        if self.ctxs.contains_key(&f) {
            if !self.dirty.contains(&ri) { return; }
            // once per round: whoever uses the outdated summary is analysed again in the next one
            if self.ran.contains(&ri) { if let Some(s) = self.outdated.last_mut() { *s = true; } return; }
        }
        self.ran.insert(ri);
        self.outdated.push(false);
        self.ctxs.remove(&f);
        self.dirty.remove(&ri);
        self.active.push(f);
        self.touched.push(BTreeSet::new());
        let saved_used = std::mem::take(&mut self.inv_used);
        let saved_stack = std::mem::take(&mut self.stack);
        let saved_obs = std::mem::take(&mut self.obs);
        let saved_root = std::mem::replace(&mut self.root, self.p.fns[f].name.clone());
        let p = self.p;
        let r = &p.roots[ri];
        let t0 = std::time::Instant::now();
        let mut out = vec![];
        for (mut st, args) in crate::root_states(self, r) {
            let (e, _) = self.entry_of(&mut st, f, &args);
            let c = self.summarise(f, e, Some(r));
            out.push(c);
        }
        let used = std::mem::replace(&mut self.inv_used, saved_used);
        for c in out.iter_mut() { c.inv_used = used.clone(); }
        self.inv_used.extend(used.iter().copied());
        self.root_deps[ri] = used;
        self.root_runs[ri] += 1;
        if std::env::var("V").is_ok() { eprintln!("root {} ctx {} exits {} {:?}", self.root, out.len(), out.iter().map(|c| c.exits.len()).sum::<usize>(), t0.elapsed()); }
        self.stack = saved_stack;
        self.root = saved_root;
        self.root_obs[ri] = std::mem::replace(&mut self.obs, saved_obs);
        let touched = self.touched.pop().unwrap();
        let outdated = self.outdated.pop().unwrap();
        let stale = outdated || touched.iter().any(|t| self.root_deps[ri].contains(t));
        self.ctxs.insert(f, out);
        if stale { self.dirty.insert(ri); }
        self.active.pop();
    }
    /// what every exit of an exported function hands to its caller
    fn root_exit(&mut self, r: &Root, args: &[Val], rets: &Ret) {
        for (s, v) in rets {
            self.check_val(s, v, r.output);
            self.check_reported(s, v, r.output);
            for (a, t) in args.iter().zip(&r.inputs) { if let Ty::Ref { m: true, .. } = self.ty(*t) { self.check_val(s, a, *t); } }
        }
    }
    fn summarise(&mut self, f: FnId, entry: State, root: Option<&Root>) -> Ctx {
        let mut s = entry.clone();
        let fr = s.frames.pop().unwrap();
        let args: Vec<Val> = fr.vals[1..].to_vec();
        let saved = std::mem::take(&mut self.inv_used);
        let ins: Vec<Val> = args.clone();
        // the caller holds on to the arguments
        s.frames.push(Rc::new(Frame { f: usize::MAX - 1 - f, vals: args.clone() }));
        let mut rets = self.exec(s, f, args);
        for (x, _) in &mut rets { x.frames.pop(); }
        for (x, _) in &mut rets { self.pass_over(x, f); }
        if let Some(r) = root { self.root_exit(r, &ins, &rets); }
        let inv_used = std::mem::replace(&mut self.inv_used, saved);
        let (es, ec) = state_syms(&entry);
        let eset: HashSet<Lin> = entry.cons.all().into_iter().collect();
        let mut exits = vec![];
        let mut disk = BTreeSet::new();
        for (x, v) in rets {
            // unreachable objects of the callee are left behind
            let nobj = entry.frames[0].vals.len();
            let (x, v) = compact(&x, &v, nobj);
            let mut s = es.clone(); let mut c = ec.clone();
            for y in &x.frames[0].vals { val_syms(y, &mut s, &mut c); }
            val_syms(&v, &mut s, &mut c);
            loop { let n = (s.len(), c.len()); for k in c.clone() { if let Some(p) = self.spec.disk.get(&k) { disk.insert(k); base_syms(p, &mut s, &mut c); } } if n == (s.len(), c.len()) { break; } }
            let keep = mk_keep(s.clone(), c.clone());
            let pc = project(&x.cons, &keep);
            let cons: Vec<Lin> = pc.all().into_iter().filter(|l| !eset.contains(l)).collect();
            let syms: Vec<Atom> = s.difference(&es).copied().collect();
            let conts: Vec<ContentId> = c.difference(&ec).copied().collect();
            exits.push(Exit { st: x, val: v, cons, syms, conts });
        }
        let _ = disk; Ctx { entry, exits: Rc::new(exits), inv_used }
    }
    fn apply(&mut self, st: &mut State, exits: &Rc<Vec<Exit>>, sub: Subst, bwd: &HashMap<Loc, (Loc, Vec<PE>)>, part: &HashMap<Loc, Lin>, objs: &[(Loc, Vec<PE>)], entry: &State) -> Ret {
        let mut out = vec![];
        for x in exits.iter() {
            let mut s = st.clone();
            let mut sub2 = Subst::new();
            sub2.atoms = sub.atoms.clone(); sub2.contents = sub.contents.clone();
            for a in &x.syms { let (lo, hi) = x.st.cons.bound(*a); let n = T.with(|t| t.borrow().atoms[*a as usize].name.clone()); let v = fresh_sym(&n, lo, hi); sub2.atoms.insert(*a, v); }
            for c in &x.conts { let n = T.with(|t| t.borrow().contents[*c as usize].1.clone()); let k = new_content(&n); sub2.contents.insert(*c, (k, Lin::k(0))); }
            for c in &x.conts { if let Some(p) = self.spec.disk.get(c).cloned() { let k = sub2.contents[c].0; let p = sub2.lin(&p); self.spec.disk.insert(k, p); } }
            for c in &x.cons { let d = sub2.lin(c); s.cons.add(d); }
            if s.cons.obviously_false() || !s.cons.feasible() { continue; }
            // objects
            let nobj = entry.frames[0].vals.len();
            let mut fresh: Vec<Loc> = vec![];
            let mut fresh_missing: HashMap<u32, Loc> = HashMap::default();
            for _ in nobj..x.st.frames[0].vals.len() { fresh.push(s.heap(Val::Uninit)); }
            for l in 0..nobj as u32 { if !bwd.contains_key(&Loc { fr: HEAP, l }) { fresh_missing.insert(l, s.heap(Val::Uninit)); } }
            let place = |l: u32| -> (Loc, Vec<PE>) {
                if (l as usize) < nobj { let e = bwd.get(&Loc { fr: HEAP, l }); match e { Some((e, q)) => { if e.fr == CONSTS { return (*e, q.clone()); } let (l, mut p) = objs[e.l as usize].clone(); p.extend(q.iter().cloned()); (l, p) } None => (fresh_missing[&l], vec![]) } } else { (fresh[l as usize - nobj], vec![]) }
            };
            let ren = |r: &RefV| -> RefV {
                let (l, mut p) = place(r.loc.l); let sh = part.get(&Loc { fr: HEAP, l: r.loc.l });
                p.extend(r.path.iter().map(|x| match (x, sh) { (PE::At(i), Some(d)) => PE::At(i.add(d)), _ => x.clone() }));
                RefV { loc: l, path: Rc::new(p), slice: match (&r.slice, sh) { (Some((a, n)), Some(d)) => Some((a.add(d), n.clone())), (x, _) => x.clone() } }
            };
            let locs: Vec<Loc> = (0..x.st.frames[0].vals.len()).map(|i| Loc { fr: HEAP, l: i as u32 }).collect();
            for i in 0..x.st.frames[0].vals.len() {
                // no longer referenced by the callee
                if i < nobj && matches!(x.st.frames[0].vals[i], Val::Uninit) { continue; }
                if i < nobj && bwd.contains_key(&Loc { fr: HEAP, l: i as u32 }) && same_val(&x.st.frames[0].vals[i], &entry.frames[0].vals[i]) { continue; }
                let v = subst_val(&x.st.frames[0].vals[i], &mut sub2, &locs);
                let v = rename(&v, &ren);
                let (l, p) = place(i as u32);
                if l.fr == CONSTS { continue; }
                if part.contains_key(&Loc { fr: HEAP, l: i as u32 }) {
                    if let Val::Seq(q) = lookup(&s, l, &p) { let k = new_content("buf"); self.put_path(&mut s, l, &p, Val::Seq(Rc::new(SeqV { len: q.len.clone(), c: k, off: Lin::k(0), w: q.w, signed: q.signed }))); }
                    continue;
                }
                self.put_path(&mut s, l, &p, v);
            }
            let v = subst_val(&x.val, &mut sub2, &locs);
            let v = rename(&v, &ren);
            if !x.st.pend.is_empty() { let mut p = s.pend.as_ref().clone(); for k in x.st.pend.iter() { if !p.contains(k) { p.push(*k); } } s.pend = Rc::new(p); }
            if std::env::var("CHK").is_ok() { if let Some(d) = dangling(&s) { eprintln!("apply dangling {:?}\n nobj {} bwd {:?} objs {:?}\n fresh {:?} missing {:?}\n exit objs {:?}\n entry objs {:?}", d, nobj, bwd, objs, fresh, fresh_missing, x.st.frames[0].vals.iter().map(show).collect::<Vec<_>>(), entry.frames[0].vals.iter().map(show).collect::<Vec<_>>()); std::process::exit(5); } }
            out.push((s, v));
        }
        out
    }
    pub fn drop_summaries(&mut self, t: TyId) {
        for s in &mut self.touched { s.insert(t); }
        let mut work: Vec<usize> = (0..self.root_deps.len()).filter(|i| self.root_deps[*i].contains(&t)).collect();
        let mut seen: BTreeSet<usize> = work.iter().copied().collect();
        while let Some(i) = work.pop() { self.dirty.insert(i); for c in &self.callers[i] { if seen.insert(*c) { work.push(*c); } } }
    }
}
/// strongly connected components: the component of every node
fn scc(n: usize, succ: &dyn Fn(usize) -> Vec<usize>) -> Vec<usize> {
    let (mut index, mut low, mut comp) = (vec![usize::MAX; n], vec![0; n], vec![usize::MAX; n]);
    let (mut next, mut nc, mut stack) = (0, 0, vec![]);
    for s in 0..n {
        if index[s] != usize::MAX { continue; }
        let mut work: Vec<(usize, Vec<usize>)> = vec![];
        index[s] = next; low[s] = next; next += 1; stack.push(s); work.push((s, succ(s)));
        while let Some((v, todo)) = work.last_mut() {
            let v = *v;
            if let Some(w) = todo.pop() {
                if index[w] == usize::MAX { index[w] = next; low[w] = next; next += 1; stack.push(w); work.push((w, succ(w))); }
                else if comp[w] == usize::MAX { low[v] = low[v].min(index[w]); }
            } else {
                work.pop();
                if let Some((u, _)) = work.last() { low[*u] = low[*u].min(low[v]); }
                if low[v] == index[v] { loop { let w = stack.pop().unwrap(); comp[w] = nc; if w == v { break; } } nc += 1; }
            }
        }
    }
    comp
}
pub fn mk_keep(s: BTreeSet<Atom>, c: BTreeSet<ContentId>) -> impl Fn(Atom) -> bool {
    let memo: std::cell::RefCell<HashMap<Atom, bool>> = Default::default();
    move |a: Atom| { if let Some(b) = memo.borrow().get(&a) { return *b; } let mut x = BTreeSet::new(); let mut y = BTreeSet::new(); base_atom(a, &mut x, &mut y); let r = x.is_subset(&s) && y.is_subset(&c); memo.borrow_mut().insert(a, r); r }
}
pub fn state_syms(o: &State) -> (BTreeSet<Atom>, BTreeSet<ContentId>) {
    let mut s = BTreeSet::new(); let mut c = BTreeSet::new();
    for fr in &o.frames { for v in &fr.vals { val_syms(v, &mut s, &mut c); } }
    (s, c)
}
/// keep the first `n` objects and those reachable from them or from `v`
fn compact(x: &State, v: &Val, n: usize) -> (State, Val) {
    let mut order: Vec<u32> = (0..n as u32).collect();
    let mut seen: HashSet<u32> = order.iter().copied().collect();
    fn go(v: &Val, seen: &mut HashSet<u32>, order: &mut Vec<u32>) {
        match v { Val::Agg(_, f) => for x in f.iter() { go(x, seen, order) }, Val::Ref(r) => if r.loc.fr == HEAP && seen.insert(r.loc.l) { order.push(r.loc.l) }, Val::SeqT { last: Some(x), .. } => go(x, seen, order), _ => {} }
    }
    go(v, &mut seen, &mut order);
    let mut i = 0;
    while i < order.len() { let y = x.slot(Loc { fr: HEAP, l: order[i] }); go(&y, &mut seen, &mut order); i += 1; }
    let idx: HashMap<u32, u32> = order.iter().enumerate().map(|(i, l)| (*l, i as u32)).collect();
    let ren = |r: &RefV| -> RefV { RefV { loc: Loc { fr: HEAP, l: *idx.get(&r.loc.l).unwrap_or(&0) }, path: r.path.clone(), slice: r.slice.clone() } };
    let mut s = State::new();
    s.cons = x.cons.clone(); s.pend = x.pend.clone();
    for l in &order { let y = x.slot(Loc { fr: HEAP, l: *l }); s.heap(rename(&y, &ren)); }
    (s, rename(v, &ren))
}

pub fn same_val(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::Uninit, Val::Uninit) | (Val::Opaque, Val::Opaque) => true,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Agg(v, f), Val::Agg(w, g)) => v == w && f.len() == g.len() && f.iter().zip(g.iter()).all(|(x, y)| same_val(x, y)),
        (Val::Top(x), Val::Top(y)) => x == y,
        (Val::Ref(x), Val::Ref(y)) => x == y,
        (Val::Seq(x), Val::Seq(y)) => x == y,
        (Val::SeqT { len, elem, last }, Val::SeqT { len: l2, elem: e2, last: m2 }) => len == l2 && elem == e2 && match (last, m2) { (Some(x), Some(y)) => same_val(x, y), (None, None) => true, _ => false },
        _ => false,
    }
}

fn muts_ty(e: &Eng, st: &State, args: &[Val], tys: &[TyId], o: (Loc, &Vec<PE>)) -> Option<TyId> {
    fn go(e: &Eng, st: &State, v: &Val, t: Option<TyId>, o: (Loc, &Vec<PE>), d: u32) -> Option<TyId> {
        if d > 12 { return None; }
        match v {
            Val::Agg(i, f) => f.iter().enumerate().find_map(|(k, x)| go(e, st, x, t.and_then(|t| e.field_ty(t, *i, k)), o, d + 1)),
            Val::SeqT { elem, last: Some(x), .. } => go(e, st, x, Some(*elem), o, d + 1),
            Val::Ref(r) => {
                let to = match t.map(|x| e.ty(x)) { Some(Ty::Ref { to, .. }) | Some(Ty::Ptr { to, .. }) => Some(*to), _ => None };
                if r.loc == o.0 && r.path.as_ref() == o.1 { return to; }
                let x = lookup(st, r.loc, &r.path);
                go(e, st, &x, to, o, d + 1)
            }
            _ => None,
        }
    }
    args.iter().zip(tys).find_map(|(a, t)| go(e, st, a, Some(*t), o, 0))
}
