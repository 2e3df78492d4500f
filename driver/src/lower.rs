use ir::{self, AdtKind, AssertMsg, Block, Body, Callee, Const, Func, Operand, Place, Program, Proj, Root, Rvalue, Stmt, Term, Ty as ITy, TyId, Variant};
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{CrateNum, DefId};
use rustc_middle::mir::{self, interpret::GlobalAlloc, interpret::Scalar, ConstValue};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, EarlyBinder, GenericArg, GenericArgsRef, Instance, InstanceKind, ShimKind, Ty, TyCtxt, TypingEnv};
use rustc_span::DUMMY_SP;
use std::collections::{HashMap, HashSet, VecDeque};

pub struct Lower<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<ITy>,
    tymap: HashMap<Ty<'tcx>, TyId>,
    fns: Vec<Option<Func>>,
    fnmap: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(usize, Instance<'tcx>)>,
    public: HashSet<DefId>,
    statics: HashSet<String>,
}

/// Bodies below these paths are never needed: the analyser models the functions or treats them as
/// diverging. (Keeps the program small; a function without a body is reported if it is reached
/// without a model.)
const STOP: &[&str] = &[
    "core::fmt", "alloc::fmt", "core::panicking", "std::panicking", "alloc::alloc", "alloc::raw_vec", "std::io::error", "alloc::vec",
    "core::str", "alloc::str", "alloc::string", "std::sys", "core::slice", "alloc::slice", "core::ptr", "std::time", "time::", "core::unicode", "std::thread", "core::num", "core::cell", "core::alloc", "alloc::boxed", "alloc::borrow", "alloc::collections", "core::hash", "core::any", "core::time", "std::error", "core::error", "core::result::unwrap_failed", "core::option::expect_failed", "core::option::unwrap_failed", "core::intrinsics", "core::mem::maybe_uninit", "core::array::iter", "core::array::drain", "alloc::rc", "alloc::sync", "std::fs", "std::path", "std::ffi", "std::os", "std::env", "std::backtrace",
];

pub fn lower_program(tcx: TyCtxt<'_>) -> Program {
    let krate = tcx.crates(()).iter().copied().find(|c| tcx.crate_name(*c).as_str() == "ntfs").expect("crate ntfs not found");
    let mut l = Lower {
        tcx, env: TypingEnv::fully_monomorphized(), types: vec![], tymap: HashMap::new(), fns: vec![], fnmap: HashMap::new(),
        queue: VecDeque::new(), public: HashSet::new(), statics: HashSet::new(),
    };
    let mut skipped = vec![];
    let roots = l.roots(krate, &mut skipped);
    while let Some((id, inst)) = l.queue.pop_front() {
        let f = l.lower_fn(inst);
        l.fns[id] = Some(f);
    }
    let mut statics: Vec<String> = l.statics.iter().cloned().collect();
    statics.sort();
    let mut crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    crates.sort();
    Program { statics, crates, types: l.types, fns: l.fns.into_iter().map(|f| f.unwrap()).collect(), roots, skipped, pointer_bits: tcx.data_layout.pointer_size().bits() as u32 }
}

impl<'tcx> Lower<'tcx> {
    fn path(&self, d: DefId) -> String { with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn walk_module(&mut self, m: DefId, seen: &mut HashSet<DefId>, fns: &mut Vec<DefId>, types: &mut Vec<DefId>, traits: &mut Vec<DefId>) {
        if !seen.insert(m) { return; }
        for c in self.tcx.module_children(m) {
            if !c.vis.is_public() { continue; }
            if let Res::Def(k, d) = c.res {
                if d.krate != m.krate { continue; }
                match k {
                    DefKind::Mod => self.walk_module(d, seen, fns, types, traits),
                    DefKind::Fn => fns.push(d),
                    DefKind::Struct | DefKind::Enum | DefKind::Union => { if self.public.insert(d) { types.push(d) } }
                    DefKind::Trait => { if self.public.insert(d) { traits.push(d) } }
                    _ => {}
                }
            }
        }
    }

    fn roots(&mut self, krate: CrateNum, skipped: &mut Vec<String>) -> Vec<Root> {
        let tcx = self.tcx;
        let (mut fns, mut types, mut traits) = (vec![], vec![], vec![]);
        self.walk_module(krate.as_def_id(), &mut HashSet::new(), &mut fns, &mut types, &mut traits);
        // candidate types for type parameters
        let mut cands: Vec<Ty<'tcx>> = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let d = id.owner_id.to_def_id();
            if tcx.def_kind(d) == DefKind::Fn && tcx.item_name(d).as_str() == "candidates" {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
                for t in sig.skip_binder().inputs() { cands.push(tcx.erase_and_anonymize_regions(*t)); }
            }
        }
        for t in &types {
            let g = tcx.generics_of(*t);
            if g.own_params.iter().any(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)) { continue; }
            let t = tcx.type_of(*t).instantiate_identity().skip_norm_wip();
            let t = tcx.erase_and_anonymize_regions(t);
            if !cands.contains(&t) { cands.push(t); }
        }
        let mut methods: Vec<(DefId, Option<DefId>, bool)> = fns.iter().map(|d| (*d, None, false)).collect();
        for t in &types {
            for imp in tcx.inherent_impls(*t) {
                for it in tcx.associated_item_def_ids(*imp) {
                    if matches!(tcx.def_kind(*it), DefKind::AssocFn) && tcx.visibility(*it).is_public() {
                        methods.push((*it, None, false));
                    }
                }
            }
        }
        let mut roots = vec![];
        // trait impls
        for imp in tcx.trait_impls_in_crate(krate) {
            let tr = tcx.impl_trait_ref(*imp).instantiate_identity().skip_norm_wip();
            if tr.def_id.krate == krate && !self.public.contains(&tr.def_id) { continue; }
            // only impls for public types
            let self_ty = tr.self_ty();
            if let ty::Adt(a, _) = self_ty.kind() { if a.did().krate == krate && !self.public.contains(&a.did()) { continue; } }
            let derived = tcx.is_automatically_derived(*imp);
            let mut have = HashSet::new();
            for it in tcx.associated_item_def_ids(*imp) {
                if matches!(tcx.def_kind(*it), DefKind::AssocFn) {
                    if let Some(t) = tcx.trait_item_of(*it) { have.insert(t); }
                    methods.push((*it, Some(tr.def_id), derived));
                }
            }
            if tr.def_id.krate == krate {
                // provided methods of a trait of this crate
                for it in tcx.associated_item_def_ids(tr.def_id) {
                    if matches!(tcx.def_kind(*it), DefKind::AssocFn) && !have.contains(it) && tcx.is_mir_available(*it) {
                        // Self = impl's self type with its own params instantiated
                        for ia in self.choices(*imp, &cands) {
                            let st = tcx.instantiate_and_normalize_erasing_regions(ia, self.env, EarlyBinder::bind(tcx, tr.self_ty()));
                            for args in self.choices_with_self(*it, st, &cands) {
                                self.add_root(*it, args, Some(tr.def_id), derived, &mut roots);
                            }
                        }
                    }
                }
            }
        }
        for (d, tr, derived) in methods {
            let ch = self.choices(d, &cands);
            if ch.is_empty() { skipped.push(self.path(d)); }
            for args in ch { self.add_root(d, args, tr, derived, &mut roots); }
        }
        roots
    }

    fn add_root(&mut self, d: DefId, args: GenericArgsRef<'tcx>, tr: Option<DefId>, derived: bool, roots: &mut Vec<Root>) {
        if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, self.env, d, args) {
            let f = self.fn_id(inst);
            let sig = self.tcx.fn_sig(d).instantiate(self.tcx, args).skip_norm_wip();
            let sig = self.tcx.normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(self.tcx.instantiate_bound_regions_with_erased(sig)));
            let inputs = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            let output = self.ty(sig.output());
            let trait_path = tr.map(|t| self.path(t));
            roots.push(Root { f, path: self.path(d), trait_path, inputs, output, derived });
        }
    }

    fn choices(&self, d: DefId, cands: &[Ty<'tcx>]) -> Vec<GenericArgsRef<'tcx>> { self.choices0(d, None, cands) }
    fn choices_with_self(&self, d: DefId, s: Ty<'tcx>, cands: &[Ty<'tcx>]) -> Vec<GenericArgsRef<'tcx>> { self.choices0(d, Some(s), cands) }

    fn choices0(&self, d: DefId, self_ty: Option<Ty<'tcx>>, cands: &[Ty<'tcx>]) -> Vec<GenericArgsRef<'tcx>> {
        let tcx = self.tcx;
        let g = tcx.generics_of(d);
        let n = g.count();
        let params: Vec<_> = (0..n).map(|i| g.param_at(i, tcx)).collect();
        let mut out: Vec<Vec<GenericArg<'tcx>>> = vec![vec![]];
        for p in params {
            let mut next = vec![];
            for pre in out {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => { let mut v = pre; v.push(tcx.lifetimes.re_erased.into()); next.push(v); }
                    ty::GenericParamDefKind::Type { .. } => {
                        if p.index == 0 && p.name.as_str() == "Self" {
                            if let Some(s) = self_ty { let mut v = pre; v.push(s.into()); next.push(v); continue; }
                        }
                        for c in cands { let mut v = pre.clone(); v.push((*c).into()); next.push(v); }
                    }
                    ty::GenericParamDefKind::Const { .. } => {}
                }
            }
            out = next;
        }
        out.into_iter().map(|v| tcx.mk_args(&v)).filter(|a| !tcx.instantiate_and_check_impossible_clauses((d, *a))).collect()
    }

    fn fn_id(&mut self, inst: Instance<'tcx>) -> usize {
        if let Some(i) = self.fnmap.get(&inst) { return *i; }
        let id = self.fns.len();
        self.fns.push(None);
        self.fnmap.insert(inst, id);
        self.queue.push_back((id, inst));
        id
    }

    pub fn ty(&mut self, t: Ty<'tcx>) -> TyId {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tymap.get(&t) { return *i; }
        let id = self.types.len();
        self.types.push(ITy::Never);
        self.tymap.insert(t, id);
        let tcx = self.tcx;
        let v = match *t.kind() {
            ty::Bool => ITy::Bool,
            ty::Char => ITy::Char,
            ty::Int(i) => ITy::Int { bits: i.bit_width().unwrap_or(64) as u16, signed: true, ptr: i.bit_width().is_none() },
            ty::Uint(i) => ITy::Int { bits: i.bit_width().unwrap_or(64) as u16, signed: false, ptr: i.bit_width().is_none() },
            ty::Pat(b, _) => { let i = self.ty(b); self.types[i].clone() }
            ty::Float(_) => ITy::Float,
            ty::Never => ITy::Never,
            ty::Str => ITy::Str,
            ty::Adt(def, args) => {
                let kind = if def.is_enum() { AdtKind::Enum } else if def.is_union() { AdtKind::Union } else { AdtKind::Struct };
                let mut variants = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() { 
                        let d = def.discriminant_for_variant(tcx, vi);
                        self.discr_val(d)
                    } else { 0 };
                    let mut fields = vec![];
                    for f in v.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = tcx.normalize_erasing_regions(self.env, ft);
                        fields.push((f.name.to_string(), self.ty(ft)));
                    }
                    variants.push(Variant { name: v.name.to_string(), discr, fields, offs: vec![] });
                }
                let a = args.types().map(|x| self.ty(x)).collect();
                let layout = tcx.layout_of(self.env.as_query_input(t)).ok();
                if let (true, Some(l)) = (def.is_struct(), &layout) { variants[0].offs = (0..l.fields.count()).map(|i| l.fields.offset(i).bytes()).collect(); }
                let size = layout.map(|l| l.size.bytes());
                ITy::Adt { path: self.path(def.did()), krate: tcx.crate_name(def.did().krate).to_string(), kind, args: a, variants, public: self.public.contains(&def.did()), size }
            }
            ty::Tuple(ts) => ITy::Tuple(ts.iter().map(|x| self.ty(x)).collect()),
            ty::Ref(_, to, m) => ITy::Ref { m: m.is_mut(), to: self.ty(to) },
            ty::RawPtr(to, m) => ITy::Ptr { m: m.is_mut(), to: self.ty(to) },
            ty::Array(e, n) => ITy::Array { elem: self.ty(e), len: n.try_to_target_usize(tcx).unwrap_or(0) },
            ty::Slice(e) => ITy::Slice(self.ty(e)),
            ty::FnDef(d, args) => {
                let f = Instance::try_resolve(tcx, self.env, d, args.skip_binder()).ok().flatten().map(|i| self.fn_id(i));
                ITy::FnDef { f, name: with_no_trimmed_paths!(tcx.def_path_str_with_args(d, args.skip_binder())) }
            }
            ty::FnPtr(..) => ITy::FnPtr,
            ty::Closure(d, args) => {
                let ups = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                ITy::Closure { name: self.path(d), upvars: ups }
            }
            ty::Dynamic(..) => ITy::Dyn,
            _ => ITy::Other(with_no_trimmed_paths!(format!("{t}"))),
        };
        self.types[id] = v;
        id
    }

    fn discr_val(&self, d: ty::util::Discr<'tcx>) -> i128 {
        match d.ty.kind() {
            ty::Int(i) => { let b = i.bit_width().unwrap_or(64); let sh = 128 - b; ((d.val << sh) as i128) >> sh }
            _ => d.val as i128,
        }
    }

    fn lower_fn(&mut self, inst: Instance<'tcx>) -> Func {
        let tcx = self.tcx;
        let d = inst.def_id();
        let path = self.path(d);
        let name = with_no_trimmed_paths!(format!("{inst}"));
        let krate = tcx.crate_name(d.krate).to_string();
        let kind = match inst.def {
            InstanceKind::Item(_) => "item".to_string(),
            InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
            InstanceKind::LlvmIntrinsic(_) => "intrinsic".to_string(),
            InstanceKind::Virtual(..) => "virtual".to_string(),
            InstanceKind::Shim(s) => format!("shim:{}", match s {
                ShimKind::VTable(..) => "vtable", ShimKind::Reify(..) => "reify", ShimKind::FnPtr(..) => "fnptr",
                ShimKind::ClosureOnce { .. } => "closureonce", ShimKind::DropGlue(..) => "drop", ShimKind::Clone(..) => "clone", _ => "other" }),
        };
        let mut trait_method = tcx.trait_of_assoc(d).map(|t| (t, d));
        let is_fnlike = matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..));
        if trait_method.is_none() && matches!(tcx.def_kind(d), DefKind::AssocFn) {
            if let Some(ti) = tcx.trait_item_of(d) { trait_method = tcx.trait_of_assoc(ti).map(|t| (t, ti)); }
        }
        let trait_name = trait_method.map(|(_, ti)| self.path(ti));
        let targs: Vec<TyId> = inst.args.types().map(|t| self.ty(t)).collect();
        let (mut inputs, mut output) = (vec![], self.ty(tcx.types.unit));
        let mut self_ty = None;
        let mut is_unsafe = false;
        if is_fnlike {
            let sig = tcx.fn_sig(d).instantiate(tcx, inst.args).skip_norm_wip();
            is_unsafe = sig.safety().is_unsafe();
            if let Ok(sig) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(tcx.instantiate_bound_regions_with_erased(sig))) {
                inputs = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                output = self.ty(sig.output());
            }
            if matches!(tcx.def_kind(d), DefKind::AssocFn) {
                if let Some(imp) = tcx.impl_of_assoc(d) {
                    let t = tcx.type_of(imp).instantiate(tcx, inst.args);
                    if let Ok(t) = tcx.try_normalize_erasing_regions(self.env, t) { self_ty = Some(self.ty(t)); }
                } else if !inst.args.is_empty() {
                    self_ty = inst.args.types().next().map(|t| self.ty(t));
                }
            }
        }
        let stop = kind.starts_with("shim:drop") || matches!(kind.as_str(), "intrinsic" | "virtual")
            || krate == "probe" || (matches!(krate.as_str(), "core" | "std" | "alloc" | "time") && STOP.iter().any(|s| {
                let raw = self.raw_path(d);
                raw.starts_with(s)
            }));
        let has = match inst.def { InstanceKind::Item(d) => tcx.is_mir_available(d) && !tcx.is_foreign_item(d), InstanceKind::Shim(_) => true, _ => false };
        let body = if stop || !has { None } else { Some(self.lower_body(inst)) };
        let sp = tcx.def_span(d);
        let loc = tcx.sess.source_map().lookup_char_pos(sp.lo());
        let file = format!("{}", loc.file.name.prefer_local_unconditionally());
        Func { name, path, krate, kind, trait_method: trait_name, self_ty, targs, inputs, output, body, file, line: loc.line as u32, is_unsafe }
    }

    /// definition path by module, e.g. core::slice::iter::..., independent of re-exports
    fn raw_path(&self, d: DefId) -> String {
        let k = self.tcx.crate_name(d.krate).to_string();
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{k}{p}")
    }

    fn lower_body(&mut self, inst: Instance<'tcx>) -> Body {
        let tcx = self.tcx;
        let body = tcx.instance_mir(inst.def);
        let body: mir::Body<'tcx> = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, EarlyBinder::bind(tcx, body.clone()));
        let locals = body.local_decls.iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() { names.push((v.name.to_string(), p.local.as_usize())); }
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let line = self.line(s.source_info.span);
                let st = match &s.kind {
                    mir::StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let r = self.rvalue(&body, r);
                        Stmt::Assign(self.place(p), r)
                    }
                    mir::StatementKind::SetDiscriminant { place, variant_index } => Stmt::SetDiscr(self.place(place), variant_index.as_usize()),
                    mir::StatementKind::StorageLive(l) => Stmt::Live(l.as_usize()),
                    mir::StatementKind::StorageDead(l) => Stmt::Dead(l.as_usize()),
                    mir::StatementKind::Intrinsic(i) => match &**i {
                        mir::NonDivergingIntrinsic::Assume(o) => Stmt::Assume(self.operand(&body, o)),
                        _ => Stmt::Assign(Place { local: 0, proj: vec![Proj::Other] }, Rvalue::Other("copy_nonoverlapping".into())),
                    },
                    _ => continue,
                };
                stmts.push((st, line));
            }
            let t = bb.terminator();
            let line = self.line(t.source_info.span);
            let term = self.term(&body, inst, &t.kind);
            blocks.push(Block { stmts, term, line, cleanup: bb.is_cleanup });
        }
        Body { arg_count: body.arg_count, spread_arg: body.spread_arg.map(|l| l.as_usize()), locals, names, blocks }
    }

    fn line(&self, sp: rustc_span::Span) -> u32 {
        let sp = sp.source_callsite();
        self.tcx.sess.source_map().lookup_char_pos(sp.lo()).line as u32
    }

    fn term(&mut self, body: &mir::Body<'tcx>, _inst: Instance<'tcx>, t: &mir::TerminatorKind<'tcx>) -> Term {
        use mir::TerminatorKind as K;
        let tcx = self.tcx;
        match t {
            K::Goto { target, .. } => Term::Goto(target.as_usize()),
            K::SwitchInt { discr, targets } => {
                let ty = discr.ty(&body.local_decls, tcx);
                Term::Switch { discr: self.operand(body, discr), ty: self.ty(ty), targets: targets.iter().map(|(v, b)| (v, b.as_usize())).collect(), otherwise: targets.otherwise().as_usize() }
            }
            K::Return => Term::Return,
            K::Unreachable => Term::Unreachable,
            K::Drop { place, target, .. } => Term::Drop { place: self.place(place), target: target.as_usize() },
            K::Call { func, args, destination, target, .. } => {
                let fty = func.ty(&body.local_decls, tcx);
                let callee = match *fty.kind() {
                    ty::FnDef(d, a) => {
                        match Instance::try_resolve(tcx, self.env, d, a.skip_binder()) {
                            Ok(Some(i)) => Callee::Fn(self.fn_id(i)),
                            _ => Callee::Indirect(self.operand(body, func)),
                        }
                    }
                    _ => Callee::Indirect(self.operand(body, func)),
                };
                let args = args.iter().map(|a| self.operand(body, &a.node)).collect();
                Term::Call { callee, args, dest: self.place(destination), target: target.map(|t| t.as_usize()) }
            }
            K::Assert { cond, expected, msg, target, .. } => {
                let m = match &**msg {
                    mir::AssertKind::BoundsCheck { len, index } => AssertMsg::Bounds { len: self.operand(body, len), index: self.operand(body, index) },
                    mir::AssertKind::Overflow(op, a, b) => AssertMsg::Overflow(format!("{op:?}"), self.operand(body, a), self.operand(body, b)),
                    mir::AssertKind::OverflowNeg(a) => AssertMsg::OverflowNeg(self.operand(body, a)),
                    mir::AssertKind::DivisionByZero(_) => AssertMsg::DivZero,
                    mir::AssertKind::RemainderByZero(_) => AssertMsg::RemZero,
                    mir::AssertKind::MisalignedPointerDereference { .. } => AssertMsg::Other("align".into()),
                    mir::AssertKind::NullPointerDereference => AssertMsg::Other("null".into()),
                    mir::AssertKind::InvalidEnumConstruction(_) => AssertMsg::Other("enum".into()),
                    _ => AssertMsg::Other("other".into()),
                };
                Term::Assert { cond: self.operand(body, cond), expected: *expected, msg: m, target: target.as_usize() }
            }
            K::FalseEdge { real_target, .. } => Term::Goto(real_target.as_usize()),
            K::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_usize()),
            K::UnwindResume | K::UnwindTerminate(_) => Term::Resume,
            _ => Term::Unreachable,
        }
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> Place {
        let proj = p.projection.iter().map(|e| match e {
            mir::ProjectionElem::Deref => Proj::Deref,
            mir::ProjectionElem::Field(f, t) => Proj::Field(f.as_usize(), self.ty(t)),
            mir::ProjectionElem::Index(l) => Proj::Index(l.as_usize()),
            mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => Proj::ConstIndex { offset, min: min_length, from_end },
            mir::ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice { from, to, from_end },
            mir::ProjectionElem::Downcast(_, v) => Proj::Downcast(v.as_usize()),
            _ => Proj::Other,
        }).collect();
        Place { local: p.local.as_usize(), proj }
    }

    fn operand(&mut self, _body: &mir::Body<'tcx>, o: &mir::Operand<'tcx>) -> Operand {
        match o {
            mir::Operand::Copy(p) => Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let ity = self.ty(t);
                Operand::Const(ity, self.constant(c.const_, t))
            }
            mir::Operand::RuntimeChecks(r) => Operand::RtCheck(format!("{r:?}")),
        }
    }

    fn constant(&mut self, c: mir::Const<'tcx>, t: Ty<'tcx>) -> Const {
        if let ty::FnDef(d, a) = *t.kind() {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, self.env, d, a.skip_binder()) { return Const::Fn(self.fn_id(i)); }
        }
        match c.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(v) => self.const_val(v, t, 0),
            Err(_) => Const::Unknown,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Const {
        let tcx = self.tcx;
        if depth > 8 { return Const::Unknown; }
        if let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() {
            if let Some(GlobalAlloc::Static(d)) = tcx.try_get_global_alloc(p.into_raw_parts().0.alloc_id()) {
                let freeze = tcx.type_of(d).instantiate_identity().skip_norm_wip().is_freeze(tcx, self.env);
                let kind = if tcx.is_mutable_static(d) { "mut" } else if tcx.is_thread_local_static(d) { "thread_local" } else if freeze { "freeze" } else { "interior" };
                self.statics.insert(format!("{} {}", kind, self.path(d)));
            }
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let Some(s) = v.try_to_scalar() else { return self.const_indirect_scalar(v, t) };
                let Scalar::Int(i) = s else { return Const::Unknown };
                let bits = i.to_bits_unchecked();
                Const::Int(match t.kind() {
                    ty::Int(_) => { let sh = 128 - i.size().bits(); ((bits << sh) as i128) >> sh }
                    _ => bits as i128,
                })
            }
            ty::FnDef(..) => Const::Zst,
            ty::Ref(_, to, _) => {
                match *to.kind() {
                    ty::Str => match self.slice_bytes(v) { Some(b) => Const::Str(b), None => Const::Unknown },
                    ty::Slice(e) => {
                        if e == tcx.types.u8 { if let Some(b) = self.slice_bytes(v) { return Const::SliceOf(self.ty(e), b.into_iter().map(|x| Const::Int(x as i128)).collect()); } }
                        self.slice_elems(v, e, depth).unwrap_or(Const::Unknown)
                    }
                    _ => {
                        let Some(Scalar::Ptr(p, _)) = v.try_to_scalar() else { return Const::Unknown };
                        let (prov, off) = p.into_raw_parts();
                        let id = prov.alloc_id();
                        match tcx.try_get_global_alloc(id) {
                            Some(GlobalAlloc::Memory(_)) => {
                                let tt = self.ty(to);
                                let inner = self.const_val(ConstValue::Indirect { alloc_id: id, offset: off }, to, depth + 1);
                                Const::RefTo(tt, Box::new(inner))
                            }
                            _ => Const::Unknown,
                        }
                    }
                }
            }
            ty::Array(..) | ty::Adt(..) | ty::Tuple(..) => {
                if let ty::Adt(d, _) = t.kind() { if d.is_union() { return Const::Unknown; } }
                if let ty::Tuple(ts) = t.kind() { if ts.is_empty() { return Const::Zst; } }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(dc) => {
                        let variant = dc.variant.map(|v| v.as_usize()).unwrap_or(0);
                        let fields: Vec<Const> = dc.fields.iter().map(|(v, t)| self.const_val(*v, *t, depth + 1)).collect();
                        Const::Agg { variant, fields }
                    }
                    None => Const::Unknown,
                }
            }
            ty::Closure(..) => Const::Zst,
            ty::Pat(b, _) => self.const_val(v, b, depth + 1),
            _ => Const::Unknown,
        }
    }

    fn const_indirect_scalar(&mut self, v: ConstValue, t: Ty<'tcx>) -> Const {
        let tcx = self.tcx;
        if let ConstValue::Indirect { alloc_id, offset } = v {
            if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                let sz = tcx.layout_of(self.env.as_query_input(t)).unwrap().size;
                let a = a.inner();
                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..(offset + sz).bytes_usize());
                let mut val: u128 = 0;
                for (i, x) in b.iter().enumerate() { val |= (*x as u128) << (8 * i); }
                return Const::Int(match t.kind() {
                    ty::Int(_) => { let sh = 128 - sz.bits(); ((val << sh) as i128) >> sh }
                    _ => val as i128,
                });
            }
        }
        Const::Unknown
    }

    /// (alloc, offset, len) of a slice constant
    fn slice_parts(&self, v: ConstValue) -> Option<(rustc_middle::mir::interpret::AllocId, usize, usize)> {
        let tcx = self.tcx;
        match v {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta as usize)),
            ConstValue::Indirect { alloc_id, offset } => {
                // a fat pointer stored in memory
                let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                let a = a.inner();
                let o = offset.bytes_usize();
                let prov = a.provenance().ptrs().get(&offset)?;
                let raw = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                let off = u64::from_le_bytes(raw[..8].try_into().ok()?);
                let len = u64::from_le_bytes(raw[8..].try_into().ok()?);
                Some((prov.alloc_id(), off as usize, len as usize))
            }
            _ => None,
        }
    }

    fn slice_bytes(&self, v: ConstValue) -> Option<Vec<u8>> {
        let (id, off, len) = self.slice_parts(v)?;
        let GlobalAlloc::Memory(a) = self.tcx.try_get_global_alloc(id)? else { return None };
        Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
    }

    fn slice_elems(&mut self, v: ConstValue, e: Ty<'tcx>, depth: usize) -> Option<Const> {
        let (id, off, len) = self.slice_parts(v)?;
        let sz = self.tcx.layout_of(self.env.as_query_input(e)).ok()?.size;
        let mut out = vec![];
        for i in 0..len.min(256) {
            out.push(self.const_val(ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::from_bytes(off as u64) + sz * (i as u64) }, e, depth + 1));
        }
        Some(Const::SliceOf(self.ty(e), out))
    }

    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &mir::Rvalue<'tcx>) -> Rvalue {
        let tcx = self.tcx;
        match r {
            mir::Rvalue::Use(o, ..) => Rvalue::Use(self.operand(body, o)),
            mir::Rvalue::Repeat(o, n) => Rvalue::Repeat(self.operand(body, o), n.try_to_target_usize(tcx).unwrap_or(0)),
            mir::Rvalue::Ref(_, k, p) => Rvalue::Ref { m: matches!(k, mir::BorrowKind::Mut { .. }), place: self.place(p) },
            mir::Rvalue::Reborrow(_, m, p) => { let mut pl = self.place(p); pl.proj.push(Proj::Deref); Rvalue::Ref { m: m.is_mut(), place: pl } }
            mir::Rvalue::RawPtr(_, p) => Rvalue::RawPtr { place: self.place(p) },
            mir::Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, tcx);
                let kind = match k {
                    mir::CastKind::PointerCoercion(c, _) => format!("{c:?}"),
                    k => format!("{k:?}"),
                };
                // the function behind a reified pointer
                let kind = match (*from.kind(), kind.split('(').next().unwrap_or("")) {
                    (ty::Closure(d, a), "ClosureFnPointer") => format!("FnPtr:{}", self.fn_id(Instance::resolve_closure(tcx, d, a, ty::ClosureKind::Fn))),
                    (ty::FnDef(d, a), "ReifyFnPointer") => match Instance::try_resolve(tcx, self.env, d, a.skip_binder()) { Ok(Some(i)) => format!("FnPtr:{}", self.fn_id(i)), _ => kind },
                    _ => kind,
                };
                let op = self.operand(body, o);
                Rvalue::Cast { kind, op, from: self.ty(from), to: self.ty(*t) }
            }
            mir::Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(&body.local_decls, tcx);
                Rvalue::Bin { op: format!("{op:?}"), a: self.operand(body, &b.0), b: self.operand(body, &b.1), ty: self.ty(t) }
            }
            mir::Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&body.local_decls, tcx);
                Rvalue::Un { op: format!("{op:?}"), a: self.operand(body, o), ty: self.ty(t) }
            }
            mir::Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                Rvalue::Discr(self.place(p), self.ty(t))
            }
            mir::Rvalue::Aggregate(k, ops) => {
                let t = r.ty(&body.local_decls, tcx);
                let (variant, field) = match &**k { mir::AggregateKind::Adt(_, v, _, _, f) => (v.as_usize(), f.map(|f| f.as_usize())), _ => (0, None) };
                Rvalue::Agg { ty: self.ty(t), variant, field, ops: ops.iter().map(|o| self.operand(body, o)).collect() }
            }
            mir::Rvalue::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(p))),
            other => Rvalue::Other(format!("{other:?}")),
        }
    }
}
