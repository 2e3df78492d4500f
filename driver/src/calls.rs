//! Call sites of a crate's own bodies, for effect rules over a program that is not the library.
use rustc_middle::mir;
use rustc_middle::ty::{self, TyCtxt};
use serde_json::{json, Value};

fn path(tcx: TyCtxt<'_>, d: rustc_hir::def_id::DefId) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d)) }
fn tystr(t: ty::Ty<'_>) -> String { rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()) }

struct Mentions<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<String> }
impl<'tcx> mir::visit::Visitor<'tcx> for Mentions<'tcx> {
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, _l: mir::Location) {
        if let ty::FnDef(d, _) = c.const_.ty().kind() { self.out.push(path(self.tcx, *d)); }
    }
}

pub fn calls(tcx: TyCtxt<'_>) -> Value {
    let mut fns = vec![];
    for d in tcx.mir_keys(()) {
        let d = d.to_def_id();
        if !matches!(tcx.def_kind(d), rustc_hir::def::DefKind::Fn | rustc_hir::def::DefKind::AssocFn | rustc_hir::def::DefKind::Closure) { continue; }
        let body = tcx.optimized_mir(d);
        let line = |sp: rustc_span::Span| tcx.sess.source_map().lookup_char_pos(sp.source_callsite().lo()).line;
        let file = format!("{:?}", tcx.sess.source_map().span_to_filename(tcx.def_span(d)));
        let mut cs = vec![];
        let mut copies = vec![];
        for bb in body.basic_blocks.iter() {
            for s in &bb.statements {
                if let mir::StatementKind::Assign(b) = &s.kind {
                    let (dst, rv) = &**b;
                    let src = match rv {
                        mir::Rvalue::Use(mir::Operand::Copy(p) | mir::Operand::Move(p), ..) => Some(p.local),
                        mir::Rvalue::Ref(_, _, p) => Some(p.local),
                        mir::Rvalue::RawPtr(_, p) => Some(p.local),
                        _ => None,
                    };
                    if let Some(src) = src { copies.push(json!([dst.local.as_usize(), src.as_usize()])); }
                }
            }
            let t = bb.terminator();
            if let mir::TerminatorKind::Call { func, args, destination, .. } = &t.kind {
                let a: Vec<Value> = args.iter().map(|x| match &x.node {
                    mir::Operand::Copy(p) | mir::Operand::Move(p) => json!({"local": p.local.as_usize()}),
                    mir::Operand::Constant(c) => match if c.const_.ty().is_bool() { c.const_.try_to_bool() } else { None } { Some(b) => json!({"bool": b}), None => json!({"const": c.const_.to_string()}) },
                    #[allow(unreachable_patterns)]
                    _ => json!({}),
                }).collect();
                let (callee, targs) = match func.constant().map(|c| c.const_.ty().kind()) {
                    Some(ty::FnDef(d, args)) => (path(tcx, *d), args.skip_binder().iter().filter_map(|a| a.as_type()).map(tystr).collect::<Vec<_>>()),
                    _ => ("?".into(), vec![]),
                };
                cs.push(json!({"callee": callee, "targs": targs, "args": a, "dest": destination.local.as_usize(), "line": line(t.source_info.span)}));
            }
        }
        let mut m = Mentions { tcx, out: vec![] };
        mir::visit::Visitor::visit_body(&mut m, body);
        fns.push(json!({"name": path(tcx, d), "file": file, "calls": cs, "copies": copies, "mentions": m.out, "args": body.arg_count,
            "unsafe": tcx.def_kind(d) != rustc_hir::def::DefKind::Closure && tcx.fn_sig(d).skip_binder().safety().is_unsafe()}));
    }
    let mut statics = vec![];
    for i in tcx.hir_crate_items(()).definitions() { if let rustc_hir::def::DefKind::Static { .. } | rustc_hir::def::DefKind::ForeignMod = tcx.def_kind(i) { statics.push(path(tcx, i.to_def_id())); } }
    json!({"fns": fns, "statics": statics})
}
