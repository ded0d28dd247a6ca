use crate::json::*;
use rustc_middle::ty::TyCtxt;
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::{AggregateKind, CastKind, ConstOperand, Rvalue, StatementKind, TerminatorKind};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::ty::{ConstantKind, GenericArgKind, RigidTy, Ty, TyKind};
use rustc_public::CrateDef;

/// Callees (by definition path), thread locals/statics and unsafe blocks of
/// every body in the crate under analysis.
pub fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    for item in rustc_public::all_local_items() {
        let Some(body) = item.body() else { continue };
        let mut callees = vec![];
        let mut statics = vec![];
        for bb in &body.blocks {
            if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                if let Ok(ty) = func.ty(body.locals()) {
                    match ty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                            callees.push(J::O(vec![
                                ("def", s(def.name().to_string())),
                                ("self", s(args.0.first().map(|a| format!("{:?}", a.ty().map(|t| t.to_string()).unwrap_or_default())).unwrap_or_default())),
                                ("all", J::A(args.0.iter().map(|a| match a { GenericArgKind::Type(t) => s(t.to_string()), _ => s(String::new()) }).collect())),
                                ("clos", J::A(args.0.iter().filter_map(|a| match a { GenericArgKind::Type(t) => match t.kind() { TyKind::RigidTy(RigidTy::Closure(d, _)) => Some(s(d.name().to_string())), _ => None }, _ => None }).collect())),
                                ("line", s(line(bb.terminator.source_info.span))),
                            ]));
                        }
                        k => callees.push(J::O(vec![("def", s(format!("<indirect {:?}>", k))), ("self", s("")), ("line", s(line(bb.terminator.source_info.span)))])),
                    }
                }
            }
            if let TerminatorKind::InlineAsm { .. } = &bb.terminator.kind {
                callees.push(J::O(vec![("def", s("<asm>")), ("self", s("")), ("line", s(line(bb.terminator.source_info.span)))]));
            }
            for st in &bb.statements {
                if let StatementKind::Assign(_, Rvalue::ThreadLocalRef(d)) = &st.kind {
                    statics.push(s(format!("thread_local {}", d.name())));
                }
            }
        }
        // functions taken as values, statics referred to, closures built and how much they
        // capture, addresses turned into numbers
        let mut c = Consts { fns: vec![], statics: vec![], closures: vec![], addr: vec![] };
        c.visit_body(&body);
        let Consts { fns: vals, statics: st2, closures, addr } = c;
        for (d, l) in vals { callees.push(J::O(vec![("def", s(d)), ("self", s("")), ("line", s(l)), ("value", J::B(true))])); }
        for d in st2 { statics.push(s(d)); }
        fns.push(J::O(vec![
            ("closures", J::A(closures.into_iter().map(|(d, k)| J::A(vec![s(d), n(k)])).collect())),
            ("addr", J::A(addr.into_iter().map(s).collect())),
            ("name", s(item.name().to_string())),
            ("file", s(body.span.get_filename().to_string())),
            ("line", s(line(body.span))),
            ("callees", J::A(callees)),
            ("statics", J::A(statics)),
        ]));
    }
    let mut statics = vec![];
    for st in rustc_public::local_crate().statics() {
        let t = st.ty();
        let id = rustc_public::rustc_internal::internal(tcx, st.def_id());
        let ty = tcx.type_of(id).instantiate_identity().skip_norm_wip();
        let freeze = ty.is_freeze(tcx, rustc_middle::ty::TypingEnv::fully_monomorphized());
        statics.push(J::O(vec![("name", s(st.name().to_string())), ("ty", s(t.to_string())), ("mut", J::B(tcx.is_mutable_static(id))), ("freeze", J::B(freeze)), ("line", s(line(st.span())))]));
    }
    let mut unsafes = vec![];
    // unsafe fns / impls / blocks, from HIR
    struct V<'tcx> { tcx: TyCtxt<'tcx>, out: Vec<String> }
    impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
        type NestedFilter = rustc_middle::hir::nested_filter::All;
        fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.tcx }
        fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
            if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                self.out.push(format!("unsafe block at {:?}", b.span));
            }
            rustc_hir::intravisit::walk_block(self, b);
        }
        fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
            match &i.kind {
                rustc_hir::ItemKind::Fn { sig, .. } if sig.header.is_unsafe() => self.out.push(format!("unsafe fn at {:?}", i.span)),
                rustc_hir::ItemKind::ForeignMod { .. } => self.out.push(format!("extern block at {:?}", i.span)),
                rustc_hir::ItemKind::Impl(im) => {
                    if let Some(t) = im.of_trait {
                        if matches!(t.safety, rustc_hir::Safety::Unsafe) { self.out.push(format!("unsafe impl at {:?}", i.span)); }
                    }
                }
                _ => {}
            }
            rustc_hir::intravisit::walk_item(self, i);
        }
        fn visit_impl_item(&mut self, i: &'tcx rustc_hir::ImplItem<'tcx>) {
            if let rustc_hir::ImplItemKind::Fn(sig, _) = &i.kind {
                if sig.header.is_unsafe() { self.out.push(format!("unsafe fn at {:?}", i.span)); }
            }
            rustc_hir::intravisit::walk_impl_item(self, i);
        }
    }
    let mut v = V { tcx, out: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut v);
    for u in v.out { unsafes.push(s(u)); }
    let j = J::O(vec![("fns", J::A(fns)), ("statics", J::A(statics)), ("unsafe", J::A(unsafes))]);
    let mut o = String::new();
    j.write(&mut o);
    std::fs::write(format!("{out}/poly.json"), o).expect("write poly.json");
}

fn line(sp: rustc_public::ty::Span) -> String {
    format!("{}:{}", sp.get_filename(), sp.get_lines().start_line)
}

struct Consts { fns: Vec<(String, String)>, statics: Vec<String>, closures: Vec<(String, usize)>, addr: Vec<String> }
impl MirVisitor for Consts {
    fn visit_const_operand(&mut self, c: &ConstOperand, loc: Location) {
        let t: Ty = c.const_.ty();
        if let TyKind::RigidTy(RigidTy::FnDef(d, _)) = t.kind() {
            self.fns.push((d.name().to_string(), line(c.span)));
        }
        if let ConstantKind::Allocated(a) = c.const_.kind() {
            for (_, p) in &a.provenance.ptrs {
                if let GlobalAlloc::Static(d) = GlobalAlloc::from(p.0) { self.statics.push(d.name().to_string()); }
            }
        }
        self.super_const_operand(c, loc);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, loc: Location) {
        if let Rvalue::Aggregate(AggregateKind::Closure(d, _), ops) = r { self.closures.push((d.name().to_string(), ops.len())); }
        if let Rvalue::Cast(CastKind::PointerExposeAddress, ..) = r { self.addr.push(format!("{:?}", r)); }
        self.super_rvalue(r, loc);
    }
}
