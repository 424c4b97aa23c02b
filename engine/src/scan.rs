//! Every unsafe operation written in a crate, by its resolved meaning.
use rustc_hir::def::{DefKind, Res};
use rustc_hir::intravisit::{self, Visitor};
use rustc_hir::{self as hir, ExprKind};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::{self, TyCtxt};
use rustc_span::Span;

pub struct Scan<'tcx> {
    tcx: TyCtxt<'tcx>,
    owner: Option<hir::def_id::LocalDefId>,
    pub out: Vec<String>,
}
impl<'tcx> Scan<'tcx> {
    pub fn new(tcx: TyCtxt<'tcx>) -> Self {
        Scan { tcx, owner: None, out: vec![] }
    }
    /// written by a macro of another crate than the library's own
    fn foreign(&self, s: Span) -> bool {
        let e = s.ctxt().outer_expn_data();
        e.macro_def_id.map_or(false, |d| !d.is_local() && !self.tcx.crate_name(d.krate).as_str().starts_with("binread"))
    }
    fn note(&mut self, kind: &str, what: &str, sp: Span) {
        // what format_args! is lowered to
        if what.contains("fmt::Arguments") || what.contains("::fmt::rt::") {
            return;
        }
        let at = self.tcx.sess.source_map().span_to_diagnostic_string(sp.source_callsite());
        self.out.push(format!("{}|{}|{}", kind, what, at));
    }
    fn unsafe_fn(&self, t: ty::Ty<'tcx>) -> Option<String> {
        match t.kind() {
            ty::FnDef(d, _) => self.tcx.fn_sig(*d).skip_binder().safety().is_unsafe().then(|| self.tcx.def_path_str(*d)),
            ty::FnPtr(_, h) => h.safety().is_unsafe().then(|| "function pointer".to_string()),
            _ => None,
        }
    }
}
impl<'tcx> Visitor<'tcx> for Scan<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        if let hir::ItemKind::Impl(im) = &i.kind {
            if let Some(t) = im.of_trait {
                if matches!(t.safety, hir::Safety::Unsafe) && !self.foreign(i.span) {
                    self.note("impl", "unsafe impl", i.span);
                }
            }
        }
        intravisit::walk_item(self, i)
    }
    fn visit_body(&mut self, b: &hir::Body<'tcx>) {
        let old = self.owner.replace(self.tcx.hir_body_owner_def_id(b.id()));
        intravisit::walk_body(self, b);
        self.owner = old;
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let Some(o) = self.owner {
            let tr = self.tcx.typeck(o);
            match &e.kind {
                ExprKind::Call(f, _) => {
                    if let Some(n) = tr.expr_ty_opt(f).and_then(|t| self.unsafe_fn(t)) {
                        if !self.foreign(e.span) {
                            self.note("call", &n, e.span);
                        }
                    }
                }
                ExprKind::MethodCall(..) => {
                    if let Some(d) = tr.type_dependent_def_id(e.hir_id) {
                        if self.tcx.fn_sig(d).skip_binder().safety().is_unsafe() && !self.foreign(e.span) {
                            let n = self.tcx.def_path_str(d);
                            self.note("call", &n, e.span);
                        }
                    }
                }
                ExprKind::Path(_) => {
                    // an unsafe function used as a value
                    if let Some(n) = tr.expr_ty_opt(e).and_then(|t| self.unsafe_fn(t)) {
                        let p = self.tcx.parent_hir_node(e.hir_id);
                        let called = matches!(p, hir::Node::Expr(x) if matches!(&x.kind, ExprKind::Call(f, _) if f.hir_id == e.hir_id));
                        if !called && !self.foreign(e.span) {
                            self.note("value", &n, e.span);
                        }
                    }
                    if let ExprKind::Path(q) = &e.kind {
                        if let Res::Def(DefKind::Static { mutability: hir::Mutability::Mut, .. }, d) = tr.qpath_res(q, e.hir_id) {
                            let n = self.tcx.def_path_str(d);
                            self.note("static", &n, e.span);
                        }
                    }
                }
                ExprKind::Unary(hir::UnOp::Deref, x) => {
                    if tr.expr_ty_opt(x).map_or(false, |t| t.is_raw_ptr()) && !self.foreign(e.span) {
                        self.note("deref", "dereference of a raw pointer", e.span);
                    }
                }
                ExprKind::Field(x, _) => {
                    if tr.expr_ty_adjusted_opt(x).map_or(false, |t| t.is_union()) {
                        self.note("union", "access to a union field", e.span);
                    }
                }
                ExprKind::InlineAsm(..) => self.note("asm", "inline assembly", e.span),
                _ => {}
            }
        }
        intravisit::walk_expr(self, e)
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)) && !self.foreign(b.span) {
            self.note("block", "unsafe block", b.span);
        }
        intravisit::walk_block(self, b)
    }
}
