use rustc_middle::ty::print::PrintTraitRefExt;
use crate::json::{i, s, J};
use rustc_abi::VariantIdx;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let d = D { tcx };
    let mut bodies = vec![];
    for def in tcx.hir_body_owners() {
        let kind = tcx.def_kind(def);
        match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
            _ => continue,
        }
        let (steal, promoted) = tcx.mir_promoted(def);
        if steal.is_stolen() {
            bodies.push(J::Obj(vec![("id", s(d.path(def.to_def_id()))), ("stolen", J::Bool(true))]));
            continue;
        }
        let body = steal.borrow();
        let pr = if promoted.is_stolen() {
            vec![]
        } else {
            promoted
                .borrow()
                .iter()
                .map(|pb| J::Arr(pb.basic_blocks.iter().map(|b| d.block(def, pb, b, &[])).collect()))
                .collect()
        };
        bodies.push(d.body(def, &body, pr));
    }
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        match tcx.def_kind(id) {
            DefKind::Struct | DefKind::Enum => adts.push(d.adt(id.to_def_id())),
            DefKind::Impl { .. } => impls.push(d.imp(id.to_def_id())),
            DefKind::Trait => traits.push(d.tr(id.to_def_id())),
            _ => {}
        }
    }
    let j = J::Obj(vec![
        ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
        ("bodies", J::Arr(bodies)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
        ("traits", J::Arr(traits)),
    ]);
    let mut o = String::new();
    j.write(&mut o);
    let tmp = format!("{}.tmp", out);
    std::fs::write(&tmp, o).unwrap();
    std::fs::rename(&tmp, out).unwrap();
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)))
    }
    fn show<T: std::fmt::Display>(&self, t: T) -> String {
        with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t)))
    }

    fn adt(&self, did: DefId) -> J {
        let a = self.tcx.adt_def(did);
        let variants = a
            .variants()
            .iter()
            .map(|v| {
                let fields = v
                    .fields
                    .iter()
                    .map(|f| {
                        let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        J::Arr(vec![s(f.name.as_str()), s(self.ty(t))])
                    })
                    .collect();
                J::Arr(vec![s(v.name.as_str()), J::Arr(fields)])
            })
            .collect();
        J::Obj(vec![
            ("path", s(self.path(did))),
            ("enum", J::Bool(a.is_enum())),
            ("variants", J::Arr(variants)),
        ])
    }

    fn imp(&self, did: DefId) -> J {
        let tcx = self.tcx;
        let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
        let tr = tcx
            .impl_opt_trait_ref(did)
            .map(|t| self.show(t.instantiate_identity().skip_norm_wip().print_only_trait_path()));
        let items = tcx
            .associated_items(did)
            .in_definition_order()
            .map(|it| J::Arr(vec![s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(self.path(it.def_id))]))
            .collect();
        J::Obj(vec![
            ("path", s(self.path(did))),
            ("self", s(self.ty(self_ty))),
            ("trait", tr.map_or(J::Null, s)),
            ("items", J::Arr(items)),
        ])
    }

    fn tr(&self, did: DefId) -> J {
        let items = self
            .tcx
            .associated_items(did)
            .in_definition_order()
            .map(|it| {
                J::Arr(vec![
                    s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                    s(self.path(it.def_id)),
                    J::Bool(it.defaultness(self.tcx).has_value()),
                ])
            })
            .collect();
        J::Obj(vec![("path", s(self.path(did))), ("items", J::Arr(items))])
    }

    fn span(&self, sp: Span) -> J {
        // user-written position: outermost call site
        let root = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(root.lo());
        i(lo.line)
    }

    /// the call site of the logging macro that produced a span, if any
    fn log_site(&self, sp: Span) -> Option<Span> {
        let mut c = sp.ctxt();
        let mut hit = None;
        loop {
            if c.is_root() {
                return hit;
            }
            let e = c.outer_expn_data();
            let bang = matches!(e.kind, rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Bang, _));
            if let (true, Some(m)) = (bang, e.macro_def_id) {
                let k = self.tcx.crate_name(m.krate);
                let k = k.as_str();
                if k == "tracing" || k == "log" || k == "valuable" || k == "metrics" || k == "metrics_macros" {
                    hit = Some(e.call_site);
                }
            }
            c = e.call_site.ctxt();
        }
    }

    /// is the code at `sp` produced by a logging macro, or written inside the arguments of one
    fn log_macro(&self, sites: &[Span], sp: Span) -> bool {
        self.log_site(sp).is_some() || sites.iter().any(|s| s.lo() <= sp.lo() && sp.hi() <= s.hi())
    }

    fn body(&self, def: LocalDefId, body: &Body<'tcx>, promoted: Vec<J>) -> J {
        let tcx = self.tcx;
        let did = def.to_def_id();
        let sm = tcx.sess.source_map();
        let sp = tcx.def_span(did).source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        let parent = tcx.parent(did);
        let (mut imp_self, mut imp_trait, mut in_trait) = (J::Null, J::Null, J::Null);
        let name = tcx.opt_item_name(did).map(|n| n.to_string()).unwrap_or_default();
        match tcx.def_kind(parent) {
            DefKind::Impl { .. } => {
                imp_self = s(self.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip()));
                if let Some(t) = tcx.impl_opt_trait_ref(parent) {
                    imp_trait = s(self.show(t.instantiate_identity().skip_norm_wip().print_only_trait_path()));
                }
            }
            DefKind::Trait => in_trait = s(self.path(parent)),
            _ => {}
        }
        let is_cor = tcx.is_coroutine(did);
        let root = tcx.typeck_root_def_id(did);
        let g = tcx.generics_of(root);
        let mut gens = vec![];
        for k in 0..g.count() {
            let p = g.param_at(k, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gens.push(s(p.name.as_str()));
            }
        }
        let locals = body
            .local_decls
            .iter()
            .map(|l| s(self.ty(l.ty)))
            .collect();
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::Arr(vec![s(v.name.as_str()), self.place(body, p)]));
            }
        }
        let mut sites: Vec<Span> = vec![];
        for b in body.basic_blocks.iter() {
            let sps = b.statements.iter().map(|x| x.source_info.span).chain(std::iter::once(b.terminator().source_info.span));
            for sp in sps {
                if let Some(s) = self.log_site(sp) {
                    // an attribute macro (#[instrument]) invents call sites spanning the whole body:
                    // only what reads as a macro invocation in the source delimits macro arguments
                    let bang = sm.span_to_snippet(s).map(|t| {
                        t.find('!').is_some_and(|i| t[..i].chars().all(|c| c.is_alphanumeric() || c == '_' || c == ':'))
                    });
                    if bang.unwrap_or(false) && !sites.contains(&s) {
                        sites.push(s);
                    }
                }
            }
        }
        let blocks = body
            .basic_blocks
            .iter()
            .map(|b| self.block(def, body, b, &sites))
            .collect();
        J::Obj(vec![
            ("id", s(self.path(did))),
            ("name", s(name)),
            ("kind", s(format!("{:?}", tcx.def_kind(did)))),
            ("coroutine", J::Bool(is_cor)),
            ("async", J::Bool(matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) && tcx.asyncness(did).is_async())),
            ("parent", s(self.path(parent))),
            ("root", s(self.path(root))),
            ("impl_self", imp_self),
            ("impl_trait", imp_trait),
            ("in_trait", in_trait),
            ("vis", s(if tcx.def_kind(did) == DefKind::Closure { String::new() } else { format!("{:?}", tcx.visibility(did)) })),
            ("generics", J::Arr(gens)),
            ("file", s(file)),
            ("line", i(lo.line)),
            ("args", i(body.arg_count)),
            ("locals", J::Arr(locals)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
            ("promoted", J::Arr(promoted)),
        ])
    }

    fn place(&self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![i(p.local.as_usize())];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut nm = f.as_usize().to_string();
                    if let ty::Adt(a, _) = pt.ty.kind() {
                        let vi = pt.variant_index.unwrap_or(VariantIdx::from_usize(0));
                        if a.variants().len() > vi.as_usize() {
                            if let Some(fd) = a.variant(vi).fields.get(f) {
                                nm = fd.name.to_string();
                            }
                        }
                    }
                    s(format!(".{}", nm))
                }
                ProjectionElem::Downcast(_, vi) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(vi).name.to_string(),
                        _ => format!("{}", vi.as_usize()),
                    };
                    s(format!("@{}", nm))
                }
                ProjectionElem::Index(_) | ProjectionElem::ConstantIndex { .. } => s("[]"),
                ProjectionElem::Subslice { .. } => s("[..]"),
                _ => s("~"),
            };
            v.push(j);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::Arr(v)
    }

    fn operand(&self, def: LocalDefId, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(body, p)]),
            Operand::Constant(c) => self.konst(def, c),
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![s("k"), s("?"), s("?")]),
        }
    }

    fn konst(&self, def: LocalDefId, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() {
            return J::Arr(vec![s("fn"), self.callee(def, *d, a.skip_binder())]);
        }
        let env = TypingEnv::post_analysis(self.tcx, def);
        let val = match c.const_ {
            Const::Unevaluated(u, _) if u.promoted.is_none() => {
                // named constants: keep the name and the value
                let v = c.const_.try_eval_scalar_int(self.tcx, env).map(|x| format!("{:?}", x));
                return J::Arr(vec![s("kn"), s(self.path(u.def)), v.map_or(J::Null, s), s(self.ty(t))]);
            }
            Const::Unevaluated(u, _) => {
                return J::Arr(vec![s("kp"), i(u.promoted.unwrap().as_usize()), s(self.path(u.def)), s(self.ty(t))]);
            }
            _ => self.show(c.const_),
        };
        let num = if t.is_integral() || t.is_bool() || t.is_char() {
            c.const_.try_eval_scalar_int(self.tcx, env).map(|x| {
                if t.is_signed() {
                    J::Int(x.to_int(x.size()))
                } else {
                    J::Int(x.to_uint(x.size()) as i128)
                }
            })
        } else {
            None
        };
        J::Arr(vec![s("k"), num.unwrap_or_else(|| s(val)), s(self.ty(t))])
    }

    fn callee(&self, def: LocalDefId, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, def);
        let mut o = vec![("p", s(self.path(d)))];
        let ga: Vec<J> = a
            .iter()
            .filter(|x| x.as_region().is_none())
            .map(|x| s(self.show(x)))
            .collect();
        o.push(("g", J::Arr(ga)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("t", s(self.path(tr))));
        }
        let ea = tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, ea) {
            match inst.def {
                ty::InstanceKind::Item(rd) => {
                    if rd != d {
                        o.push(("r", s(self.path(rd))));
                        let ga: Vec<J> = inst
                            .args
                            .iter()
                            .filter(|x| x.as_region().is_none())
                            .map(|x| s(self.show(x)))
                            .collect();
                        o.push(("rg", J::Arr(ga)));
                    }
                }
                ty::InstanceKind::Virtual(..) => o.push(("v", J::Bool(true))),
                _ => o.push(("x", s("shim"))),
            }
        } else {
            o.push(("u", J::Bool(true)));
        }
        if tcx.def_kind(d) == DefKind::Fn || tcx.def_kind(d) == DefKind::AssocFn {
            let names: Vec<J> = {
                let g = tcx.generics_of(d);
                (0..g.count())
                    .map(|k| g.param_at(k, tcx))
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| s(p.name.as_str()))
                    .collect()
            };
            o.push(("gn", J::Arr(names)));
            if let ty::FnDef(..) = tcx.type_of(d).instantiate_identity().skip_norm_wip().kind() {
                // async-ness of the declared callee
            }
        } else {
            o.push(("ctor", J::Bool(true)));
        }
        J::Obj(o)
    }

    fn variants_of(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Adt(a, _) if a.is_enum() => J::Arr(
                a.discriminants(self.tcx)
                    .map(|(vi, d)| {
                        J::Arr(vec![J::Int(d.val as i128), s(a.variant(vi).name.as_str())])
                    })
                    .collect(),
            ),
            _ => J::Arr(vec![]),
        }
    }

    fn rvalue(&self, def: LocalDefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let op = |o: &Operand<'tcx>| self.operand(def, body, o);
        let pl = |p: &Place<'tcx>| self.place(body, p);
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), op(o)]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::Arr(vec![s("ref"), pl(p), J::Bool(m)])
            }
            Rvalue::RawPtr(_, p) => J::Arr(vec![s("ref"), pl(p), J::Bool(true)]),
            Rvalue::BinaryOp(o, ab) => {
                J::Arr(vec![s("bin"), s(format!("{:?}", o)), op(&ab.0), op(&ab.1)])
            }
            Rvalue::UnaryOp(o, a) => J::Arr(vec![s("un"), s(format!("{:?}", o)), op(a)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::Arr(vec![s("discr"), pl(p), self.variants_of(t), s(self.ty(t))])
            }
            Rvalue::Cast(k, o, t) => {
                J::Arr(vec![s("cast"), op(o), s(self.ty(*t)), s(format!("{:?}", k))])
            }
            Rvalue::Repeat(o, _) => J::Arr(vec![s("repeat"), op(o)]),
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| op(o)).collect();
                match &**k {
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let a = self.tcx.adt_def(*d);
                        let v = a.variant(*vi);
                        let names = v.fields.iter().map(|f| s(f.name.as_str())).collect();
                        J::Arr(vec![
                            s("adt"),
                            s(self.path(*d)),
                            s(v.name.as_str()),
                            J::Arr(names),
                            J::Arr(ops),
                        ])
                    }
                    AggregateKind::Closure(d, _) => {
                        J::Arr(vec![s("closure"), s(self.path(*d)), J::Arr(ops)])
                    }
                    AggregateKind::Coroutine(d, _) => {
                        J::Arr(vec![s("coroutine"), s(self.path(*d)), J::Arr(ops)])
                    }
                    AggregateKind::CoroutineClosure(d, _) => {
                        J::Arr(vec![s("closure"), s(self.path(*d)), J::Arr(ops)])
                    }
                    AggregateKind::Tuple => J::Arr(vec![s("tuple"), J::Arr(ops)]),
                    AggregateKind::Array(_) => J::Arr(vec![s("array"), J::Arr(ops)]),
                    _ => J::Arr(vec![s("other"), s("agg")]),
                }
            }
            Rvalue::CopyForDeref(p) => {
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), pl(p)])])
            }
            other => J::Arr(vec![s("other"), s(format!("{:?}", std::mem::discriminant(other)))]),
        }
    }

    fn block(&self, def: LocalDefId, body: &Body<'tcx>, b: &BasicBlockData<'tcx>, sites: &[Span]) -> J {
        let mut st = vec![];
        for x in &b.statements {
            match &x.kind {
                StatementKind::Assign(pr) => {
                    let mut v = vec![
                        s("="),
                        self.place(body, &pr.0),
                        self.rvalue(def, body, &pr.1),
                        self.span(x.source_info.span),
                    ];
                    if self.log_macro(sites, x.source_info.span) {
                        v.push(i(1));
                    }
                    st.push(J::Arr(v));
                }
                StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), i(l.as_usize())])),
                StatementKind::SetDiscriminant { .. } => st.push(J::Arr(vec![s("setdiscr")])),
                _ => {}
            }
        }
        let t = b.terminator();
        let sp = t.source_info.span;
        let bb = |x: &BasicBlock| i(x.as_usize());
        let tj = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![s("goto"), bb(target)],
            TerminatorKind::SwitchInt { discr, targets } => {
                let v = targets
                    .iter()
                    .map(|(val, tg)| J::Arr(vec![J::Int(val as i128), i(tg.as_usize())]))
                    .collect();
                vec![
                    s("switch"),
                    self.operand(def, body, discr),
                    J::Arr(v),
                    bb(&targets.otherwise()),
                    s(self.ty(discr.ty(&body.local_decls, self.tcx))),
                ]
            }
            TerminatorKind::Return => vec![s("ret")],
            TerminatorKind::Unreachable => vec![s("unreach")],
            TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => vec![s("unwind")],
            TerminatorKind::CoroutineDrop => vec![s("cordrop")],
            TerminatorKind::Drop { place, target, .. } => {
                let t = place.ty(&body.local_decls, self.tcx).ty;
                vec![s("drop"), self.place(body, place), bb(target), s(self.ty(t))]
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let a = args.iter().map(|x| self.operand(def, body, &x.node)).collect();
                vec![
                    s("call"),
                    self.operand(def, body, func),
                    J::Arr(a),
                    self.place(body, destination),
                    target.map_or(J::Null, |t| i(t.as_usize())),
                    s(self.ty(destination.ty(&body.local_decls, self.tcx).ty)),
                ]
            }
            TerminatorKind::Assert { target, .. } => vec![s("goto"), bb(target)],
            TerminatorKind::Yield { resume, .. } => vec![s("yield"), bb(resume)],
            TerminatorKind::FalseEdge { real_target, imaginary_target } => {
                vec![s("goto"), bb(real_target), bb(imaginary_target)]
            }
            TerminatorKind::FalseUnwind { real_target, .. } => vec![s("goto"), bb(real_target)],
            _ => vec![s("other")],
        };
        let mut tv = tj;
        tv.push(self.span(sp));
        let mut o = vec![("s", J::Arr(st)), ("t", J::Arr(tv))];
        if b.is_cleanup {
            o.push(("cleanup", J::Bool(true)));
        }
        if self.log_macro(sites, sp) {
            o.push(("log", J::Bool(true)));
        }
        J::Obj(o)
    }
}
