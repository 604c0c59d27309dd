//! rustc driver that dumps the resolved MIR (and a little item-level information) of every
//! workspace crate as JSON. It is injected with RUSTC_WORKSPACE_WRAPPER; SRDUMP_OUT names the
//! directory that receives one `<crate>-<kind>.json` per compiled crate.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::{
    self, AggregateKind, AssertKind, Body, BorrowKind, CastKind, Const, Operand, Place,
    ProjectionElem, Rvalue, StatementKind, TerminatorKind, VarDebugInfoContents,
};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    // crate::module::{impl#n}::name, stable across uses of the same crate
    let p = tcx.def_path(d);
    format!("{}{}", tcx.crate_name(d.krate), p.to_string_no_crate_verbose())
}

/// Human-readable and refactoring-stable name: `crate::Type::method`, `<Trait for Type>::method`.
fn nice(tcx: TyCtxt<'_>, d: DefId) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(tcx.def_path_str(d)))
}

fn tystr(t: Ty<'_>) -> String {
    ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{t}")))
}

fn span(tcx: TyCtxt<'_>, s: Span) -> J {
    let sm = tcx.sess.source_map();
    let s = s.source_callsite();
    let lo = sm.lookup_char_pos(s.lo());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => match r.local_path() {
            Some(p) => p.display().to_string(),
            None => format!("{:?}", r),
        },
        o => format!("{:?}", o),
    };
    J::A(vec![J::s(f), J::I(lo.line as i128)])
}

struct Cx<'a, 'tcx> {
    tcx: TyCtxt<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

impl<'a, 'tcx> Cx<'a, 'tcx> {
    fn place(&self, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = mir::PlaceTy::from_ty(self.body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref | ProjectionElem::PhantomDeref => J::s("*"),
                ProjectionElem::Field(f, _) => {
                    let (owner, name) = match pt.ty.kind() {
                        ty::Adt(ad, _) => {
                            let v = match pt.variant_index {
                                Some(v) => v,
                                None => rustc_abi::FIRST_VARIANT,
                            };
                            let vd = ad.variant(v);
                            let owner = if ad.is_enum() {
                                format!("{}::{}", nice(tcx, ad.did()), vd.name)
                            } else {
                                nice(tcx, ad.did())
                            };
                            (owner, vd.fields[f].name.to_string())
                        }
                        ty::Closure(..) => {
                            let names = match pt.ty.kind() {
                                ty::Closure(d, _) => tcx.closure_saved_names_of_captured_variables(*d),
                                _ => unreachable!(),
                            };
                            ("closure".to_string(), names[f].to_string())
                        }
                        ty::Tuple(_) => ("tuple".to_string(), f.index().to_string()),
                        _ => ("?".to_string(), f.index().to_string()),
                    };
                    J::A(vec![J::s("f"), J::s(owner), J::s(name), J::I(f.index() as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    J::s("c"),
                    J::I(offset as i128),
                    J::B(from_end),
                    J::I(min_length as i128),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    J::s("s"),
                    J::I(from as i128),
                    J::I(to as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    J::s("d"),
                    J::s(n.map(|s| s.to_string()).unwrap_or_default()),
                    J::I(v.as_u32() as i128),
                ]),
                _ => J::A(vec![J::s("?"), J::s(format!("{:?}", e))]),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(proj)])
    }

    fn fnref(&self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut v = vec![
            ("fn", J::s(path(tcx, d))),
            ("n", J::s(nice(tcx, d))),
            ("ga", J::A(args.iter().map(|a| J::s(ty::print::with_no_trimmed_paths!(ty::print::with_resolve_crate_name!(format!("{a}"))))).collect())),
        ];
        let cargs: Vec<J> = args
            .iter()
            .filter_map(|a| a.as_type())
            .filter_map(|t| match t.kind() {
                ty::Closure(d, _) => Some(J::s(path(tcx, *d))),
                ty::FnDef(d, _) => Some(J::s(path(tcx, *d))),
                _ => None,
            })
            .collect();
        if !cargs.is_empty() {
            v.push(("cl", J::A(cargs)));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", J::s(nice(tcx, tr))));
            if let Some(st) = args.types().next() {
                v.push(("self", J::s(tystr(st))));
            }
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(eargs) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(args)) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, d, eargs) {
                    let rd = inst.def_id();
                    if rd != d {
                        v.push(("rfn", J::s(path(tcx, rd))));
                        v.push(("rn", J::s(nice(tcx, rd))));
                    }
                }
            }
        }
        v
    }

    fn constant(&self, c: &Const<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let mut v: Vec<(&'static str, J)> = vec![("k", J::s("const")), ("ty", J::s(tystr(t)))];
        if let ty::FnDef(d, args) = t.kind() {
            v.extend(self.fnref(*d, args.skip_binder()));
            return J::O(v);
        }
        if let ty::Closure(d, _) = t.kind() {
            v.push(("closure", J::s(path(tcx, *d))));
        }
        if let Const::Unevaluated(u, _) = c {
            v.push(("def", J::s(nice(tcx, u.def))));
            v.push(("did", J::s(path(tcx, u.def))));
            if let Some(p) = u.promoted {
                v.push(("promoted", J::I(p.as_u32() as i128)));
                v.push(("pfn", J::s(path(tcx, u.def))));
            } else {
                v.push(("ga", J::A(u.args.iter().map(|a| J::s(format!("{a}"))).collect())));
            }
        }
        if let Const::Ty(_, k) = c {
            v.push(("cty", J::s(format!("{k}"))));
        }
        let has_param = {
            use rustc_middle::ty::TypeVisitableExt;
            c.has_param() || c.has_escaping_bound_vars()
        };
        if !has_param || matches!(c, Const::Val(..)) {
            if t.is_integral() || t.is_bool() || t.is_char() || t.is_floating_point() {
                if let Some(si) = c.try_eval_scalar_int(tcx, self.env) {
                    let bits = si.to_bits_unchecked();
                    let size = si.size();
                    match t.kind() {
                        ty::Float(ty::FloatTy::F32) => {
                            v.push(("val", J::s(format!("{:?}", f32::from_bits(bits as u32)))))
                        }
                        ty::Float(ty::FloatTy::F64) => {
                            v.push(("val", J::s(format!("{:?}", f64::from_bits(bits as u64)))))
                        }
                        ty::Int(_) => v.push(("val", J::I(size.sign_extend(bits) as i128))),
                        _ => v.push(("val", J::I(bits as i128))),
                    }
                }
            }
        }
        v.push(("s", J::s(ty::print::with_no_trimmed_paths!(format!("{c}")))));
        J::O(v)
    }

    fn operand(&self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("k", J::s("copy")), ("p", self.place(p))]),
            Operand::Move(p) => J::O(vec![("k", J::s("move")), ("p", self.place(p))]),
            Operand::Constant(c) => self.constant(&c.const_),
            Operand::RuntimeChecks(r) => J::O(vec![("k", J::s("rtcheck")), ("s", J::s(format!("{r:?}")))]),
        }
    }

    fn rvalue(&self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => J::O(vec![("k", J::s("use")), ("o", self.operand(o))]),
            Rvalue::Repeat(o, n) => J::O(vec![
                ("k", J::s("repeat")),
                ("o", self.operand(o)),
                ("n", J::s(format!("{n}"))),
            ]),
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", J::s("ref")),
                ("m", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(p)),
            ]),
            Rvalue::Reborrow(_, m, p) => J::O(vec![
                ("k", J::s("reborrow")),
                ("m", J::B(m.is_mut())),
                ("p", self.place(p)),
            ]),
            Rvalue::RawPtr(_, p) => J::O(vec![("k", J::s("rawptr")), ("p", self.place(p))]),
            Rvalue::Cast(ck, o, t) => J::O(vec![
                ("k", J::s("cast")),
                (
                    "c",
                    J::s(match ck {
                        CastKind::PointerCoercion(pc, _) => format!("coerce:{pc:?}"),
                        _ => format!("{ck:?}"),
                    }),
                ),
                ("o", self.operand(o)),
                ("from", J::s(tystr(o.ty(self.body, tcx)))),
                ("to", J::s(tystr(*t))),
            ]),
            Rvalue::BinaryOp(op, b) => J::O(vec![
                ("k", J::s("bin")),
                ("op", J::s(format!("{op:?}"))),
                ("a", self.operand(&b.0)),
                ("b", self.operand(&b.1)),
                ("ty", J::s(tystr(b.0.ty(self.body, tcx)))),
            ]),
            Rvalue::UnaryOp(op, o) => J::O(vec![
                ("k", J::s("un")),
                ("op", J::s(format!("{op:?}"))),
                ("o", self.operand(o)),
            ]),
            Rvalue::Discriminant(p) => J::O(vec![("k", J::s("discr")), ("p", self.place(p)), ("ty", J::s(tystr(p.ty(self.body, tcx).ty)))]),
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", J::s("use")),
                ("o", J::O(vec![("k", J::s("copy")), ("p", self.place(p))])),
            ]),
            Rvalue::Aggregate(ak, ops) => {
                let mut v: Vec<(&'static str, J)> = vec![("k", J::s("agg"))];
                match &**ak {
                    AggregateKind::Array(_) => v.push(("a", J::s("array"))),
                    AggregateKind::Tuple => v.push(("a", J::s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, _) => {
                        let ad = tcx.adt_def(*d);
                        let vd = ad.variant(*vi);
                        v.push(("a", J::s("adt")));
                        v.push(("adt", J::s(nice(tcx, *d))));
                        v.push(("enum", J::B(ad.is_enum())));
                        v.push(("v", J::s(vd.name.to_string())));
                        v.push(("vi", J::I(vi.as_u32() as i128)));
                        v.push((
                            "fs",
                            J::A(vd.fields.iter().map(|f| J::s(f.name.to_string())).collect()),
                        ));
                    }
                    AggregateKind::Closure(d, _) => {
                        v.push(("a", J::s("closure")));
                        v.push(("closure", J::s(path(tcx, *d))));
                        v.push((
                            "fs",
                            J::A(tcx
                                .closure_saved_names_of_captured_variables(*d)
                                .iter()
                                .map(|s| J::s(s.to_string()))
                                .collect()),
                        ));
                    }
                    o => v.push(("a", J::s(format!("{o:?}")))),
                }
                v.push(("ops", J::A(ops.iter().map(|o| self.operand(o)).collect())));
                J::O(v)
            }
            o => J::O(vec![("k", J::s("other")), ("s", J::s(format!("{o:?}")))]),
        }
    }

    fn body_json(&self) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let body = self.body;
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        let mut upv = vec![];
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(vdi.name.to_string());
                } else {
                    upv.push(J::A(vec![J::s(vdi.name.to_string()), self.place(p)]));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let mut v = vec![("ty", J::s(tystr(d.ty)))];
                if let Some(n) = &names[l.as_usize()] {
                    v.push(("n", J::s(n.clone())));
                }
                if d.mutability.is_mut() {
                    v.push(("mut", J::B(true)));
                }
                if let ty::Closure(d, _) = d.ty.peel_refs().kind() {
                    v.push(("cl", J::s(path(tcx, *d))));
                }
                J::O(v)
            })
            .collect();
        let mut blocks = vec![];
        for (_bb, bd) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for s in &bd.statements {
                let line = span(tcx, s.source_info.span);
                match &s.kind {
                    StatementKind::Assign(b) => st.push(J::O(vec![
                        ("k", J::s("=")),
                        ("p", self.place(&b.0)),
                        ("r", self.rvalue(&b.1)),
                        ("s", line),
                    ])),
                    StatementKind::SetDiscriminant { place, variant_index } => st.push(J::O(vec![
                        ("k", J::s("setd")),
                        ("p", self.place(place)),
                        ("v", J::I(variant_index.as_u32() as i128)),
                        ("s", line),
                    ])),
                    StatementKind::StorageDead(l) => st.push(J::O(vec![
                        ("k", J::s("dead")),
                        ("l", J::I(l.as_u32() as i128)),
                    ])),
                    StatementKind::StorageLive(l) => st.push(J::O(vec![
                        ("k", J::s("live")),
                        ("l", J::I(l.as_u32() as i128)),
                    ])),
                    _ => {}
                }
            }
            let t = bd.terminator();
            let bbj = |b: mir::BasicBlock| J::I(b.as_u32() as i128);
            let mut tj: Vec<(&'static str, J)> = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("k", J::s("goto")), ("t", bbj(*target))],
                TerminatorKind::SwitchInt { discr, targets } => vec![
                    ("k", J::s("switch")),
                    ("o", self.operand(discr)),
                    ("ty", J::s(tystr(discr.ty(body, tcx)))),
                    (
                        "ts",
                        J::A(targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbj(b)])).collect()),
                    ),
                    ("e", bbj(targets.otherwise())),
                ],
                TerminatorKind::Return => vec![("k", J::s("return"))],
                TerminatorKind::Unreachable => vec![("k", J::s("unreachable"))],
                TerminatorKind::Drop { place, target, .. } => {
                    vec![("k", J::s("drop")), ("p", self.place(place)), ("t", bbj(*target)),
                         ("ty", J::s(tystr(place.ty(body, tcx).ty)))]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut v = vec![("k", J::s("call"))];
                    v.push(("f", self.operand(func)));
                    v.push(("args", J::A(args.iter().map(|a| self.operand(&a.node)).collect())));
                    v.push(("d", self.place(destination)));
                    v.push(("dt", J::s(tystr(destination.ty(body, tcx).ty))));
                    v.push(("at", J::A(args.iter().map(|a| J::s(tystr(a.node.ty(body, tcx)))).collect())));
                    if let Some(t) = target {
                        v.push(("t", bbj(*t)));
                    }
                    if let mir::UnwindAction::Cleanup(b) = unwind {
                        v.push(("u", bbj(*b)));
                    }
                    v
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let mut v = vec![
                        ("k", J::s("assert")),
                        ("o", self.operand(cond)),
                        ("e", J::B(*expected)),
                        ("t", bbj(*target)),
                    ];
                    match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            v.push(("m", J::s("bounds")));
                            v.push(("a", self.operand(len)));
                            v.push(("b", self.operand(index)));
                        }
                        AssertKind::Overflow(op, a, b) => {
                            v.push(("m", J::s(format!("overflow:{op:?}"))));
                            v.push(("a", self.operand(a)));
                            v.push(("b", self.operand(b)));
                        }
                        AssertKind::DivisionByZero(a) => {
                            v.push(("m", J::s("div0")));
                            v.push(("a", self.operand(a)));
                        }
                        AssertKind::RemainderByZero(a) => {
                            v.push(("m", J::s("rem0")));
                            v.push(("a", self.operand(a)));
                        }
                        o => v.push(("m", J::s(format!("{o:?}")))),
                    }
                    v
                }
                o => vec![("k", J::s("other")), ("s", J::s(format!("{o:?}")))],
            };
            tj.push(("s", span(tcx, t.source_info.span)));
            let mut bj = vec![("st", J::A(st)), ("t", J::O(tj))];
            if bd.is_cleanup {
                bj.push(("c", J::B(true)));
            }
            blocks.push(J::O(bj));
        }
        vec![
            ("argc", J::I(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("upv", J::A(upv)),
            ("blocks", J::A(blocks)),
        ]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut fns = vec![];
    for ld in tcx.hir_body_owners() {
        let ld: LocalDefId = ld;
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. });
        if !is_fn && !is_const {
            continue;
        }
        let mut v = vec![
            ("id", J::s(path(tcx, d))),
            ("n", J::s(nice(tcx, d))),
            ("kind", J::s(format!("{kind:?}"))),
            ("s", span(tcx, tcx.def_span(d))),
        ];
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
            v.push(("vis", J::s(format!("{:?}", tcx.visibility(d)))));
        }
        if matches!(kind, DefKind::Closure) {
            v.push(("parent", J::s(path(tcx, tcx.typeck_root_def_id(d)))));
            v.push(("lex", J::s(path(tcx, tcx.parent(d)))));
        }
        v.push(("sp", J::s(format!("{:?}", tcx.def_span(d).from_expansion()))));
        if let Some(imp) = tcx.impl_of_assoc(d) {
            v.push(("impl", J::s(path(tcx, imp))));
            v.push(("iself", J::s(tystr(tcx.type_of(imp).instantiate_identity().skip_norm_wip()))));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                v.push(("itrait", J::s(nice(tcx, tr.def_id))));
                v.push(("itref", J::s(ty::print::with_no_trimmed_paths!(format!("{tr}")))));
            }
            if let Some(ti) = tcx.trait_item_of(d) {
                v.push(("titem", J::s(path(tcx, ti))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("deftrait", J::s(nice(tcx, tr))));
        }
        let env = TypingEnv::post_analysis(tcx, d);
        if is_fn {
            if tcx.is_coroutine(d) { continue; }
            let body = tcx.optimized_mir(d);
            v.extend(Cx { tcx, body, env }.body_json());
            let proms = tcx.promoted_mir(d);
            let pj: Vec<J> = proms
                .iter()
                .map(|b| J::O(Cx { tcx, body: b, env }.body_json()))
                .collect();
            if !pj.is_empty() {
                v.push(("prom", J::A(pj)));
            }
        } else {
            let body = tcx.mir_for_ctfe(d);
            v.extend(Cx { tcx, body, env }.body_json());
            let proms = tcx.promoted_mir(d);
            let pj: Vec<J> = proms
                .iter()
                .map(|b| J::O(Cx { tcx, body: b, env }.body_json()))
                .collect();
            if !pj.is_empty() {
                v.push(("prom", J::A(pj)));
            }
        }
        fns.push(J::O(v));
    }
    // items
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let d = id.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let ad = tcx.adt_def(d);
                let vs = ad
                    .variants()
                    .iter_enumerated()
                    .map(|(vi, vd)| {
                        let discr = if ad.is_enum() { ad.discriminant_for_variant(tcx, vi).val as i128 } else { 0 };
                        J::O(vec![
                            ("n", J::s(vd.name.to_string())),
                            ("d", J::I(discr)),
                            (
                                "f",
                                J::A(vd
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        J::O(vec![
                                            ("n", J::s(f.name.to_string())),
                                            ("ty", J::s(tystr(tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
                                            ("vis", J::s(format!("{:?}", f.vis))),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                adts.push(J::O(vec![
                    ("n", J::s(nice(tcx, d))),
                    ("id", J::s(path(tcx, d))),
                    ("enum", J::B(ad.is_enum())),
                    ("vis", J::s(format!("{:?}", tcx.visibility(d)))),
                    ("s", span(tcx, tcx.def_span(d))),
                    ("vs", J::A(vs)),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let mut v = vec![
                    ("id", J::s(path(tcx, d))),
                    ("self", J::s(tystr(tcx.type_of(d).instantiate_identity().skip_norm_wip()))),
                    ("s", span(tcx, tcx.def_span(d))),
                ];
                if of_trait {
                    let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                    v.push(("trait", J::s(nice(tcx, tr.def_id))));
                    v.push(("tref", J::s(ty::print::with_no_trimmed_paths!(format!("{tr}")))));
                }
                v.push((
                    "items",
                    J::A(tcx.associated_item_def_ids(d).iter().map(|d| J::s(path(tcx, *d))).collect()),
                ));
                impls.push(J::O(v));
            }
            DefKind::Trait => {
                traits.push(J::O(vec![
                    ("n", J::s(nice(tcx, d))),
                    (
                        "items",
                        J::A(tcx
                            .associated_item_def_ids(d)
                            .iter()
                            .map(|i| {
                                J::A(vec![J::s(path(tcx, *i)), J::B(tcx.defaultness(*i).has_value())])
                            })
                            .collect()),
                    ),
                ]));
            }
            _ => {}
        }
    }
    let doc = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("fns", J::A(fns)),
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
    ]);
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let suffix = if tcx.sess.opts.test { "-test" } else { "" };
    let f = format!("{out}/{name}{suffix}.json");
    let mut s = String::new();
    doc.write(&mut s);
    std::fs::write(&f, s).expect("write dump");
}

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("SRDUMP_OUT") {
            dump(tcx, &out);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv = [wrapper, rustc, args...]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("clippy-driver")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
