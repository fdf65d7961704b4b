use crate::json::J;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt};
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv, TypeVisitableExt,
};
use rustc_span::Span;
use std::collections::HashMap;

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    ty_ids: HashMap<(Ty<'tcx>, Option<DefId>), usize>,
    bodies: Vec<J>,
    inst_ids: HashMap<(DefId, Instance<'tcx>), usize>,
    queue: Vec<(usize, DefId, Instance<'tcx>)>,
    const_ids: HashMap<(DefId, Instance<'tcx>, Option<Promoted>), usize>,
    const_queue: Vec<(usize, Instance<'tcx>, Option<Promoted>)>,
    stop: Vec<String>,
    allow: Vec<String>,
    env: TypingEnv<'tcx>,
    root: DefId,
}

pub fn path<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let s = with_no_trimmed_paths!(tcx.def_path_str(d));
    if d.is_local() && !s.starts_with('<') {
        format!("{}::{}", tcx.crate_name(LOCAL_CRATE), s)
    } else {
        s
    }
}

/// Path made of crate and definition names only: `crate::module::Type::method`; for items in impl
/// blocks the self type (and trait) are spelled with their own definition path.
pub fn def_key<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let kind = tcx.def_kind(d);
    if let Some(p) = tcx.opt_parent(d) {
        if matches!(tcx.def_kind(p), DefKind::Impl { .. }) && !matches!(kind, DefKind::Closure) {
            let self_ty = tcx.type_of(p).instantiate_identity().skip_norm_wip();
            let st = ty_head(tcx, self_ty);
            let name = tcx.item_name(d);
            return match tcx.impl_opt_trait_ref(p) {
                Some(t) => {
                    let t = t.instantiate_identity().skip_norm_wip();
                    format!("<{} as {}>::{}", st, simple(tcx, t.def_id), name)
                }
                None => format!("{}::{}", st, name),
            };
        }
        if matches!(kind, DefKind::Closure) {
            return format!("{}::{{closure}}", def_key(tcx, p));
        }
    }
    simple(tcx, d)
}

fn simple<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> String {
    let mut s = tcx.crate_name(d.krate).to_string();
    let dp = tcx.def_path(d);
    for e in dp.data.iter() {
        let mut o = String::new();
        use std::fmt::Write;
        write!(o, "{}", e.data).unwrap();
        s.push_str("::");
        s.push_str(&o);
    }
    s
}

fn ty_head<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(a, args) => {
            let mut s = simple(tcx, a.did());
            // Distinguish impls of local traits for e.g. Option<&T> and Option<&mut T>.
            let inner: Vec<String> = args
                .types()
                .filter(|t| matches!(t.kind(), ty::Ref(..)))
                .map(|t| ty_head(tcx, t))
                .collect();
            if !inner.is_empty() {
                s = format!("{}<{}>", s, inner.join(","));
            }
            s
        }
        ty::Ref(_, t, m) => format!("&{}{}", m.prefix_str(), ty_head(tcx, *t)),
        ty::RawPtr(t, m) => format!("*{} {}", m.ptr_str(), ty_head(tcx, *t)),
        ty::Slice(t) => format!("[{}]", ty_head(tcx, *t)),
        ty::Array(t, _) => format!("[{};_]", ty_head(tcx, *t)),
        ty::Tuple(l) => format!("({})", l.len()),
        _ => with_no_trimmed_paths!(t.to_string()),
    }
}

pub fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str, argv: &[String]) {
    let cfg = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let text = if cfg.is_empty() { String::new() } else { std::fs::read_to_string(&cfg).unwrap() };
    let mut stop = vec![];
    let mut allow = vec![];
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if let Some(a) = l.strip_prefix('+') {
            allow.push(a.trim().to_string());
        } else {
            stop.push(l.to_string());
        }
    }
    let mut cx = Cx {
        tcx,
        types: vec![],
        ty_ids: HashMap::new(),
        bodies: vec![],
        inst_ids: HashMap::new(),
        queue: vec![],
        const_ids: HashMap::new(),
        const_queue: vec![],
        stop,
        allow,
        env: TypingEnv::fully_monomorphized(),
        root: LOCAL_CRATE.as_def_id(),
    };
    let mut roots = vec![];
    for ldid in tcx.hir_body_owners() {
        let d = ldid.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            continue;
        }
        cx.root = d;
        cx.env = TypingEnv::post_analysis(tcx, d);
        let args = ty::GenericArgs::identity_for_item(tcx, d);
        let inst = Instance { def: InstanceKind::Item(d), args };
        let id = cx.inst(inst);
        cx.run();
        let parent = tcx.parent(d);
        let mut o = vec![
            ("path", J::s(path(tcx, d))),
            ("key", J::s(def_key(tcx, d))),
            ("name", J::s(tcx.item_name(d).to_string())),
            ("inst", J::u(id)),
            ("vis", J::s(format!("{:?}", tcx.visibility(d)))),
            ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(ldid))),
            ("span", cx.span(tcx.def_span(d))),
            ("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())),
        ];
        let sig = tcx.fn_sig(d).instantiate_identity().skip_norm_wip();
        o.push(("sig", J::s(with_no_trimmed_paths!(sig.to_string()))));
        if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
            let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
            o.push(("impl_ty", J::s(with_no_trimmed_paths!(st.to_string()))));
            let st = cx.ty(st);
            o.push(("self_ty", J::u(st)));
            if let Some(t) = tcx.impl_opt_trait_ref(parent) {
                let t = t.instantiate_identity().skip_norm_wip();
                o.push(("trait", J::s(with_no_trimmed_paths!(t.print_only_trait_path().to_string()))));
            }
        } else if matches!(tcx.def_kind(parent), DefKind::Trait { .. }) {
            o.push(("trait_default", J::s(path(tcx, parent))));
        }
        roots.push(J::O(o));
    }
    // Items: impls (for Send/Sync/Clone/Drop/unsafe trait rules), ADTs and traits.
    let mut items = vec![];
    for ldid in tcx.hir_crate_items(()).definitions() {
        let d = ldid.to_def_id();
        match tcx.def_kind(d) {
            DefKind::Impl { .. } => {
                cx.root = d;
                cx.env = TypingEnv::post_analysis(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sid = cx.ty(st);
                let mut o = vec![
                    ("k", J::s("impl")),
                    ("self", J::s(with_no_trimmed_paths!(st.to_string()))),
                    ("self_ty", J::u(sid)),
                    ("span", cx.span(tcx.def_span(d))),
                    ("preds", preds(tcx, d)),
                ];
                if let Some(t) = tcx.impl_opt_trait_ref(d) {
                    let h = tcx.impl_trait_header(d);
                    let t = t.instantiate_identity().skip_norm_wip();
                    o.push(("trait", J::s(with_no_trimmed_paths!(t.print_only_trait_path().to_string()))));
                    o.push(("trait_key", J::s(simple(tcx, t.def_id))));
                    o.push(("unsafe", J::B(h.safety.is_unsafe())));
                    o.push(("polarity", J::s(format!("{:?}", h.polarity))));
                    let mut assoc = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Type { .. }) {
                            let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                            assoc.push(J::A(vec![
                                J::s(it.name().to_string()),
                                J::s(with_no_trimmed_paths!(t.to_string())),
                            ]));
                        }
                    }
                    o.push(("assoc_types", J::A(assoc)));
                }
                items.push(J::O(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.root = d;
                cx.env = TypingEnv::post_analysis(tcx, d);
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let sid = cx.ty(st);
                let adt = tcx.adt_def(d);
                let mut fields = vec![];
                for v in adt.variants() {
                    for f in v.fields.iter() {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fields.push(J::A(vec![
                            J::s(v.name.to_string()),
                            J::s(f.name.to_string()),
                            J::s(with_no_trimmed_paths!(ft.to_string())),
                            J::s(format!("{:?}", f.vis)),
                        ]));
                    }
                }
                items.push(J::O(vec![
                    ("k", J::s("adt")),
                    ("path", J::s(path(tcx, d))),
                    ("key", J::s(simple(tcx, d))),
                    ("ty", J::u(sid)),
                    ("fields", J::A(fields)),
                    ("repr", J::s(format!("{:?}", adt.repr()))),
                    ("reachable", J::B(tcx.effective_visibilities(()).is_reachable(ldid))),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Trait { .. } => {
                let mut assoc = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let mut bounds = vec![];
                    if matches!(it.kind, ty::AssocKind::Type { .. }) {
                        for b in tcx.explicit_item_bounds(it.def_id).iter_identity_copied() {
                            let (c, _) = b.skip_norm_wip();
                            bounds.push(J::s(with_no_trimmed_paths!(c.to_string())));
                        }
                    }
                    assoc.push(J::A(vec![J::s(it.opt_name().map(|n| n.to_string()).unwrap_or_default()), J::A(bounds)]));
                }
                items.push(J::O(vec![
                    ("k", J::s("trait")),
                    ("path", J::s(path(tcx, d))),
                    ("key", J::s(simple(tcx, d))),
                    ("unsafe", J::B(tcx.trait_def(d).safety.is_unsafe())),
                    ("preds", preds(tcx, d)),
                    ("assoc", J::A(assoc)),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Static { .. } => {
                items.push(J::O(vec![
                    ("k", J::s("static")),
                    ("path", J::s(path(tcx, d))),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                cx.root = d;
                cx.env = TypingEnv::post_analysis(tcx, d);
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let tid = cx.ty(t);
                let v = if tcx.generics_of(d).is_empty() {
                    match tcx.const_eval_poly(d) {
                        Ok(v) => cx.const_value(v, t, 0),
                        Err(_) => J::N,
                    }
                } else {
                    J::N
                };
                let _ = tid;
                items.push(J::O(vec![
                    ("k", J::s("const")),
                    ("path", J::s(path(tcx, d))),
                    ("key", J::s(def_key(tcx, d))),
                    ("value", v),
                    ("span", cx.span(tcx.def_span(d))),
                ]));
                // Associated constants that are generic are dumped as bodies.
                if !tcx.generics_of(d).is_empty()
                    && tcx.hir_maybe_body_owned_by(ldid).is_some()
                {
                    let args = ty::GenericArgs::identity_for_item(tcx, d);
                    let id = cx.next_id();
                    let inst = Instance { def: InstanceKind::Item(d), args };
                    cx.inst_ids.insert((d, inst), id);
                    let body = tcx.mir_for_ctfe(d);
                    let j = cx.body(id, inst, body);
                    cx.bodies[id] = j;
                    let parent = tcx.parent(d);
                    let st = if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                        with_no_trimmed_paths!(tcx.type_of(parent).instantiate_identity().skip_norm_wip().to_string())
                    } else {
                        String::new()
                    };
                    cx.run();
                    items.push(J::O(vec![
                        ("k", J::s("constbody")),
                        ("path", J::s(path(tcx, d))),
                        ("key", J::s(def_key(tcx, d))),
                        ("impl_ty", J::s(st)),
                        ("inst", J::u(id)),
                        ("span", cx.span(tcx.def_span(d))),
                    ]));
                }
            }
            _ => {}
        }
    }
    let mut feats = vec![];
    for (n, v) in tcx.sess.config.iter() {
        if n.as_str() == "feature" {
            if let Some(v) = v {
                feats.push(J::s(v.to_string()));
            }
        }
    }
    let j = J::O(vec![
        ("crate", J::s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("features", J::A(feats)),
        ("args", J::A(argv.iter().map(|a| J::s(a.clone())).collect())),
        ("roots", J::A(roots)),
        ("items", J::A(items)),
        ("bodies", J::A(std::mem::take(&mut cx.bodies))),
        ("types", J::A(std::mem::take(&mut cx.types))),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).unwrap();
}

fn preds<'tcx>(tcx: TyCtxt<'tcx>, d: DefId) -> J {
    let p = tcx.clauses_of(d).instantiate_identity(tcx);
    J::A(p.clauses
        .into_iter()
        .map(|c| J::s(with_no_trimmed_paths!(c.skip_norm_wip().to_string())))
        .collect())
}

impl<'tcx> Cx<'tcx> {
    fn next_id(&mut self) -> usize {
        self.bodies.push(J::N);
        self.bodies.len() - 1
    }

    fn span(&self, s: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let s = s.source_callsite();
        let lo = sm.lookup_char_pos(s.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn line(&self, s: Span) -> J {
        // For macro-generated code keep the position inside the macro definition.
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        J::s(format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }

    fn inst(&mut self, inst: Instance<'tcx>) -> usize {
        let k = (self.root, inst);
        if let Some(i) = self.inst_ids.get(&k) {
            return *i;
        }
        let id = self.next_id();
        self.inst_ids.insert(k, id);
        self.queue.push((id, self.root, inst));
        id
    }

    /// Body that computes a constant of the crate which depends on type parameters.
    fn const_body(&mut self, u: mir::UnevaluatedConst<'tcx>) -> Option<usize> {
        let inst = match Instance::try_resolve(self.tcx, self.env, u.def, u.args) {
            Ok(Some(i)) if u.promoted.is_none() => i,
            _ if u.promoted.is_some() => Instance { def: InstanceKind::Item(u.def), args: u.args },
            _ => return None,
        };
        if !inst.def_id().is_local() || !matches!(inst.def, InstanceKind::Item(_)) {
            return None;
        }
        if u.promoted.is_none() && self.tcx.hir_maybe_body_owned_by(inst.def_id().expect_local()).is_none() {
            return None;
        }
        let k = (self.root, inst, u.promoted);
        if let Some(i) = self.const_ids.get(&k) {
            return Some(*i);
        }
        let id = self.next_id();
        self.const_ids.insert(k, id);
        self.const_queue.push((id, inst, u.promoted));
        Some(id)
    }

    fn run(&mut self) {
        self.run_fns();
        while let Some((id, inst, p)) = self.const_queue.pop() {
            let d = inst.def_id();
            let body = match p {
                Some(p) => self.tcx.promoted_mir(d)[p].clone(),
                None => self.tcx.mir_for_ctfe(d).clone(),
            };
            let b = inst.try_instantiate_mir_and_normalize_erasing_regions(
                self.tcx,
                self.env,
                EarlyBinder::bind(self.tcx, body),
            );
            let j = match b {
                Ok(b) => self.body(id, inst, &b),
                Err(_) => J::O(vec![("error", J::s("normalize"))]),
            };
            self.bodies[id] = j;
            self.run_fns();
        }
    }

    fn run_fns(&mut self) {
        while let Some((id, _root, inst)) = self.queue.pop() {
            let body = self.tcx.instance_mir(inst.def);
            let b = inst.try_instantiate_mir_and_normalize_erasing_regions(
                self.tcx,
                self.env,
                EarlyBinder::bind(self.tcx, body.clone()),
            );
            let j = match b {
                Ok(b) => self.body(id, inst, &b),
                Err(_) => J::O(vec![("error", J::s("normalize"))]),
            };
            self.bodies[id] = j;
        }
    }

    fn body(&mut self, _id: usize, inst: Instance<'tcx>, b: &Body<'tcx>) -> J {
        let d = inst.def_id();
        let mut locals = vec![];
        for l in b.local_decls.iter() {
            let t = self.ty(l.ty);
            locals.push(J::u(t));
        }
        let mut blocks = vec![];
        for bb in b.basic_blocks.iter() {
            if bb.is_cleanup {
                blocks.push(J::O(vec![("cleanup", J::B(true)), ("s", J::A(vec![])), ("t", self.term(b, bb.terminator()))]));
                continue;
            }
            let mut st = vec![];
            for s in &bb.statements {
                if let Some(x) = self.stmt(b, s) {
                    st.push(x);
                }
            }
            blocks.push(J::O(vec![("s", J::A(st)), ("t", self.term(b, bb.terminator()))]));
        }
        let args: Vec<J> = inst
            .args
            .iter()
            .map(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => J::u(self.ty(t)),
                other => J::s(format!("{:?}", other)),
            })
            .collect();
        J::O(vec![
            ("path", J::s(path(self.tcx, d))),
            ("key", J::s(def_key(self.tcx, d))),
            ("span", self.span(self.tcx.def_span(d))),
            ("local", J::B(d.is_local())),
            ("shim", J::s(match inst.def { InstanceKind::Shim(s) => format!("{:?}", s), _ => String::new() })),
            ("gargs", J::A(args)),
            ("argc", J::u(b.arg_count)),
            ("spread", match b.spread_arg { Some(l) => J::u(l.as_usize()), None => J::N }),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            ("names", J::A(b.var_debug_info.iter().filter_map(|v| match v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => Some(J::A(vec![J::u(p.local.as_usize()), J::s(v.name.to_string())])),
                _ => None,
            }).collect())),
        ])
    }

    fn stmt(&mut self, b: &Body<'tcx>, s: &Statement<'tcx>) -> Option<J> {
        let ln = self.line(s.source_info.span);
        match &s.kind {
            StatementKind::Assign(x) => {
                let (p, r) = &**x;
                let pj = self.place(b, p);
                let rj = self.rvalue(b, r);
                Some(J::A(vec![J::s("="), pj, rj, ln]))
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                let pj = self.place(b, place);
                Some(J::A(vec![J::s("setdiscr"), pj, J::u(variant_index.as_usize()), ln]))
            }
            StatementKind::Intrinsic(i) => match &**i {
                NonDivergingIntrinsic::Assume(_) => None,
                NonDivergingIntrinsic::CopyNonOverlapping(c) => {
                    let a = self.operand(b, &c.src);
                    let d = self.operand(b, &c.dst);
                    let n = self.operand(b, &c.count);
                    Some(J::A(vec![J::s("copy"), a, d, n, ln]))
                }
            },
            _ => None,
        }
    }

    fn unwind(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::u(b.as_usize()),
            _ => J::N,
        }
    }

    fn term(&mut self, b: &Body<'tcx>, t: &Terminator<'tcx>) -> J {
        let ln = self.line(t.source_info.span);
        let v = match &t.kind {
            TerminatorKind::Goto { target, .. } => vec![J::s("goto"), J::u(target.as_usize())],
            TerminatorKind::FalseEdge { real_target, .. } => vec![J::s("goto"), J::u(real_target.as_usize())],
            TerminatorKind::FalseUnwind { real_target, .. } => vec![J::s("goto"), J::u(real_target.as_usize())],
            TerminatorKind::SwitchInt { discr, targets } => {
                let dty = discr.ty(b, self.tcx);
                let d = self.operand(b, discr);
                let dt = self.ty(dty);
                let tv = targets
                    .iter()
                    .map(|(v, t)| J::A(vec![J::U(v), J::u(t.as_usize())]))
                    .collect();
                vec![J::s("switch"), d, J::A(tv), J::u(targets.otherwise().as_usize()), J::u(dt)]
            }
            TerminatorKind::Return => vec![J::s("return")],
            TerminatorKind::Unreachable => vec![J::s("unreachable")],
            TerminatorKind::UnwindResume => vec![J::s("resume")],
            TerminatorKind::UnwindTerminate(_) => vec![J::s("terminate")],
            TerminatorKind::Drop { place, target, unwind, .. } => {
                let ty = place.ty(b, self.tcx).ty;
                let p = self.place(b, place);
                let tid = self.ty(ty);
                let nd = ty.needs_drop(self.tcx, self.env);
                vec![J::s("drop"), p, J::u(tid), J::B(nd), J::u(target.as_usize()), self.unwind(unwind)]
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                let f = self.operand(b, func);
                let a = args.iter().map(|a| self.operand(b, &a.node)).collect();
                let at = args
                    .iter()
                    .map(|a| {
                        let t = a.node.ty(b, self.tcx);
                        J::u(self.ty(t))
                    })
                    .collect();
                let d = self.place(b, destination);
                let dt = destination.ty(b, self.tcx).ty;
                let dt = self.ty(dt);
                vec![
                    J::s("call"),
                    f,
                    J::A(a),
                    d,
                    match target {
                        Some(t) => J::u(t.as_usize()),
                        None => J::N,
                    },
                    self.unwind(unwind),
                    J::A(at),
                    J::u(dt),
                ]
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                let c = self.operand(b, cond);
                let m = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        let l = self.operand(b, len);
                        let i = self.operand(b, index);
                        J::A(vec![J::s("bounds"), l, i])
                    }
                    AssertKind::Overflow(op, ..) => J::A(vec![J::s("overflow"), J::s(format!("{:?}", op))]),
                    AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference => J::A(vec![J::s("pointer")]),
                    m => J::A(vec![J::s("other"), J::s(format!("{:?}", std::mem::discriminant(m)))]),
                };
                vec![J::s("assert"), c, J::B(*expected), m, J::u(target.as_usize()), self.unwind(unwind)]
            }
            k => vec![J::s("unsupported"), J::s(format!("{:?}", std::mem::discriminant(k)))],
        };
        let mut v = v;
        v.push(ln);
        J::A(v)
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for (base, e) in p.iter_projections() {
            pr.push(match e {
                ProjectionElem::Deref => {
                    let t = base.ty(b, self.tcx).ty;
                    let bx = t.is_box();
                    if bx {
                        J::s("*box")
                    } else {
                        J::s("*")
                    }
                }
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::A(vec![J::s("f"), J::u(f.as_usize()), J::u(t)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::u(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![J::s("ci"), J::U(offset as u128), J::U(min_length as u128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![J::s("ss"), J::U(from as u128), J::U(to as u128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, v) => J::A(vec![
                    J::s("d"),
                    J::u(v.as_usize()),
                    J::s(n.map(|n| n.to_string()).unwrap_or_default()),
                ]),
                _ => J::s("~"),
            });
        }
        if pr.is_empty() {
            return J::u(p.local.as_usize());
        }
        J::A(vec![J::u(p.local.as_usize()), J::A(pr)])
    }

    fn operand(&mut self, b: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(b, p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(b, p)]),
            Operand::Constant(c) => J::A(vec![J::s("k"), self.constant(c.const_, c.span)]),
            Operand::RuntimeChecks(r) => J::A(vec![J::s("rtc"), J::s(format!("{:?}", r))]),
        }
    }

    fn rvalue(&mut self, b: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        J::A(match r {
            Rvalue::Use(o, ..) => vec![J::s("use"), self.operand(b, o)],
            Rvalue::CopyForDeref(p) => vec![J::s("use"), J::A(vec![J::s("c"), self.place(b, p)])],
            Rvalue::Repeat(o, n) => {
                let o = self.operand(b, o);
                vec![J::s("repeat"), o, J::s(n.to_string())]
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Mut { .. } => "mut",
                    _ => "shared",
                };
                vec![J::s("ref"), J::s(m), self.place(b, p)]
            }
            Rvalue::Reborrow(_, m, p) => {
                // Reborrow through a place holding a reference-like value.
                vec![J::s("use"), J::A(vec![J::s("c"), self.place(b, p)]), J::s(format!("{:?}", m))]
            }
            Rvalue::RawPtr(k, p) => {
                let m = match k {
                    RawPtrKind::Mut => "mut",
                    RawPtrKind::Const => "const",
                    RawPtrKind::FakeForPtrMetadata => "meta",
                };
                vec![J::s("addr"), J::s(m), self.place(b, p)]
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(b, self.tcx);
                let f = self.ty(from);
                let oj = self.operand(b, o);
                let tid = self.ty(*t);
                let mut v = vec![J::s("cast"), J::s(format!("{:?}", k)), oj, J::u(f), J::u(tid)];
                // Reified functions: resolve the callee.
                if let CastKind::PointerCoercion(..) = k {
                    if let ty::FnDef(d, a) = from.kind() {
                        v.push(self.callee(*d, a.skip_binder()));
                    } else if let ty::Closure(d, a) = from.kind() {
                        let inst = Instance::resolve_closure(self.tcx, *d, a, ty::ClosureKind::FnOnce);
                        let id = self.inst(inst);
                        v.push(J::O(vec![("def", J::s(path(self.tcx, *d))), ("inst", J::u(id))]));
                    }
                }
                v
            }
            Rvalue::BinaryOp(op, x) => {
                let ty = x.0.ty(b, self.tcx);
                let a = self.operand(b, &x.0);
                let c = self.operand(b, &x.1);
                let t = self.ty(ty);
                vec![J::s("bin"), J::s(format!("{:?}", op)), a, c, J::u(t)]
            }
            Rvalue::UnaryOp(op, x) => {
                let ty = x.ty(b, self.tcx);
                let a = self.operand(b, x);
                let t = self.ty(ty);
                vec![J::s("un"), J::s(format!("{:?}", op)), a, J::u(t)]
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(b, self.tcx).ty;
                let pj = self.place(b, p);
                let t = self.ty(t);
                vec![J::s("discr"), pj, J::u(t)]
            }
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<J> = ops.iter().map(|o| self.operand(b, o)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = self.tcx.type_of(*d).instantiate(self.tcx, *a).skip_norm_wip();
                        let t = self.ty(t);
                        J::A(vec![J::s("adt"), J::u(t), J::u(v.as_usize()), match f { Some(f) => J::u(f.as_usize()), None => J::N }])
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(self.tcx, *d, *a);
                        J::A(vec![J::s("closure"), J::u(self.ty(t))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                vec![J::s("agg"), k, J::A(o)]
            }
            Rvalue::ThreadLocalRef(_) => vec![J::s("tls")],
            Rvalue::WrapUnsafeBinder(o, _) => vec![J::s("use"), self.operand(b, o)],
        })
    }

    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", J::s(path(tcx, d))), ("key", J::s(def_key(tcx, d)))];
        let targs: Vec<J> = args.types().map(|t| J::u(self.ty(t))).collect();
        o.push(("targs", J::A(targs)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::s(simple(tcx, tr))));
            o.push(("method", J::s(tcx.item_name(d).to_string())));
        }
        let r = Instance::try_resolve(tcx, self.env, d, args);
        match r {
            Ok(Some(inst)) => {
                let rd = inst.def_id();
                if rd != d {
                    o.push(("rdef", J::s(path(tcx, rd))));
                    o.push(("rkey", J::s(def_key(tcx, rd))));
                }
                let rt: Vec<J> = inst.args.types().map(|t| J::u(self.ty(t))).collect();
                o.push(("rtargs", J::A(rt)));
                match inst.def {
                    InstanceKind::Item(rd) => {
                        let k = def_key(tcx, rd);
                        let kind = tcx.def_kind(rd);
                        let fnlike = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
                        if fnlike && self.expand(rd, &k) {
                            let id = self.inst(inst);
                            o.push(("inst", J::u(id)));
                        } else if matches!(kind, DefKind::Ctor(..)) {
                            let sig = tcx.fn_sig(rd).instantiate(tcx, inst.args).skip_norm_wip().skip_binder();
                            let out = self.ty(sig.output());
                            let v = match tcx.def_kind(tcx.parent(rd)) {
                                DefKind::Variant => {
                                    let adt = tcx.adt_def(tcx.parent(tcx.parent(rd)));
                                    adt.variant_index_with_ctor_id(rd).as_usize()
                                }
                                _ => 0,
                            };
                            o.push(("ctor", J::A(vec![J::u(out), J::u(v)])));
                        }
                    }
                    InstanceKind::Intrinsic(rd) => {
                        o.push(("intrinsic", J::s(tcx.item_name(rd).to_string())));
                    }
                    InstanceKind::Virtual(rd, _) => {
                        o.push(("virtual", J::s(path(tcx, rd))));
                    }
                    InstanceKind::Shim(s) => {
                        let txt = format!("{:?}", s);
                        o.push(("shim", J::s(txt.clone())));
                        if !txt.starts_with("DropGlue") && !txt.contains("Async") {
                            let id = self.inst(inst);
                            o.push(("inst", J::u(id)));
                        }
                    }
                    _ => {}
                }
            }
            Ok(None) => o.push(("unresolved", J::B(true))),
            Err(_) => o.push(("unresolved", J::B(true))),
        }
        J::O(o)
    }

    fn expand(&self, d: DefId, key: &str) -> bool {
        if !self.tcx.is_mir_available(d) {
            return false;
        }
        if d.is_local() {
            return true;
        }
        if self.tcx.is_constructor(d) {
            return false;
        }
        let k = key.trim_start_matches('<');
        for a in &self.allow {
            if k.starts_with(a.as_str()) {
                return true;
            }
        }
        for s in &self.stop {
            if k.starts_with(s.as_str()) {
                return false;
            }
        }
        true
    }

    fn constant(&mut self, c: mir::Const<'tcx>, span: Span) -> J {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match t.kind() {
            ty::FnDef(d, a) => {
                let cal = self.callee(*d, a.skip_binder());
                J::O(vec![("fn", cal)])
            }
            _ => match c {
                mir::Const::Ty(_, ct) => match c.try_eval_scalar_int(self.tcx, self.env) {
                    Some(i) => J::O(vec![("int", J::U(i.to_bits_unchecked()))]),
                    None => J::O(vec![("param", J::s(ct.to_string()))]),
                },
                mir::Const::Unevaluated(u, _) if u.has_param() || t.has_param() => {
                    match c.eval(self.tcx, self.env, span) {
                        Ok(v) => self.const_value(v, t, 0),
                        Err(_) => {
                            let args: Vec<J> = u.args.types().map(|t| J::u(self.ty(t))).collect();
                            let body = self.const_body(u);
                            J::O(vec![
                                ("body", match body { Some(i) => J::u(i), None => J::N }),
                                ("uneval", J::s(path(self.tcx, u.def))),
                                ("key", J::s(def_key(self.tcx, u.def))),
                                ("promoted", match u.promoted { Some(p) => J::u(p.as_usize()), None => J::N }),
                                ("args", J::A(args)),
                            ])
                        }
                    }
                }
                _ => match c.eval(self.tcx, self.env, span) {
                    Ok(v) => self.const_value(v, t, 0),
                    Err(_) => J::O(vec![("opaque", J::s(format!("{:?}", c)))]),
                },
            },
        };
        J::A(vec![J::u(tid), v])
    }

    fn const_value(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 6 {
            return J::O(vec![("opaque", J::s("deep"))]);
        }
        match t.kind() {
            ty::Pat(inner, _) => self.const_value(v, *inner, depth),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                if let Some(i) = v.try_to_scalar_int() {
                    return J::O(vec![("int", J::U(i.to_bits_unchecked()))]);
                }
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    if let GlobalAlloc::Memory(m) = self.tcx.global_alloc(alloc_id) {
                        if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                            let r = m.inner().read_scalar(
                                &self.tcx,
                                mir::interpret::AllocRange { start: offset, size: l.size },
                                false,
                            );
                            if let Ok(Scalar::Int(i)) = r {
                                return J::O(vec![("int", J::U(i.to_bits_unchecked()))]);
                            }
                        }
                    }
                }
                J::O(vec![("opaque", J::s("scalar"))])
            }
            ty::Ref(_, inner, _) if inner.is_str() => {
                let s = v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| String::from_utf8_lossy(b).to_string());
                J::O(vec![("str", J::s(s.unwrap_or_default()))])
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
                    let (prov, off) = p.prov_and_relative_offset();
                    let id = prov.alloc_id();
                    if let GlobalAlloc::Memory(_) = self.tcx.global_alloc(id) {
                        if inner.is_sized(self.tcx, self.env) {
                            let x = self.const_value(ConstValue::Indirect { alloc_id: id, offset: off }, *inner, depth + 1);
                            let it = self.ty(*inner);
                            return J::O(vec![("ref", J::A(vec![J::u(it), x]))]);
                        }
                    }
                }
                J::O(vec![("opaque", J::s("ref"))])
            }
            ty::FnDef(d, a) => {
                let c = self.callee(*d, a.skip_binder());
                J::O(vec![("fn", c)])
            }
            ty::Tuple(l) if l.is_empty() => J::O(vec![("tuple", J::A(vec![]))]),
            ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => {
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return J::O(vec![("opaque", J::s("union"))]);
                    }
                }
                if t.has_param() {
                    return J::O(vec![("opaque", J::s("generic const"))]);
                }
                match self.tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let f: Vec<J> = d
                            .fields
                            .iter()
                            .map(|(v, t)| {
                                let x = self.const_value(*v, *t, depth + 1);
                                let t = self.ty(*t);
                                J::A(vec![J::u(t), x])
                            })
                            .collect();
                        let k = if t.is_adt() { "adt" } else if t.is_array() { "array" } else { "tuple" };
                        J::O(vec![(k, J::A(f)), ("variant", match d.variant { Some(v) => J::u(v.as_usize()), None => J::N })])
                    }
                    None => J::O(vec![("opaque", J::s("adt"))]),
                }
            }
            _ => match v {
                ConstValue::ZeroSized => J::O(vec![("zst", J::B(true))]),
                _ => J::O(vec![("opaque", J::s("other"))]),
            },
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let key = (t, if t.has_param() { Some(self.root) } else { None });
        if let Some(i) = self.ty_ids.get(&key) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::N);
        self.ty_ids.insert(key, id);
        let tcx = self.tcx;
        let text = J::s(with_no_trimmed_paths!(t.to_string()));
        let mut o: Vec<(&'static str, J)> = vec![];
        let norm = |cx: &mut Self, t: ty::Unnormalized<'tcx, Ty<'tcx>>| -> usize {
            let raw = t.skip_norm_wip();
            let t = tcx
                .try_normalize_erasing_regions(cx.env, t)
                .unwrap_or(raw);
            cx.ty(t)
        };
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", J::s("prim")));
            }
            ty::Adt(a, args) => {
                o.push(("k", J::s("adt")));
                o.push(("name", J::s(simple(tcx, a.did()))));
                o.push(("local", J::B(a.did().is_local())));
                let ta: Vec<J> = args.types().map(|t| J::u(self.ty(t))).collect();
                o.push(("args", J::A(ta)));
                o.push(("enum", J::B(a.is_enum())));
                let mut vs = vec![];
                let n = simple(tcx, a.did());
                let deep = a.did().is_local()
                    || a.is_enum()
                    || n.starts_with("core::")
                    || n.starts_with("alloc::boxed")
                    || n.starts_with("std::ops");
                if deep {
                    for (vi, v) in a.variants().iter_enumerated() {
                        let mut fs = vec![];
                        for f in v.fields.iter() {
                            let ft = f.ty(tcx, args);
                            let ft = norm(self, ft);
                            fs.push(J::A(vec![J::s(f.name.to_string()), J::u(ft)]));
                        }
                        let discr = if a.is_enum() {
                            J::U(a.discriminant_for_variant(tcx, vi).val)
                        } else {
                            J::U(0)
                        };
                        vs.push(J::O(vec![("name", J::s(v.name.to_string())), ("fields", J::A(fs)), ("discr", discr)]));
                    }
                }
                o.push(("variants", J::A(vs)));
                if a.is_struct() && (n.starts_with("core::iter") || a.did().is_local() && !args.types().next().is_none()) {
                    if let Some(nf) = tcx.lang_items().next_fn() {
                        let ga = tcx.mk_args(&[t.into()]);
                        let it = tcx.parent(nf);
                        use rustc_trait_selection::infer::InferCtxtExt;
                        use rustc_infer::infer::TyCtxtInferExt;
                        let (icx, pe) = tcx.infer_ctxt().build_with_typing_env(self.env);
                        let ok = icx.type_implements_trait(it, [t], pe).must_apply_modulo_regions();
                        if ok {
                        if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, nf, ga) {
                            if let InstanceKind::Item(rd) = inst.def {
                                let k = def_key(tcx, rd);
                                if self.expand(rd, &k) {
                                    let i = self.inst(inst);
                                    o.push(("next", J::u(i)));
                                }
                            }
                        }
                        }
                    }
                }
            }
            ty::Ref(_, t, m) => {
                o.push(("k", J::s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let t = self.ty(*t);
                o.push(("to", J::u(t)));
            }
            ty::RawPtr(t, m) => {
                o.push(("k", J::s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let t = self.ty(*t);
                o.push(("to", J::u(t)));
            }
            ty::Slice(t) => {
                o.push(("k", J::s("slice")));
                let t = self.ty(*t);
                o.push(("to", J::u(t)));
            }
            ty::Array(t, n) => {
                o.push(("k", J::s("array")));
                let t = self.ty(*t);
                o.push(("to", J::u(t)));
                o.push(("n", J::s(n.to_string())));
            }
            ty::Tuple(l) => {
                o.push(("k", J::s("tuple")));
                let e: Vec<J> = l.iter().map(|t| J::u(self.ty(t))).collect();
                o.push(("elems", J::A(e)));
            }
            ty::Closure(d, a) => {
                o.push(("k", J::s("closure")));
                o.push(("def", J::s(path(tcx, *d))));
                o.push(("key", J::s(def_key(tcx, *d))));
                let ca = a.as_closure();
                let e: Vec<J> = ca.upvar_tys().iter().map(|t| J::u(self.ty(t))).collect();
                o.push(("upvars", J::A(e)));
                o.push(("kind", J::s(format!("{:?}", ca.kind()))));
                let inst = Instance { def: InstanceKind::Item(*d), args: a };
                if tcx.is_mir_available(*d) {
                    let id = self.inst(inst);
                    o.push(("inst", J::u(id)));
                }
            }
            ty::FnDef(d, a) => {
                o.push(("k", J::s("fndef")));
                o.push(("def", J::s(path(tcx, *d))));
                let c = self.callee(*d, a.skip_binder());
                o.push(("fn", c));
            }
            ty::Param(p) => {
                o.push(("k", J::s("param")));
                o.push(("name", J::s(p.name.to_string())));
            }
            ty::Alias(..) => {
                o.push(("k", J::s("alias")));
            }
            ty::FnPtr(..) => {
                o.push(("k", J::s("fnptr")));
            }
            ty::Dynamic(..) => {
                o.push(("k", J::s("dyn")));
            }
            _ => {
                o.push(("k", J::s("other")));
            }
        }
        o.push(("s", text));
        self.types[id] = J::O(o);
        id
    }
}
