use crate::json::{i, s, J};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;

pub struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    ext_adts: Vec<DefId>,
}

impl<'tcx> D<'tcx> {
    fn id(&self, d: DefId) -> String {
        let crate_name = self.tcx.crate_name(d.krate).to_string();
        format!("{}{}", crate_name, self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn name(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn region_free_args(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(i(self.ty(t) as i128));
            } else if let Some(c) = a.as_const() {
                v.push(s(format!("{}", c)));
            }
        }
        J::A(v)
    }
    pub fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&k) = self.tymap.get(&t) {
            return k;
        }
        // reserve (types may be recursive only through ADT names, so recursion terminates)
        let j = self.ty_json(t);
        if let Some(&k) = self.tymap.get(&t) {
            return k;
        }
        let k = self.tys.len();
        self.tys.push(j);
        self.tymap.insert(t, k);
        k
    }
    fn ty_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str => {
                J::A(vec![s("prim"), s(t.to_string())])
            }
            ty::Never => J::A(vec![s("never")]),
            ty::Adt(def, args) => {
                if !def.did().is_local() && !self.ext_adts.contains(&def.did()) {
                    self.ext_adts.push(def.did());
                }
                let a = self.region_free_args(args);
                J::A(vec![s("adt"), s(self.name(def.did())), a])
            }
            ty::Ref(_, inner, m) => {
                let k = self.ty(inner);
                J::A(vec![s("ref"), J::B(m.is_mut()), i(k as i128)])
            }
            ty::RawPtr(inner, m) => {
                let k = self.ty(inner);
                J::A(vec![s("ptr"), J::B(m.is_mut()), i(k as i128)])
            }
            ty::Slice(inner) => {
                let k = self.ty(inner);
                J::A(vec![s("slice"), i(k as i128)])
            }
            ty::Array(inner, n) => {
                let k = self.ty(inner);
                let n = n.try_to_target_usize(tcx).map(|x| x as i128).unwrap_or(-1);
                J::A(vec![s("array"), i(k as i128), i(n)])
            }
            ty::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| i(self.ty(t) as i128)).collect();
                J::A(vec![s("tuple"), J::A(v)])
            }
            ty::Param(p) => J::A(vec![s("param"), s(p.name.to_string())]),
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let a = self.region_free_args(args);
                J::A(vec![s("fndef"), s(self.id(d)), s(self.name(d)), a])
            }
            ty::FnPtr(..) => J::A(vec![s("fnptr"), s(t.to_string())]),
            ty::Closure(d, args) => {
                let up: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let v: Vec<J> = up.into_iter().map(|t| i(self.ty(t) as i128)).collect();
                let pargs = args.as_closure().parent_args();
                let pa: Vec<J> = pargs
                    .iter()
                    .filter_map(|a| a.as_type())
                    .map(|t| i(self.ty(t) as i128))
                    .collect();
                J::A(vec![s("closure"), s(self.id(d)), J::A(v), J::A(pa)])
            }
            ty::Dynamic(..) => J::A(vec![s("dyn"), s(t.to_string())]),
            ty::Alias(..) => {
                let st = with_no_trimmed_paths!(t.to_string());
                J::A(vec![s("alias"), s(st)])
            }
            _ => J::A(vec![s("other"), s(t.to_string())]),
        }
    }
    /// alias types: dump the trait projection structurally
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![];
        let mut pty = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for elem in p.projection.iter() {
            let bt = self.ty(pty.ty);
            let j = match elem {
                ProjectionElem::Deref => vec![s("deref"), i(bt as i128)],
                ProjectionElem::Field(f, fty) => {
                    let ft = self.ty(fty);
                    vec![s("field"), i(bt as i128), i(f.as_usize() as i128), i(ft as i128)]
                }
                ProjectionElem::Index(l) => vec![s("index"), i(bt as i128), i(l.as_usize() as i128)],
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => vec![
                    s("cindex"),
                    i(bt as i128),
                    i(offset as i128),
                    i(min_length as i128),
                    J::B(from_end),
                ],
                ProjectionElem::Subslice { from, to, from_end } => vec![
                    s("subslice"),
                    i(bt as i128),
                    i(from as i128),
                    i(to as i128),
                    J::B(from_end),
                ],
                ProjectionElem::Downcast(_, vi) => {
                    vec![s("downcast"), i(bt as i128), i(vi.as_usize() as i128)]
                }
                _ => vec![s("otherproj"), i(bt as i128)],
            };
            v.push(J::A(j));
            pty = pty.projection_ty(tcx, elem);
        }
        J::O(vec![("l", i(p.local.as_usize() as i128)), ("p", J::A(v))])
    }
    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>, owner: DefId) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("copy"), self.place(body, p)]),
            Operand::Move(p) => J::A(vec![s("move"), self.place(body, p)]),
            Operand::Constant(c) => {
                let j = self.constant(&c.const_, owner);
                J::A(vec![s("const"), j])
            }
            #[allow(unreachable_patterns)]
            other => J::A(vec![s("rtcheck"), s(format!("{:?}", other))]),
        }
    }
    fn scalar(&mut self, t: Ty<'tcx>, sc: rustc_middle::mir::interpret::Scalar) -> J {
        if let Ok(si) = sc.try_to_scalar_int() {
            let size = si.size();
            if t.is_signed() {
                return i(si.to_int(size));
            }
            let b = si.to_bits(size);
            return i(b.min(i128::MAX as u128) as i128);
        }
        J::Null
    }
    fn constant(&mut self, c: &Const<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let t = c.ty();
        let tk = self.ty(t);
        let mut o = vec![("ty", i(tk as i128))];
        if let ty::FnDef(d, args) = *t.kind() {
            let args = args.skip_binder();
            let f = self.callee(d, args, owner);
            o.push(("fn", f));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c {
            o.push(("uneval", s(self.id(u.def))));
            o.push(("uname", s(self.name(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", i(p.as_usize() as i128)));
            }
            let a = self.region_free_args(u.args);
            o.push(("args", a));
            if u.promoted.is_none() && !t.is_ref() {
                if let Some(sc) =
                    c.try_eval_scalar(tcx, TypingEnv::post_analysis(tcx, owner))
                {
                    let v = self.scalar(t, sc);
                    o.push(("v", v));
                }
            }
            return J::O(o);
        }
        let te = TypingEnv::post_analysis(tcx, owner);
        match c {
            Const::Val(ConstValue::Scalar(sc), _) => {
                let v = self.scalar(t, *sc);
                o.push(("v", v));
            }
            Const::Val(ConstValue::ZeroSized, _) => o.push(("zst", J::B(true))),
            Const::Val(v @ ConstValue::Slice { .. }, _) => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", s(String::from_utf8_lossy(b).to_string())));
                        }
                    }
                }
            }
            _ => {
                if let Some(sc) = c.try_eval_scalar(tcx, te) {
                    let v = self.scalar(t, sc);
                    o.push(("v", v));
                } else {
                    o.push(("other", s(format!("{:?}", c))));
                }
            }
        }
        J::O(o)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, owner: DefId) -> J {
        let tcx = self.tcx;
        let mut o = vec![
            ("id", s(self.id(d))),
            ("name", s(self.name(d))),
            ("local", J::B(d.is_local())),
        ];
        let a = self.region_free_args(args);
        o.push(("args", a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.name(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = self.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
            o.push(("impl_self", i(st as i128)));
            o.push(("method", s(tcx.item_name(d).to_string())));
        }
        let te = TypingEnv::post_analysis(tcx, owner);
        let eargs = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, te, d, eargs) {
            if let ty::InstanceKind::Item(rd) = inst.def {
                if rd != d {
                    o.push(("rid", s(self.id(rd))));
                    o.push(("rname", s(self.name(rd))));
                    o.push(("rlocal", J::B(rd.is_local())));
                    let ra = self.region_free_args(inst.args);
                    o.push(("rargs", ra));
                }
            }
        }
        let sig = tcx.fn_sig(d).skip_binder();
        let uns = !sig.safety().is_safe();
        o.push(("unsafe", J::B(uns)));
        J::O(o)
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, owner: DefId) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, o, owner)]),
            Rvalue::Repeat(o, n) => J::A(vec![
                s("repeat"),
                self.operand(body, o, owner),
                s(format!("{}", n)),
            ]),
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                J::A(vec![s("ref"), J::B(m), self.place(body, p)])
            }
            Rvalue::RawPtr(k, p) => {
                J::A(vec![s("rawptr"), J::B(matches!(k, RawPtrKind::Mut)), self.place(body, p)])
            }
            Rvalue::Cast(k, o, t) => {
                let ot = self.ty(o.ty(&body.local_decls, self.tcx));
                let tk = self.ty(*t);
                J::A(vec![
                    s("cast"),
                    s(format!("{:?}", k)),
                    self.operand(body, o, owner),
                    i(ot as i128),
                    i(tk as i128),
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0, owner);
                let b = self.operand(body, &ab.1, owner);
                let ot = self.ty(ab.0.ty(&body.local_decls, self.tcx));
                J::A(vec![s("bin"), s(format!("{:?}", op)), a, b, i(ot as i128)])
            }
            Rvalue::UnaryOp(op, a) => {
                let ot = self.ty(a.ty(&body.local_decls, self.tcx));
                J::A(vec![s("un"), s(format!("{:?}", op)), self.operand(body, a, owner), i(ot as i128)])
            }
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let kind = match &**k {
                    AggregateKind::Array(t) => {
                        let tk = self.ty(*t);
                        J::A(vec![s("array"), i(tk as i128)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, args, _, active) => {
                        let a = self.region_free_args(args);
                        let _ = active;
                        J::A(vec![
                            s("adt"),
                            s(self.name(*d)),
                            i(vi.as_usize() as i128),
                            a,
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let pargs = args.as_closure().parent_args();
                        let pa: Vec<J> = pargs
                            .iter()
                            .filter_map(|a| a.as_type())
                            .map(|t| i(self.ty(t) as i128))
                            .collect();
                        J::A(vec![s("closure"), s(self.id(*d)), J::A(pa)])
                    }
                    other => J::A(vec![s("other"), s(format!("{:?}", other))]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o, owner)).collect();
                J::A(vec![s("agg"), kind, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                J::A(vec![s("use"), J::A(vec![s("copy"), self.place(body, p)])])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }
    fn line(&self, sp: rustc_span::Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let loc = sm.lookup_char_pos(sp.lo());
        i(loc.line as i128)
    }
    fn body(&mut self, body: &Body<'tcx>, owner: DefId) -> J {
        let mut locals = vec![];
        for (_l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            locals.push(i(t as i128));
        }
        let mut names = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.push(J::A(vec![i(p.local.as_usize() as i128), s(v.name.to_string())]));
                }
            }
        }
        let mut blocks = vec![];
        for (_b, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let ln = self.line(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1, owner);
                        st.push(J::A(vec![s("assign"), p, r, ln]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setdiscr"), p, i(variant_index.as_usize() as i128), ln]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::A(vec![s("dead"), i(l.as_usize() as i128)]));
                    }
                    StatementKind::Intrinsic(b) => {
                        st.push(J::A(vec![s("intrinsic"), s(format!("{:?}", b)), ln]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let ln = self.line(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), i(target.as_usize() as i128)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let o = self.operand(body, discr, owner);
                    let signed = dt.is_signed();
                    let size = match dt.kind() {
                        ty::Int(it) => it.bit_width().unwrap_or(64),
                        _ => 128,
                    };
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            let val: i128 = if signed && size < 128 {
                                let sh = 128 - size as u32;
                                ((v << sh) as i128) >> sh
                            } else {
                                v as i128
                            };
                            J::A(vec![i(val), i(b.as_usize() as i128)])
                        })
                        .collect();
                    let tk = self.ty(dt);
                    J::A(vec![
                        s("switch"),
                        o,
                        J::A(v),
                        i(targets.otherwise().as_usize() as i128),
                        i(tk as i128),
                    ])
                }
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    J::A(vec![s("drop"), p, i(target.as_usize() as i128)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let o = self.operand(body, cond, owner);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(body, len, owner);
                            let ix = self.operand(body, index, owner);
                            J::A(vec![s("bounds"), l, ix])
                        }
                        AssertKind::Overflow(op, a, b) => {
                            let a = self.operand(body, a, owner);
                            let b = self.operand(body, b, owner);
                            J::A(vec![s("overflow"), s(format!("{:?}", op)), a, b])
                        }
                        AssertKind::OverflowNeg(a) => {
                            let a = self.operand(body, a, owner);
                            J::A(vec![s("overflowneg"), a])
                        }
                        AssertKind::DivisionByZero(a) => {
                            let a = self.operand(body, a, owner);
                            J::A(vec![s("divzero"), a])
                        }
                        AssertKind::RemainderByZero(a) => {
                            let a = self.operand(body, a, owner);
                            J::A(vec![s("remzero"), a])
                        }
                        other => J::A(vec![s("other"), s(format!("{:?}", other))]),
                    };
                    J::A(vec![s("assert"), o, J::B(*expected), m, i(target.as_usize() as i128)])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(body, func, owner);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node, owner)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            i(self.ty(t) as i128)
                        })
                        .collect();
                    let d = self.place(body, destination);
                    let dt = destination.ty(&body.local_decls, self.tcx).ty;
                    let dt = self.ty(dt);
                    J::A(vec![
                        s("call"),
                        f,
                        J::A(a),
                        d,
                        match target {
                            Some(t) => i(t.as_usize() as i128),
                            None => J::Null,
                        },
                        J::A(at),
                        i(dt as i128),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::A(vec![s("goto"), i(real_target.as_usize() as i128)])
                }
                other => J::A(vec![s("otherterm"), s(format!("{:?}", other))]),
            };
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", tj),
                ("ln", ln),
                ("cleanup", J::B(bb.is_cleanup)),
            ]));
        }
        J::O(vec![
            ("argc", i(body.arg_count as i128)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ])
    }

    fn is_derived(&self, d: DefId) -> bool {
        let mut cur = d;
        loop {
            if self.tcx.def_kind(cur) == (DefKind::Impl { of_trait: true }) {
                return self.tcx.is_automatically_derived(cur);
            }
            match self.tcx.opt_parent(cur) {
                Some(p) => cur = p,
                None => return false,
            }
        }
    }
    fn adt_json(&mut self, did: DefId) -> J {
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let gens: Vec<J> = tcx
            .generics_of(did)
            .own_params
            .iter()
            .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
            .map(|p| s(p.name.to_string()))
            .collect();
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in &v.fields {
                let ft = f.ty(tcx, args).skip_norm_wip();
                let ft = self.ty(ft);
                fs.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", i(ft as i128)),
                    (
                        "vis",
                        s(match f.vis {
                            ty::Visibility::Public => "pub".to_string(),
                            ty::Visibility::Restricted(m) => {
                                if m.is_crate_root() {
                                    "crate".to_string()
                                } else {
                                    format!("in {}", self.id(m.into()))
                                }
                            }
                        }),
                    ),
                ]));
            }
            let dv = if def.is_enum() {
                format!("{}", def.discriminant_for_variant(tcx, vi).val)
            } else {
                "0".to_string()
            };
            vs.push(J::O(vec![
                ("name", s(v.name.to_string())),
                ("fields", J::A(fs)),
                ("discr", s(dv)),
            ]));
        }
        let repr = def.repr();
        let mut o = vec![
            ("name", s(self.name(did))),
            ("kind", s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })),
            ("generics", J::A(gens)),
            ("variants", J::A(vs)),
            ("transparent", J::B(repr.transparent())),
            ("repr_c", J::B(repr.c())),
            ("packed", J::B(repr.packed())),
            ("local", J::B(did.is_local())),
        ];
        if let Some(l) = did.as_local() {
            let ev = tcx.effective_visibilities(());
            o.push(("reachable", J::B(ev.is_reachable(l))));
            o.push(("exported", J::B(ev.is_exported(l))));
            o.push(("line", self.line(tcx.def_span(did))));
        }
        J::O(o)
    }
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
    let mut d = D { tcx, tys: vec![], tymap: HashMap::new(), ext_adts: vec![] };
    let ev = tcx.effective_visibilities(());
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut traits = vec![];
    let sm = tcx.sess.source_map();
    let mut keys: Vec<LocalDefId> = tcx.hir_crate_items(()).definitions().collect();
    for k in tcx.mir_keys(()).iter() {
        if !keys.contains(k) {
            keys.push(*k);
        }
    }
    for ld in keys {
        let did = ld.to_def_id();
        let kind = tcx.def_kind(did);
        match kind {
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let j = d.adt_json(did);
                adts.push(j);
            }
            DefKind::Trait => {
                traits.push(J::O(vec![
                    ("name", s(d.name(did))),
                    ("exported", J::B(ev.is_exported(ld))),
                ]));
            }
            DefKind::Impl { of_trait } => {
                let st = d.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                let mut o = vec![("id", s(d.id(did))), ("self", i(st as i128))];
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(d.name(tr.def_id))));
                    let a = d.region_free_args(tr.args);
                    o.push(("targs", a));
                    let hdr = tcx.impl_trait_header(did);
                    o.push(("unsafe", J::B(!hdr.safety.is_safe())));
                    o.push(("neg", J::B(matches!(hdr.polarity, ty::ImplPolarity::Negative))));
                }
                let gens: Vec<J> = tcx
                    .generics_of(did)
                    .own_params
                    .iter()
                    .filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime))
                    .map(|p| s(p.name.to_string()))
                    .collect();
                o.push(("generics", J::A(gens)));
                o.push(("derived", J::B(tcx.is_automatically_derived(did))));
                let mut items = vec![];
                let mut atys = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_type() {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = d.ty(t);
                        atys.push((tcx.item_name(it.def_id).to_string(), i(t as i128)));
                    } else {
                        items.push((tcx.item_name(it.def_id).to_string(), s(d.id(it.def_id))));
                    }
                }
                o.push(("items", J::M(items)));
                o.push(("assoc_tys", J::M(atys)));
                o.push(("line", d.line(tcx.def_span(did))));
                impls.push(J::O(o));
            }
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Const { .. }
            | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                if !tcx.is_mir_available(did) && !matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                    continue;
                }
                let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
                let mut o = vec![
                    ("id", s(d.id(did))),
                    ("name", s(d.name(did))),
                    ("kind", s(format!("{:?}", kind))),
                    ("exported", J::B(ev.is_exported(ld))),
                    ("reachable", J::B(ev.is_reachable(ld))),
                    ("derived", J::B(d.is_derived(did))),
                ];
                let sp = tcx.def_span(did);
                let loc = sm.lookup_char_pos(sp.source_callsite().lo());
                o.push(("file", s(format!("{}", loc.file.name.prefer_local_unconditionally()))));
                o.push(("line", i(loc.line as i128)));
                if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                    let sig0 = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    let sig = sig0.skip_binder();
                    o.push(("unsafe", J::B(!sig.safety().is_safe())));
                    o.push(("pubvis", J::B(tcx.visibility(did).is_public())));
                    let ins: Vec<J> = sig.inputs().iter().map(|t| i(d.ty(*t) as i128)).collect();
                    o.push(("inputs", J::A(ins)));
                    let out = d.ty(sig.output());
                    o.push(("output", i(out as i128)));
                    let mut gens = vec![];
                    let g = tcx.generics_of(did);
                    for k in 0..g.count() {
                        let p = g.param_at(k, tcx);
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gens.push(s(p.name.to_string()));
                        }
                    }
                    o.push(("generics", J::A(gens)));
                    let preds: Vec<J> = tcx
                        .clauses_of(did)
                        .instantiate_identity(tcx)
                        .clauses
                        .iter()
                        .map(|p| s(with_no_trimmed_paths!(format!("{}", p.skip_norm_wip()))))
                        .collect();
                    o.push(("preds", J::A(preds)));
                    if let Some(im) = tcx.impl_of_assoc(did) {
                        o.push(("impl", s(d.id(im))));
                        let st = d.ty(tcx.type_of(im).instantiate_identity().skip_norm_wip());
                        o.push(("impl_self", i(st as i128)));
                        if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                            let tr = tr.instantiate_identity().skip_norm_wip();
                            o.push(("trait", s(d.name(tr.def_id))));
                        }
                    }
                    o.push(("method", s(tcx.item_name(did).to_string())));
                } else if kind == DefKind::Closure {
                    o.push(("parent", s(d.id(tcx.parent(did)))));
                    let mut gens = vec![];
                    let root = tcx.typeck_root_def_id(did);
                    let g = tcx.generics_of(root);
                    for k in 0..g.count() {
                        let p = g.param_at(k, tcx);
                        if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                            gens.push(s(p.name.to_string()));
                        }
                    }
                    o.push(("generics", J::A(gens)));
                }
                let b = if is_fn {
                    if !tcx.is_mir_available(did) {
                        continue;
                    }
                    tcx.optimized_mir(did)
                } else {
                    tcx.mir_for_ctfe(did)
                };
                let bj = d.body(b, did);
                o.push(("body", bj));
                let proms = tcx.promoted_mir(did);
                let pv: Vec<J> = proms.iter().map(|p| d.body(p, did)).collect();
                o.push(("promoted", J::A(pv)));
                fns.push(J::O(o));
            }
            _ => {}
        }
    }
    // external ADTs mentioned (Option, Result, Vec, ...)
    let mut k = 0;
    while k < d.ext_adts.len() {
        let did = d.ext_adts[k];
        k += 1;
        if tcx.adt_def(did).is_enum() {
            let j = d.adt_json(did);
            adts.push(j);
        }
    }
    let tys = std::mem::take(&mut d.tys);
    let root = J::O(vec![
        ("adts", J::A(adts)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("fns", J::A(fns)),
        ("tys", J::A(tys)),
    ]);
    let mut out = String::new();
    root.write(&mut out);
    out
}
