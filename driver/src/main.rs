//! MIR dumper for the nexo analyses: a `RUSTC_WORKSPACE_WRAPPER`.
//!
//! Writes `$NEXO_MIR_OUT/<crate>-<kind>.json` with the `mir_promoted` body of every
//! function, closure and coroutine of the crate being compiled (that is: the
//! type-checked program with resolved callees, *before* the coroutine state
//! transform and drop elaboration, so `.await` is a visible `Yield` and every scope
//! end is a visible `Drop`), and the type, constant and ADT tables.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv, Unnormalized};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    s(*k).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    tyout: Vec<J>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_visible_paths!(rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn norm(&self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(env, Unnormalized::new_wip(t))
            .unwrap_or(t)
    }
    fn ty(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> J {
        let t = self.norm(env, t);
        self.ty_raw(env, t)
    }
    fn ty_raw(&mut self, env: TypingEnv<'tcx>, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tys.get(&t) {
            return n(*i);
        }
        let i = self.tyout.len();
        self.tys.insert(t, i);
        self.tyout.push(J::Null);
        let name = rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("s", s(name))];
        macro_rules! gargs {
            ($a:expr) => {{
                let v: Vec<J> = $a.iter().filter_map(|g| g.as_type()).map(|t| self.ty_raw(env, t)).collect();
                J::A(v)
            }};
        }
        match *t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("def", s(self.path(d.did()))));
                let ga = gargs!(a);
                o.push(("args", ga));
                self.adt(d);
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty_raw(env, t2);
                o.push(("args", J::A(vec![x])));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::B(m.is_mut())));
                let x = self.ty_raw(env, t2);
                o.push(("args", J::A(vec![x])));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                let x = self.ty_raw(env, t2);
                o.push(("args", J::A(vec![x])));
            }
            ty::Array(t2, c) => {
                o.push(("k", s("array")));
                let x = self.ty_raw(env, t2);
                o.push(("args", J::A(vec![x])));
                if let Some(l) = c.try_to_target_usize(self.tcx) {
                    o.push(("len", n(l)));
                }
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|t| self.ty_raw(env, t)).collect();
                o.push(("args", J::A(v)));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.path(d.into()))));
                let up: Vec<J> = a.as_closure().upvar_tys().iter().map(|t| self.ty_raw(env, t)).collect();
                o.push(("args", J::A(up)));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("def", s(self.path(d.into()))));
                let up: Vec<J> = a.as_coroutine().upvar_tys().iter().map(|t| self.ty_raw(env, t)).collect();
                o.push(("args", J::A(up)));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("def", s(self.path(d.into()))));
                let a = a.skip_binder();
                let ga = gargs!(a);
                o.push(("args", ga));
            }
            ty::Dynamic(p, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = p.principal_def_id() {
                    o.push(("def", s(self.path(d))));
                }
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            ty::Never => o.push(("k", s("never"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            _ => o.push(("k", s("prim"))),
        }
        self.tyout[i] = J::O(o);
        n(i)
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adts.contains_key(&d.did()) {
            return;
        }
        self.adts.insert(d.did(), ());
        let local = d.did().is_local();
        let mut vs = vec![];
        for (i, v) in d.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = vec![("name", s(f.name.to_string()))];
                if local {
                    let env = TypingEnv::post_analysis(self.tcx, d.did());
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_normalization();
                    let tj = self.ty(env, t);
                    fo.push(("ty", tj));
                }
                fs.push(J::O(fo));
            }
            let mut vo = vec![("name", s(v.name.to_string())), ("fields", J::A(fs))];
            if d.is_enum() {
                let dv = d.discriminant_for_variant(self.tcx, i);
                vo.push(("discr", n(dv.val as i128)));
            }
            vs.push(J::O(vo));
        }
        let sp = self.span(self.tcx.def_span(d.did()));
        self.adt_out.push(J::O(vec![
            ("path", s(self.path(d.did()))),
            ("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })),
            ("local", J::B(local)),
            ("span", if local { sp } else { J::Null }),
            ("variants", J::A(vs)),
        ]));
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        // walk out of macro expansions to the outermost call site
        let sp0 = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp0.lo());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![s(f), n(lo.line), n(lo.col.0 + 1), J::B(sp.from_expansion())])
    }

    fn place(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut out = vec![];
        for e in p.projection.iter() {
            match e {
                ProjectionElem::Deref => out.push(J::A(vec![s("*")])),
                ProjectionElem::Field(f, t) => {
                    let base = self.norm(env, pt.ty);
                    let (nm, owner) = match *base.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let v = d.variant(vi);
                            (v.fields[f].name.to_string(), self.path(d.did()))
                        }
                        ty::Closure(d, _) => (self.upvar(d.into(), f.as_usize()), self.path(d.into())),
                        ty::Coroutine(d, _) => (self.upvar(d.into(), f.as_usize()), self.path(d.into())),
                        _ => (f.as_usize().to_string(), String::new()),
                    };
                    let tj = self.ty(env, t);
                    out.push(J::A(vec![s("f"), n(f.as_usize()), s(nm), s(owner), tj]));
                }
                ProjectionElem::Downcast(nm, v) => {
                    let base = self.norm(env, pt.ty);
                    let nm = nm.map(|x| x.to_string()).unwrap_or_else(|| match *base.kind() {
                        ty::Adt(d, _) => d.variant(v).name.to_string(),
                        _ => v.as_usize().to_string(),
                    });
                    out.push(J::A(vec![s("v"), s(nm), n(v.as_usize())]))
                }
                ProjectionElem::Index(l) => out.push(J::A(vec![s("i"), n(l.as_usize())])),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    out.push(J::A(vec![s("ci"), n(offset), J::B(from_end)]))
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    out.push(J::A(vec![s("sub"), n(from), n(to), J::B(from_end)]))
                }
                _ => out.push(J::A(vec![s("?")])),
            }
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![n(p.local.as_usize()), J::A(out)])
    }
    fn upvar(&self, d: DefId, i: usize) -> String {
        if let Some(l) = d.as_local() {
            let c = self.tcx.closure_captures(l);
            if i < c.len() {
                return c[i].to_symbol().to_string();
            }
        }
        i.to_string()
    }
    /// a const-generic argument: a number, or the name of a parameter
    fn cnum(&self, c: ty::Const<'tcx>) -> J {
        if let ty::ConstKind::Param(p) = c.kind() {
            return J::O(vec![("param", s(p.name.to_string()))]);
        }
        c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null)
    }
    fn konst(&mut self, env: TypingEnv<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.ty(env, t);
        let mut o = vec![("ty", tj)];
        let tn = self.norm(env, t);
        if let ty::FnDef(d, a) = *tn.kind() {
            let did: DefId = d.into();
            let a = a.skip_binder();
            o.push(("fn", s(self.path(did))));
            let ga: Vec<J> = a.iter().filter_map(|g| g.as_type()).map(|t| self.ty(env, t)).collect();
            o.push(("targs", J::A(ga)));
            let mut ca: Vec<J> = vec![];
            let mut g = Some(self.tcx.generics_of(did));
            while let Some(x) = g {
                for p in x.own_params.iter() {
                    if let ty::GenericParamDefKind::Const { .. } = p.kind {
                        if let Some(c) = a.get(p.index as usize).and_then(|v| v.as_const()) {
                            ca.push(J::A(vec![s(p.name.to_string()), self.cnum(c)]));
                        }
                    }
                }
                g = x.parent.map(|d| self.tcx.generics_of(d));
            }
            if !ca.is_empty() {
                o.push(("cargs", J::A(ca)));
            }
            let a2 = self.tcx.erase_and_anonymize_regions(a);
            let a2 = self
                .tcx
                .try_normalize_erasing_regions(env, Unnormalized::new_wip(a2))
                .unwrap_or(a2);
            if matches!(self.tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = Instance::try_resolve(self.tcx, env, did, a2) {
                    let rd = inst.def_id();
                    o.push(("res", s(self.path(rd))));
                    o.push(("loc", J::B(rd.is_local())));
                    if let ty::InstanceKind::Virtual(..) = inst.def {
                        o.push(("virt", J::B(true)));
                    }
                } else {
                    o.push(("loc", J::B(did.is_local())));
                }
                if let Some(tr) = self.tcx.trait_of_assoc(did) {
                    o.push(("trait", s(self.path(tr))));
                }
            } else if let DefKind::Ctor(..) = self.tcx.def_kind(did) {
                o.push(("ctor", J::B(true)));
            }
            return J::O(o);
        }
        match c.const_ {
            Const::Ty(_, ct) => {
                if let ty::ConstKind::Param(p) = ct.kind() {
                    o.push(("param", s(p.name.to_string())));
                    return J::O(o);
                }
            }
            Const::Unevaluated(u, _) => {
                if let Some(p) = u.promoted {
                    o.push(("prom", n(p.as_usize())));
                    o.push(("promof", s(self.path(u.def))));
                    return J::O(o);
                }
                o.push(("named", s(self.path(u.def))));
            }
            _ => {}
        }
        if let Ok(v) = c.const_.eval(self.tcx, env, c.span) {
            self.cval(&mut o, v, tn);
        }
        J::O(o)
    }
    fn cval(&mut self, o: &mut Vec<(&'static str, J)>, v: ConstValue, tn: Ty<'tcx>) {
        match v {
            ConstValue::Scalar(_) if tn.is_integral() || tn.is_bool() || tn.is_char() => {
                if let Some(si) = v.try_to_scalar_int() {
                    let bits = si.to_bits_unchecked();
                    if tn.is_signed() {
                        let sz = si.size();
                        o.push(("int", n(sz.sign_extend(bits))));
                    } else {
                        o.push(("int", n(bits)));
                    }
                }
            }
            ConstValue::Slice { .. } => {
                if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                    match std::str::from_utf8(b) {
                        Ok(t) => o.push(("str", s(t))),
                        Err(_) => o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect()))),
                    }
                }
            }
            ConstValue::ZeroSized => o.push(("zst", J::B(true))),
            ConstValue::Scalar(rustc_middle::mir::interpret::Scalar::Ptr(p, _)) => {
                // reference to a static allocation, e.g. &[u8; N]
                if let ty::Ref(_, inner, _) = tn.kind() {
                    if let ty::Array(e, l) = inner.kind() {
                        if *e == self.tcx.types.u8 {
                            if let Some(l) = l.try_to_target_usize(self.tcx) {
                                let (prov, off) = p.into_raw_parts();
                                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) = self.tcx.global_alloc(prov.alloc_id()) {
                                    let a = a.inner();
                                    let st = off.bytes_usize();
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(st..st + l as usize);
                                    o.push(("bytes", J::A(b.iter().map(|x| n(*x)).collect())));
                                }
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    fn opd(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::A(vec![s("cp"), self.place(env, body, p)]),
            Operand::Move(p) => J::A(vec![s("mv"), self.place(env, body, p)]),
            Operand::Constant(c) => J::A(vec![s("c"), self.konst(env, c)]),
            _ => J::A(vec![s("?")]),
        }
    }
    fn rv(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.opd(env, body, o)]),
            Rvalue::Repeat(o, c) => J::A(vec![
                s("repeat"),
                self.opd(env, body, o),
                self.cnum(*c),
            ]),
            Rvalue::Ref(_, bk, p) => J::A(vec![
                s("ref"),
                s(match bk {
                    BorrowKind::Mut { .. } => "mut",
                    BorrowKind::Shared => "shared",
                    _ => "fake",
                }),
                self.place(env, body, p),
            ]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), self.place(env, body, p)]),
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(env, body, p)]),
            Rvalue::Cast(k, o, t) => {
                let tj = self.ty(env, *t);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.opd(env, body, o), tj])
            }
            Rvalue::BinaryOp(b, ops) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.opd(env, body, &ops.0),
                self.opd(env, body, &ops.1),
            ]),
            Rvalue::UnaryOp(b, o) => J::A(vec![s("un"), s(format!("{:?}", b)), self.opd(env, body, o)]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(env, body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let mut o = vec![];
                match &**k {
                    AggregateKind::Array(_) => o.push(("k", s("array"))),
                    AggregateKind::Tuple => o.push(("k", s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, fi) => {
                        o.push(("k", s("adt")));
                        o.push(("def", s(self.path(*d))));
                        let ad = self.tcx.adt_def(*d);
                        self.adt(ad);
                        let va = ad.variant(*v);
                        o.push(("variant", s(va.name.to_string())));
                        o.push(("vidx", n(v.as_usize())));
                        let names: Vec<J> = match fi {
                            Some(f) => vec![s(va.fields[*f].name.to_string())],
                            None => va.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        o.push(("names", J::A(names)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("k", s("closure")));
                        o.push(("def", s(self.path(*d))));
                    }
                    AggregateKind::Coroutine(d, _) => {
                        o.push(("k", s("coroutine")));
                        o.push(("def", s(self.path(*d))));
                    }
                    _ => o.push(("k", s("other"))),
                }
                let v: Vec<J> = ops.iter().map(|x| self.opd(env, body, x)).collect();
                o.push(("ops", J::A(v)));
                J::A(vec![s("agg"), J::O(o)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(env, body, p);
                J::A(vec![s("use"), J::A(vec![s("cp"), p])])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            _ => J::A(vec![s("?")]),
        }
    }
    fn unwind(u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => n(b.as_usize()),
            _ => J::Null,
        }
    }
    fn body(&mut self, env: TypingEnv<'tcx>, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<Local, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local, v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(env, d.ty);
                J::A(vec![t, names.get(&l).map(|x| s(x.clone())).unwrap_or(J::Null)])
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(env, body, &b.0);
                        let r = self.rv(env, body, &b.1);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(env, body, place);
                        st.push(J::A(vec![s("sd"), p, n(variant_index.as_usize()), sp]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let d = self.opd(env, body, discr);
                    o.push(("d", d));
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(env, dt);
                    o.push(("dty", dt));
                    o.push((
                        "ts",
                        J::A(targets.iter().map(|(v, b)| J::A(vec![n(v as i128), n(b.as_usize())])).collect()),
                    ));
                    o.push(("else", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::UnwindResume => o.push(("k", s("resume"))),
                TerminatorKind::UnwindTerminate(_) => o.push(("k", s("abort"))),
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    o.push(("k", s("drop")));
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let p = self.place(env, body, place);
                    let tj = self.ty(env, pt);
                    o.push(("p", p));
                    o.push(("pty", tj));
                    o.push(("t", n(target.as_usize())));
                    o.push(("u", Self::unwind(unwind)));
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    o.push(("k", s("call")));
                    let f = self.opd(env, body, func);
                    o.push(("f", f));
                    let a: Vec<J> = args.iter().map(|x| self.opd(env, body, &x.node)).collect();
                    o.push(("a", J::A(a)));
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(&body.local_decls, self.tcx);
                            self.ty(env, t)
                        })
                        .collect();
                    o.push(("at", J::A(at)));
                    let d = self.place(env, body, destination);
                    o.push(("d", d));
                    o.push(("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)));
                    o.push(("u", Self::unwind(unwind)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    o.push(("k", s("assert")));
                    let c = self.opd(env, body, cond);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.opd(env, body, len);
                            let i = self.opd(env, body, index);
                            J::A(vec![s("bounds"), l, i])
                        }
                        AssertKind::Overflow(b, l, r) => {
                            let l = self.opd(env, body, l);
                            let r = self.opd(env, body, r);
                            J::A(vec![s("overflow"), s(format!("{:?}", b)), l, r])
                        }
                        x => {
                            let t = format!("{:?}", x);
                            J::A(vec![s("other"), s(t.split('(').next().unwrap_or("").to_string())])
                        }
                    };
                    o.push(("m", m));
                    o.push(("t", n(target.as_usize())));
                    o.push(("u", Self::unwind(unwind)));
                }
                TerminatorKind::Yield { resume, drop, resume_arg, .. } => {
                    o.push(("k", s("yield")));
                    let ra = self.place(env, body, resume_arg);
                    o.push(("d", ra));
                    o.push(("t", n(resume.as_usize())));
                    o.push(("drop", drop.map(|x| n(x.as_usize())).unwrap_or(J::Null)));
                }
                TerminatorKind::CoroutineDrop => o.push(("k", s("cdrop"))),
                _ => o.push(("k", s("other"))),
            }
            o.push(("sp", sp));
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("c", J::B(bb.is_cleanup)),
            ]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
        ]
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver::Compilation {
        let Ok(out) = std::env::var("NEXO_MIR_OUT") else {
            return rustc_driver::Compilation::Continue;
        };
        let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if krate == "build_script_build" {
            return rustc_driver::Compilation::Continue;
        }
        // 1. clone every body before anything can steal it
        let mut bodies: Vec<(LocalDefId, Body<'tcx>, Vec<Body<'tcx>>)> = vec![];
        let mut skipped = vec![];
        for d in tcx.hir_body_owners() {
            let (b, p) = tcx.mir_promoted(d);
            if b.is_stolen() || p.is_stolen() {
                skipped.push(tcx.def_path_str(d.to_def_id()));
                continue;
            }
            let bb = b.borrow().clone();
            let pp: Vec<Body<'tcx>> = p.borrow().iter().cloned().collect();
            bodies.push((d, bb, pp));
        }
        let mut cx = Cx { tcx, tys: HashMap::new(), tyout: vec![], adts: HashMap::new(), adt_out: vec![] };
        let mut fns = vec![];
        let mut consts = vec![];
        for (d, b, proms) in &bodies {
            let did = d.to_def_id();
            let env = TypingEnv::post_analysis(tcx, did);
            let kind = tcx.def_kind(did);
            let ks = match kind {
                DefKind::Fn => "fn",
                DefKind::AssocFn => "assocfn",
                DefKind::Closure => {
                    if tcx.is_coroutine(did) {
                        "coroutine"
                    } else {
                        "closure"
                    }
                }
                _ => "const",
            };
            if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. }) {
                let t = tcx.type_of(did).instantiate_identity().skip_normalization();
                if let Ok(v) = tcx.const_eval_poly(did) {
                    let tj = cx.ty(env, t);
                    let mut o = vec![("path", s(cx.path(did))), ("ty", tj)];
                    let tn = cx.norm(env, t);
                    cx.cval(&mut o, v, tn);
                    let sp = cx.span(tcx.def_span(did));
                    o.push(("span", sp));
                    consts.push(J::O(o));
                }
            }
            let mut o = vec![("path", s(cx.path(did))), ("kind", s(ks))];
            let sp = cx.span(tcx.def_span(did));
            o.push(("span", sp));
            o.push(("parent", s(cx.path(tcx.parent(did)))));
            if matches!(kind, DefKind::AssocFn) {
                if let Some(i) = tcx.impl_of_assoc(did) {
                    let st = tcx.type_of(i).instantiate_identity().skip_normalization();
                    let sj = cx.ty(env, st);
                    o.push(("self", sj));
                    if let Some(tr) = tcx.impl_opt_trait_ref(i) {
                        o.push(("trait", s(cx.path(tr.skip_binder().def_id))));
                    }
                }
            }
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
                o.push(("async", J::B(tcx.asyncness(did).is_async())));
                o.push(("name", s(tcx.item_name(did).to_string())));
            }
            if matches!(kind, DefKind::Closure) {
                let ups: Vec<J> = tcx.closure_captures(*d).iter().map(|c| J::A(vec![s(c.to_symbol().to_string()), J::B(c.is_by_ref())])).collect();
                o.push(("upvars", J::A(ups)));
            }
            o.extend(cx.body(env, b));
            let pj: Vec<J> = proms.iter().map(|p| J::O(cx.body(env, p))).collect();
            o.push(("promoted", J::A(pj)));
            fns.push(J::O(o));
        }
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c).contains("Executable"));
        let j = J::O(vec![
            ("crate", s(krate.clone())),
            ("kind", s(if is_bin { "bin" } else { "lib" })),
            ("skipped", J::A(skipped.into_iter().map(s).collect())),
            ("fns", J::A(fns)),
            ("consts", J::A(consts)),
            ("adts", J::A(std::mem::take(&mut cx.adt_out))),
            ("types", J::A(std::mem::take(&mut cx.tyout))),
        ]);
        let mut o = String::new();
        j.w(&mut o);
        let f = format!("{}/{}-{}.json", out, krate, if is_bin { "bin" } else { "lib" });
        std::fs::write(&f, o).expect("write MIR dump");
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
