//! MIR fact extractor: a rustc driver used as cargo's RUSTC_WORKSPACE_WRAPPER.
//! For the target crate (env MIRDUMP_CRATE) it writes the MIR of every body (as built, before
//! borrowck/drop elaboration), the ADTs, impls and callee resolutions to env MIRDUMP_OUT as JSON.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_interface::interface;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{i}");
            }
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::Obj(a) => {
                o.push('{');
                for (i, (k, x)) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.to_string()).w(o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn n(x: usize) -> J {
    J::Int(x as i128)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tymap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeSet<DefIdKey>,
    adt_ids: Vec<DefId>,
    ext_seen: BTreeSet<DefIdKey>,
    ext: Vec<DefId>,
}
type DefIdKey = (u32, u32);
fn key(d: DefId) -> DefIdKey {
    (d.krate.as_u32(), d.index.as_u32())
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_no_visible_paths!(
            self.tcx.def_path_str(d)
        ))
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::Arr(vec![s(f), n(l.line), n(l.col.0 + 1)])
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for g in a.iter() {
            if let Some(t) = g.as_type() {
                v.push(self.ty(t));
            }
        }
        J::Arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.tyid(t))
    }
    fn tyid(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(&i) = self.tymap.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tymap.insert(t, i);
        let mut o: Vec<(&'static str, J)> = vec![];
        let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{t}"));
        match t.kind() {
            ty::Adt(d, a) => {
                o.push(("k", s("adt")));
                o.push(("n", s(self.path(d.did()))));
                o.push(("l", J::Bool(d.did().is_local())));
                let a = self.args(a);
                o.push(("a", a));
                if self.adts.insert(key(d.did())) {
                    self.adt_ids.push(d.did());
                }
            }
            ty::Ref(_, t2, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*t2);
                o.push(("a", J::Arr(vec![x])));
            }
            ty::RawPtr(t2, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::Bool(m.is_mut())));
                let x = self.ty(*t2);
                o.push(("a", J::Arr(vec![x])));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v: Vec<J> = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::Arr(v)));
            }
            ty::Slice(t2) => {
                o.push(("k", s("slice")));
                let x = self.ty(*t2);
                o.push(("a", J::Arr(vec![x])));
            }
            ty::Array(t2, _) => {
                o.push(("k", s("array")));
                let x = self.ty(*t2);
                o.push(("a", J::Arr(vec![x])));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("n", s(p.name.as_str())));
            }
            ty::FnDef(d, a) => {
                o.push(("k", s("fndef")));
                o.push(("n", s(self.path(*d))));
                let a = self.args(a.skip_binder());
                o.push(("a", a));
            }
            ty::Closure(d, a) => {
                o.push(("k", s("closure")));
                o.push(("n", s(self.path(*d))));
                let a = self.args(a);
                o.push(("a", a));
            }
            ty::Coroutine(d, a) => {
                o.push(("k", s("coroutine")));
                o.push(("n", s(self.path(*d))));
                let a = self.args(a);
                o.push(("a", a));
            }
            ty::Alias(_, al) => {
                o.push(("k", s("alias")));
                o.push(("n", s(txt.clone())));
                let a = self.args(al.args);
                o.push(("a", a));
            }
            ty::Bool => o.push(("k", s("bool"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char | ty::Str => {
                o.push(("k", s("prim")));
                o.push(("n", s(txt.clone())));
            }
            _ => o.push(("k", s("other"))),
        }
        o.push(("s", s(txt)));
        self.types[i] = J::Obj(o);
        i
    }

    fn place(&mut self, b: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for (base, e) in p.iter_projections() {
            let bt = base.ty(&b.local_decls, self.tcx);
            let x = match e {
                ProjectionElem::Deref => {
                    let raw = bt.ty.is_raw_ptr();
                    J::Arr(vec![s(if raw { "*raw" } else { "*" })])
                }
                ProjectionElem::Field(f, fty) => {
                    let mut name = format!("{}", f.as_usize());
                    let mut var = J::Null;
                    match bt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if !d.is_box() || true {
                                let vd = d.variant(vi);
                                name = vd.fields[f].name.to_string();
                                if d.is_enum() {
                                    var = s(vd.name.as_str());
                                }
                            }
                        }
                        _ => {}
                    }
                    let t = self.ty(fty);
                    J::Arr(vec![s("."), s(name), var, t])
                }
                ProjectionElem::Downcast(nm, vi) => J::Arr(vec![
                    s("as"),
                    match nm {
                        Some(x) => s(x.as_str()),
                        None => s(format!("v{}", vi.as_usize())),
                    },
                ]),
                ProjectionElem::Index(l) => J::Arr(vec![s("[]"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![s("[c]"), n(offset as usize), J::Bool(from_end)])
                }
                _ => J::Arr(vec![s("?"), s(format!("{e:?}"))]),
            };
            v.push(x);
        }
        J::Arr(v)
    }
    fn note_ext(&mut self, d: DefId) {
        if !d.is_local() && self.ext_seen.insert(key(d)) {
            self.ext.push(d);
        }
    }
    fn callee(&mut self, env: TypingEnv<'tcx>, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            self.note_ext(d);
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(self.path(d))));
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("local", J::Bool(d.is_local())));
        let ga = self.args(a);
        o.push(("a", ga));
        if tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Struct, rustc_hir::def::CtorKind::Fn)
            || tcx.def_kind(d) == DefKind::Ctor(rustc_hir::def::CtorOf::Variant, rustc_hir::def::CtorKind::Fn)
        {
            let sig = tcx.fn_sig(d).instantiate(tcx, a).skip_norm_wip();
            let out = sig.skip_binder().output();
            let parent = tcx.parent(d);
            o.push(("ctor", s(tcx.item_name(parent).to_string())));
            let t = self.ty(out);
            o.push(("ctor_ty", t));
            return J::Obj(o);
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let st = self.ty(a.type_at(0));
            o.push(("self", st));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, a).skip_norm_wip();
            let st = self.ty(st);
            o.push(("self", st));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let a2 = tcx.erase_and_anonymize_regions(a);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                let rd = i.def_id();
                if matches!(tcx.def_kind(rd), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
                    self.note_ext(rd);
                }
                if rd != d {
                    o.push(("rpath", s(self.path(rd))));
                    o.push(("rlocal", J::Bool(rd.is_local())));
                    let ra = self.args(i.args);
                    o.push(("ra", ra));
                }
            }
        }
        J::Obj(o)
    }
    fn operand(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::Arr(vec![s("copy"), self.place(b, p)]),
            Operand::Move(p) => J::Arr(vec![s("move"), self.place(b, p)]),
            Operand::Constant(c) => self.constant(env, &c.const_),
            Operand::RuntimeChecks(r) => J::Arr(vec![s("rtcheck"), s(format!("{r:?}"))]),
        }
    }
    fn constant(&mut self, env: TypingEnv<'tcx>, c: &Const<'tcx>) -> J {
        let t = c.ty();
        let tj = self.ty(t);
        if let ty::FnDef(d, a) = t.kind() {
            let cj = self.callee(env, *d, a.skip_binder());
            return J::Arr(vec![s("fn"), tj, cj]);
        }
        let is_scalar = t.is_integral() || t.is_bool() || t.is_char();
        if is_scalar {
            if let Some(bits) = c.try_eval_bits(self.tcx, env) {
                let v = if let ty::Int(it) = t.kind() {
                    let sz = it.bit_width().unwrap_or(64);
                    let sh = 128 - sz as u32;
                    ((bits as i128) << sh) >> sh
                } else {
                    bits as i128
                };
                return J::Arr(vec![s("int"), tj, J::Int(v)]);
            }
        }
        let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{c}"));
        let mut def = J::Null;
        if let Const::Unevaluated(u, _) = c {
            def = s(self.path(u.def));
        }
        J::Arr(vec![s("const"), tj, s(txt), def])
    }
    fn rvalue(&mut self, b: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![s("use"), self.operand(b, env, o)]),
            Rvalue::Repeat(o, _) => J::Arr(vec![s("repeat"), self.operand(b, env, o)]),
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::Arr(vec![s("ref"), s(m), self.place(b, p)])
            }
            Rvalue::RawPtr(k, p) => J::Arr(vec![s("rawptr"), s(format!("{k:?}")), self.place(b, p)]),
            Rvalue::Cast(k, o, t) => {
                let tj = self.ty(*t);
                let from = o.ty(&b.local_decls, self.tcx);
                let fj = self.ty(from);
                J::Arr(vec![s("cast"), s(format!("{k:?}")), self.operand(b, env, o), tj, fj])
            }
            Rvalue::BinaryOp(op, x) => {
                let t = x.0.ty(&b.local_decls, self.tcx);
                let tj = self.ty(t);
                J::Arr(vec![
                    s("bin"),
                    s(format!("{op:?}")),
                    self.operand(b, env, &x.0),
                    self.operand(b, env, &x.1),
                    tj,
                ])
            }
            Rvalue::UnaryOp(op, x) => J::Arr(vec![s("un"), s(format!("{op:?}")), self.operand(b, env, x)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let tj = self.ty(t);
                J::Arr(vec![s("discr"), self.place(b, p), tj])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(b, env, o)).collect();
                let mut names = vec![];
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, af) => {
                        let ad = self.tcx.adt_def(*d);
                        let vd = ad.variant(*vi);
                        if let Some(af) = af {
                            names.push(s(vd.fields[*af].name.as_str()));
                        } else {
                            for f in vd.fields.iter() {
                                names.push(s(f.name.as_str()));
                            }
                        }
                        let t = Ty::new_adt(self.tcx, ad, a);
                        let tj = self.ty(t);
                        J::Arr(vec![
                            s("adt"),
                            tj,
                            if ad.is_enum() { s(vd.name.as_str()) } else { J::Null },
                        ])
                    }
                    AggregateKind::Closure(d, a) => {
                        let ga = self.args(a);
                        J::Arr(vec![s("closure"), s(self.path(*d)), ga])
                    }
                    AggregateKind::Coroutine(d, a) => {
                        let ga = self.args(a);
                        J::Arr(vec![s("coroutine"), s(self.path(*d)), ga])
                    }
                    AggregateKind::CoroutineClosure(d, _) => J::Arr(vec![s("coroutineclosure"), s(self.path(*d))]),
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t);
                        J::Arr(vec![s("rawptr"), t])
                    }
                };
                J::Arr(vec![s("agg"), kj, J::Arr(names), J::Arr(os)])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![s("use"), J::Arr(vec![s("copy"), self.place(b, p)])]),
            other => J::Arr(vec![s("other"), s(format!("{other:?}"))]),
        }
    }
    fn body(&mut self, d: DefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, d);
        let mut o: Vec<(&'static str, J)> = vec![];
        o.push(("path", s(self.path(d))));
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        o.push(("kind", s(format!("{:?}", tcx.def_kind(d)))));
        o.push(("span", self.span(b.span)));
        let endl = tcx.sess.source_map().lookup_char_pos(b.span.source_callsite().hi()).line;
        o.push(("end", n(endl)));
        o.push(("argc", n(b.arg_count)));
        o.push(("vis", s(format!("{:?}", tcx.visibility(tcx.typeck_root_def_id(d))))));
        o.push(("coroutine", J::Bool(b.coroutine.is_some())));
        if let Some(im) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                o.push(("impl_trait", s(self.path(tr.def_id))));
                let t = self.ty(tr.self_ty());
                o.push(("impl_self", t));
            } else {
                let t = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let t = self.ty(t);
                o.push(("impl_self", t));
            }
        }
        // generics in order (types only), including parents
        let ga = ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id(d));
        let ga = self.args(ga);
        o.push(("generics", ga));
        if let (true, Some(did)) = (tcx.is_closure_like(d), d.as_local()) {
            let caps: Vec<J> = tcx
                .closure_captures(did)
                .iter()
                .map(|c| s(c.var_ident.name.as_str()))
                .collect();
            o.push(("captures", J::Arr(caps)));
        }
        let mut locals = vec![];
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                }
            }
        }
        for (l, ld) in b.local_decls.iter_enumerated() {
            let t = self.ty(ld.ty);
            let nm = match names.get(&l.as_usize()) {
                Some(x) => s(x.clone()),
                None => J::Null,
            };
            locals.push(J::Arr(vec![t, nm]));
        }
        o.push(("locals", J::Arr(locals)));
        let mut bbs = vec![];
        for (_bb, data) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stm in &data.statements {
                let j = match &stm.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        J::Arr(vec![
                            s("="),
                            self.place(b, p),
                            self.rvalue(b, env, r),
                            self.span(stm.source_info.span),
                        ])
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => J::Arr(vec![
                        s("setdiscr"),
                        self.place(b, place),
                        n(variant_index.as_usize()),
                    ]),
                    StatementKind::StorageDead(l) => J::Arr(vec![s("dead"), n(l.as_usize())]),
                    StatementKind::StorageLive(l) => J::Arr(vec![s("live"), n(l.as_usize())]),
                    StatementKind::Intrinsic(x) => J::Arr(vec![s("intrinsic"), s(format!("{x:?}"))]),
                    _ => continue,
                };
                st.push(j);
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_usize())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let mut v = vec![];
                    for (val, bb) in targets.iter() {
                        v.push(J::Arr(vec![J::Int(val as i128), n(bb.as_usize())]));
                    }
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dj = self.ty(dt);
                    J::Arr(vec![
                        s("switch"),
                        self.operand(b, env, discr),
                        J::Arr(v),
                        n(targets.otherwise().as_usize()),
                        dj,
                        sp,
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::Arr(vec![s("resume")]),
                TerminatorKind::Drop { place, target, unwind, replace, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pj = self.ty(pt);
                    J::Arr(vec![
                        s("drop"),
                        self.place(b, place),
                        pj,
                        n(target.as_usize()),
                        J::Bool(*replace),
                        unwind_j(unwind),
                        sp,
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let a: Vec<J> = args.iter().map(|x| self.operand(b, env, &x.node)).collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dj = self.ty(dt);
                    J::Arr(vec![
                        s("call"),
                        self.operand(b, env, func),
                        J::Arr(a),
                        self.place(b, destination),
                        match target {
                            Some(t) => n(t.as_usize()),
                            None => J::Null,
                        },
                        dj,
                        unwind_j(unwind),
                        sp,
                    ])
                }
                TerminatorKind::Assert { cond, expected, target, msg, .. } => J::Arr(vec![
                    s("assert"),
                    self.operand(b, env, cond),
                    J::Bool(*expected),
                    n(target.as_usize()),
                    s(format!("{msg:?}")),
                    sp,
                ]),
                TerminatorKind::Yield { value, resume, resume_arg, drop } => J::Arr(vec![
                    s("yield"),
                    self.operand(b, env, value),
                    n(resume.as_usize()),
                    self.place(b, resume_arg),
                    match drop {
                        Some(t) => n(t.as_usize()),
                        None => J::Null,
                    },
                    sp,
                ]),
                TerminatorKind::FalseEdge { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::Arr(vec![s("goto"), n(real_target.as_usize())]),
                TerminatorKind::CoroutineDrop => J::Arr(vec![s("cordrop")]),
                x => J::Arr(vec![s("other"), s(format!("{x:?}"))]),
            };
            bbs.push(J::Obj(vec![
                ("c", J::Bool(data.is_cleanup)),
                ("s", J::Arr(st)),
                ("t", tj),
            ]));
        }
        o.push(("bbs", J::Arr(bbs)));
        J::Obj(o)
    }
}
fn unwind_j(u: &UnwindAction) -> J {
    match u {
        UnwindAction::Cleanup(b) => n(b.as_usize()),
        _ => J::Null,
    }
}

struct Cb {
    bodies: Vec<(LocalDefId, Body<'static>)>,
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, c: &mut interface::Config) {
        // the analysis needs unoptimised generic MIR only; no codegen options are touched
        let _ = c;
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        for &d in tcx.mir_keys(()) {
            let k = tcx.def_kind(d);
            if !matches!(
                k,
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::SyntheticCoroutineBody
            ) {
                continue;
            }
            let b: Body<'tcx> = tcx.mir_built(d).borrow().clone();
            // SAFETY: the arena behind 'tcx outlives after_analysis, where the bodies are consumed
            let b: Body<'static> = unsafe { std::mem::transmute(b) };
            self.bodies.push((d, b));
        }
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut cx = Cx { tcx, types: vec![], tymap: HashMap::new(), adts: BTreeSet::new(), adt_ids: vec![], ext_seen: BTreeSet::new(), ext: vec![] };
        let mut fns = vec![];
        for (d, b) in std::mem::take(&mut self.bodies) {
            let b: Body<'tcx> = unsafe { std::mem::transmute(b) };
            fns.push(cx.body(d.to_def_id(), &b));
        }
        // bodies of small std helpers (Option/Result combinators and the like), as encoded in the sysroot
        let mut i = 0;
        while i < cx.ext.len() {
            let d = cx.ext[i];
            i += 1;
            let p = cx.path(d);
            let ok = std::env::var("MIRDUMP_EXT").unwrap_or_default().split(':').any(|x| !x.is_empty() && p.starts_with(x));
            if !ok || !tcx.is_mir_available(d) || tcx.is_const_fn(d) && false {
                continue;
            }
            let b = tcx.optimized_mir(d);
            let mut j = cx.body(d, b);
            if let J::Obj(v) = &mut j {
                v.push(("ext", J::Bool(true)));
            }
            fns.push(j);
        }
        // impls
        let mut impls = vec![];
        for (tr, ids) in tcx.all_local_trait_impls(()) {
            for id in ids {
                let did = id.to_def_id();
                let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                let st = cx.ty(r.self_ty());
                let mut ms = vec![];
                for it in tcx.associated_items(did).in_definition_order() {
                    if it.is_fn() {
                        ms.push(J::Arr(vec![s(it.name().as_str()), s(cx.path(it.def_id))]));
                    }
                }
                let hdr = tcx.impl_trait_header(did);
                let sp = cx.span(tcx.def_span(did));
                impls.push(J::Obj(vec![
                    ("trait", s(cx.path(*tr))),
                    ("self", st),
                    ("unsafe", J::Bool(hdr.safety.is_unsafe())),
                    ("derived", J::Bool(tcx.is_builtin_derived(did))),
                    ("methods", J::Arr(ms)),
                    ("span", sp),
                ]));
            }
        }
        // local adts are always included
        for id in tcx.hir_crate_items(()).definitions() {
            if matches!(tcx.def_kind(id), DefKind::Struct | DefKind::Enum | DefKind::Union) {
                let t = tcx.type_of(id.to_def_id()).instantiate_identity().skip_norm_wip();
                cx.ty(t);
            }
        }
        let mut adts = vec![];
        let mut i = 0;
        while i < cx.adt_ids.len() {
            let did = cx.adt_ids[i];
            i += 1;
            let ad = tcx.adt_def(did);
            let local = did.is_local();
            let mut vs = vec![];
            if ad.is_enum() || local {
                for (vi, v) in ad.variants().iter_enumerated() {
                    let disc = if ad.is_enum() {
                        ad.discriminant_for_variant(tcx, vi).val as i128
                    } else {
                        0
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let t = if local {
                            let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            cx.ty(ft)
                        } else {
                            J::Null
                        };
                        fs.push(J::Arr(vec![s(f.name.as_str()), t, J::Bool(f.vis.is_public())]));
                    }
                    vs.push(J::Obj(vec![("n", s(v.name.as_str())), ("d", J::Int(disc)), ("f", J::Arr(fs))]));
                }
            }
            let dtor = match tcx.adt_destructor(did) {
                Some(d) if local => s(cx.path(d.did)),
                _ => J::Null,
            };
            let ga = ty::GenericArgs::identity_for_item(tcx, did);
            let ga = cx.args(ga);
            let sp = if local { cx.span(tcx.def_span(did)) } else { J::Null };
            adts.push(J::Obj(vec![
                ("n", s(cx.path(did))),
                ("enum", J::Bool(ad.is_enum())),
                ("local", J::Bool(local)),
                ("generics", ga),
                ("dtor", dtor),
                ("vs", J::Arr(vs)),
                ("span", sp),
            ]));
        }
        // unsafe functions and impls declared in the crate
        let mut o = String::new();
        J::Obj(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).as_str())),
            ("types", J::Arr(std::mem::take(&mut cx.types))),
            ("adts", J::Arr(adts)),
            ("impls", J::Arr(impls)),
            ("fns", J::Arr(fns)),
        ])
        .w(&mut o);
        std::fs::write(&self.out, o).expect("write dump");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() -> std::process::ExitCode {
    // invoked as: driver <rustc> <args...>
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let out = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let mut name = String::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned().unwrap_or_default();
        }
    }
    let is = !want.is_empty() && name == want && !out.is_empty();
    rustc_driver::catch_with_exit_code(|| {
        if is {
            rustc_driver::compiler_entrypoint(&args, &mut Cb { bodies: vec![], out });
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    })
}
