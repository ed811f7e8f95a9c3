//! rustc driver that dumps the MIR of the analysed crates as JSON facts.
//!
//! It behaves exactly like rustc (used as RUSTC_WORKSPACE_WRAPPER under `cargo check`) and, once
//! analysis has succeeded, writes `$OSMG_FACTS_DIR/<crate>-<kind>.json`.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_interface::interface::Compiler;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, print::*, Instance, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(n) => {
                let _ = write!(o, "{}", n);
            }
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}
fn n(x: usize) -> J {
    J::N(x as i128)
}

// ------------------------------------------------------------------ dump
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    is_bin: bool,
    adts: std::collections::BTreeMap<String, J>,
}

macro_rules! pretty {
    ($e:expr) => {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!($e)))
    };
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        let krate = self.tcx.crate_name(d.krate);
        // the binary's crate may carry the same name as the library's
        let pre = if d.is_local() && self.is_bin { "bin!" } else { "" };
        format!("{}{}", pre, format!("{}{}", krate, self.tcx.def_path(d).to_string_no_crate_verbose()))
    }
    fn path(&self, d: DefId) -> String {
        pretty!(self.tcx.def_path_str(d))
    }
    fn ty(&self, t: ty::Ty<'tcx>) -> J {
        J::S(pretty!(t.to_string()))
    }
    fn span(&self, sp: Span) -> J {
        // the outermost expansion site inside the user's file
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let f = lo.file.name.prefer_local_unconditionally().to_string();
        J::A(vec![J::S(f), n(lo.line), n(lo.col.0 + 1), n(hi.line)])
    }
    fn macro_name(&self, sp: Span) -> J {
        let mut names = vec![];
        for e in sp.macro_backtrace() {
            names.push(J::S(e.kind.descr().to_string()));
        }
        J::A(names)
    }
    fn note_adt(&mut self, t: ty::Ty<'tcx>) {
        if let ty::Adt(def, _) = t.kind() {
            let p = self.path(def.did());
            if self.adts.contains_key(&p) {
                return;
            }
            let mut vs = vec![];
            for (vi, v) in def.variants().iter_enumerated() {
                let discr = if def.is_enum() {
                    def.discriminant_for_variant(self.tcx, vi).val as i128
                } else {
                    0
                };
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let fty = pretty!(self.tcx.type_of(f.did).skip_binder().to_string());
                    fs.push(J::A(vec![
                        s(f.name),
                        J::S(fty),
                        J::B(f.vis.is_public()),
                        J::S(format!("{:?}", f.vis)),
                    ]));
                }
                vs.push(J::O(vec![("name", s(v.name)), ("discr", J::N(discr)), ("fields", J::A(fs))]));
            }
            self.adts.insert(
                p.clone(),
                J::O(vec![
                    ("path", J::S(p)),
                    ("enum", J::B(def.is_enum())),
                    ("local", J::B(def.did().is_local())),
                    ("variants", J::A(vs)),
                ]),
            );
        }
    }
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_usize())];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(body, self.tcx);
            self.note_adt(bt.ty);
            let e = match elem {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, fty) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            def.variant(vi).fields[f].name.to_string()
                        }
                        _ => f.as_usize().to_string(),
                    };
                    let owner = match bt.ty.kind() {
                        ty::Adt(def, _) => self.path(def.did()),
                        ty::Closure(d, _) => self.key(*d),
                        _ => String::from("()"),
                    };
                    let ft = self.ty(fty);
                    J::A(vec![s("f"), J::S(name), J::S(owner), ft, n(f.as_usize())])
                }
                ProjectionElem::Downcast(_, vi) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => def.variant(vi).name.to_string(),
                        _ => vi.as_usize().to_string(),
                    };
                    J::A(vec![s("v"), J::S(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("ci"), n(offset as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("oc")]),
                ProjectionElem::UnwrapUnsafeBinder(_) => J::A(vec![s("ub")]),
                #[allow(unreachable_patterns)]
                _ => J::A(vec![s("?")]),
            };
            v.push(e);
        }
        let t = p.ty(body, self.tcx).ty;
        self.note_adt(t);
        J::A(v)
    }
    fn konst(&mut self, body: &Body<'tcx>, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let mut o = vec![("k", s("const")), ("ty", self.ty(t))];
        self.note_adt(t);
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(pr) = u.promoted {
                o.push(("promoted", n(pr.as_usize())));
                o.push(("owner", J::S(self.key(u.def))));
            } else {
                o.push(("named", J::S(self.path(u.def))));
            }
        }
        if let ty::FnDef(d, args) = t.kind() {
            let f = self.fndef(body, *d, args.skip_binder());
            o.push(("fn", f));
            return J::O(o);
        }
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        if let Ok(val) = c.const_.eval(tcx, env, c.span) {
            let inner = match t.kind() {
                ty::Ref(_, inner, _) => Some(*inner),
                _ => None,
            };
            if let Some(sc) = val.try_to_scalar_int() {
                let size = sc.size();
                let bits = sc.to_bits(size);
                match t.kind() {
                    ty::Bool => o.push(("bool", J::B(bits != 0))),
                    ty::Int(_) => {
                        let v = size.sign_extend(bits) as i128;
                        o.push(("int", J::N(v)));
                    }
                    ty::Uint(_) | ty::Char => o.push(("int", J::S(bits.to_string()))),
                    ty::Float(ty::FloatTy::F64) => {
                        o.push(("float", J::S(format!("{:?}", f64::from_bits(bits as u64)))))
                    }
                    ty::Float(ty::FloatTy::F32) => {
                        o.push(("float", J::S(format!("{:?}", f32::from_bits(bits as u32)))))
                    }
                    ty::Adt(..) => o.push(("bits", J::S(bits.to_string()))),
                    _ => o.push(("bits", J::S(bits.to_string()))),
                }
            } else if let ConstValue::ZeroSized = val {
                o.push(("zst", J::B(true)));
            } else if let Some(inner) = inner {
                let is_bytes = match inner.kind() {
                    ty::Str => true,
                    ty::Slice(e) => matches!(e.kind(), ty::Uint(ty::UintTy::U8)),
                    _ => false,
                };
                if is_bytes {
                    if let Some(b) = val.try_get_slice_bytes_for_diagnostics(tcx) {
                        match std::str::from_utf8(b) {
                            Ok(x) if matches!(inner.kind(), ty::Str) => o.push(("str", s(x))),
                            _ => o.push((
                                "bytes",
                                J::A(b.iter().map(|x| n(*x as usize)).collect()),
                            )),
                        }
                    }
                } else if let ty::Array(e, len) = inner.kind() {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let (Some(len), ConstValue::Scalar(sc)) =
                            (len.try_to_target_usize(tcx), val)
                        {
                            if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                                let (prov, off) = p.into_raw_parts();
                                if let rustc_middle::mir::interpret::GlobalAlloc::Memory(a) =
                                    tcx.global_alloc(prov.alloc_id())
                                {
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                        off.bytes_usize()..off.bytes_usize() + len as usize,
                                    );
                                    o.push((
                                        "bytes",
                                        J::A(b.iter().map(|x| n(*x as usize)).collect()),
                                    ));
                                }
                            }
                        }
                    }
                }
            }
            // destructured ADT constants (enum values, newtypes)
            if let ty::Adt(def, _) = t.kind() {
                if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    if let Some(vi) = dc.variant {
                        o.push(("variant", s(def.variant(vi).name)));
                    }
                }
            }
        }
        J::O(o)
    }
    fn fndef(&mut self, body: &Body<'tcx>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let ga = J::A(args.iter().map(|a| J::S(pretty!(a.to_string()))).collect());
        let mut o = vec![("key", J::S(self.key(d))), ("path", J::S(self.path(d))), ("gargs", ga)];
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            o.push(("ctor", J::S(self.path(tcx.parent(d)))));
            // the ADT the constructor builds
            let sig = tcx.fn_sig(d).skip_binder().output().skip_binder();
            self.note_adt(sig);
            if let ty::Adt(def, _) = sig.kind() {
                o.push(("adt", J::S(self.path(def.did()))));
                let par = tcx.parent(d);
                o.push(("variant", s(tcx.item_name(par))));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", J::S(self.path(tr))));
            let st = args.types().next();
            if let Some(st) = st {
                o.push(("self", self.ty(st)));
            }
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            o.push(("impl_self", J::S(pretty!(tcx.type_of(im).skip_binder().to_string()))));
        }
        let env = TypingEnv::post_analysis(tcx, body.source.def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
            let rd = inst.def_id();
            o.push(("rkey", J::S(self.key(rd))));
            o.push(("rpath", J::S(self.path(rd))));
            o.push(("rargs", J::A(inst.args.iter().map(|a| J::S(pretty!(a.to_string()))).collect())));
            o.push(("rkind", J::S(format!("{:?}", inst.def).split('(').next().unwrap_or("").to_string())));
            if let Some(im) = tcx.impl_of_assoc(rd) {
                o.push(("rself", J::S(pretty!(tcx.type_of(im).skip_binder().to_string()))));
            }
        }
        J::O(o)
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(body, p);
                J::O(vec![("k", s("copy")), ("p", p)])
            }
            Operand::Move(p) => {
                let p = self.place(body, p);
                J::O(vec![("k", s("move")), ("p", p)])
            }
            Operand::Constant(c) => self.konst(body, c),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("other")), ("d", J::S(format!("{:?}", op)))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, rv: &Rvalue<'tcx>) -> J {
        match rv {
            Rvalue::Use(op, ..) => {
                let x = self.operand(body, op);
                J::O(vec![("k", s("use")), ("o", x)])
            }
            Rvalue::Repeat(op, c) => {
                let x = self.operand(body, op);
                J::O(vec![("k", s("repeat")), ("o", x), ("n", J::S(c.to_string()))])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let x = self.place(body, p);
                J::O(vec![("k", s("ref")), ("mut", J::B(m)), ("p", x)])
            }
            Rvalue::RawPtr(_, p) => {
                let x = self.place(body, p);
                J::O(vec![("k", s("rawptr")), ("p", x)])
            }
            Rvalue::Cast(ck, op, t) => {
                let x = self.operand(body, op);
                let from = op.ty(body, self.tcx);
                let ft = self.ty(from);
                let tt = self.ty(*t);
                J::O(vec![
                    ("k", s("cast")),
                    ("ck", J::S(format!("{:?}", ck))),
                    ("o", x),
                    ("from", ft),
                    ("to", tt),
                ])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0);
                let b = self.operand(body, &ab.1);
                let t = ab.0.ty(body, self.tcx);
                let t = self.ty(t);
                J::O(vec![("k", s("bin")), ("op", J::S(format!("{:?}", op))), ("a", a), ("b", b), ("ty", t)])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(body, a);
                J::O(vec![("k", s("un")), ("op", J::S(format!("{:?}", op))), ("o", a)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                self.note_adt(t);
                let x = self.place(body, p);
                let tt = match t.kind() {
                    ty::Adt(def, _) => J::S(self.path(def.did())),
                    _ => self.ty(t),
                };
                J::O(vec![("k", s("discr")), ("p", x), ("ty", tt)])
            }
            Rvalue::Aggregate(ak, ops) => {
                let xs: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let mut o = vec![("k", s("agg"))];
                match &**ak {
                    AggregateKind::Array(_) => o.push(("a", s("array"))),
                    AggregateKind::Tuple => o.push(("a", s("tuple"))),
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let def = self.tcx.adt_def(*d);
                        let t = self.tcx.type_of(*d).skip_binder();
                        self.note_adt(t);
                        o.push(("a", s("adt")));
                        o.push(("adt", J::S(self.path(*d))));
                        o.push(("variant", s(def.variant(*vi).name)));
                        let names: Vec<J> = match active {
                            Some(f) => vec![s(def.variant(*vi).fields[*f].name)],
                            None => def.variant(*vi).fields.iter().map(|f| s(f.name)).collect(),
                        };
                        o.push(("fields", J::A(names)));
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("a", s("closure")));
                        o.push(("fn", J::S(self.key(*d))));
                    }
                    other => {
                        o.push(("a", s("other")));
                        o.push(("d", J::S(format!("{:?}", other))));
                    }
                }
                o.push(("ops", J::A(xs)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => {
                let x = self.place(body, p);
                J::O(vec![("k", s("use")), ("o", J::O(vec![("k", s("copy")), ("p", x)]))])
            }
            #[allow(unreachable_patterns)]
            other => J::O(vec![("k", s("other")), ("d", J::S(format!("{:?}", other)))]),
        }
    }
    fn body(&mut self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut locals = vec![];
        for (_, d) in body.local_decls.iter_enumerated() {
            self.note_adt(d.ty);
            let mut t = d.ty;
            while let ty::Ref(_, i, _) = t.kind() {
                t = *i;
            }
            self.note_adt(t);
            locals.push(self.ty(d.ty));
        }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = &v.value {
                let pj = self.place(body, p);
                names.push(J::A(vec![s(v.name), pj]));
            }
        }
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stmt in bb.statements.iter() {
                let sp = self.span(stmt.source_info.span);
                match &stmt.kind {
                    StatementKind::Assign(b) => {
                        let (p, rv) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, rv);
                        st.push(J::O(vec![("s", s("=")), ("p", pj), ("r", rj), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        st.push(J::O(vec![
                            ("s", s("setdiscr")),
                            ("p", pj),
                            ("v", n(variant_index.as_usize())),
                            ("sp", sp),
                        ]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::O(vec![("s", s("dead")), ("l", n(l.as_usize()))]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::O(vec![("s", s("live")), ("l", n(l.as_usize()))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let mac = self.macro_name(t.source_info.span);
            let mut o = match &t.kind {
                TerminatorKind::Goto { target, .. } => vec![("t", s("goto")), ("to", n(target.as_usize()))],
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(body, discr);
                    let dt = discr.ty(body, tcx);
                    let dt = self.ty(dt);
                    let mut ts = vec![];
                    for (v, b) in targets.iter() {
                        ts.push(J::A(vec![J::S(v.to_string()), n(b.as_usize())]));
                    }
                    vec![
                        ("t", s("switch")),
                        ("o", d),
                        ("ty", dt),
                        ("targets", J::A(ts)),
                        ("otherwise", n(targets.otherwise().as_usize())),
                    ]
                }
                TerminatorKind::UnwindResume => vec![("t", s("resume"))],
                TerminatorKind::UnwindTerminate(_) => vec![("t", s("abort"))],
                TerminatorKind::Return => vec![("t", s("return"))],
                TerminatorKind::Unreachable => vec![("t", s("unreachable"))],
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let dt = place.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    let p = self.place(body, place);
                    vec![
                        ("t", s("drop")),
                        ("p", p),
                        ("ty", dt),
                        ("to", n(target.as_usize())),
                        ("unwind", unw(unwind)),
                    ]
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func);
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, &x.node)).collect();
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, tcx);
                            self.ty(t)
                        })
                        .collect();
                    let d = self.place(body, destination);
                    let rt = destination.ty(body, tcx).ty;
                    let rt = self.ty(rt);
                    vec![
                        ("t", s("call")),
                        ("f", f),
                        ("args", J::A(a)),
                        ("argtys", J::A(at)),
                        ("dest", d),
                        ("ret", rt),
                        ("to", target.map(|t| n(t.as_usize())).unwrap_or(J::Null)),
                        ("unwind", unw(unwind)),
                    ]
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "BoundsCheck".to_string(),
                        AssertKind::Overflow(op, ..) => format!("Overflow({:?})", op),
                        AssertKind::OverflowNeg(_) => "OverflowNeg".to_string(),
                        AssertKind::DivisionByZero(_) => "DivisionByZero".to_string(),
                        AssertKind::RemainderByZero(_) => "RemainderByZero".to_string(),
                        _ => "Other".to_string(),
                    };
                    vec![
                        ("t", s("assert")),
                        ("c", c),
                        ("exp", J::B(*expected)),
                        ("kind", J::S(kind)),
                        ("to", n(target.as_usize())),
                        ("unwind", unw(unwind)),
                    ]
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    vec![("t", s("goto")), ("to", n(real_target.as_usize()))]
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    vec![("t", s("goto")), ("to", n(real_target.as_usize()))]
                }
                other => vec![("t", s("other")), ("d", J::S(format!("{:?}", other)))],
            };
            o.push(("sp", sp));
            o.push(("mac", mac));
            blocks.push(J::O(vec![("st", J::A(st)), ("t", J::O(o)), ("cleanup", J::B(bb.is_cleanup))]));
        }
        vec![
            ("argc", n(body.arg_count)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]
    }
}
fn unw(u: &UnwindAction) -> J {
    match u {
        UnwindAction::Cleanup(b) => n(b.as_usize()),
        _ => J::Null,
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let dir = match std::env::var("OSMG_FACTS_DIR") {
            Ok(d) => d,
            Err(_) => return Compilation::Continue,
        };
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let is_bin = tcx.crate_types().iter().any(|c| format!("{:?}", c) == "Executable");
        let mut d = D { tcx, is_bin, adts: Default::default() };
        let mut fns = vec![];
        let mut consts = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            let did = ld.to_def_id();
            let kind = tcx.def_kind(did);
            let isfn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..));
            if !isfn {
                if matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. }) {
                    consts.push(J::A(vec![J::S(d.path(did)), d.span(tcx.def_span(did))]));
                }
                continue;
            }
            if let DefKind::Ctor(..) = kind {
                continue;
            }
            let body = tcx.optimized_mir(did);
            let mut o = vec![("key", J::S(d.key(did))), ("path", J::S(d.path(did)))];
            o.push(("kind", J::S(format!("{:?}", kind))));
            o.push(("sp", d.span(tcx.def_span(did))));
            o.push(("vis", J::S(if matches!(kind, DefKind::Closure) {
                "closure".to_string()
            } else if tcx.visibility(did).is_public() {
                "pub".to_string()
            } else {
                "priv".to_string()
            })));
            o.push(("derived", J::B(tcx.impl_of_assoc(did).map(|i| tcx.is_automatically_derived(i)).unwrap_or(false))));
            if let Some(im) = tcx.impl_of_assoc(did) {
                o.push(("impl_self", J::S(pretty!(tcx.type_of(im).skip_binder().to_string()))));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    o.push(("impl_trait", J::S(pretty!(tr.skip_binder().to_string()))));
                    o.push(("impl_trait_path", J::S(d.path(tr.skip_binder().def_id))));
                }
            }
            let ga = ty::GenericArgs::identity_for_item(tcx, tcx.typeck_root_def_id(did));
            o.push(("generics", J::A(ga.iter().map(|a| J::S(pretty!(a.to_string()))).collect())));
            o.push(("name", J::S(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())));
            o.extend(d.body(body));
            let mut pr = vec![];
            for b in tcx.promoted_mir(did).iter() {
                pr.push(J::O(d.body(b)));
            }
            o.push(("promoted", J::A(pr)));
            fns.push(J::O(o));
        }
        let adts: Vec<J> = std::mem::take(&mut d.adts).into_values().collect();
        let kind = if is_bin { "bin" } else { "lib" };
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = J::O(vec![
            ("crate", J::S(name.clone())),
            ("kind", s(kind)),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("consts", J::A(consts)),
        ]);
        let mut st = String::new();
        out.w(&mut st);
        let p = format!("{}/{}-{}.json", dir, name, kind);
        let tmp = format!("{}.tmp{}", p, std::process::id());
        std::fs::write(&tmp, st).expect("facts");
        std::fs::rename(&tmp, &p).expect("facts");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: args[1] is the path of the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
