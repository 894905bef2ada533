//! mirfacts: a rustc wrapper that dumps the resolved, type-checked program (MIR) of the
//! workspace crates as JSON facts. It is used with RUSTC_WORKSPACE_WRAPPER under
//! `cargo +nightly check`. It never runs any of the code it analyses.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgKind, Instance, Ty, TyCtxt, TyKind, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};

// ---------------------------------------------------------------- JSON
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
    Map(BTreeMap<String, J>),
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(out, "{i}");
            }
            J::Str(s) => esc(s, out),
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
            J::Map(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
}
fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn i(x: impl TryInto<i128>) -> J {
    J::Int(x.try_into().ok().unwrap_or(0))
}

// ---------------------------------------------------------------- dumping
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<J>,
    ty_ids: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, J>,
    names: HashMap<DefId, String>,
    used_names: HashMap<String, usize>,
    wanted: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    fn tystr(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(def, args) => {
                let base = self.defpath(def.did());
                let a: Vec<String> = args
                    .iter()
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.tystr(t)),
                        GenericArgKind::Const(c) => Some(format!("{c}")),
                        _ => None,
                    })
                    .collect();
                if a.is_empty() {
                    base
                } else {
                    format!("{base}<{}>", a.join(", "))
                }
            }
            TyKind::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.tystr(*t)),
            TyKind::RawPtr(t, m) => format!("*{} {}", if m.is_mut() { "mut" } else { "const" }, self.tystr(*t)),
            TyKind::Slice(t) => format!("[{}]", self.tystr(*t)),
            TyKind::Array(t, n) => format!("[{}; {}]", self.tystr(*t), n),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.tystr(t)).collect();
                format!("({})", v.join(", "))
            }
            TyKind::Closure(did, _) => format!("{{closure {}}}", self.defpath(*did)),
            TyKind::FnDef(did, _) => format!("{{fn {}}}", self.defpath(*did)),
            TyKind::Dynamic(preds, _) => {
                let p = preds.principal_def_id().map(|d| self.defpath(d)).unwrap_or_default();
                format!("dyn {p}")
            }
            _ => with_no_trimmed_paths!(format!("{t}")),
        }
    }

    /// A stable, generic-free path for a definition.
    fn defpath(&self, did: DefId) -> String {
        let tcx = self.tcx;
        if let Some(n) = self.names.get(&did) {
            return n.clone();
        }
        let krate = tcx.crate_name(did.krate).to_string();
        let key = tcx.def_key(did);
        let Some(parent) = tcx.opt_parent(did) else {
            return krate;
        };
        if matches!(tcx.def_kind(did), DefKind::Impl { .. }) {
            // `self type` or `<self type as trait<args>>`
            let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let st = self.self_name(self_ty);
            if let Some(tr) = tcx.impl_opt_trait_ref(did) {
                let tr = tr.instantiate_identity().skip_norm_wip();
                let args: Vec<String> = tr
                    .args
                    .iter()
                    .skip(1)
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.tystr(t)),
                        _ => None,
                    })
                    .collect();
                let tp = self.defpath(tr.def_id);
                if args.is_empty() {
                    return format!("<{st} as {tp}>");
                } else {
                    return format!("<{st} as {tp}<{}>>", args.join(", "));
                }
            }
            return st;
        }
        let p = self.defpath(parent);
        let name = match key.disambiguated_data.data {
            rustc_hir::definitions::DefPathData::Closure => {
                format!("{{closure#{}}}", key.disambiguated_data.disambiguator)
            }
            rustc_hir::definitions::DefPathData::Ctor => return p,
            ref d => match d.get_opt_name() {
                Some(n) => n.to_string(),
                None => format!("{{{:?}#{}}}", d, key.disambiguated_data.disambiguator),
            },
        };
        format!("{p}::{name}")
    }

    fn self_name(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(def, _) => self.defpath(def.did()),
            _ => self.tystr(t),
        }
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(&id) = self.ty_ids.get(&t) {
            return i(id as i128);
        }
        let id = self.tys.len();
        self.ty_ids.insert(t, id);
        self.tys.push(J::Null);
        let mut o = vec![("s", s(self.tystr(t)))];
        match t.kind() {
            TyKind::Adt(def, args) => {
                o.push(("k", s("adt")));
                o.push(("adt", s(self.defpath(def.did()))));
                self.adt(*def);
                let a: Vec<Ty<'tcx>> = args.types().collect();
                let a = a.into_iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
            }
            TyKind::Ref(_, inner, m) => {
                o.push(("k", s("ref")));
                o.push(("mut", J::Bool(m.is_mut())));
                let a = self.ty(*inner);
                o.push(("args", J::Arr(vec![a])));
            }
            TyKind::RawPtr(inner, m) => {
                o.push(("k", s("ptr")));
                o.push(("mut", J::Bool(m.is_mut())));
                let a = self.ty(*inner);
                o.push(("args", J::Arr(vec![a])));
            }
            TyKind::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let a = ts.iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
            }
            TyKind::Slice(inner) | TyKind::Array(inner, _) => {
                o.push(("k", s("slice")));
                let a = self.ty(*inner);
                o.push(("args", J::Arr(vec![a])));
            }
            TyKind::Closure(did, args) => {
                o.push(("k", s("closure")));
                o.push(("def", s(self.defpath(*did))));
                let ups: Vec<Ty<'tcx>> = args.as_closure().upvar_tys().iter().collect();
                let a = ups.into_iter().map(|t| self.ty(t)).collect();
                o.push(("args", J::Arr(a)));
            }
            TyKind::FnDef(did, args) => {
                o.push(("k", s("fndef")));
                let _ = args;
                o.push(("def", s(self.defpath(*did))));
            }
            TyKind::Param(p) => {
                o.push(("k", s("param")));
                o.push(("def", s(p.name.to_string())));
            }
            TyKind::Alias(..) => o.push(("k", s("alias"))),
            TyKind::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("def", s(self.defpath(d))));
                }
            }
            TyKind::Bool => o.push(("k", s("bool"))),
            TyKind::Int(_) | TyKind::Uint(_) | TyKind::Char => o.push(("k", s("int"))),
            TyKind::Str => o.push(("k", s("str"))),
            TyKind::Never => o.push(("k", s("never"))),
            _ => o.push(("k", s("other"))),
        }
        self.tys[id] = J::Obj(o);
        i(id as i128)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>) {
        let path = self.defpath(def.did());
        if self.adts.contains_key(&path) {
            return;
        }
        self.adts.insert(path.clone(), J::Null);
        let tcx = self.tcx;
        let mut vs = vec![];
        for (vidx, v) in def.variants().iter_enumerated() {
            let discr = if def.is_enum() {
                let d = def.discriminant_for_variant(tcx, vidx);
                match (d.ty.kind(), d.ty.primitive_size(tcx)) {
                    (TyKind::Int(_), sz) => sz.sign_extend(d.val),
                    _ => d.val as i128,
                }
            } else {
                0
            };
            let fields = v
                .fields
                .iter()
                .map(|f| {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    J::Obj(vec![("n", s(f.name.to_string())), ("t", s(self.tystr(t)))])
                })
                .collect();
            vs.push(J::Obj(vec![
                ("n", s(v.name.to_string())),
                ("d", i(discr)),
                ("f", J::Arr(fields)),
            ]));
        }
        let kind = if def.is_enum() {
            "enum"
        } else if def.is_union() {
            "union"
        } else {
            "struct"
        };
        self.adts.insert(
            path,
            J::Obj(vec![("k", s(kind)), ("v", J::Arr(vs)), ("local", J::Bool(def.did().is_local()))]),
        );
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => i(f.as_u32()),
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), i(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::Arr(vec![s("ci"), i(offset), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("ss"), i(from), i(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, v) => J::Arr(vec![s("d"), i(v.as_u32())]),
                _ => s("?"),
            });
        }
        J::Arr(vec![i(p.local.as_u32()), J::Arr(pr)])
    }

    fn read_str_alloc(&self, v: ConstValue) -> Option<Vec<u8>> {
        v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec())
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, body_def: DefId) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tid = self.ty(t);
        let mut o = vec![("t", tid)];
        if let TyKind::FnDef(did, args) = t.kind() {
            let callee = self.callee(*did, args.skip_binder(), env);
            o.push(("fn", callee));
            return J::Obj(o);
        }
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                if u.def == body_def {
                    o.push(("prom", i(p.as_u32())));
                } else {
                    o.push(("prom", i(p.as_u32())));
                    o.push(("promof", s(self.defpath(u.def))));
                }
                return J::Obj(o);
            }
            o.push(("const", s(self.defpath(u.def))));
            self.want(u.def);
        }
        let val = match c.const_ {
            mir::Const::Val(v, _) => Some(v),
            _ => {
                use rustc_middle::ty::TypeVisitableExt;
                if c.const_.has_param() {
                    None
                } else {
                    c.const_.eval(tcx, env, c.span).ok()
                }
            }
        };
        if let Some(v) = val {
            match v {
                ConstValue::Scalar(sc) => {
                    if let Ok(int) = sc.try_to_scalar_int() {
                        let bits = int.to_bits(int.size());
                        let val = if let TyKind::Int(_) = t.kind() {
                            int.size().sign_extend(bits) as i128
                        } else {
                            bits as i128
                        };
                        o.push(("v", J::Int(val)));
                    } else if let mir::interpret::Scalar::Ptr(ptr, _) = sc {
                        let (prov, _) = ptr.into_raw_parts();
                        if let Some(mir::interpret::GlobalAlloc::Static(d)) =
                            tcx.try_get_global_alloc(prov.alloc_id())
                        {
                            o.push(("static", s(self.defpath(d))));
                        } else if let TyKind::Ref(_, inner, _) = t.kind() {
                            // &[u8; N] literals
                            if let TyKind::Array(el, _) = inner.kind() {
                                if *el == tcx.types.u8 {
                                    if let Some(mir::interpret::GlobalAlloc::Memory(m)) =
                                        tcx.try_get_global_alloc(prov.alloc_id())
                                    {
                                        let a = m.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                        let t = match std::str::from_utf8(b) {
                                            Ok(t) => t.to_string(),
                                            Err(_) => b.iter().map(|x| *x as char).collect(),
                                        };
                                        o.push(("bytes", s(t)));
                                    }
                                }
                            }
                        }
                    }
                }
                ConstValue::ZeroSized => o.push(("zst", J::Bool(true))),
                ConstValue::Slice { .. } => {
                    if let Some(b) = self.read_str_alloc(v) {
                        o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                    }
                }
                ConstValue::Indirect { .. } => {
                    o.push(("ind", J::Bool(true)));
                }
            }
        }
        J::Obj(o)
    }

    fn want(&mut self, d: DefId) {
        if !self.seen.contains(&d) {
            self.seen.insert(d);
            self.wanted.push_back(d);
        }
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("p", s(self.defpath(did)))];
        let targs: Vec<Ty<'tcx>> = args.types().collect();
        let tj = targs.iter().map(|t| self.ty(*t)).collect();
        o.push(("a", J::Arr(tj)));
        let parent_trait = tcx.trait_of_assoc(did);
        if let Some(tr) = parent_trait {
            o.push(("trait", s(self.defpath(tr))));
        }
        let args_e = tcx.erase_and_anonymize_regions(args);
        let inst = match Instance::try_resolve(tcx, env, did, args_e) {
            Ok(Some(inst)) => Some(inst),
            _ => None,
        };
        if let Some(inst) = inst {
            match inst.def {
                ty::InstanceKind::Item(d) => {
                    o.push(("r", s(self.defpath(d))));
                    let ra: Vec<Ty<'tcx>> = inst.args.types().collect();
                    let ra = ra.iter().map(|t| self.ty(*t)).collect();
                    o.push(("ra", J::Arr(ra)));
                    self.maybe_want_ext(d);
                }
                ty::InstanceKind::Virtual(..) => o.push(("virt", J::Bool(true))),
                ty::InstanceKind::Intrinsic(d) => {
                    o.push(("r", s(self.defpath(d))));
                    o.push(("intr", J::Bool(true)));
                }
                other => {
                    let d = other.def_id();
                    o.push(("shim", s(format!("{:?}", std::mem::discriminant(&other)))));
                    let _ = d;
                }
            }
        } else if parent_trait.is_none() {
            o.push(("r", s(self.defpath(did))));
            self.maybe_want_ext(did);
        }
        J::Obj(o)
    }

    fn maybe_want_ext(&mut self, d: DefId) {
        if d.is_local() {
            return;
        }
        let tcx = self.tcx;
        let k = tcx.crate_name(d.krate);
        let k = k.as_str();
        if !(k == "core" || k == "alloc" || k == "std" || k == "either" || k == "miette" || k == "smallvec") {
            return;
        }
        if !tcx.is_mir_available(d) {
            return;
        }
        let p = self.defpath(d);
        const ALLOW: &[&str] = &[
            "core::option::", "core::result::", "core::ops::control_flow", "core::bool",
            "core::cmp::", "core::ops::try_trait", "core::ops::function", "core::convert::",
            "core::mem::take", "core::mem::replace", "core::mem::swap", "bool::", "core::clone",
            "core::default", "alloc::boxed", "alloc::rc", "core::borrow", "alloc::borrow",
            "either::", "core::any", "std::process::", "core::str::traits", "core::num::",
        ];
        if ALLOW.iter().any(|a| p.contains(a)) {
            self.want(d);
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: TypingEnv<'tcx>, bd: DefId) -> J {
        match op {
            Operand::Copy(p) => J::Arr(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::Arr(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => J::Arr(vec![s("k"), self.konst(c, env, bd)]),
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![s("?")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>, bd: DefId) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, ..) => J::Arr(vec![s("use"), self.operand(o, env, bd)]),
            Rvalue::Repeat(o, n) => J::Arr(vec![s("rep"), self.operand(o, env, bd), s(format!("{n}"))]),
            Rvalue::Ref(_, bk, p) => J::Arr(vec![
                s("ref"),
                self.place(p),
                J::Bool(matches!(bk, BorrowKind::Mut { .. })),
            ]),
            Rvalue::RawPtr(k, p) => {
                let m = format!("{k:?}").contains("Mut");
                J::Arr(vec![s("ref"), self.place(p), J::Bool(m)])
            }
            Rvalue::Cast(k, o, t) => {
                let from = self.ty(o.ty(&body.local_decls, tcx));
                let to = self.ty(*t);
                J::Arr(vec![s("cast"), self.operand(o, env, bd), to, s(format!("{k:?}")), from])
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = self.ty(ab.0.ty(&body.local_decls, tcx));
                let a = self.operand(&ab.0, env, bd);
                let b = self.operand(&ab.1, env, bd);
                J::Arr(vec![s("bin"), s(format!("{op:?}")), a, b, t])
            }
            Rvalue::UnaryOp(op, o) => {
                J::Arr(vec![s("un"), s(format!("{op:?}")), self.operand(o, env, bd)])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let tj = self.ty(t);
                J::Arr(vec![s("discr"), self.place(p), tj])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops: Vec<J> = fs.iter().map(|o| self.operand(o, env, bd)).collect();
                let kind = match &**k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        let def = tcx.adt_def(*d);
                        self.adt(def);
                        let mut a = vec![s("adt"), s(self.defpath(*d)), i(v.as_u32())];
                        if let Some(f) = active {
                            a.push(i(f.as_u32()));
                        }
                        J::Arr(a)
                    }
                    AggregateKind::Tuple => J::Arr(vec![s("tuple")]),
                    AggregateKind::Array(_) => J::Arr(vec![s("array")]),
                    AggregateKind::Closure(d, _) => J::Arr(vec![s("closure"), s(self.defpath(*d))]),
                    _ => J::Arr(vec![s("other")]),
                };
                J::Arr(vec![s("agg"), kind, J::Arr(ops)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![s("use"), J::Arr(vec![s("c"), p])])
            }
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![s("tls"), s(self.defpath(*d))]),
            #[allow(unreachable_patterns)]
            _ => J::Arr(vec![s("?"), s(format!("{r:?}"))]),
        }
    }

    fn line(&self, sp: rustc_span::Span) -> J {
        // the outermost (user-written) location of macro-expanded code
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        i(lo.line as i128)
    }

    fn body(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, bd: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let locals: Vec<J> = body.local_decls.iter().map(|d| self.ty(d.ty)).collect();
        let mut names: Vec<J> = vec![];
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.push(J::Arr(vec![s(v.name.to_string()), pl]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for stm in bb.statements.iter() {
                match &stm.kind {
                    StatementKind::Assign(pr) => {
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1, body, env, bd);
                        st.push(J::Arr(vec![s("="), p, r, self.line(stm.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let t = place.ty(&body.local_decls, tcx).ty;
                        let tj = self.ty(t);
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("sd"), p, i(variant_index.as_u32()), tj]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::Arr(vec![s("dead"), i(l.as_u32())])),
                    _ => {}
                }
            }
            let term = bb.terminator();
            let ln = self.line(term.source_info.span);
            let unw = |u: &UnwindAction| match u {
                UnwindAction::Cleanup(b) => i(b.as_u32()),
                _ => J::Null,
            };
            let t = match &term.kind {
                TerminatorKind::Goto { target, .. } => J::Obj(vec![("k", s("goto")), ("to", i(target.as_u32()))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&body.local_decls, tcx);
                    let signed = matches!(ty.kind(), TyKind::Int(_));
                    let size = tcx.layout_of(env.as_query_input(ty)).ok().map(|l| l.size);
                    let cases = targets
                        .iter()
                        .map(|(v, b)| {
                            let v = match (signed, size) {
                                (true, Some(sz)) => sz.sign_extend(v) as i128,
                                _ => v as i128,
                            };
                            J::Arr(vec![J::Int(v), i(b.as_u32())])
                        })
                        .collect();
                    let d = self.operand(discr, env, bd);
                    let tj = self.ty(ty);
                    J::Obj(vec![
                        ("k", s("switch")),
                        ("d", d),
                        ("t", tj),
                        ("c", J::Arr(cases)),
                        ("o", i(targets.otherwise().as_u32())),
                    ])
                }
                TerminatorKind::UnwindResume => J::Obj(vec![("k", s("resume"))]),
                TerminatorKind::UnwindTerminate(_) => J::Obj(vec![("k", s("abort"))]),
                TerminatorKind::Return => J::Obj(vec![("k", s("ret"))]),
                TerminatorKind::Unreachable => J::Obj(vec![("k", s("unreachable"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let ty = place.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(ty);
                    let p = self.place(place);
                    J::Obj(vec![
                        ("k", s("drop")),
                        ("p", p),
                        ("t", tj),
                        ("to", i(target.as_u32())),
                        ("u", unw(unwind)),
                    ])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let mut o = vec![("k", s("call"))];
                    let fty = func.ty(&body.local_decls, tcx);
                    if let TyKind::FnDef(did, gargs) = fty.kind() {
                        let c = self.callee(*did, gargs.skip_binder(), env);
                        o.push(("f", c));
                    } else {
                        let fo = self.operand(func, env, bd);
                        o.push(("fp", fo));
                    }
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node, env, bd)).collect();
                    o.push(("a", J::Arr(a)));
                    let d = self.place(destination);
                    o.push(("d", d));
                    let dt = destination.ty(&body.local_decls, tcx).ty;
                    let dt = self.ty(dt);
                    o.push(("dt", dt));
                    o.push(("to", target.map(|t| i(t.as_u32())).unwrap_or(J::Null)));
                    o.push(("u", unw(unwind)));
                    J::Obj(o)
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(cond, env, bd);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{op:?}"),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".into(),
                        AssertKind::DivisionByZero(_) => "div0".into(),
                        AssertKind::RemainderByZero(_) => "rem0".into(),
                        _ => "other".into(),
                    };
                    J::Obj(vec![
                        ("k", s("assert")),
                        ("c", c),
                        ("e", J::Bool(*expected)),
                        ("m", s(m)),
                        ("to", i(target.as_u32())),
                        ("u", unw(unwind)),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Obj(vec![("k", s("goto")), ("to", i(real_target.as_u32()))])
                }
                other => J::Obj(vec![("k", s("other")), ("s", s(format!("{other:?}")))]),
            };
            let t = if let J::Obj(mut v) = t {
                v.push(("l", ln));
                J::Obj(v)
            } else {
                t
            };
            blocks.push(J::Obj(vec![("s", J::Arr(st)), ("t", t), ("u", J::Bool(bb.is_cleanup))]));
        }
        vec![
            ("argc", i(body.arg_count as i128)),
            ("l", J::Arr(locals)),
            ("n", J::Arr(names)),
            ("b", J::Arr(blocks)),
        ]
    }

    fn dump_def(&mut self, did: DefId) -> Option<J> {
        let tcx = self.tcx;
        let kind = tcx.def_kind(did);
        let is_const = matches!(
            kind,
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst
        );
        let body: &Body<'tcx> = match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                if !tcx.is_mir_available(did) {
                    return None;
                }
                tcx.optimized_mir(did)
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => {
                if !tcx.is_mir_available(did) && !did.is_local() {
                    return None;
                }
                if !did.is_local() && !tcx.is_mir_available(did) {
                    return None;
                }
                if matches!(kind, DefKind::AssocConst { .. })
                    && tcx.trait_of_assoc(did).is_some()
                    && !tcx.defaultness(did).has_value()
                {
                    return None;
                }
                tcx.mir_for_ctfe(did)
            }
            _ => return None,
        };
        let env = TypingEnv::post_analysis(tcx, did);
        let mut o = vec![("name", s(self.defpath(did)))];
        o.push(("kind", s(if is_const { "const".to_string() } else { format!("{kind:?}") })));
        let sp = tcx.def_span(did);
        let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
        o.push(("file", s(lo.file.name.prefer_local_unconditionally().to_string())));
        o.push(("line", i(lo.line as i128)));
        o.push(("macro", J::Bool(sp.from_expansion())));
        {
            let gdid = tcx.typeck_root_def_id(did);
            let mut names = vec![];
            let mut g = tcx.generics_of(gdid);
            let mut chain = vec![g];
            while let Some(p) = g.parent {
                g = tcx.generics_of(p);
                chain.push(g);
            }
            for g in chain.iter().rev() {
                for p in g.own_params.iter() {
                    if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                        names.push(s(p.name.to_string()));
                    }
                }
            }
            o.push(("g", J::Arr(names)));
        }
        if let Some(parent) = tcx.opt_parent(did) {
            if matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: true }) {
                if let Some(tm) = tcx.trait_item_of(did) {
                    o.push(("trait_item", s(self.defpath(tm))));
                }
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self", s(self.self_name(st))));
                o.push(("derived", J::Bool(tcx.is_builtin_derived(parent))));
            } else if matches!(tcx.def_kind(parent), DefKind::Impl { of_trait: false }) {
                let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                o.push(("self", s(self.self_name(st))));
            } else if matches!(tcx.def_kind(parent), DefKind::Trait) {
                o.push(("trait_default", s(self.defpath(did))));
            }
        }
        if did.is_local() && matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("unsafe", J::Bool(!tcx.fn_sig(did).skip_binder().safety().is_safe())));
            o.push(("vis", s(format!("{:?}", tcx.visibility(did)))));
        }
        if matches!(kind, DefKind::Closure) {
            let p = tcx.typeck_root_def_id(did);
            o.push(("root", s(self.defpath(p))));
        }
        o.extend(self.body(body, env, did));
        // promoteds
        if did.is_local() || !is_const {
            let proms = tcx.promoted_mir(did);
            let mut pj = vec![];
            for pb in proms.iter() {
                let b = self.body(pb, env, did);
                pj.push(J::Obj(b));
            }
            o.push(("prom", J::Arr(pj)));
        }
        Some(J::Obj(o))
    }
}

fn dump(tcx: TyCtxt<'_>, out_dir: &str) {
    let krate = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut cx = Cx {
        tcx,
        tys: vec![],
        ty_ids: HashMap::new(),
        adts: BTreeMap::new(),
        names: HashMap::new(),
        used_names: HashMap::new(),
        wanted: VecDeque::new(),
        seen: HashSet::new(),
    };
    // unique names for local bodies, and trait impl tables
    let mut keys: Vec<DefId> = tcx.mir_keys(()).iter().map(|d| d.to_def_id()).collect();
    keys.sort_by_key(|d| d.index);
    for d in &keys {
        let n = cx.defpath(*d);
        let cnt = cx.used_names.entry(n.clone()).or_insert(0);
        *cnt += 1;
        let c = *cnt;
        if c > 1 {
            cx.names.insert(*d, format!("{n}#{c}"));
        } else {
            cx.names.insert(*d, n);
        }
    }
    let mut fns: BTreeMap<String, J> = BTreeMap::new();
    for d in &keys {
        cx.seen.insert(*d);
        if matches!(tcx.def_kind(*d), DefKind::Ctor(..)) {
            continue;
        }
        if let Some(j) = cx.dump_def(*d) {
            fns.insert(cx.defpath(*d), j);
        }
    }
    let mut ext: BTreeMap<String, J> = BTreeMap::new();
    let mut n = 0;
    while let Some(d) = cx.wanted.pop_front() {
        n += 1;
        if n > 4000 {
            break;
        }
        if let Some(j) = cx.dump_def(d) {
            ext.insert(cx.defpath(d), j);
        }
    }
    // local ADTs
    for item in tcx.hir_crate_items(()).definitions() {
        let d = item.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            cx.adt(tcx.adt_def(d));
        }
    }
    // unsafe blocks: HIR scan
    let mut unsafes = vec![];
    {
        use rustc_hir::intravisit::{self, Visitor};
        struct V<'tcx> {
            tcx: TyCtxt<'tcx>,
            out: Vec<(String, usize, String)>,
            owner: String,
        }
        impl<'tcx> Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.tcx
            }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.from_expansion() {
                        let lo = self.tcx.sess.source_map().lookup_char_pos(b.span.lo());
                        self.out.push((
                            lo.file.name.prefer_local_unconditionally().to_string(),
                            lo.line,
                            self.owner.clone(),
                        ));
                    }
                }
                intravisit::walk_block(self, b);
            }
        }
        for ld in tcx.hir_body_owners() {
            let owner = cx.defpath(ld.to_def_id());
            if matches!(tcx.def_kind(ld), DefKind::Closure) {
                continue;
            }
            let mut v = V { tcx, out: vec![], owner };
            v.visit_body(tcx.hir_body_owned_by(ld));
            for (f, l, o) in v.out {
                unsafes.push(J::Arr(vec![s(f), i(l as i128), s(o)]));
            }
        }
    }
    let mut impls = vec![];
    for (tr, ids) in tcx.all_local_trait_impls(()).iter() {
        let tname = cx.defpath(*tr);
        for id in ids {
            let did = id.to_def_id();
            let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
            let sname = cx.self_name(st);
            let hdr = tcx.impl_trait_header(did);
            let is_unsafe = !hdr.safety.is_safe();
            let mut m: BTreeMap<String, J> = BTreeMap::new();
            for it in tcx.associated_items(did).in_definition_order() {
                if let Some(tm) = it.trait_item_def_id() {
                    m.insert(cx.defpath(tm), s(cx.defpath(it.def_id)));
                }
            }
            let sp = tcx.def_span(did);
            let lo = tcx.sess.source_map().lookup_char_pos(sp.lo());
            let stj = cx.ty(st);
            impls.push(J::Obj(vec![
                ("st", stj),
                ("trait", s(tname.clone())),
                ("self", s(sname)),
                ("unsafe", J::Bool(is_unsafe)),
                ("derived", J::Bool(tcx.is_builtin_derived(did))),
                ("m", J::Map(m)),
                ("file", s(lo.file.name.prefer_local_unconditionally().to_string())),
                ("line", i(lo.line as i128)),
            ]));
        }
    }
    let is_test = tcx.sess.opts.test;
    let kind = if tcx.sess.opts.test { "test" } else { "main" };
    let ctypes: Vec<J> = tcx.crate_types().iter().map(|c| s(format!("{c:?}"))).collect();
    let j = J::Obj(vec![
        ("crate", s(krate.clone())),
        ("types", J::Arr(ctypes)),
        ("test", J::Bool(is_test)),
        ("fns", J::Map(fns)),
        ("ext", J::Map(ext)),
        ("adts", J::Map(cx.adts)),
        ("tys", J::Arr(cx.tys)),
        ("impls", J::Arr(impls)),
        ("unsafe_blocks", J::Arr(unsafes)),
    ]);
    let mut out = String::new();
    j.write(&mut out);
    let _ = std::fs::create_dir_all(out_dir);
    let bin = tcx.crate_types().iter().any(|c| format!("{c:?}") == "Executable");
    let f = format!("{out_dir}/{krate}.{}{kind}.json", if bin { "bin." } else { "" });
    let tmp = format!("{f}.tmp{}", std::process::id());
    std::fs::write(&tmp, out).expect("write facts");
    std::fs::rename(&tmp, &f).expect("rename facts");
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn config(&mut self, config: &mut rustc_interface::Config) {
        config.opts.unstable_opts.mir_opt_level = Some(0);
        config.opts.unstable_opts.inline_mir = Some(false);
        config.opts.cg.overflow_checks = Some(true);
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if std::env::var_os("CARGO_PRIMARY_PACKAGE").is_some() || std::env::var_os("MIRFACTS_ALL").is_some() {
            dump(tcx, &self.out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(real_main)
}

fn real_main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to run
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(0);
    }
    let out = std::env::var("MIRFACTS_OUT").unwrap_or_else(|_| "/tmp/mirfacts".into());
    let is_query = args.iter().any(|a| a == "-vV" || a == "--version" || a.starts_with("--print"))
        || !args.iter().any(|a| a == "--crate-name");
    if is_query {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    let is_build_script = args.windows(2).any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    if is_build_script {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
        return;
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb { out });
}
