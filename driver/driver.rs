// MIR fact extractor: a rustc driver that is injected with RUSTC_WORKSPACE_WRAPPER.
// For every body of the crate it dumps the freshly built MIR (before promotion, borrow checking,
// drop elaboration and the coroutine transform) plus resolved callees, types, ADTs and impls, as JSON.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::definitions::DefPathData;
use rustc_middle::mir::*;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv};
use rustc_span::def_id::{DefId, LOCAL_CRATE};
use rustc_span::{ExpnKind, Span};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn esc(x: &str, out: &mut String) {
    out.push('"');
    for c in x.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{i}");
            }
            J::S(x) => esc(x, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
            J::M(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    esc(k, out);
                    out.push(':');
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: BTreeMap<String, DefId>,
    defs: BTreeMap<String, DefId>,
    seen_adts: std::collections::HashSet<DefId>,
}

impl<'tcx> Cx<'tcx> {
    /// canonical path of a definition, without generic arguments
    fn path(&self, did: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(did);
        let Some(parent) = key.parent else {
            return tcx.crate_name(did.krate).to_string();
        };
        let parent = DefId { krate: did.krate, index: parent };
        match key.disambiguated_data.data {
            DefPathData::Impl => {
                let of_trait = matches!(tcx.def_kind(did), DefKind::Impl { of_trait: true });
                let self_ty = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let st = self.ty_head(self_ty);
                if of_trait {
                    let tr = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                    let targs: Vec<String> = tr.args.types().skip(1).map(|t| self.ty(t)).collect();
                    if targs.is_empty() {
                        format!("<{} as {}>", st, self.path(tr.def_id))
                    } else {
                        format!("<{} as {}<{}>>", self.ty(self_ty), self.path(tr.def_id), targs.join(", "))
                    }
                } else {
                    st
                }
            }
            ref d => {
                let name = match d {
                    DefPathData::Closure => format!("{{closure#{}}}", key.disambiguated_data.disambiguator),
                    DefPathData::ForeignMod => "{foreign}".to_string(),
                    DefPathData::Ctor => "{ctor}".to_string(),
                    DefPathData::AnonConst => format!("{{const#{}}}", key.disambiguated_data.disambiguator),
                    other => match other.get_opt_name() {
                        Some(n) => {
                            if key.disambiguated_data.disambiguator > 0 {
                                format!("{}#{}", n, key.disambiguated_data.disambiguator)
                            } else {
                                n.to_string()
                            }
                        }
                        None => format!("{:?}#{}", other, key.disambiguated_data.disambiguator),
                    },
                };
                format!("{}::{}", self.path(parent), name)
            }
        }
    }
    fn ty_head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, _) => self.path(a.did()),
            ty::Ref(_, t, _) => self.ty_head(*t),
            _ => self.ty(t),
        }
    }
    fn args(&self, args: ty::GenericArgsRef<'tcx>) -> String {
        let v: Vec<String> = args
            .iter()
            .filter_map(|a| {
                if let Some(t) = a.as_type() {
                    Some(self.ty(t))
                } else if let Some(c) = a.as_const() {
                    Some(format!("{c:?}"))
                } else {
                    None
                }
            })
            .collect();
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Adt(a, args) => format!("{}{}", self.path(a.did()), self.args(args)),
            ty::Ref(_, t, m) => format!("&{}{}", if m.is_mut() { "mut " } else { "" }, self.ty(*t)),
            ty::RawPtr(t, m) => format!("*{}{}", if m.is_mut() { "mut " } else { "const " }, self.ty(*t)),
            ty::Slice(t) => format!("[{}]", self.ty(*t)),
            ty::Array(t, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => format!("[{}; {}]", self.ty(*t), n),
                None => format!("[{}; _]", self.ty(*t)),
            },
            ty::Tuple(ts) => format!("({})", ts.iter().map(|t| self.ty(t)).collect::<Vec<_>>().join(", ")),
            ty::FnDef(d, _) => format!("{{fn:{}}}", self.path(*d)),
            ty::Closure(d, _) => format!("{{closure:{}}}", self.path(*d)),
            ty::Coroutine(d, _) => format!("{{coroutine:{}}}", self.path(*d)),
            ty::CoroutineClosure(d, _) => format!("{{coroutine_closure:{}}}", self.path(*d)),
            ty::FnPtr(..) => "{fnptr}".to_string(),
            ty::Dynamic(preds, _) => {
                let mut v = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => v.push(self.path(t.def_id)),
                        ty::ExistentialPredicate::Projection(p) => {
                            v.push(format!("{}={}", self.path(p.def_id), p.term.as_type().map(|t| self.ty(t)).unwrap_or_default()))
                        }
                        ty::ExistentialPredicate::AutoTrait(_) => {}
                    }
                }
                format!("dyn {}", v.join("+"))
            }
            ty::Param(p) => format!("param:{}", p.name),
            ty::Alias(_, a) => {
                let k = format!("{:?}", a.kind);
                let did: DefId = match a.kind { ty::AliasTyKind::Projection { def_id } => def_id.into(), ty::AliasTyKind::Inherent { def_id } => def_id.into(), ty::AliasTyKind::Opaque { def_id } => def_id.into(), ty::AliasTyKind::Free { def_id } => def_id.into() };
                let tag = if k.contains("Opaque") { "opaque" } else { "proj" };
                format!("{}:{}{}", tag, self.path(did), self.args(a.args))
            }
            ty::Never => "!".into(),
            ty::Str => "str".into(),
            _ => format!("{t}"),
        }
    }

    fn note_ty(&mut self, t: Ty<'tcx>) {
        for a in t.walk() {
            if let Some(t) = a.as_type() {
                match t.kind() {
                    ty::Adt(d, _) => {
                        if self.seen_adts.insert(d.did()) {
                            let p = self.path(d.did());
                            self.adts.insert(p, d.did());
                        }
                    }
                    _ => {}
                }
            }
        }
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let base = sp.source_callsite();
        let lo = sm.lookup_char_pos(base.lo());
        let file = lo.file.name.prefer_local_unconditionally().to_string();
        let mut v = vec![s(file), J::I(lo.line as i128)];
        let mut exp = vec![];
        let mut cur = sp;
        loop {
            let ctxt = cur.ctxt();
            if ctxt.is_root() {
                break;
            }
            let d = ctxt.outer_expn_data();
            match d.kind {
                ExpnKind::Macro(_, name) => {
                    let kr = d.macro_def_id.map(|m| self.tcx.crate_name(m.krate).to_string()).unwrap_or_default();
                    exp.push(s(format!("{kr}::{name}")))
                }
                ExpnKind::Desugaring(k) => exp.push(s(format!("desugar::{k:?}"))),
                ExpnKind::AstPass(_) => exp.push(s("astpass")),
                ExpnKind::Root => {}
            }
            cur = d.call_site;
        }
        if !exp.is_empty() {
            v.push(J::A(exp));
        }
        J::A(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = vec![J::I(p.local.as_u32() as i128)];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut o = vec![s("f"), J::I(f.as_u32() as i128)];
                    match pt.ty.kind() {
                        ty::Adt(a, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            let var = a.variant(vi);
                            o.push(s(var.fields[f].name.to_string()));
                            o.push(s(self.path(a.did())));
                            if a.is_enum() {
                                o.push(s(var.name.to_string()));
                            }
                        }
                        ty::Closure(d, _) | ty::Coroutine(d, _) => {
                            o.push(s(format!("^{}", f.as_u32())));
                            o.push(s(self.path(*d)));
                        }
                        _ => {}
                    }
                    J::A(o)
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    J::A(vec![s("c"), J::I(offset as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(n, i) => {
                    J::A(vec![s("v"), J::I(i.as_u32() as i128), s(n.map(|n| n.to_string()).unwrap_or_default())])
                }
                _ => J::A(vec![s("o")]),
            };
            v.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::A(v)
    }

    /// The parts of a constant made of scalars, strings, tuples, arrays, durations and types of the program.
    fn value(&mut self, v: ConstValue, ty: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.tcx;
        if depth > 6 {
            return None;
        }
        match ty.kind() {
            ty::Pat(base, _) => self.value(v, *base, depth + 1),
            ty::Bool => v.try_to_bool().map(|b| J::O(vec![("b", J::B(b))])),
            ty::Int(_) | ty::Uint(_) | ty::Char => {
                let i = v.try_to_scalar_int()?;
                let n = if ty.is_signed() { i.to_int(i.size()) } else { i.to_uint(i.size()) as i128 };
                Some(J::O(vec![("i", J::I(n)), ("t", s(self.ty(ty)))]))
            }
            ty::Ref(_, t, _) if t.is_str() => match v {
                ConstValue::Slice { alloc_id, meta } => match tcx.try_get_global_alloc(alloc_id) {
                    Some(GlobalAlloc::Memory(a)) => {
                        let a = a.inner();
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                        Some(J::O(vec![("s", s(String::from_utf8_lossy(b).to_string()))]))
                    }
                    _ => None,
                },
                _ => None,
            },
            ty::Tuple(_) | ty::Array(..) | ty::Adt(..) => {
                let mut head = vec![];
                if let ty::Adt(a, _) = ty.kind() {
                    let p = self.path(a.did());
                    let known = p == "core::time::Duration" || p == "core::option::Option" || p.starts_with("core::time::") || p.starts_with("core::num::");
                    if !(known || a.did().is_local() || p.starts_with("cdn_")) || a.is_union() {
                        return None;
                    }
                    head.push(("a", s(p)));
                }
                let d = tcx.try_destructure_mir_constant_for_user_output(v, ty)?;
                if let ty::Adt(a, _) = ty.kind() {
                    let i = d.variant.unwrap_or(rustc_abi::FIRST_VARIANT);
                    head.push(("n", s(a.variant(i).name.to_string())));
                    head.push(("vi", J::I(i.as_u32() as i128)));
                } else {
                    head.push((if matches!(ty.kind(), ty::Tuple(_)) { "tup" } else { "arr" }, J::B(true)));
                }
                let mut fs = vec![];
                for (fv, ft) in d.fields.iter() {
                    fs.push(self.value(*fv, *ft, depth + 1)?);
                }
                head.push(("f", J::A(fs)));
                Some(J::O(head))
            }
            _ => None,
        }
    }

    fn constant(&mut self, owner: DefId, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.tcx;
        let ty = c.const_.ty();
        self.note_ty(ty);
        let mut o: Vec<(&'static str, J)> = vec![];
        match ty.kind() {
            ty::FnDef(d, args) => {
                o.push(("fn", self.callee(owner, *d, args.skip_binder())));
                return J::O(vec![("k", J::O(o))]);
            }
            _ => {}
        }
        o.push(("t", s(self.ty(ty))));
        let mut generic = false;
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("named", s(self.path(u.def))));
            use rustc_middle::ty::TypeVisitableExt;
            generic = u.args.has_param();
            if generic {
                o.push(("args", s(self.args(u.args))));
            }
        }
        if let Const::Ty(_, ct) = c.const_ {
            o.push(("ct", s(format!("{ct:?}"))));
        }
        if !matches!(ty.kind(), ty::Tuple(ts) if ts.is_empty()) {
            // a constant of a generic type can still have one value for all of them
            let env = if generic { TypingEnv::post_analysis(tcx, owner) } else { TypingEnv::fully_monomorphized() };
            if let Ok(v) = c.const_.eval(tcx, env, c.span) {
                match v {
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        if ty.is_bool() {
                            o.push(("b", J::B(i.try_to_bool().unwrap_or(false))));
                        } else if ty.is_signed() {
                            o.push(("i", J::I(i.to_int(i.size()))));
                        } else {
                            o.push(("i", J::I(i.to_uint(i.size()) as i128)));
                        }
                    }
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, _) = p.prov_and_relative_offset();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(GlobalAlloc::Static(d)) => o.push(("static", s(self.path(d)))),
                            Some(GlobalAlloc::Memory(a)) => {
                                let a = a.inner();
                                let n = a.len();
                                if n <= 4096 && a.provenance().ptrs().is_empty() {
                                    let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                                    o.push(("bytes", s(String::from_utf8_lossy(b).to_string())));
                                }
                            }
                            _ => {}
                        }
                    }
                    ConstValue::Slice { alloc_id, meta } => {
                        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let a = a.inner();
                            if matches!(ty.kind(), ty::Ref(_, t, _) if t.is_str() || matches!(t.kind(), ty::Slice(u) if *u == tcx.types.u8)) {
                                let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..(meta as usize).min(a.len()));
                                o.push(("s", s(String::from_utf8_lossy(b).to_string())));
                            }
                        }
                    }
                    ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                    ConstValue::Indirect { .. } => {
                        let ok = match ty.kind() {
                            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => true,
                            _ => false,
                        };
                        if ok {
                            o.push(("d", s(format!("{}", Const::Val(v, ty)))));
                            if let Some(t) = self.value(v, ty, 0) {
                                o.push(("v", t));
                            }
                        }
                    }
                }
            }
        }
        J::O(vec![("k", J::O(o))])
    }

    fn operand(&mut self, owner: DefId, body: &Body<'tcx>, op: &Operand<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("c", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("m", self.place(body, *p))]),
            Operand::Constant(c) => self.constant(owner, c),
            _ => J::O(vec![("rt", J::B(true))]),
        }
    }

    fn callee(&mut self, owner: DefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut o = vec![("p", s(p))];
        let targs: Vec<J> = args.types().map(|t| s(self.ty(t))).collect();
        if !targs.is_empty() {
            o.push(("a", J::A(targs)));
        }
        if let DefKind::Ctor(..) = tcx.def_kind(d) {
            let parent = tcx.parent(d);
            let (adt, var) = match tcx.def_kind(parent) {
                DefKind::Variant => (tcx.parent(parent), Some(parent)),
                _ => (parent, None),
            };
            o.push(("ctor_adt", s(self.path(adt))));
            if let Some(v) = var {
                let ad = tcx.adt_def(adt);
                let vi = ad.variant_index_with_id(v);
                o.push(("ctor_vi", J::I(vi.as_u32() as i128)));
                o.push(("ctor_var", s(tcx.item_name(v).to_string())));
            } else {
                o.push(("ctor_vi", J::I(0)));
            }
        }
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            let st = args.type_at(0);
            self.note_ty(st);
            o.push(("self", s(self.ty(st))));
        }
        let env = TypingEnv::post_analysis(tcx, owner);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            if let Ok(a2) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tcx.erase_and_anonymize_regions(args))) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, a2) {
                    let rd = inst.def_id();
                    match inst.def {
                        ty::InstanceKind::Item(_) => {
                            if rd != d {
                                o.push(("r", s(self.path(rd))));
                            } else if tcx.trait_of_assoc(d).is_none() || matches!(tcx.defaultness(d), rustc_hir::Defaultness::Default{..}) {
                                o.push(("r", s(self.path(rd))));
                            }
                        }
                        other => o.push(("rk", s(format!("{other:?}").split('(').next().unwrap_or("").to_string()))),
                    }
                }
            }
        }
        if rustc_hir::def::DefKind::AssocFn == tcx.def_kind(d) || DefKind::Fn == tcx.def_kind(d) {
            if tcx.asyncness(d).is_async() {
                o.push(("async", J::B(true)));
            }
        }
        J::O(o)
    }

    fn rvalue(&mut self, owner: DefId, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => J::A(vec![s("use"), self.operand(owner, body, op)]),
            Rvalue::Repeat(op, n) => J::A(vec![
                s("rep"),
                self.operand(owner, body, op),
                n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null),
            ]),
            Rvalue::Ref(_, bk, p) => {
                let k = match bk {
                    BorrowKind::Shared => "&",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "&mut",
                };
                J::A(vec![s("ref"), s(k), self.place(body, *p)])
            }
            Rvalue::Reborrow(_, m, p) => {
                J::A(vec![s("ref"), s(if m.is_mut() { "&mut" } else { "&" }), self.place(body, *p)])
            }
            Rvalue::RawPtr(_, p) => J::A(vec![s("ref"), s("raw"), self.place(body, *p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::Cast(k, op, t) => {
                self.note_ty(*t);
                J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(owner, body, op), s(self.ty(*t)), s(self.ty(op.ty(body, tcx)))])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![
                s("bin"),
                s(format!("{b:?}")),
                self.operand(owner, body, &x.0),
                self.operand(owner, body, &x.1),
                s(self.ty(x.0.ty(body, tcx))),
            ]),
            Rvalue::UnaryOp(u, op) => J::A(vec![s("un"), s(format!("{u:?}")), self.operand(owner, body, op), s(self.ty(op.ty(body, tcx)))]),
            Rvalue::Discriminant(p) => {
                let pt = p.ty(body, tcx).ty;
                self.note_ty(pt);
                J::A(vec![s("discr"), self.place(body, *p), s(self.ty_head(pt))])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::O(vec![("c", self.place(body, *p))])]),
            Rvalue::Aggregate(k, ops) => {
                let ks = match &**k {
                    AggregateKind::Array(_) => vec![s("array")],
                    AggregateKind::Tuple => vec![s("tuple")],
                    AggregateKind::Adt(d, vi, _, _, active) => {
                        let ad = tcx.adt_def(*d);
                        if self.seen_adts.insert(*d) {
                            let p = self.path(*d);
                            self.adts.insert(p, *d);
                        }
                        let var = ad.variant(*vi);
                        vec![
                            s("adt"),
                            s(self.path(*d)),
                            J::I(vi.as_u32() as i128),
                            s(var.name.to_string()),
                            J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect()),
                            active.map(|a| J::I(a.as_u32() as i128)).unwrap_or(J::Null),
                        ]
                    }
                    AggregateKind::Closure(d, _) => vec![s("closure"), s(self.path(*d))],
                    AggregateKind::Coroutine(d, _) => vec![s("coroutine"), s(self.path(*d))],
                    AggregateKind::CoroutineClosure(d, _) => vec![s("coroutine_closure"), s(self.path(*d))],
                    AggregateKind::RawPtr(..) => vec![s("rawptr")],
                };
                let ops: Vec<J> = ops.iter().map(|o| self.operand(owner, body, o)).collect();
                J::A(vec![s("agg"), J::A(ks), J::A(ops)])
            }
            _ => J::A(vec![s("other"), s(format!("{r:?}"))]),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut o: Vec<(&'static str, J)> = vec![];
        let kind = tcx.def_kind(did);
        o.push(("path", s(self.path(did))));
        let mut ks = format!("{kind:?}");
        if let Some(p) = ks.find(|c: char| !c.is_alphanumeric()) {
            ks.truncate(p);
        }
        if kind == DefKind::Closure {
            if let Some(ck) = tcx.coroutine_kind(did) {
                ks = format!("Coroutine:{ck:?}");
            }
        }
        o.push(("kind", s(ks)));
        if let Some(p) = tcx.opt_parent(did) {
            o.push(("parent", s(self.path(p))));
        }
        o.push(("span", self.span(tcx.def_span(did))));
        if let Some(tr) = tcx.impl_of_assoc(did) {
            o.push(("impl", s(self.path(tr))));
            let st = tcx.type_of(tr).instantiate_identity().skip_norm_wip();
            o.push(("impl_self", s(self.ty(st))));
        }
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait_default_of", s(self.path(tr))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            o.push(("async", J::B(tcx.asyncness(did).is_async())));
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            let eff = tcx.effective_visibilities(());
            if let Some(l) = did.as_local() {
                o.push(("reach", J::B(eff.is_reachable(l))));
            }
        }
        o.push(("argc", J::I(body.arg_count as i128)));
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        let mut upv: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    for e in p.projection.iter() {
                        if let ProjectionElem::Field(f, _) = e {
                            upv.entry(f.as_usize()).or_insert(v.name.to_string());
                            break;
                        }
                    }
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            self.note_ty(d.ty);
            let nd = d.ty.needs_drop(tcx, TypingEnv::non_body_analysis(tcx, did));
            let mut v = vec![s(self.ty(d.ty)), J::B(nd)];
            if let Some(n) = names.get(&l.as_usize()) {
                v.push(s(n.clone()));
            }
            locals.push(J::A(v));
        }
        o.push(("locals", J::A(locals)));
        o.push(("upvars", J::M(upv.into_iter().map(|(k, v)| (k.to_string(), s(v))).collect())));
        let mut blocks = vec![];
        for (_, bb) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for stm in &bb.statements {
                match &stm.kind {
                    StatementKind::Assign(x) => {
                        let (p, r) = &**x;
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = r {
                            continue;
                        }
                        let pj = self.place(body, *p);
                        let rj = self.rvalue(did, body, r);
                        let sp = self.span(stm.source_info.span);
                        st.push(J::A(vec![s("="), pj, rj, sp]));
                    }
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("L"), J::I(l.as_u32() as i128)])),
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("D"), J::I(l.as_u32() as i128)])),
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, **place);
                        st.push(J::A(vec![s("setd"), pj, J::I(variant_index.as_u32() as i128)]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let b = |x: BasicBlock| J::I(x.as_u32() as i128);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), b(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let signed = dt.is_signed();
                    let mut tv = vec![];
                    for (v, t) in targets.iter() {
                        let val = if signed {
                            let sz = rustc_abi::Size::from_bits(match dt.kind() {
                                ty::Int(i) => i.bit_width().unwrap_or(64),
                                _ => 128,
                            });
                            sz.sign_extend(v)
                        } else {
                            v as i128
                        };
                        tv.push(J::A(vec![J::I(val), b(t)]));
                    }
                    J::A(vec![s("switch"), self.operand(did, body, discr), J::A(tv), b(targets.otherwise()), s(self.ty(dt))])
                }
                TerminatorKind::Return => J::A(vec![s("ret")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::A(vec![s("resume")]),
                TerminatorKind::CoroutineDrop => J::A(vec![s("codrop")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(body, *place), b(*target), {
                    let t = place.ty(body, tcx).ty;
                    self.note_ty(t);
                    s(self.ty(t))
                }]),
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(did, body, func);
                    let a: Vec<J> = args.iter().map(|a| self.operand(did, body, &a.node)).collect();
                    let at: Vec<J> = args.iter().map(|a| s(self.ty(a.node.ty(body, tcx)))).collect();
                    let d = self.place(body, *destination);
                    let dt = destination.ty(body, tcx).ty;
                    self.note_ty(dt);
                    let sp = self.span(*fn_span);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(b).unwrap_or(J::Null), sp, s(self.ty(dt)), J::A(at)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = format!("{msg:?}");
                    let m = m.split(|c: char| c == '(' || c == '{' || c == ' ').next().unwrap_or("").to_string();
                    let kind = match &**msg {
                        AssertKind::Overflow(op, ..) => format!("Overflow:{op:?}"),
                        AssertKind::BoundsCheck { .. } => "Bounds".to_string(),
                        AssertKind::DivisionByZero(_) => "DivZero".to_string(),
                        AssertKind::RemainderByZero(_) => "RemZero".to_string(),
                        _ => m,
                    };
                    J::A(vec![s("assert"), self.operand(did, body, cond), J::B(*expected), s(kind), b(*target)])
                }
                TerminatorKind::Yield { resume, .. } => J::A(vec![s("yield"), b(*resume)]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![s("goto"), b(*real_target)]),
                other => J::A(vec![s("other"), s(format!("{other:?}"))]),
            };
            let sp = self.span(t.source_info.span);
            blocks.push(J::A(vec![J::A(st), tj, sp, J::B(bb.is_cleanup)]));
        }
        o.push(("blocks", J::A(blocks)));
        J::O(o)
    }
}

struct Cb;

fn dump(tcx: TyCtxt<'_>, out_dir: &str) {
    let mut cx = Cx { tcx, adts: Default::default(), defs: Default::default(), seen_adts: Default::default() };
    let _ = &cx.defs;
    let keys: Vec<_> = tcx.mir_keys(()).iter().copied().collect();
    let mut bodies = vec![];
    let mut stolen = vec![];
    for k in &keys {
        let kind = tcx.def_kind(*k);
        if matches!(kind, DefKind::Ctor(..)) {
            continue;
        }
        let st = tcx.mir_built(*k);
        if !st.is_stolen() {
            bodies.push((*k, st.borrow().clone()));
        } else if let Some(b) = built(*k) {
            bodies.push((*k, b));
        } else {
            stolen.push(s(cx.path(k.to_def_id())));
        }
    }
    let mut js = vec![];
    for (k, b) in &bodies {
        js.push(cx.body(k.to_def_id(), b));
    }
    // items
    let mut impls = vec![];
    let mut traits = vec![];
    let mut statics = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { of_trait } => {
                let st = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                cx.note_ty(st);
                let tr = if of_trait { s(cx.path(tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip().def_id)) } else { J::Null };
                let mut items = vec![];
                for a in tcx.associated_items(did).in_definition_order() {
                    let ti = if of_trait { a.trait_item_def_id().map(|d| s(cx.path(d))).unwrap_or(J::Null) } else { J::Null };
                    items.push(J::A(vec![s(a.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(cx.path(a.def_id)), ti]));
                }
                let mut types = vec![];
                for a in tcx.associated_items(did).in_definition_order() {
                    if a.is_type() {
                        let t = tcx.type_of(a.def_id).instantiate_identity().skip_norm_wip();
                        let env = rustc_middle::ty::TypingEnv::post_analysis(tcx, did);
                        let t = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(t)).unwrap_or(t);
                        types.push(J::A(vec![s(a.opt_name().map(|n| n.to_string()).unwrap_or_default()), s(cx.ty(t))]));
                    }
                }
                let auto = tcx.is_automatically_derived(did);
                let d = J::O(vec![
                    ("path", s(cx.path(did))),
                    ("self", s(cx.ty(st))),
                    ("self_head", s(cx.ty_head(st))),
                    ("trait", tr),
                    ("items", J::A(items)),
                    ("types", J::A(types)),
                    ("derived", J::B(auto)),
                    ("span", cx.span(tcx.def_span(did))),
                ]);
                impls.push(d);
            }
            DefKind::Trait => {
                let mut items = vec![];
                for a in tcx.associated_items(did).in_definition_order() {
                    items.push(J::A(vec![
                        s(a.opt_name().map(|n| n.to_string()).unwrap_or_default()),
                        s(cx.path(a.def_id)),
                        J::B(a.defaultness(tcx).has_value()),
                    ]));
                }
                traits.push(J::O(vec![("path", s(cx.path(did))), ("items", J::A(items))]));
            }
            DefKind::Struct | DefKind::Enum => {
                if cx.seen_adts.insert(did) {
                    let p = cx.path(did);
                    cx.adts.insert(p, did);
                }
            }
            DefKind::Static { .. } | DefKind::Const { .. } => {
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                statics.push(J::O(vec![("path", s(cx.path(did))), ("ty", s(cx.ty(t)))]));
            }
            _ => {}
        }
    }
    let mut adts = vec![];
    let mut done = BTreeSet::new();
    loop {
        let todo: Vec<(String, DefId)> = cx.adts.iter().filter(|(k, _)| !done.contains(*k)).map(|(k, v)| (k.clone(), *v)).collect();
        if todo.is_empty() {
            break;
        }
        for (p, d) in todo {
            done.insert(p.clone());
            let ad = tcx.adt_def(d);
            let mut vars = vec![];
            let discrs: BTreeMap<u32, i128> = if ad.is_enum() {
                ad.discriminants(tcx)
                    .map(|(i, d)| {
                        let sz = d.ty.primitive_size(tcx);
                        (i.as_u32(), if d.ty.is_signed() { sz.sign_extend(d.val) } else { d.val as i128 })
                    })
                    .collect()
            } else {
                Default::default()
            };
            let local_like = d.is_local();
            for (vi, v) in ad.variants().iter_enumerated() {
                let mut fs = vec![];
                for f in v.fields.iter() {
                    let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    if local_like {
                        cx.note_ty(ft);
                    }
                    fs.push(J::A(vec![s(f.name.to_string()), s(cx.ty(ft)), J::B(tcx.visibility(f.did).is_public())]));
                }
                vars.push(J::A(vec![s(v.name.to_string()), discrs.get(&vi.as_u32()).map(|d| J::I(*d)).unwrap_or(J::Null), J::A(fs)]));
            }
            let drop = tcx.adt_destructor(d).map(|x| s(cx.path(x.did))).unwrap_or(J::Null);
            adts.push(J::O(vec![
                ("path", s(p)),
                ("kind", s(if ad.is_enum() { "enum" } else if ad.is_union() { "union" } else { "struct" })),
                ("variants", J::A(vars)),
                ("drop", drop),
                ("generics", J::A(tcx.generics_of(d).own_params.iter().filter(|p| !matches!(p.kind, ty::GenericParamDefKind::Lifetime)).map(|p| s(p.name.to_string())).collect())),
                ("local", J::B(d.is_local())),
            ]));
        }
    }
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let mut feats: Vec<J> = vec![];
    for (k, v) in tcx.sess.config.iter() {
        if k.as_str() == "feature" {
            if let Some(v) = v {
                feats.push(s(v.to_string()));
            }
        }
    }
    let root = J::O(vec![
        ("crate", s(name.clone())),
        ("features", J::A(feats)),
        ("test", J::B(tcx.sess.is_test_crate())),
        ("stolen", J::A(stolen)),
        ("bodies", J::A(js)),
        ("impls", J::A(impls)),
        ("traits", J::A(traits)),
        ("statics", J::A(statics)),
        ("adts", J::A(adts)),
    ]);
    let mut out = String::new();
    root.w(&mut out);
    std::fs::write(format!("{out_dir}/{name}.json"), out).expect("write facts");
}

// A later phase steals a body from `mir_built` (checking one function can need the borrow check of another), so each
// body is copied when it is built.
type BuiltFn = for<'tcx> fn(TyCtxt<'tcx>, rustc_hir::def_id::LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<rustc_middle::mir::Body<'tcx>>;
static ORIG: std::sync::OnceLock<BuiltFn> = std::sync::OnceLock::new();
thread_local! {
    static BUILT: std::cell::RefCell<std::collections::HashMap<rustc_hir::def_id::LocalDefId, rustc_middle::mir::Body<'static>>> = Default::default();
}

fn built<'tcx>(k: rustc_hir::def_id::LocalDefId) -> Option<rustc_middle::mir::Body<'tcx>> {
    BUILT.with(|m| m.borrow().get(&k).cloned()).map(|b| unsafe { std::mem::transmute::<rustc_middle::mir::Body<'static>, rustc_middle::mir::Body<'tcx>>(b) })
}

fn keep_built<'tcx>(tcx: TyCtxt<'tcx>, k: rustc_hir::def_id::LocalDefId) -> &'tcx rustc_data_structures::steal::Steal<rustc_middle::mir::Body<'tcx>> {
    let r = ORIG.get().expect("provider")(tcx, k);
    let b = r.borrow().clone();
    let b = unsafe { std::mem::transmute::<rustc_middle::mir::Body<'tcx>, rustc_middle::mir::Body<'static>>(b) };
    BUILT.with(|m| m.borrow_mut().insert(k, b));
    r
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if std::env::var("CDN_FACTS_DIR").is_ok() {
            c.override_queries = Some(|_, p| {
                let _ = ORIG.set(p.queries.mir_built);
                p.queries.mir_built = keep_built;
            });
        }
    }

    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("CDN_FACTS_DIR") {
            let name = tcx.crate_name(LOCAL_CRATE).to_string();
            if name != "build_script_build" {
                rustc_middle::ty::print::with_no_trimmed_paths!(dump(tcx, &dir));
            }
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut cb = Cb;
    rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&args, &mut cb))
}
