// mirdump: a rustc driver that writes the type-checked program (MIR after drop
// elaboration, resolved callees, type definitions) of the workspace crate as JSON.
// Used through RUSTC_WORKSPACE_WRAPPER; the output directory is $MIRDUMP_OUT.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeVisitableExt};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: usize) -> J {
    J::I(x as i128)
}
impl J {
    fn w(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::B(b) => out.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(out, "{}", i);
            }
            J::S(x) => {
                out.push('"');
                for c in x.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        c if (c as u32) < 32 || c as u32 == 127 => {
                            let _ = write!(out, "\\u{:04x}", c as u32);
                        }
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    x.w(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    let _ = write!(out, "\"{}\":", k);
                    x.w(out);
                }
                out.push('}');
            }
        }
    }
}

// ------------------------------------------------------------------ dump
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<J>,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let p = rustc_middle::ty::print::with_no_trimmed_paths!(tcx.def_path_str(d));
        if d.is_local() {
            format!("crate::{}", p)
        } else {
            p
        }
    }
    // a unique id (def_path_str is ambiguous for closures / impl blocks)
    fn id(&self, d: DefId) -> String {
        let tcx = self.tcx;
        format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = lo.file.name.prefer_local_unconditionally().to_string();
        s(format!("{}:{}", name, lo.line))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tmap.get(&t) {
            return n(*i);
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.tmap.insert(t, i);
        let tcx = self.tcx;
        let txt = rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t));
        let j = match t.kind() {
            ty::Bool => J::O(vec![("k", s("bool"))]),
            ty::Char => J::O(vec![("k", s("char"))]),
            ty::Str => J::O(vec![("k", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(_) | ty::Uint(_) => J::O(vec![("k", s("int"))]),
            ty::Float(_) => J::O(vec![("k", s("float"))]),
            ty::Ref(_, x, m) => {
                let x = self.ty(*x);
                J::O(vec![("k", s("ref")), ("mut", J::B(m.is_mut())), ("t", x)])
            }
            ty::RawPtr(x, m) => {
                let x = self.ty(*x);
                J::O(vec![("k", s("ptr")), ("mut", J::B(m.is_mut())), ("t", x)])
            }
            ty::Slice(x) => {
                let x = self.ty(*x);
                J::O(vec![("k", s("slice")), ("t", x)])
            }
            ty::Array(x, len) => {
                let x = self.ty(*x);
                let l = len.try_to_target_usize(tcx).map(|v| v as i128).unwrap_or(-1);
                J::O(vec![("k", s("array")), ("t", x), ("len", J::I(l))])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("tuple")), ("ts", J::A(v))])
            }
            ty::Adt(def, args) => {
                let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                let did = def.did();
                self.adt(did);
                J::O(vec![("k", s("adt")), ("path", s(self.path(did))), ("args", J::A(v))])
            }
            ty::FnDef(d, args) => {
                let args = args.skip_binder();
                let v: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                let c = self.callee_data(*d, args, None);
                J::O(vec![("k", s("fndef")), ("path", s(self.path(*d))), ("args", J::A(v)), ("callee", c)])
            }
            ty::Closure(d, args) => {
                let up: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", s("closure")), ("id", s(self.id(*d))), ("path", s(self.path(*d))), ("upvars", J::A(up))])
            }
            ty::FnPtr(..) => J::O(vec![("k", s("fnptr"))]),
            ty::Dynamic(..) => J::O(vec![("k", s("dyn"))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("name", s(p.name.to_string()))]),
            ty::Alias(..) => J::O(vec![("k", s("alias"))]),
            _ => J::O(vec![("k", s("other"))]),
        };
        let J::O(mut v) = j else { unreachable!() };
        v.push(("s", s(txt)));
        self.types[i] = J::O(v);
        n(i)
    }
    fn adt(&mut self, did: DefId) {
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, ());
        let tcx = self.tcx;
        let def = tcx.adt_def(did);
        let local = did.is_local();
        let mut vs = vec![];
        for (vi, v) in def.variants().iter_enumerated() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let ft = if local {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    J::Null
                };
                fs.push(J::O(vec![
                    ("name", s(f.name.to_string())),
                    ("ty", ft),
                    ("pub", J::B(tcx.visibility(f.did).is_public())),
                ]));
            }
            let dv = if def.is_enum() {
                def.discriminant_for_variant(tcx, vi).val as i128
            } else {
                0
            };
            vs.push(J::O(vec![("name", s(v.name.to_string())), ("disc", J::I(dv)), ("fields", J::A(fs))]));
        }
        let kind = if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" };
        let sp = if local { self.span(tcx.def_span(did)) } else { J::Null };
        let j = J::O(vec![
            ("path", s(self.path(did))),
            ("kind", s(kind)),
            ("local", J::B(local)),
            ("pub", J::B(tcx.visibility(did).is_public())),
            ("span", sp),
            ("variants", J::A(vs)),
        ]);
        self.adt_out.push(j);
    }

    fn callee_data(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut o = vec![("def", s(self.path(d))), ("id", s(self.id(d))), ("local", J::B(d.is_local()))];
        let ts: Vec<J> = args.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(ts)));
        o.push(("unsafe", J::B(tcx.fn_sig(d).skip_binder().safety().is_unsafe())));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
            o.push(("method", s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
            let stj = self.ty(st);
            o.push(("impl_self", stj));
        }
        if let Some(env) = env {
            if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args) {
                let rd = inst.def_id();
                o.push(("rdef", s(self.path(rd))));
                o.push(("rid", s(self.id(rd))));
                o.push(("rlocal", J::B(rd.is_local())));
                let kind = match inst.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    _ => "shim",
                };
                o.push(("rkind", s(kind)));
                let rts: Vec<J> = inst.args.types().map(|t| self.ty(t)).collect();
                o.push(("rtargs", J::A(rts)));
                if let Some(im) = tcx.impl_of_assoc(rd) {
                    if tcx.is_automatically_derived(im) {
                        o.push(("derived", J::B(true)));
                    }
                }
            }
        }
        J::O(o)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut projs = vec![];
        let mut cur = rustc_middle::mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let base = cur;
            cur = cur.projection_ty(tcx, e);
            let j = match e {
                ProjectionElem::Deref => {
                    let t = self.ty(base.ty);
                    J::A(vec![s("*"), t])
                }
                ProjectionElem::Field(f, fty) => {
                    let name = match base.ty.kind() {
                        ty::Adt(def, _) => {
                            let v = match base.variant_index {
                                Some(v) => def.variant(v),
                                None => def.non_enum_variant(),
                            };
                            v.fields[f].name.to_string()
                        }
                        _ => format!("{}", f.index()),
                    };
                    let t = self.ty(fty);
                    J::A(vec![s("."), s(name), n(f.index()), t])
                }
                ProjectionElem::Index(l) => J::A(vec![s("[]"), n(l.index())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c[]"), n(offset as usize), n(min_length as usize), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("sub"), n(from as usize), n(to as usize), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let (name, idx) = match base.ty.kind() {
                        ty::Adt(def, _) => (def.variant(v).name.to_string(), v.index()),
                        _ => (format!("{}", v.index()), v.index()),
                    };
                    J::A(vec![s("as"), s(name), n(idx)])
                }
                _ => J::A(vec![s("?"), s(format!("{:?}", e))]),
            };
            projs.push(j);
        }
        let t = self.ty(cur.ty);
        J::O(vec![("l", n(p.local.index())), ("p", J::A(projs)), ("t", t)])
    }

    fn alloc_str(&self, bytes: &[u8]) -> J {
        match std::str::from_utf8(bytes) {
            Ok(x) => s(x),
            Err(_) => J::Null,
        }
    }

    /// the contents of a constant as a tree of literals
    fn literal(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
        let tcx = self.tcx;
        if depth > 8 {
            return None;
        }
        let tj = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", tj)];
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let i = v.try_to_scalar_int()?;
                let bits = i.to_bits(i.size());
                o.push(("int", if t.is_signed() { J::I(i.size().sign_extend(bits)) } else { J::I(bits as i128) }));
            }
            ty::Ref(_, inner, _) => {
                if inner.is_str() {
                    let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                    o.push(("str", self.alloc_str(b)));
                    return Some(J::O(o));
                }
                let (alloc_id, offset, len) = match v {
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, rustc_abi::Size::ZERO, Some(meta)),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off, None)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                        let a = a.inner();
                        let ps = tcx.data_layout.pointer_size();
                        let p = a
                            .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, ps), true)
                            .ok()?;
                        let Scalar::Ptr(p, _) = p else { return None };
                        let (prov, off) = p.into_raw_parts();
                        let mut len = None;
                        if inner.is_slice() {
                            let l = a
                                .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset + ps, ps), false)
                                .ok()?;
                            len = Some(l.try_to_scalar_int().ok()?.to_bits(ps) as u64);
                        }
                        (prov.alloc_id(), off, len)
                    }
                    _ => return None,
                };
                let pt = match inner.kind() {
                    ty::Slice(e) => Ty::new_array(tcx, *e, len?),
                    _ => *inner,
                };
                let alloc_id = match tcx.try_get_global_alloc(alloc_id)? {
                    GlobalAlloc::Memory(_) => alloc_id,
                    GlobalAlloc::Static(d) => {
                        if !inner.is_freeze(tcx, ty::TypingEnv::fully_monomorphized()) {
                            return None;
                        }
                        tcx.reserve_and_set_memory_alloc(tcx.eval_static_initializer(d).ok()?)
                    }
                    _ => return None,
                };
                let pv = self.at(alloc_id, offset, pt)?;
                o.push(("ref", self.literal(pv, pt, depth + 1)?));
            }
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return None;
                    }
                    self.adt(d.did());
                }
                if let ty::Array(_, l) = t.kind() {
                    if l.try_to_target_usize(tcx)? > 200 {
                        return None;
                    }
                }
                let c = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                if let (ty::Adt(d, _), Some(vi)) = (t.kind(), c.variant) {
                    let var = d.variant(vi);
                    if d.is_enum() {
                        o.push(("variant", s(var.name.to_string())));
                    }
                    o.push(("names", J::A(var.fields.iter().map(|f| s(f.name.to_string())).collect())));
                }
                let mut fs = vec![];
                for (fv, ft) in c.fields.iter() {
                    fs.push(self.literal(*fv, *ft, depth + 1)?);
                }
                o.push(("fields", J::A(fs)));
            }
            _ => return None,
        }
        Some(J::O(o))
    }

    /// the value of type t in memory
    fn at(&mut self, alloc_id: rustc_middle::mir::interpret::AllocId, offset: rustc_abi::Size, t: Ty<'tcx>) -> Option<ConstValue> {
        use rustc_middle::mir::interpret::GlobalAlloc;
        let tcx = self.tcx;
        let l = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(t)).ok()?;
        if l.is_zst() {
            return Some(ConstValue::ZeroSized);
        }
        if let rustc_abi::BackendRepr::Scalar(sc) = l.backend_repr {
            if !matches!(t.kind(), ty::Adt(..) | ty::Array(..) | ty::Tuple(..)) {
                let GlobalAlloc::Memory(a) = tcx.try_get_global_alloc(alloc_id)? else { return None };
                let is_ptr = matches!(sc.primitive(), rustc_abi::Primitive::Pointer(_));
                let v = a
                    .inner()
                    .read_scalar(&tcx, rustc_middle::mir::interpret::alloc_range(offset, l.size), is_ptr)
                    .ok()?;
                return Some(ConstValue::Scalar(v));
            }
        }
        Some(ConstValue::Indirect { alloc_id, offset })
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        let tj = self.ty(t);
        let mut o = vec![("k", s("const")), ("ty", tj)];
        if let ty::FnDef(d, args) = t.kind() {
            o.push(("fn", self.callee_data(*d, args.skip_binder(), Some(env))));
            return J::O(o);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                o.push(("promoted", n(p.index())));
                o.push(("of", s(self.id(u.def))));
                return J::O(o);
            }
            o.push(("item", s(self.path(u.def))));
        }
        let val = match c.const_ {
            Const::Val(v, _) => Some(v),
            _ => {
                if c.const_.has_param() {
                    None
                } else {
                    c.const_.eval(tcx, env, c.span).ok()
                }
            }
        };
        if let Some(v) = val {
            match v {
                ConstValue::ZeroSized => o.push(("zst", J::B(true))),
                ConstValue::Scalar(sc) => {
                    if let Some(bits) = c.const_.try_eval_bits(tcx, env) {
                        let j = match t.kind() {
                            ty::Int(_) => {
                                let size = rustc_abi::Size::from_bytes(
                                    sc.try_to_scalar_int().map(|i| i.size().bytes()).unwrap_or(16),
                                );
                                J::I(size.sign_extend(bits))
                            }
                            _ => J::I(bits as i128),
                        };
                        o.push(("int", j));
                    } else {
                        // pointer: maybe to a byte array / static
                        let peeled = t.builtin_deref(true);
                        if let Some(inner) = peeled {
                            if let ty::Array(_, _) = inner.kind() {
                                if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                                    if let Some(rustc_middle::mir::interpret::GlobalAlloc::Memory(a)) =
                                        tcx.try_get_global_alloc(p.provenance.alloc_id())
                                    {
                                        let a = a.inner();
                                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(0..a.len());
                                        let v = b.iter().map(|x| J::I(*x as i128)).collect();
                                        o.push(("bytes", J::A(v)));
                                    }
                                }
                            }
                        }
                        if let rustc_middle::mir::interpret::Scalar::Ptr(p, _) = sc {
                            if let Some(rustc_middle::mir::interpret::GlobalAlloc::Static(d)) =
                                tcx.try_get_global_alloc(p.provenance.alloc_id())
                            {
                                o.push(("static", s(self.path(d))));
                            }
                        }
                    }
                }
                ConstValue::Slice { .. } => {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                        let inner = t.builtin_deref(true);
                        let is_str = inner.map(|x| x.is_str()).unwrap_or(false);
                        if is_str {
                            o.push(("str", self.alloc_str(b)));
                        } else {
                            o.push(("bytes", J::A(b.iter().map(|x| J::I(*x as i128)).collect())));
                        }
                    }
                }
                ConstValue::Indirect { .. } => {
                    let mut done = false;
                    if t.builtin_deref(true).map(|x| x.is_str()).unwrap_or(false) {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            o.push(("str", self.alloc_str(b)));
                            done = true;
                        }
                    }
                    if !done {
                        o.push(("indirect", s(format!("{}", c.const_))));
                    }
                }
            }
        }
        if let Some(v) = val {
            if !o.iter().any(|(k, _)| matches!(*k, "int" | "str" | "bytes" | "zst")) && !t.has_param() {
                let te = tcx.erase_and_anonymize_regions(t);
                if let Some(l) = self.literal(v, te, 0) {
                    o.push(("lit", l));
                }
            }
        }
        o.push(("txt", s(rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", c.const_)))));
        J::O(o)
    }

    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => J::O(vec![("k", s("copy")), ("p", self.place(body, p))]),
            Operand::Move(p) => J::O(vec![("k", s("move")), ("p", self.place(body, p))]),
            Operand::Constant(c) => self.constant(c, env),
            #[allow(unreachable_patterns)]
            _ => J::O(vec![("k", s("rtcheck")), ("txt", s(format!("{:?}", op)))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(op, ..) => J::O(vec![("k", s("use")), ("a", self.operand(body, op, env))]),
            Rvalue::Repeat(op, c) => {
                let l = c.try_to_target_usize(tcx).map(|v| v as i128).unwrap_or(-1);
                J::O(vec![("k", s("repeat")), ("a", self.operand(body, op, env)), ("n", J::I(l))])
            }
            Rvalue::Ref(_, bk, p) => J::O(vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(bk, BorrowKind::Mut { .. }))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::RawPtr(k, p) => J::O(vec![
                ("k", s("rawptr")),
                ("mut", J::B(matches!(k, RawPtrKind::Mut))),
                ("p", self.place(body, p)),
            ]),
            Rvalue::Cast(k, op, t) => {
                let tj = self.ty(*t);
                J::O(vec![("k", s("cast")), ("kind", s(format!("{:?}", k))), ("a", self.operand(body, op, env)), ("t", tj)])
            }
            Rvalue::BinaryOp(op, ab) => J::O(vec![
                ("k", s("bin")),
                ("op", s(format!("{:?}", op))),
                ("a", self.operand(body, &ab.0, env)),
                ("b", self.operand(body, &ab.1, env)),
            ]),
            Rvalue::UnaryOp(op, a) => {
                J::O(vec![("k", s("un")), ("op", s(format!("{:?}", op))), ("a", self.operand(body, a, env))])
            }
            Rvalue::Discriminant(p) => J::O(vec![("k", s("disc")), ("p", self.place(body, p))]),
            Rvalue::Aggregate(kind, ops) => {
                let mut names: Vec<J> = vec![];
                let mut o = vec![("k", s("agg"))];
                match &**kind {
                    AggregateKind::Array(_) => o.push(("agg", s("array"))),
                    AggregateKind::Tuple => o.push(("agg", s("tuple"))),
                    AggregateKind::Adt(d, v, _, _, active) => {
                        o.push(("agg", s("adt")));
                        o.push(("path", s(self.path(*d))));
                        let def = tcx.adt_def(*d);
                        self.adt(*d);
                        let var = def.variant(*v);
                        if def.is_enum() {
                            o.push(("variant", s(var.name.to_string())));
                            o.push(("vidx", n(v.index())));
                            o.push(("disc", J::I(def.discriminant_for_variant(tcx, *v).val as i128)));
                        }
                        if let Some(a) = active {
                            names.push(s(var.fields[*a].name.to_string()));
                        } else {
                            for f in var.fields.iter() {
                                names.push(s(f.name.to_string()));
                            }
                        }
                    }
                    AggregateKind::Closure(d, _) => {
                        o.push(("agg", s("closure")));
                        o.push(("id", s(self.id(*d))));
                    }
                    AggregateKind::RawPtr(..) => o.push(("agg", s("rawptr"))),
                    _ => o.push(("agg", s("other"))),
                }
                let v = ops.iter().map(|x| self.operand(body, x, env)).collect();
                o.push(("names", J::A(names)));
                o.push(("ops", J::A(v)));
                J::O(o)
            }
            Rvalue::CopyForDeref(p) => J::O(vec![
                ("k", s("use")),
                ("a", J::O(vec![("k", s("copy")), ("p", self.place(body, p))])),
            ]),
            _ => J::O(vec![("k", s("other")), ("txt", s(format!("{:?}", r)))]),
        }
    }

    fn body(&mut self, body: &Body<'tcx>, env: ty::TypingEnv<'tcx>) -> Vec<(&'static str, J)> {
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in body.var_debug_info.iter() {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.index(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let nm = names.get(&l.index()).map(|x| s(x.clone())).unwrap_or(J::Null);
            locals.push(J::A(vec![t, nm]));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for st in &data.statements {
                match &st.kind {
                    StatementKind::Assign(b) => {
                        let (p, r) = &**b;
                        let pj = self.place(body, p);
                        let rj = self.rvalue(body, r, env);
                        let sp = self.span(st.source_info.span);
                        stmts.push(J::O(vec![("p", pj), ("r", rj), ("sp", sp)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pj = self.place(body, place);
                        stmts.push(J::O(vec![("p", pj), ("setdisc", n(variant_index.index()))]));
                    }
                    _ => {}
                }
            }
            let term = data.terminator();
            let sp = self.span(term.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![];
            match &term.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.index())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    o.push(("d", self.operand(body, discr, env)));
                    let dt = discr.ty(&body.local_decls, self.tcx);
                    let dtj = self.ty(dt);
                    o.push(("ty", dtj));
                    let mut v = vec![];
                    for (val, t) in targets.iter() {
                        v.push(J::A(vec![J::I(val as i128), n(t.index())]));
                    }
                    o.push(("vals", J::A(v)));
                    o.push(("else", n(targets.otherwise().index())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => o.push(("k", s("resume"))),
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    o.push(("p", self.place(body, place)));
                    o.push(("t", n(target.index())));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    o.push(("k", s("call")));
                    o.push(("f", self.operand(body, func, env)));
                    let v = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    o.push(("args", J::A(v)));
                    o.push(("dest", self.place(body, destination)));
                    o.push(("t", target.map(|t| n(t.index())).unwrap_or(J::Null)));
                    let rt = func.ty(&body.local_decls, self.tcx);
                    let rtj = self.ty(rt);
                    o.push(("fty", rtj));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    o.push(("c", self.operand(body, cond, env)));
                    o.push(("exp", J::B(*expected)));
                    let m = format!("{:?}", msg);
                    o.push(("msg", s(m.split('(').next().unwrap_or("").to_string())));
                    o.push(("t", n(target.index())));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.index())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.index())));
                }
                _ => {
                    o.push(("k", s("other")));
                    o.push(("txt", s(format!("{:?}", term.kind))));
                }
            }
            o.push(("sp", sp));
            blocks.push(J::O(vec![("s", J::A(stmts)), ("t", J::O(o)), ("cleanup", J::B(data.is_cleanup))]));
        }
        vec![("argc", n(body.arg_count)), ("locals", J::A(locals)), ("blocks", J::A(blocks))]
    }

    fn function(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let kind = tcx.def_kind(did);
        let k = match kind {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            DefKind::Closure => "closure",
            _ => return None,
        };
        let env = ty::TypingEnv::post_analysis(tcx, did);
        let mut o = vec![("path", s(self.path(did))), ("id", s(self.id(did))), ("kind", s(k))];
        let ev = tcx.effective_visibilities(());
        o.push(("exported", J::B(ev.is_reachable(d))));
        if k != "closure" {
            o.push(("pub", J::B(tcx.visibility(did).is_public())));
            let sig = tcx.fn_sig(did).skip_binder().skip_binder();
            o.push(("unsafe", J::B(tcx.fn_sig(did).skip_binder().safety().is_unsafe())));
            let ins: Vec<J> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
            o.push(("inputs", J::A(ins)));
            let out = self.ty(sig.output());
            o.push(("output", out));
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = tcx.type_of(im).instantiate_identity().skip_norm_wip();
                let stj = self.ty(st);
                o.push(("impl_self", stj));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    o.push(("trait", s(self.path(tr.def_id))));
                    let ta: Vec<J> = tr.args.types().map(|t| self.ty(t)).collect();
                    o.push(("trait_args", J::A(ta)));
                }
                o.push(("derived", J::B(tcx.is_automatically_derived(im))));
            }
            o.push(("name", s(tcx.item_name(did).to_string())));
        } else {
            o.push(("parent", s(self.id(tcx.parent(did)))));
        }
        o.push(("span", self.span(tcx.def_span(did))));
        let b = tcx.mir_drops_elaborated_and_const_checked(d).borrow();
        let bj = self.body(&b, env);
        o.extend(bj);
        drop(b);
        let proms = tcx.promoted_mir(did);
        let mut pv = vec![];
        for p in proms.iter() {
            pv.push(J::O(self.body(p, env)));
        }
        o.push(("promoted", J::A(pv)));
        Some(J::O(o))
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("MIRDUMP_OUT") else { return Compilation::Continue };
        let crate_name = tcx.crate_name(LOCAL_CRATE).to_string();
        let mut d = D { tcx, types: vec![], tmap: HashMap::new(), adts: HashMap::new(), adt_out: vec![] };
        let mut fns = vec![];
        let mut statics = vec![];
        for def in tcx.hir_crate_items(()).definitions() {
            match tcx.def_kind(def) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => d.adt(def.to_def_id()),
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let t = tcx.erase_and_anonymize_regions(t);
                    let frozen = t.is_freeze(tcx, ty::TypingEnv::fully_monomorphized());
                    statics.push(J::O(vec![
                        ("path", s(d.path(def.to_def_id()))),
                        ("ty", s(format!("{}", t))),
                        ("mut", J::B(mutability.is_mut())),
                        ("freeze", J::B(frozen)),
                    ]));
                }
                _ => {}
            }
        }
        for def in tcx.hir_body_owners() {
            if let Some(j) = d.function(def) {
                fns.push(j);
            }
        }
        let types = std::mem::take(&mut d.types);
        let adts = std::mem::take(&mut d.adt_out);
        let j = J::O(vec![
            ("crate", s(crate_name.clone())),
            ("fns", J::A(fns)),
            ("adts", J::A(adts)),
            ("statics", J::A(statics)),
            ("types", J::A(types)),
        ]);
        let mut text = String::new();
        j.w(&mut text);
        let is_bin = tcx.entry_fn(()).is_some();
        let f = format!("{}/{}{}.json", out, crate_name, if is_bin { "-bin" } else { "" });
        std::fs::write(&f, text).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
