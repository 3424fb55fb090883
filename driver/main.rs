// Fact extractor: a rustc driver that dumps, for one workspace crate, the
// resolved program (MIR with resolved callees, evaluated constants, ADTs, impls)
// as JSON.  Used through RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_abi::{FieldsShape, Size, TagEncoding, VariantIdx, Variants};
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{alloc_range, AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::layout::LayoutOf;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::fmt::Write as _;

// ---------------------------------------------------------------- JSON
#[derive(Clone, Debug)]
enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}

// ---------------------------------------------------------------- helpers
struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
}
const BIG: u64 = 70000;

impl<'tcx> D<'tcx> {
    fn name(&self, d: DefId) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(self.tcx.def_path_str(d))))
    }
    fn id(&self, d: DefId) -> String {
        format!("{}{}", self.tcx.crate_name(d.krate), self.tcx.def_path(d).to_string_no_crate_verbose())
    }
    fn ty(&self, t: Ty<'tcx>) -> String {
        with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", t))))
    }
    fn args(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::A(
            a.iter()
                .filter(|x| x.as_region().is_none())
                .map(|x| s(with_no_visible_paths!(with_resolve_crate_name!(with_no_trimmed_paths!(format!("{}", x))))))
                .collect(),
        )
    }
    fn loc(&self, sp: Span) -> (String, i128) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        let f = match &l.file.name {
            rustc_span::FileName::Real(r) => match r.local_path() {
                Some(p) => p.to_string_lossy().to_string(),
                None => format!("{:?}", r),
            },
            o => format!("{:?}", o),
        };
        (f, l.line as i128)
    }
    fn line(&self, sp: Span) -> J {
        J::I(self.loc(sp).1)
    }

    // ---------------- constants
    fn scalar(&self, sc: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        match sc {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                match t.kind() {
                    ty::Bool => J::B(bits != 0),
                    ty::Int(_) => J::I(i.to_int(i.size())),
                    ty::Float(f) => match f.bit_width() {
                        32 => s(format!("f:{:?}", f32::from_bits(bits as u32))),
                        64 => s(format!("f:{:?}", f64::from_bits(bits as u64))),
                        _ => s("f:?"),
                    },
                    ty::Char => J::O(vec![("char", J::I(bits as i128))]),
                    ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => self.int_as_agg(bits, t, depth),
                    _ => {
                        if bits > i128::MAX as u128 {
                            s(format!("{}", bits))
                        } else {
                            J::I(bits as i128)
                        }
                    }
                }
            }
            Scalar::Ptr(p, _) => {
                let (prov, off) = p.prov_and_relative_offset();
                self.pointee(prov.alloc_id(), off, None, t, depth)
            }
        }
    }
    // a scalar-abi aggregate (newtype / fieldless enum): decode through an in-memory view
    fn int_as_agg(&self, bits: u128, t: Ty<'tcx>, depth: usize) -> J {
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return s("?layout") };
        let n = l.size.bytes() as usize;
        let by = bits.to_le_bytes();
        self.bytes_val(&by[..n.min(16)], None, t, depth)
    }
    fn pointee(&self, a: AllocId, off: Size, meta: Option<u64>, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 8 {
            return s("?deep");
        }
        let inner = match t.kind() {
            ty::Ref(_, i, _) | ty::RawPtr(i, _) => *i,
            ty::FnPtr(..) => {
                if let Some(GlobalAlloc::Function { instance }) = self.tcx.try_get_global_alloc(a) {
                    return J::O(vec![("fn", s(self.id(instance.def_id()))), ("name", s(self.name(instance.def_id())))]);
                }
                return s("?fnptr");
            }
            _ => return s("?ptr"),
        };
        match self.tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(m)) => {
                let m = m.inner();
                let bytes = m.inspect_with_uninit_and_ptr_outside_interpreter(0..m.len());
                let o = off.bytes() as usize;
                if o > bytes.len() {
                    return s("?oob");
                }
                match inner.kind() {
                    ty::Str => {
                        let n = meta.unwrap_or(0) as usize;
                        J::O(vec![("str", s(String::from_utf8_lossy(&bytes[o..(o + n).min(bytes.len())]).to_string()))])
                    }
                    ty::Slice(e) => {
                        let n = meta.unwrap_or(0);
                        J::O(vec![("ref", self.seq(m, o, *e, n, depth + 1))])
                    }
                    _ => J::O(vec![("ref", self.mem_val(m, o, inner, depth + 1))]),
                }
            }
            Some(GlobalAlloc::Static(d)) => J::O(vec![("static", s(self.id(d)))]),
            Some(GlobalAlloc::Function { instance }) => J::O(vec![("fn", s(self.id(instance.def_id()))), ("name", s(self.name(instance.def_id())))]),
            _ => s("?alloc"),
        }
    }
    fn seq(&self, m: &rustc_middle::mir::interpret::Allocation, o: usize, e: Ty<'tcx>, n: u64, depth: usize) -> J {
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = self.tcx.layout_of(env.as_query_input(e)) else { return s("?layout") };
        if n > BIG {
            return J::O(vec![("biglen", J::I(n as i128))]);
        }
        let st = l.size.bytes() as usize;
        J::A((0..n as usize).map(|i| self.mem_val(m, o + i * st, e, depth)).collect())
    }
    fn bytes_val(&self, b: &[u8], _p: Option<()>, t: Ty<'tcx>, depth: usize) -> J {
        // build a throw-away allocation
        let a = rustc_middle::mir::interpret::Allocation::from_bytes_byte_aligned_immutable(b, ());
        self.mem_val(&a, 0, t, depth)
    }
    fn mem_val(&self, m: &rustc_middle::mir::interpret::Allocation, o: usize, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return s("?deep");
        }
        let env = TypingEnv::fully_monomorphized();
        let Ok(l) = self.tcx.layout_of(env.as_query_input(t)) else { return s("?layout") };
        let sz = l.size;
        let dl = &self.tcx.data_layout;
        if o as u64 + sz.bytes() > m.len() as u64 {
            return s("?oob");
        }
        match t.kind() {
            ty::Bool | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Char => {
                match m.read_scalar(dl, alloc_range(Size::from_bytes(o as u64), sz), false) {
                    Ok(sc) => self.scalar(sc, t, depth),
                    Err(_) => s("?uninit"),
                }
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let ps = dl.pointer_size();
                match m.read_scalar(dl, alloc_range(Size::from_bytes(o as u64), ps), true) {
                    Ok(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        let meta = if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                            m.read_scalar(dl, alloc_range(Size::from_bytes(o as u64) + ps, ps), false)
                                .ok()
                                .and_then(|x| match x {
                                    Scalar::Int(i) => Some(i.to_bits(i.size()) as u64),
                                    _ => None,
                                })
                        } else {
                            None
                        };
                        self.pointee(prov.alloc_id(), off, meta, t, depth)
                    }
                    Ok(Scalar::Int(i)) => {
                        // dangling pointer for empty slices/ZST
                        let _ = i;
                        match inner.kind() {
                            ty::Str => J::O(vec![("str", s(""))]),
                            ty::Slice(_) => J::O(vec![("ref", J::A(vec![]))]),
                            _ => J::O(vec![("ref", s("?dangling"))]),
                        }
                    }
                    Err(_) => s("?uninit"),
                }
            }
            ty::FnPtr(..) => match m.read_scalar(dl, alloc_range(Size::from_bytes(o as u64), sz), true) {
                Ok(sc) => self.scalar(sc, t, depth),
                Err(_) => s("?uninit"),
            },
            ty::Array(e, n) => match n.try_to_target_usize(self.tcx) {
                Some(n) => self.seq(m, o, *e, n, depth + 1),
                None => match &l.fields {
                    rustc_abi::FieldsShape::Array { count, .. } => self.seq(m, o, *e, *count, depth + 1),
                    _ => s("?len"),
                },
            },
            ty::Tuple(ts) => J::A(
                ts.iter().enumerate().map(|(i, et)| self.mem_val(m, o + l.fields.offset(i).bytes() as usize, et, depth + 1)).collect(),
            ),
            ty::Adt(adt, args) => {
                if adt.is_union() {
                    return s("?union");
                }
                if adt.is_struct() {
                    let v = adt.non_enum_variant();
                    let fs = v
                        .fields
                        .iter_enumerated()
                        .map(|(i, f)| {
                            let ft = self.tcx.normalize_erasing_regions(env, f.ty(self.tcx, args));
                            (f.name.to_string(), self.mem_val(m, o + l.fields.offset(i.as_usize()).bytes() as usize, ft, depth + 1))
                        })
                        .collect();
                    return J::O(vec![("adt", s(self.name(adt.did()))), ("f", J::M(fs))]);
                }
                // enum
                let vi: Option<VariantIdx> = match &l.variants {
                    Variants::Empty => None,
                    Variants::Single { index } => Some(*index),
                    Variants::Multiple { tag, tag_encoding, tag_field, .. } => {
                        let toff = l.fields.offset(tag_field.as_usize());
                        let tsz = tag.size(dl);
                        match m.read_scalar(dl, alloc_range(Size::from_bytes(o as u64) + toff, tsz), false) {
                            Ok(Scalar::Int(i)) => {
                                let bits = i.to_bits(tsz);
                                match tag_encoding {
                                    TagEncoding::Direct => adt.discriminants(self.tcx).find(|(_, d)| tsz.truncate(d.val) == bits).map(|x| x.0),
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        let rel = tsz.truncate(bits.wrapping_sub(*niche_start));
                                        let n = (niche_variants.last.as_u32() - niche_variants.start.as_u32()) as u128;
                                        if rel <= n {
                                            Some(VariantIdx::from_u32(niche_variants.start.as_u32() + rel as u32))
                                        } else {
                                            Some(*untagged_variant)
                                        }
                                    }
                                }
                            }
                            // pointer in niche: untagged
                            _ => match tag_encoding {
                                TagEncoding::Niche { untagged_variant, .. } => Some(*untagged_variant),
                                _ => None,
                            },
                        }
                    }
                };
                let Some(vi) = vi else { return s("?enum") };
                let v = adt.variant(vi);
                let cx = ty::layout::LayoutCx::new(self.tcx, env);
                let vl = l.for_variant(&cx, vi);
                let fs: Vec<(String, J)> = v
                    .fields
                    .iter_enumerated()
                    .map(|(i, f)| {
                        let ft = self.tcx.normalize_erasing_regions(env, f.ty(self.tcx, args));
                        let off = match &vl.fields {
                            FieldsShape::Primitive => Size::ZERO,
                            _ => vl.fields.offset(i.as_usize()),
                        };
                        (f.name.to_string(), self.mem_val(m, o + off.bytes() as usize, ft, depth + 1))
                    })
                    .collect();
                J::O(vec![("adt", s(self.name(adt.did()))), ("v", s(v.name.to_string())), ("f", J::M(fs))])
            }
            _ => s("?ty"),
        }
    }
    fn cval(&self, v: ConstValue, t: Ty<'tcx>) -> J {
        match v {
            ConstValue::ZeroSized => match t.kind() {
                ty::FnDef(d, a) => J::O(vec![("fn", s(self.id(*d))), ("name", s(self.name(*d))), ("args", self.args(a.no_bound_vars().unwrap()))]),
                ty::Closure(d, _) => J::O(vec![("fn", s(self.id(*d))), ("name", s(self.name(*d)))]),
                _ => J::O(vec![("zst", s(self.ty(t)))]),
            },
            ConstValue::Scalar(sc) => match t.kind() {
                ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => match sc {
                    Scalar::Int(i) => self.int_as_agg(i.to_bits(i.size()), t, 0),
                    _ => s("?ptragg"),
                },
                _ => self.scalar(sc, t, 0),
            },
            ConstValue::Slice { alloc_id, meta } => self.pointee(alloc_id, Size::ZERO, Some(meta), t, 0),
            ConstValue::Indirect { alloc_id, offset } => match self.tcx.try_get_global_alloc(alloc_id) {
                Some(GlobalAlloc::Memory(m)) => self.mem_val(m.inner(), offset.bytes() as usize, t, 0),
                _ => s("?ind"),
            },
        }
    }
    fn konst(&self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let t = c.const_.ty();
        let mut o = vec![("t", s(self.ty(t)))];
        match t.kind() {
            ty::FnDef(d, a) => {
                o.push(("v", self.callee(*d, a.no_bound_vars().unwrap(), env)));
                return J::O(o);
            }
            _ => {}
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            o.push(("uid", s(self.id(u.def))));
            if let Some(p) = u.promoted {
                o.push(("promoted", J::I(p.as_u32() as i128)));
            }
        }
        if let Const::Ty(_, cc) = c.const_ {
            o.push(("param", s(format!("{}", cc))));
        }
        match c.const_.eval(self.tcx, env, c.span) {
            Ok(v) => {
                if self.mono(t) {
                    o.push(("v", self.cval(v, t)))
                } else {
                    o.push(("v", J::N))
                }
            }
            Err(_) => o.push(("v", J::N)),
        }
        J::O(o)
    }
    fn mono(&self, t: Ty<'tcx>) -> bool {
        use rustc_middle::ty::TypeVisitableExt;
        !t.has_param() && !t.has_aliases()
    }
    fn callee(&self, d: DefId, a: ty::GenericArgsRef<'tcx>, env: TypingEnv<'tcx>) -> J {
        let mut o = vec![("fn", s(self.id(d))), ("name", s(self.name(d))), ("args", self.args(a))];
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.name(t))));
            if let Some(x) = a.types().next() {
                o.push(("self", s(self.ty(x))));
            }
        }
        let e = self.tcx.erase_and_anonymize_regions(a);
        if matches!(self.tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            if let Ok(Some(i)) = Instance::try_resolve(self.tcx, env, d, e) {
                if i.def_id() != d {
                    o.push(("res", s(self.id(i.def_id()))));
                    o.push(("resname", s(self.name(i.def_id()))));
                } else if self.tcx.trait_of_assoc(d).is_some() {
                    // default method or still virtual
                    if matches!(i.def, ty::InstanceKind::Virtual(..)) {
                        o.push(("virt", J::B(true)));
                    }
                }
            }
        }
        J::O(o)
    }

    // ---------------- bodies
    fn place(&self, p: &Place<'tcx>, body: &Body<'tcx>) -> J {
        if p.projection.is_empty() {
            return J::I(p.local.as_u32() as i128);
        }
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, _) => {
                    let mut nm = f.as_u32().to_string();
                    let mut ad = String::new();
                    match pt.ty.kind() {
                        ty::Adt(adt, _) => {
                            let v = match pt.variant_index {
                                Some(v) => Some(adt.variant(v)),
                                None if !adt.is_enum() => Some(adt.non_enum_variant()),
                                _ => None,
                            };
                            if let Some(v) = v {
                                nm = v.fields[f].name.to_string();
                            }
                            ad = self.name(adt.did());
                        }
                        ty::Closure(d, _) => {
                            if let Some(ld) = d.as_local() {
                                let syms = self.tcx.closure_saved_names_of_captured_variables(ld);
                                if let Some(n) = syms.get(rustc_abi::FieldIdx::from_u32(f.as_u32())) {
                                    nm = format!("^{}", n);
                                }
                            }
                            ad = self.id(*d);
                        }
                        _ => {}
                    }
                    J::A(vec![s("f"), J::I(f.as_u32() as i128), s(nm), s(ad)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), J::I(l.as_u32() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let nm = match pt.ty.kind() {
                        ty::Adt(a, _) => a.variant(v).name.to_string(),
                        _ => String::new(),
                    };
                    J::A(vec![s("d"), J::I(v.as_u32() as i128), s(nm)])
                }
                _ => s("?"),
            });
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(vec![J::I(p.local.as_u32() as i128), J::A(pr)])
    }
    fn op(&self, o: &Operand<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p, body)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p, body)]),
            Operand::Constant(c) => J::A(vec![s("k"), self.konst(c, env)]),
            Operand::RuntimeChecks(_) => J::A(vec![s("k"), J::O(vec![("t", s("bool")), ("v", J::B(false))])]),
        }
    }
    fn rv(&self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.op(o, body, env)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.op(o, body, env), s(format!("{}", n))]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), J::B(matches!(k, BorrowKind::Mut { .. })), self.place(p, body)]),
            Rvalue::RawPtr(k, p) => J::A(vec![s("raw"), J::B(matches!(k, RawPtrKind::Mut)), self.place(p, body)]),
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&body.local_decls, self.tcx);
                J::A(vec![s("cast"), s(format!("{:?}", k)), self.op(o, body, env), s(self.ty(*t)), s(self.ty(from))])
            }
            Rvalue::BinaryOp(b, x) => J::A(vec![
                s("bin"),
                s(format!("{:?}", b)),
                self.op(&x.0, body, env),
                self.op(&x.1, body, env),
                s(self.ty(x.0.ty(&body.local_decls, self.tcx))),
            ]),
            Rvalue::UnaryOp(u, o) => J::A(vec![s("un"), s(format!("{:?}", u)), self.op(o, body, env)]),
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, self.tcx).ty;
                J::A(vec![s("discr"), self.place(p, body), s(self.ty(t))])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops = J::A(fs.iter().map(|o| self.op(o, body, env)).collect());
                match &**k {
                    AggregateKind::Array(_) => J::A(vec![s("agg"), s("array"), ops]),
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), ops]),
                    AggregateKind::Adt(d, v, _, _, af) => {
                        let adt = self.tcx.adt_def(*d);
                        let vd = adt.variant(*v);
                        let names = match af {
                            Some(f) => vec![s(vd.fields[*f].name.to_string())],
                            None => vd.fields.iter().map(|f| s(f.name.to_string())).collect(),
                        };
                        J::A(vec![s("agg"), s("adt"), ops, s(self.name(*d)), s(vd.name.to_string()), J::I(v.as_u32() as i128), J::A(names)])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("agg"), s("closure"), ops, s(self.id(*d))]),
                    _ => J::A(vec![s("agg"), s("other"), ops]),
                }
            }
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p, body)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("ref"), J::B(m.is_mut()), self.place(p, body)]),
            o => J::A(vec![s("other"), s(format!("{:?}", o))]),
        }
    }
    fn unw(&self, u: &UnwindAction) -> J {
        match u {
            UnwindAction::Cleanup(b) => J::I(b.as_u32() as i128),
            _ => J::N,
        }
    }
    fn body(&self, body: &Body<'tcx>) -> J {
        let env = body.typing_env(self.tcx);
        let mut names: Vec<J> = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), self.place(p, body)]));
            } else if let VarDebugInfoContents::Const(c) = &v.value {
                names.push(J::A(vec![s(v.name.to_string()), J::O(vec![("k", self.konst(c, env))])]));
            }
        }
        let locals = J::A(body.local_decls.iter().map(|l| s(self.ty(l.ty))).collect());
        let mut blocks = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        st.push(J::A(vec![s("="), self.place(&a.0, body), self.rv(&a.1, body, env), self.line(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(J::A(vec![s("sd"), self.place(place, body), J::I(variant_index.as_u32() as i128)]));
                    }
                    StatementKind::Intrinsic(i) => match &**i {
                        NonDivergingIntrinsic::Assume(o) => st.push(J::A(vec![s("assume"), self.op(o, body, env)])),
                        NonDivergingIntrinsic::CopyNonOverlapping(_) => st.push(J::A(vec![s("memcpy")])),
                    },
                    _ => {}
                }
            }
            let t = b.terminator();
            let ln = self.line(t.source_info.span);
            let bi = |x: BasicBlock| J::I(x.as_u32() as i128);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::O(vec![("k", s("goto")), ("t", bi(*target))]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty_ = discr.ty(&body.local_decls, self.tcx);
                    J::O(vec![
                        ("k", s("switch")),
                        ("d", self.op(discr, body, env)),
                        ("ty", s(self.ty(ty_))),
                        (
                            "c",
                            J::A(targets
                                .iter()
                                .map(|(v, b)| {
                                    let vv = if let ty::Int(it) = ty_.kind() {
                                        let w = it.normalize(64).bit_width().unwrap();
                                        let sh = 128 - w as u32;
                                        ((v as i128) << sh) >> sh
                                    } else {
                                        v as i128
                                    };
                                    J::A(vec![J::I(vv), bi(b)])
                                })
                                .collect()),
                        ),
                        ("o", bi(targets.otherwise())),
                        ("l", ln),
                    ])
                }
                TerminatorKind::Return => J::O(vec![("k", s("ret")), ("l", ln)]),
                TerminatorKind::Unreachable => J::O(vec![("k", s("unreachable"))]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => J::O(vec![("k", s("resume"))]),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    let t = place.ty(&body.local_decls, self.tcx).ty;
                    J::O(vec![("k", s("drop")), ("p", self.place(place, body)), ("ty", s(self.ty(t))), ("t", bi(*target)), ("u", self.unw(unwind))])
                }
                TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
                    let (ff, fl) = self.loc(*fn_span);
                    let _ = ff;
                    let mut o = vec![("k", s("call")), ("f", self.op(func, body, env))];
                    if let Operand::Copy(_) | Operand::Move(_) = func {
                        o.push(("fty", s(self.ty(func.ty(&body.local_decls, self.tcx)))));
                    }
                    o.push(("a", J::A(args.iter().map(|a| self.op(&a.node, body, env)).collect())));
                    o.push(("at", J::A(args.iter().map(|a| s(self.ty(a.node.ty(&body.local_decls, self.tcx)))).collect())));
                    o.push(("d", self.place(destination, body)));
                    o.push(("dt", s(self.ty(destination.ty(&body.local_decls, self.tcx).ty))));
                    o.push(("t", target.map(bi).unwrap_or(J::N)));
                    o.push(("u", self.unw(unwind)));
                    o.push(("l", J::I(fl)));
                    o.push(("x", J::B(fn_span.from_expansion())));
                    J::O(o)
                }
                TerminatorKind::TailCall { .. } => J::O(vec![("k", s("tailcall"))]),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (kind, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.op(len, body, env), self.op(index, body, env)]),
                        AssertKind::Overflow(b, x, y) => {
                            let _ = b;
                            ("overflow", vec![self.op(x, body, env), self.op(y, body, env)])
                        }
                        AssertKind::OverflowNeg(x) => ("overflow", vec![self.op(x, body, env)]),
                        AssertKind::DivisionByZero(x) => ("div0", vec![self.op(x, body, env)]),
                        AssertKind::RemainderByZero(x) => ("rem0", vec![self.op(x, body, env)]),
                        _ => ("other", vec![]),
                    };
                    J::O(vec![
                        ("k", s("assert")),
                        ("c", self.op(cond, body, env)),
                        ("e", J::B(*expected)),
                        ("m", s(kind)),
                        ("ops", J::A(ops)),
                        ("t", bi(*target)),
                        ("l", ln),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => J::O(vec![("k", s("goto")), ("t", bi(*real_target))]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::O(vec![("k", s("goto")), ("t", bi(*real_target))]),
                TerminatorKind::InlineAsm { targets, .. } => {
                    J::O(vec![("k", s("asm")), ("t", targets.first().map(|b| bi(*b)).unwrap_or(J::N))])
                }
                _ => J::O(vec![("k", s("other"))]),
            };
            let mut o = vec![("s", J::A(st)), ("t", term)];
            if b.is_cleanup {
                o.push(("cl", J::B(true)));
            }
            blocks.push(J::O(o));
        }
        J::O(vec![("argc", J::I(body.arg_count as i128)), ("names", J::A(names)), ("locals", locals), ("blocks", J::A(blocks))])
    }

    fn run(&self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![];
        let mut adts = vec![];
        let mut impls = vec![];
        let mut consts = vec![];
        let ev = tcx.effective_visibilities(());
        for ld in tcx.hir_crate_items(()).definitions() {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            match k {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(d);
                    let discr: Vec<i128> = if adt.is_enum() { adt.discriminants(tcx).map(|(_, x)| x.val as i128).collect() } else { vec![0] };
                    let mut vs = vec![];
                    for (i, v) in adt.variants().iter_enumerated() {
                        let fs = v
                            .fields
                            .iter()
                            .map(|f| {
                                J::O(vec![
                                    ("n", s(f.name.to_string())),
                                    ("t", s(self.ty(tcx.type_of(f.did).instantiate_identity().skip_normalization()))),
                                    ("pub", J::B(f.vis.is_public())),
                                ])
                            })
                            .collect();
                        vs.push(J::O(vec![
                            ("n", s(v.name.to_string())),
                            ("d", J::I(discr.get(i.as_usize()).copied().unwrap_or(0))),
                            ("f", J::A(fs)),
                        ]));
                    }
                    let (f, l) = self.loc(tcx.def_span(d));
                    adts.push(J::O(vec![
                        ("name", s(self.name(d))),
                        ("id", s(self.id(d))),
                        ("kind", s(format!("{:?}", k))),
                        ("repr_c", J::B(adt.repr().c())),
                        ("repr_int", J::B(adt.repr().int.is_some())),
                        ("v", J::A(vs)),
                        ("reach", J::B(ev.is_reachable(ld))),
                        ("file", s(f)),
                        ("line", J::I(l)),
                    ]));
                }
                DefKind::Impl { of_trait } => {
                    let st = self.ty(tcx.type_of(d).instantiate_identity().skip_normalization());
                    let mut o = vec![("id", s(self.id(d))), ("self", s(st))];
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_normalization();
                        o.push(("trait", s(self.name(tr.def_id))));
                        o.push(("targs", self.args(tr.args)));
                    }
                    let mut its = vec![];
                    for it in tcx.associated_items(d).in_definition_order() {
                        let ti = it.trait_item_def_id().map(|x| self.id(x)).unwrap_or_default();
                        its.push(J::A(vec![s(it.opt_name().map(|x| x.to_string()).unwrap_or_default()), s(self.id(it.def_id)), s(ti)]));
                    }
                    o.push(("items", J::A(its)));
                    impls.push(J::O(o));
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    if tcx.generics_of(d).own_requires_monomorphization() || tcx.generics_of(d).parent_count > 0 {
                        continue;
                    }
                    if matches!(k, DefKind::AssocConst { .. }) && tcx.trait_of_assoc(d).is_some() {
                        continue;
                    }
                    use rustc_middle::ty::TypeVisitableExt;
                    let t = if t.has_param() {
                        t
                    } else {
                        tcx.normalize_erasing_regions(TypingEnv::fully_monomorphized(), tcx.type_of(d).instantiate_identity())
                    };
                    if let Ok(v) = tcx.const_eval_poly(d) {
                        if self.mono(t) {
                            consts.push(J::O(vec![("id", s(self.id(d))), ("name", s(self.name(d))), ("t", s(self.ty(t))), ("v", self.cval(v, t))]));
                        }
                    }
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    if let Ok(a) = tcx.eval_static_initializer(d) {
                        consts.push(J::O(vec![
                            ("id", s(self.id(d))),
                            ("name", s(self.name(d))),
                            ("t", s(self.ty(t))),
                            ("static", J::B(true)),
                            ("mut", J::B(tcx.is_mutable_static(d))),
                            ("v", self.mem_val(a.inner(), 0, t, 0)),
                        ]));
                    }
                }
                _ => {}
            }
        }
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            let k = tcx.def_kind(d);
            let body = match k {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => tcx.optimized_mir(d),
                _ => continue,
            };
            let (f, l) = self.loc(tcx.def_span(d));
            let mut o = vec![
                ("id", s(self.id(d))),
                ("name", s(self.name(d))),
                ("kind", s(format!("{:?}", k))),
                ("file", s(f)),
                ("line", J::I(l)),
                ("reach", J::B(ev.is_reachable(*ld))),
            ];
            if k != DefKind::Closure {
                let sig = tcx.fn_sig(d).instantiate_identity().skip_normalization().skip_binder();
                o.push(("unsafe", J::B(sig.safety().is_unsafe())));
                o.push(("abi", s(format!("{:?}", sig.abi()))));
                o.push(("ins", J::A(sig.inputs().iter().map(|t| s(self.ty(*t))).collect())));
                o.push(("out", s(self.ty(sig.output()))));
                o.push(("vis", s(format!("{:?}", tcx.visibility(d).is_public()))));
                let at = tcx.codegen_fn_attrs(d);
                o.push(("tf", J::A(at.target_features.iter().map(|t| s(t.name.to_string())).collect())));
                o.push(("const", J::B(tcx.is_const_fn(d))));
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.push(("intrait", s(self.name(t))));
                }
                let inh = tcx.generics_of(d);
                o.push(("gen", J::A((0..inh.count()).map(|i| s(inh.param_at(i, tcx).name.to_string())).collect())));
            } else {
                o.push(("parent", s(self.id(tcx.parent(d)))));
            }
            o.push(("body", self.body(body)));
            fns.push(J::O(o));
        }
        J::O(vec![
            ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
            ("adts", J::A(adts)),
            ("impls", J::A(impls)),
            ("consts", J::A(consts)),
            ("fns", J::A(fns)),
        ])
    }
}

struct Cb {
    out: String,
}
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let d = D { tcx };
        let j = d.run();
        let mut o = String::new();
        j.w(&mut o);
        let p = format!("{}/{}.json", self.out, tcx.crate_name(LOCAL_CRATE));
        std::fs::write(&p, o).expect("write facts");
        Compilation::Continue
    }
}
struct Nop;
impl Callbacks for Nop {}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("rustc")) && !args[1].starts_with('-') {
        args.remove(1);
    }
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let out = std::env::var("FACTS_OUT").ok();
    let probe = args.iter().any(|a| a == "--print" || a == "-vV" || a.starts_with("--print="));
    let bs = crate_name.as_deref() == Some("build_script_build");
    let is_test = args.iter().any(|a| a == "--test");
    match (out, crate_name) {
        (Some(out), Some(_)) if !probe && !bs && !is_test => {
            args.push("-Zmir-opt-level=0".into());
            args.push("-Zinline-mir=no".into());
            args.push("--cap-lints=allow".into());
            let mut cb = Cb { out };
            rustc_driver::compiler_entrypoint(&args, &mut cb);
        }
        _ => {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    }
}
