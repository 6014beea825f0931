// MIR extractor: a rustc driver that dumps the monomorphised MIR of the crate being compiled
// (plus every reachable callee whose MIR is available) as JSON.  It is run by cargo as
// RUSTC_WORKSPACE_WRAPPER, so the text it sees is exactly /repo's current source.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;

use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, abi::*};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J {
    S(String),
    N(i128),
    U(u128),
    B(bool),
    Null,
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn s<T: ToString>(t: T) -> J { J::S(t.to_string()) }
fn n(t: usize) -> J { J::N(t as i128) }
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::S(x) => {
                o.push('"');
                for c in x.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::N(x) => { let _ = write!(o, "{}", x); }
            J::U(x) => { let _ = write!(o, "{}", x); }
            J::B(x) => { let _ = write!(o, "{}", x); }
            J::Null => o.push_str("null"),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() { if i > 0 { o.push(','); } x.w(o); }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { o.push(','); }
                    let _ = write!(o, "\"{}\":", k);
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}

struct D {
    types: HashMap<Ty, usize>,
    type_out: Vec<J>,
    fns: HashMap<Instance, usize>,
    queue: Vec<Instance>,
    stop: Vec<String>,
}

impl D {
    fn ty(&mut self, t: Ty) -> J {
        n(self.ty_id(t))
    }
    fn ty_id(&mut self, t: Ty) -> usize {
        if let Some(i) = self.types.get(&t) { return *i; }
        let id = self.type_out.len();
        self.types.insert(t, id);
        self.type_out.push(J::Null);
        let name = format!("{}", t);
        let mut o: Vec<(&'static str, J)> = vec![("name", s(&name))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(i) => { o.push(("k", s("int"))); o.push(("bits", n(i.num_bytes() * 8))); }
                RigidTy::Uint(i) => { o.push(("k", s("uint"))); o.push(("bits", n(i.num_bytes() * 8))); if matches!(i, UintTy::Usize) { o.push(("size", n(1))); } }
                RigidTy::Float(_) => o.push(("k", s("float"))),
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("path", s(def.name())));
                    o.push(("adt", s(format!("{:?}", def.kind()))));
                    o.push(("gargs", self.gargs(&args)));
                    let mut vs = vec![];
                    if def.kind() != AdtKind::Union || true {
                        for v in def.variants() {
                            let fs = v.fields().iter().map(|f| {
                                let ft = f.ty_with_args(&args);
                                J::A(vec![s(&f.name), self.ty(ft)])
                            }).collect();
                            let d = if def.kind() == AdtKind::Enum { J::U(def.discriminant_for_variant(v.idx()).val) } else { J::N(0) };
                            vs.push(J::O(vec![("name", s(v.name())), ("discr", d), ("fields", J::A(fs))]));
                        }
                    }
                    o.push(("variants", J::A(vs)));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Array(e, c) => {
                    o.push(("k", s("array")));
                    let e = self.ty(e);
                    o.push(("elem", e));
                    o.push(("len", match c.eval_target_usize() { Ok(x) => J::U(x as u128), Err(_) => J::Null }));
                }
                RigidTy::Slice(e) => { let e = self.ty(e); o.push(("k", s("slice"))); o.push(("elem", e)); }
                RigidTy::RawPtr(e, m) => { let e = self.ty(e); o.push(("k", s("ptr"))); o.push(("elem", e)); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::Ref(_, e, m) => { let e = self.ty(e); o.push(("k", s("ref"))); o.push(("elem", e)); o.push(("mut", J::B(m == Mutability::Mut))); }
                RigidTy::FnDef(d, args) => {
                    o.push(("k", s("fndef")));
                    let _ = &args;
                    o.push(("path", s(d.name())));
                    if let Ok(i) = Instance::resolve(d, &args) { let f = self.inst(i); o.push(("fn", n(f))); }
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Closure(d, args) => {
                    o.push(("k", s("closure")));
                    o.push(("path", s(d.name())));
                    if let Ok(i) = Instance::resolve_closure(d, &args, ClosureKind::FnOnce) { let f = self.inst(i); o.push(("fn", n(f))); }
                }
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Tuple(v) => {
                    let v = v.iter().map(|x| self.ty(*x)).collect();
                    o.push(("k", s("tuple"))); o.push(("elems", J::A(v)));
                }
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("nonrigid"))),
        }
        self.type_out[id] = J::O(o);
        id
    }
    fn gargs(&mut self, a: &GenericArgs) -> J {
        let mut v = vec![];
        for x in &a.0 {
            match x {
                GenericArgKind::Type(t) => v.push(self.ty(*t)),
                GenericArgKind::Const(c) => v.push(s(format!("{:?}", c))),
                _ => {}
            }
        }
        J::A(v)
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(x) = self.fns.get(&i) { return *x; }
        let id = self.fns.len();
        self.fns.insert(i, id);
        self.queue.push(i);
        id
    }
    fn place(&mut self, p: &Place) -> J {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => { let t = self.ty(*t); J::A(vec![s("f"), n(*i), t]) }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![s("c"), J::U(*offset as u128), J::U(*min_length as u128), J::B(*from_end)]),
                ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![s("s"), J::U(*from as u128), J::U(*to as u128), J::B(*from_end)]),
                ProjectionElem::Downcast(v) => J::A(vec![s("d"), n(rustc_public_idx(v))]),
                ProjectionElem::OpaqueCast(_) => J::A(vec![s("o")]),
            });
        }
        J::A(vec![n(p.local), J::A(v)])
    }
    fn op(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => { let p = self.place(p); J::A(vec![s("cp"), p]) }
            Operand::Move(p) => { let p = self.place(p); J::A(vec![s("mv"), p]) }
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => J::A(vec![s("rt"), s(format!("{:?}", r))]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        let ty = c.ty();
        let t = self.ty(ty);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(ty, a, 0, 0),
            ConstantKind::ZeroSized => self.decode_zst(ty),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() { Ok(x) => J::O(vec![("int", s(x))]), Err(_) => J::O(vec![("opaque", s(format!("{:?}", tc)))]) },
            k => J::O(vec![("opaque", s(format!("{:?}", k).chars().take(200).collect::<String>()))]),
        };
        J::A(vec![s("k"), v, t])
    }
    fn decode_zst(&mut self, ty: Ty) -> J {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, args)) => match Instance::resolve(d, &args) {
                Ok(i) => { let f = self.inst(i); J::O(vec![("fn", n(f))]) }
                Err(_) => J::O(vec![("unresolved", s(format!("{}", d.name())))]),
            },
            TyKind::RigidTy(RigidTy::Tuple(_)) => J::O(vec![("agg", J::A(vec![])), ("variant", J::N(0))]),
            _ => J::O(vec![("zst", J::B(true))]),
        }
    }
    fn read(&self, a: &Allocation, off: usize, len: usize) -> Option<u128> {
        if off + len > a.bytes.len() || len > 16 { return None; }
        let mut v: u128 = 0;
        for i in (0..len).rev() { v = (v << 8) | a.bytes[off + i]? as u128; }
        Some(v)
    }
    fn decode(&mut self, ty: Ty, a: &Allocation, off: usize, depth: usize) -> J {
        let opaque = |m: String| J::O(vec![("opaque", J::S(m))]);
        if depth > 8 { return opaque("depth".into()); }
        let lay = match ty.layout() { Ok(l) => l.shape(), Err(_) => return opaque("layout".into()) };
        let size = lay.size.bytes();
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match self.read(a, off, size) {
                    Some(v) => J::O(vec![("int", s(v))]), None => opaque("uninit".into()) },
                RigidTy::Int(_) => match self.read(a, off, size) {
                    Some(v) => { let sh = 128 - size * 8; let x = ((v << sh) as i128) >> sh; J::O(vec![("int", s(x))]) }
                    None => opaque("uninit".into()) },
                RigidTy::Array(e, c) => {
                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let cnt = c.eval_target_usize().unwrap_or(0) as usize;
                    let byte = matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8)));
                    if cnt > 4096 && !byte { return opaque("bigarray".into()); }
                    if byte {
                        let mut v = vec![];
                        for i in 0..cnt { match self.read(a, off + i, 1) { Some(x) => v.push(J::U(x)), None => return opaque("uninit".into()) } }
                        return J::O(vec![("bytes", J::A(v))]);
                    }
                    let v = (0..cnt).map(|i| self.decode(e, a, off + i * es, depth + 1)).collect();
                    J::O(vec![("agg", J::A(v)), ("variant", J::N(0))])
                }
                RigidTy::Tuple(ts) => {
                    if let FieldsShape::Arbitrary { offsets } = &lay.fields {
                        let v = ts.iter().zip(offsets.iter()).map(|(t, o)| self.decode(*t, a, off + o.bytes(), depth + 1)).collect();
                        J::O(vec![("agg", J::A(v)), ("variant", J::N(0))])
                    } else { J::O(vec![("agg", J::A(vec![])), ("variant", J::N(0))]) }
                }
                RigidTy::Adt(def, args) => match def.kind() {
                    AdtKind::Struct => {
                        let fs = def.variants()[0].fields();
                        match &lay.fields {
                            FieldsShape::Arbitrary { offsets } => {
                                let v = fs.iter().zip(offsets.iter()).map(|(f, o)| self.decode(f.ty_with_args(&args), a, off + o.bytes(), depth + 1)).collect();
                                J::O(vec![("agg", J::A(v)), ("variant", J::N(0))])
                            }
                            FieldsShape::Primitive | FieldsShape::Array{..} if fs.len() == 1 => {
                                let v = self.decode(fs[0].ty_with_args(&args), a, off, depth + 1);
                                J::O(vec![("agg", J::A(vec![v])), ("variant", J::N(0))])
                            }
                            _ => opaque("structshape".into()),
                        }
                    }
                    AdtKind::Enum => {
                        match &lay.variants {
                            VariantsShape::Single { index } => {
                                let fs = def.variants()[rustc_public_idx(index)].fields();
                                if let FieldsShape::Arbitrary { offsets } = &lay.fields {
                                    let v = fs.iter().zip(offsets.iter()).map(|(f, o)| self.decode(f.ty_with_args(&args), a, off + o.bytes(), depth + 1)).collect();
                                    J::O(vec![("agg", J::A(v)), ("variant", n(rustc_public_idx(index)))])
                                } else { J::O(vec![("agg", J::A(vec![])), ("variant", n(rustc_public_idx(index)))]) }
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = if let FieldsShape::Arbitrary { offsets } = &lay.fields { offsets[*tag_field].bytes() } else { 0 };
                                let (tsz, isptr) = match tag {
                                    Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                        Primitive::Int { length, .. } => (match length { IntegerLength::I8 => 1, IntegerLength::I16 => 2, IntegerLength::I32 => 4, IntegerLength::I64 => 8, IntegerLength::I128 => 16 }, false),
                                        Primitive::Pointer(_) => (8, true),
                                        _ => return opaque("tag".into()),
                                    }
                                };
                                let haspro = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                                let raw = if isptr && haspro { None } else { match self.read(a, off + toff, tsz) { Some(x) => Some(x), None => return opaque("uninit-tag".into()) } };
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let mut r = None;
                                        for v in def.variants() {
                                            let d = def.discriminant_for_variant(v.idx()).val;
                                            let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            if Some(d & mask) == raw { r = Some(rustc_public_idx(&v.idx())); }
                                        }
                                        match r { Some(x) => x, None => return opaque("tagval".into()) }
                                    }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => match raw {
                                        None => rustc_public_idx(untagged_variant),
                                        Some(x) => {
                                            let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = x.wrapping_sub(*niche_start) & mask;
                                            let lo = rustc_public_idx(niche_variants.start()) as u128;
                                            let hi = rustc_public_idx(niche_variants.end()) as u128;
                                            if rel <= hi - lo { (lo + rel) as usize } else { rustc_public_idx(untagged_variant) }
                                        }
                                    },
                                };
                                let fs = def.variants()[idx].fields();
                                let offs = &variants[idx].offsets;
                                let v = fs.iter().zip(offs.iter()).map(|(f, o)| self.decode(f.ty_with_args(&args), a, off + o.bytes(), depth + 1)).collect();
                                J::O(vec![("agg", J::A(v)), ("variant", n(idx))])
                            }
                            _ => opaque("enumshape".into()),
                        }
                    }
                    AdtKind::Union => opaque("union".into()),
                },
                RigidTy::Ref(_, inner, _) | RigidTy::RawPtr(inner, _) => {
                    let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    let base = self.read(a, off, 8).unwrap_or(0) as usize;
                    let meta = if size == 16 { self.read(a, off + 8, 8) } else { None };
                    match p {
                        None => J::O(vec![("ptrint", s(base))]),
                        Some(id) => match GlobalAlloc::from(id) {
                            GlobalAlloc::Memory(m) => match inner.kind() {
                                TyKind::RigidTy(RigidTy::Str) => {
                                    let len = meta.unwrap_or(0) as usize;
                                    let b: Vec<u8> = m.bytes[base..base + len].iter().map(|x| x.unwrap_or(0)).collect();
                                    J::O(vec![("str", s(String::from_utf8_lossy(&b)))])
                                }
                                TyKind::RigidTy(RigidTy::Slice(e)) => {
                                    let len = meta.unwrap_or(0) as usize;
                                    if len > 512 { return opaque("bigslice".into()); }
                                    let es = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                                    let v = (0..len).map(|i| self.decode(e, &m, base + i * es, depth + 1)).collect();
                                    J::O(vec![("ref", J::O(vec![("agg", J::A(v)), ("variant", J::N(0))]))])
                                }
                                TyKind::RigidTy(RigidTy::Dynamic(..)) => opaque("dyn".into()),
                                _ => { let v = self.decode(inner, &m, base, depth + 1); J::O(vec![("ref", v)]) }
                            },
                            GlobalAlloc::Static(sd) => J::O(vec![("static", s(sd.name()))]),
                            GlobalAlloc::Function(i) => { let f = self.inst(i); J::O(vec![("fnptr", n(f))]) }
                            g => opaque(format!("{:?}", g).chars().take(100).collect()),
                        },
                    }
                }
                RigidTy::FnPtr(_) => {
                    let p = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                    match p.map(GlobalAlloc::from) {
                        Some(GlobalAlloc::Function(i)) => { let f = self.inst(i); J::O(vec![("fnptr", n(f))]) }
                        _ => opaque("fnptr".into()),
                    }
                }
                _ => if size == 0 { self.decode_zst(ty) } else { opaque(format!("{}", ty).chars().take(100).collect()) },
            },
            _ => opaque("nonrigid".into()),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> J {
        match r {
            Rvalue::AddressOf(k, p) => { let p = self.place(p); J::A(vec![s("addr"), s(format!("{:?}", k)), p]) }
            Rvalue::Aggregate(k, ops) => {
                let ops = ops.iter().map(|o| self.op(o)).collect();
                match k {
                    AggregateKind::Array(t) => { let t = self.ty(*t); J::A(vec![s("agg"), s("array"), t, J::N(0), J::A(ops), J::Null]) }
                    AggregateKind::Tuple => J::A(vec![s("agg"), s("tuple"), J::Null, J::N(0), J::A(ops), J::Null]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = self.ty(d.ty_with_args(args));
                        J::A(vec![s("agg"), s("adt"), t, n(rustc_public_idx(v)), J::A(ops), match f { Some(i) => n(*i), None => J::Null }])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = self.ty(Ty::new_closure(*d, args.clone()));
                        J::A(vec![s("agg"), s("closure"), t, J::N(0), J::A(ops), J::Null])
                    }
                    AggregateKind::RawPtr(t, _) => { let t = self.ty(*t); J::A(vec![s("agg"), s("rawptr"), t, J::N(0), J::A(ops), J::Null]) }
                    _ => J::A(vec![s("agg"), s("other"), J::Null, J::N(0), J::A(ops), J::Null]),
                }
            }
            Rvalue::BinaryOp(b, x, y) => { let t = x.ty(locals).ok().map(|t| self.ty(t)).unwrap_or(J::Null); let (x, y) = (self.op(x), self.op(y)); J::A(vec![s("bin"), s(format!("{:?}", b)), x, y, t]) }
            Rvalue::CheckedBinaryOp(b, x, y) => { let t = x.ty(locals).ok().map(|t| self.ty(t)).unwrap_or(J::Null); let (x, y) = (self.op(x), self.op(y)); J::A(vec![s("chk"), s(format!("{:?}", b)), x, y, t]) }
            Rvalue::Cast(k, o, t) => { let ft = o.ty(locals).ok().map(|t| self.ty(t)).unwrap_or(J::Null); let (o, t) = (self.op(o), self.ty(*t)); J::A(vec![s("cast"), s(format!("{:?}", k)), o, t, ft]) }
            Rvalue::CopyForDeref(p) => { let p = self.place(p); J::A(vec![s("use"), J::A(vec![s("cp"), p])]) }
            Rvalue::Discriminant(p) => { let t = p.ty(locals).ok().map(|t| self.ty(t)).unwrap_or(J::Null); let p = self.place(p); J::A(vec![s("discr"), p, t]) }
            Rvalue::Len(p) => { let p = self.place(p); J::A(vec![s("len"), p]) }
            Rvalue::Ref(_, k, p) => { let p = self.place(p); J::A(vec![s("ref"), s(match k { BorrowKind::Mut { .. } => "mut", _ => "shr" }), p]) }
            Rvalue::Repeat(o, c) => { let o = self.op(o); J::A(vec![s("repeat"), o, match c.eval_target_usize() { Ok(x) => J::U(x as u128), _ => J::Null }]) }
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::UnaryOp(u, o) => { let t = o.ty(locals).ok().map(|t| self.ty(t)).unwrap_or(J::Null); let o = self.op(o); J::A(vec![s("un"), s(format!("{:?}", u)), o, t]) }
            Rvalue::Use(o, _) => { let o = self.op(o); J::A(vec![s("use"), o]) }
            Rvalue::Reborrow(_, m, p) => { let p = self.place(p); J::A(vec![s("ref"), s(if *m == Mutability::Mut { "mut" } else { "shr" }), p]) }
        }
    }
    fn func(&mut self, inst: Instance) -> J {
        let name = inst.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let ga = self.gargs(&inst.args());
        let trimmed = inst.def.name().to_string();
        let mut o = vec![("name", s(&name)), ("path", s(&trimmed)), ("krate", s(&krate)), ("kind", s(kind)), ("gargs", ga)];
        if let Some(i) = inst.intrinsic_name() { o.push(("intrinsic", s(i))); }
        let stop = self.stop.iter().any(|p| name.contains(p.as_str()));
        let sig = inst.ty();
        if let Some(f) = sig.kind().fn_sig() {
            let fs = f.skip_binder();
            let ins = fs.inputs().iter().map(|t| self.ty(*t)).collect();
            let out = self.ty(fs.output());
            o.push(("ins", J::A(ins)));
            o.push(("out", out));
        }
        if !stop && !matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            if let Some(b) = inst.body() {
                let sp = b.span;
                o.push(("span", s(format!("{}:{}", sp.get_filename(), sp.get_lines().start_line))));
                o.push(("nargs", n(b.arg_locals().len())));
                if let Some(sa) = b.spread_arg() { o.push(("spread", n(sa))); }
                let lt = b.locals().iter().map(|l| self.ty(l.ty)).collect();
                o.push(("locals", J::A(lt)));
                let mut nm = vec![];
                for v in &b.var_debug_info {
                    if v.composite.is_some() { continue; }
                    if let VarDebugInfoContents::Place(p) = &v.value { let p = self.place(p); nm.push(J::A(vec![s(&v.name), p])); }
                }
                o.push(("names", J::A(nm)));
                let mut bs = vec![];
                for blk in &b.blocks {
                    let mut st = vec![];
                    for x in &blk.statements {
                        match &x.kind {
                            StatementKind::Assign(p, r) => { let (p, r) = (self.place(p), self.rvalue(r, b.locals())); st.push(J::A(vec![s("="), p, r, n(x.source_info.span.get_lines().start_line)])); }
                            StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(place); st.push(J::A(vec![s("setd"), p, n(rustc_public_idx(variant_index))])); }
                            StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { let o = self.op(o); st.push(J::A(vec![s("assume"), o])); }
                            StatementKind::Intrinsic(_) => st.push(J::A(vec![s("copynonoverlapping")])),
                            _ => {}
                        }
                    }
                    let line = n(blk.terminator.source_info.span.get_lines().start_line);
                    let t = match &blk.terminator.kind {
                        TerminatorKind::Goto { target } => J::A(vec![s("goto"), n(*target)]),
                        TerminatorKind::SwitchInt { discr, targets } => {
                            let t = discr.ty(b.locals()).ok().map(|t| self.ty(t)).unwrap_or(J::Null);
                            let d = self.op(discr);
                            let br = targets.branches().map(|(v, t)| J::A(vec![J::U(v), n(t)])).collect();
                            J::A(vec![s("switch"), d, J::A(br), n(targets.otherwise()), t])
                        }
                        TerminatorKind::Return => J::A(vec![s("ret")]),
                        TerminatorKind::Unreachable => J::A(vec![s("unreach")]),
                        TerminatorKind::Resume | TerminatorKind::Abort => J::A(vec![s("resume")]),
                        TerminatorKind::Drop { place, target, .. } => { let p = self.place(place); J::A(vec![s("drop"), p, n(*target)]) }
                        TerminatorKind::Call { func, args, destination, target, .. } => {
                            let f = self.op(func);
                            let a = args.iter().map(|x| self.op(x)).collect();
                            let d = self.place(destination);
                            J::A(vec![s("call"), f, J::A(a), d, match target { Some(t) => n(*t), None => J::Null }, line])
                        }
                        TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                            let c = self.op(cond);
                            let m = format!("{:?}", msg);
                            let m = m.split(['(', ' ']).next().unwrap_or("").to_string();
                            J::A(vec![s("assert"), c, J::B(*expected), s(m), n(*target), line])
                        }
                        TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
                    };
                    bs.push(J::A(vec![J::A(st), t]));
                }
                o.push(("blocks", J::A(bs)));
            }
        }
        J::O(o)
    }
}
fn rustc_public_idx(v: &VariantIdx) -> usize { let d = format!("{:?}", v); d.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() }

fn dump() -> ControlFlow<()> {
    let out = match std::env::var("MIRDUMP_OUT") { Ok(o) => o, Err(_) => return ControlFlow::Continue(()) };
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    if rustc_public::local_crate().name.to_string() != want { return ControlFlow::Continue(()); }
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP").unwrap_or_default().split('|').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
    let mut d = D { types: HashMap::new(), type_out: vec![], fns: HashMap::new(), queue: vec![], stop };
    let mut items = rustc_public::all_local_items();
    items.sort_by_key(|i| i.name().to_string());
    let mut roots = vec![];
    for it in items {
        if it.requires_monomorphization() { continue; }
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) { continue; }
        if let Ok(i) = Instance::try_from(it) { roots.push(d.inst(i)); }
    }
    let mut outs: Vec<J> = vec![];
    let mut i = 0;
    while i < d.queue.len() {
        let inst = d.queue[i];
        let j = d.func(inst);
        outs.push(j);
        i += 1;
    }
    let mut o = String::new();
    o.push_str("{\"roots\":");
    J::A(roots.into_iter().map(n).collect()).w(&mut o);
    o.push_str(",\n\"types\":[\n");
    for (i, t) in d.type_out.iter().enumerate() { if i > 0 { o.push_str(",\n"); } t.w(&mut o); }
    o.push_str("],\n\"fns\":[\n");
    for (i, f) in outs.iter().enumerate() { if i > 0 { o.push_str(",\n"); } f.w(&mut o); }
    o.push_str("]}\n");
    std::fs::write(&out, o).expect("write mir dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo calls: driver <rustc> args...
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(0); }
    match run!(&args, dump) {
        Ok(_) => {}
        Err(rustc_public::CompilerError::Skipped) => {}
        Err(_) => std::process::exit(1),
    }
}
