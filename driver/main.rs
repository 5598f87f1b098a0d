//! MIR exporter: compiles a crate with rustc's own front end and writes the
//! monomorphised, drop-elaborated MIR of everything the crate defines (plus a
//! white-listed slice of core/alloc glue) as JSON.  No analysis happens here.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

#[derive(Clone)]
enum J {
    N,
    B(bool),
    I(i128),
    U(u128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    R(String), // raw
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => {
                let _ = write!(o, "{}", i);
            }
            J::U(i) => {
                let _ = write!(o, "{}", i);
            }
            J::S(s) => esc(s, o),
            J::R(s) => o.push_str(s),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.w(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: &str) -> J {
    J::S(x.to_string())
}
fn u(x: usize) -> J {
    J::U(x as u128)
}

const STD_OK: &[&str] = &[
    "core::option::", "std::option::", "core::result::", "std::result::",
    "core::convert::", "std::convert::", "core::ops::", "std::ops::",
    "core::cmp::", "std::cmp::", "core::clone::", "std::clone::",
    "core::fmt::rt::", "std::fmt::rt::", "core::bool::", "std::bool::",
    "core::tuple::", "core::borrow::", "std::borrow::",
];

struct Ctx {
    types: Vec<String>,
    tyix: HashMap<Ty, usize>,
    fns: BTreeMap<String, String>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    files: HashMap<String, String>,
}

impl Ctx {
    fn tys(t: &Ty) -> String {
        format!("{}", t)
    }
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyix.get(&t) {
            return *i;
        }
        let i = self.types.len();
        self.tyix.insert(t, i);
        self.types.push(String::new());
        let mut o: Vec<(&'static str, J)> = vec![("n", J::S(Self::tys(&t)))];
        match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => o.push(("k", s("bool"))),
                RigidTy::Char => o.push(("k", s("char"))),
                RigidTy::Int(x) => {
                    o.push(("k", s("int")));
                    o.push(("bits", u(x.num_bytes() * 8)));
                }
                RigidTy::Uint(x) => {
                    o.push(("k", s("uint")));
                    o.push(("bits", u(x.num_bytes() * 8)));
                }
                RigidTy::Float(x) => {
                    o.push(("k", s("float")));
                    o.push(("f", J::S(format!("{:?}", x))));
                }
                RigidTy::Str => o.push(("k", s("str"))),
                RigidTy::Never => o.push(("k", s("never"))),
                RigidTy::Array(e, n) => {
                    o.push(("k", s("array")));
                    o.push(("e", u(self.ty(e))));
                    o.push(("len", n.eval_target_usize().map(|x| J::U(x as u128)).unwrap_or(J::N)));
                }
                RigidTy::Slice(e) => {
                    o.push(("k", s("slice")));
                    o.push(("e", u(self.ty(e))));
                }
                RigidTy::Ref(_, e, m) => {
                    o.push(("k", s("ref")));
                    o.push(("e", u(self.ty(e))));
                    o.push(("mut", J::B(m == Mutability::Mut)));
                }
                RigidTy::RawPtr(e, _) => {
                    o.push(("k", s("ptr")));
                    o.push(("e", u(self.ty(e))));
                }
                RigidTy::Tuple(v) => {
                    o.push(("k", s("tuple")));
                    let v: Vec<J> = v.iter().map(|x| u(self.ty(*x))).collect();
                    o.push(("e", J::A(v)));
                }
                RigidTy::Adt(def, args) => {
                    o.push(("k", s("adt")));
                    o.push(("d", J::S(def.name())));
                    o.push(("crate", J::S(def.krate().name)));
                    o.push(("ak", J::S(format!("{:?}", def.kind()))));
                    o.push(("box", J::B(def.is_box())));
                    let targs: Vec<J> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => Some(u(self.ty(*t))),
                            _ => None,
                        })
                        .collect();
                    o.push(("args", J::A(targs)));
                    let mut vs = vec![];
                    for v in def.variants() {
                        let d = if def.kind() == AdtKind::Enum {
                            J::U(def.discriminant_for_variant(v.idx()).val)
                        } else {
                            J::U(0)
                        };
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(J::A(vec![J::S(f.name.clone()), u(self.ty(ft))]));
                        }
                        vs.push(J::O(vec![("n", J::S(v.name())), ("d", d), ("f", J::A(fs))]));
                    }
                    o.push(("v", J::A(vs)));
                }
                RigidTy::Closure(def, args) => {
                    o.push(("k", s("closure")));
                    o.push(("d", J::S(def.name())));
                    if let Ok(inst) = Instance::resolve_closure(def, &args, ClosureKind::Fn) {
                        let k = self.enqueue(inst);
                        o.push(("fn", J::S(k)));
                    }
                }
                RigidTy::FnDef(def, args) => {
                    o.push(("k", s("fndef")));
                    o.push(("fn", self.fnref(def, &args)));
                }
                RigidTy::FnPtr(_) => o.push(("k", s("fnptr"))),
                RigidTy::Dynamic(..) => o.push(("k", s("dyn"))),
                _ => o.push(("k", s("other"))),
            },
            _ => o.push(("k", s("other"))),
        }
        let mut st = String::new();
        J::O(o).w(&mut st);
        self.types[i] = st;
        i
    }
    fn enqueue(&mut self, inst: Instance) -> String {
        let key = inst.mangled_name();
        if self.seen.insert(key.clone()) {
            let name = inst.name();
            let local = inst.def.krate().is_local;
            let dname = inst.def.name();
            let ok = local
                || STD_OK.iter().any(|p| dname.starts_with(p) || name.starts_with(p))
                || STD_OK.iter().any(|p| dname.starts_with(&format!("<{}", p)));
            if ok && !matches!(inst.kind, InstanceKind::Virtual { .. }) {
                self.queue.push_back(inst);
            }
        }
        key
    }
    fn fnref(&mut self, def: FnDef, args: &GenericArgs) -> J {
        let mut o = vec![("d", J::S(def.name())), ("crate", J::S(def.krate().name))];
        let targs: Vec<J> = args
            .0
            .iter()
            .filter_map(|a| match a {
                GenericArgKind::Type(t) => Some(u(self.ty(*t))),
                _ => None,
            })
            .collect();
        o.push(("ta", J::A(targs)));
        match Instance::resolve(def, args) {
            Ok(i) => {
                o.push(("n", J::S(i.name())));
                o.push((
                    "ik",
                    J::S(match i.kind {
                        InstanceKind::Item => "item".into(),
                        InstanceKind::Intrinsic => "intrinsic".into(),
                        InstanceKind::LlvmIntrinsic => "llvm".into(),
                        InstanceKind::Virtual { .. } => "virtual".into(),
                        InstanceKind::Shim => "shim".into(),
                    }),
                ));
                let k = self.enqueue(i);
                o.push(("key", J::S(k)));
            }
            Err(_) => o.push(("ik", s("unresolved"))),
        }
        J::O(o)
    }
    fn place(&mut self, p: &Place) -> J {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(i, t) => J::A(vec![s("f"), u(*i), u(self.ty(*t))]),
                ProjectionElem::Index(l) => J::A(vec![s("i"), u(*l)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("c"), J::U(*offset as u128), J::U(*min_length as u128), J::B(*from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![
                    s("s"), J::U(*from as u128), J::U(*to as u128), J::B(*from_end),
                ]),
                ProjectionElem::Downcast(v) => {
                    let vi: usize = rustc_public_variant(*v);
                    J::A(vec![s("d"), u(vi)])
                }
                ProjectionElem::OpaqueCast(_) => s("o"),
            });
        }
        J::A(vec![u(p.local), J::A(pr)])
    }
    fn operand(&mut self, o: &Operand) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
            Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let v = self.konst(&c.const_);
                J::A(vec![s("k"), v, u(self.ty(t))])
            }
            Operand::RuntimeChecks(_) => J::A(vec![s("rc")]),
        }
    }
    fn konst(&mut self, c: &MirConst) -> J {
        match c.kind() {
            ConstantKind::Allocated(a) => self.alloc(a, 0, c.ty(), 0),
            ConstantKind::ZeroSized => self.zst(c.ty()),
            _ => {
                if let ConstantKind::Ty(tc) = c.kind() {
                    if let Ok(x) = tc.eval_target_usize() {
                        return J::O(vec![("int", J::U(x as u128))]);
                    }
                }
                J::O(vec![("opaque", J::S(format!("{:?}", c.kind())))])
            }
        }
    }
    fn zst(&mut self, t: Ty) -> J {
        if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = t.kind() {
            return J::O(vec![("fn", self.fnref(d, &a))]);
        }
        J::O(vec![("zst", J::B(true))])
    }
    fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v: u128 = 0;
        for i in 0..n {
            let b = (*a.bytes.get(off + i)?)?;
            v |= (b as u128) << (8 * i);
        }
        Some(v)
    }
    fn target(a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        for (o, p) in &a.provenance.ptrs {
            if *o == off {
                let add = Self::uint(a, off, 8)? as usize;
                return Some((GlobalAlloc::from(p.0), add));
            }
        }
        None
    }
    fn alloc(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> J {
        let opq = |why: &str| J::O(vec![("opaque", J::S(format!("{}:{}", why, Self::tys(&t))))]);
        if depth > 12 {
            return opq("deep");
        }
        let TyKind::RigidTy(r) = t.kind() else { return opq("ty") };
        match r {
            RigidTy::Bool => J::O(vec![("int", J::U(Self::uint(a, off, 1).unwrap_or(0)))]),
            RigidTy::Char => J::O(vec![("int", J::U(Self::uint(a, off, 4).unwrap_or(0)))]),
            RigidTy::Int(x) => {
                let n = x.num_bytes();
                match Self::uint(a, off, n) {
                    Some(v) => {
                        let sh = 128 - 8 * n as u32;
                        J::O(vec![("int", J::I(((v << sh) as i128) >> sh))])
                    }
                    None => opq("uninit"),
                }
            }
            RigidTy::Uint(x) => match Self::uint(a, off, x.num_bytes()) {
                Some(v) => J::O(vec![("int", J::U(v))]),
                None => opq("uninit"),
            },
            RigidTy::Float(f) => {
                let n = match f { FloatTy::F32 => 4, FloatTy::F64 => 8, _ => return opq("float") };
                J::O(vec![("float", J::U(Self::uint(a, off, n).unwrap_or(0)))])
            }
            RigidTy::FnDef(d, g) => J::O(vec![("fn", self.fnref(d, &g))]),
            RigidTy::FnPtr(_) => match Self::target(a, off) {
                Some((GlobalAlloc::Function(i), _)) => {
                    let n = i.name();
                    let k = self.enqueue(i);
                    J::O(vec![("fn", J::O(vec![("d", J::S(n.clone())), ("n", J::S(n)), ("key", J::S(k)), ("ik", s("item")), ("ta", J::A(vec![])), ("crate", s(""))]))])
                }
                _ => opq("fnptr"),
            },
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((ga, add)) = Self::target(a, off) else { 
                    // dangling pointer to empty slice / zst
                    match e.kind() {
                        TyKind::RigidTy(RigidTy::Slice(_)) => return J::O(vec![("ref", J::O(vec![("arr", J::A(vec![]))]))]),
                        TyKind::RigidTy(RigidTy::Str) => return J::O(vec![("str", s(""))]),
                        _ => return J::O(vec![("ref", J::O(vec![("zst", J::B(true))]))]),
                    }
                };
                match ga {
                    GlobalAlloc::Memory(m) => match e.kind() {
                        TyKind::RigidTy(RigidTy::Str) => {
                            let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let bytes: Vec<u8> = (add..add + n).map(|i| m.bytes.get(i).copied().flatten().unwrap_or(0)).collect();
                            J::O(vec![("str", J::S(String::from_utf8_lossy(&bytes).to_string()))])
                        }
                        TyKind::RigidTy(RigidTy::Slice(el)) => {
                            let n = Self::uint(a, off + 8, 8).unwrap_or(0) as usize;
                            let sz = el.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                            let v: Vec<J> = (0..n).map(|i| self.alloc(&m, add + i * sz, el, depth + 1)).collect();
                            J::O(vec![("ref", J::O(vec![("arr", J::A(v))]))])
                        }
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => opq("dyn"),
                        _ => {
                            let v = self.alloc(&m, add, e, depth + 1);
                            J::O(vec![("ref", v)])
                        }
                    },
                    GlobalAlloc::Function(i) => {
                        let k = self.enqueue(i);
                        J::O(vec![("fnkey", J::S(k))])
                    }
                    GlobalAlloc::Static(d) => {
                        // an immutable table of this crate stands for its initial contents
                        let n = Self::tys(&e);
                        let shared = ["Cell", "Atomic", "Once", "Mutex", "Lazy", "RwLock"].iter().any(|w| n.contains(w));
                        if !shared && d.krate().is_local {
                            if let Ok(m) = d.eval_initializer() {
                                let v = self.alloc(&m, add, e, depth + 1);
                                return J::O(vec![("ref", v)]);
                            }
                        }
                        J::O(vec![("static", J::S(d.name()))])
                    }
                    _ => opq("ptr"),
                }
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                if n > 4096 {
                    return opq("bigarray");
                }
                let v: Vec<J> = (0..n).map(|i| self.alloc(a, off + i * sz, e, depth + 1)).collect();
                J::O(vec![("arr", J::A(v))])
            }
            RigidTy::Tuple(es) => {
                if es.is_empty() {
                    return J::O(vec![("zst", J::B(true))]);
                }
                let Ok(l) = t.layout() else { return opq("layout") };
                let FieldsShape::Arbitrary { offsets } = l.shape().fields else { return opq("shape") };
                let v: Vec<J> = es.iter().enumerate().map(|(i, e)| self.alloc(a, off + offsets[i].bytes(), *e, depth + 1)).collect();
                J::O(vec![("agg", J::A(vec![u(0), J::A(v)]))])
            }
            RigidTy::Adt(def, args) => {
                let Ok(l) = t.layout() else { return opq("layout") };
                let sh = l.shape();
                match def.kind() {
                    AdtKind::Struct => {
                        let offsets = match sh.fields {
                            FieldsShape::Arbitrary { offsets } => offsets,
                            _ => return if sh.size.bytes() == 0 { J::O(vec![("zst", J::B(true))]) } else { opq("shape") },
                        };
                        let v: Vec<J> = def.variants()[0].fields().iter().enumerate().map(|(i, f)| {
                            let ft = f.ty_with_args(&args);
                            self.alloc(a, off + offsets[i].bytes(), ft, depth + 1)
                        }).collect();
                        J::O(vec![("agg", J::A(vec![u(0), J::A(v)]))])
                    }
                    AdtKind::Enum => match &sh.variants {
                        VariantsShape::Single { index } => {
                            let vi = rustc_public_variant(*index);
                            let offsets = match sh.fields {
                                FieldsShape::Arbitrary { offsets } => offsets,
                                _ => vec![],
                            };
                            let v: Vec<J> = def.variants()[vi].fields().iter().enumerate().map(|(i, f)| {
                                let ft = f.ty_with_args(&args);
                                if i < offsets.len() { self.alloc(a, off + offsets[i].bytes(), ft, depth + 1) } else { J::O(vec![("zst", J::B(true))]) }
                            }).collect();
                            J::O(vec![("agg", J::A(vec![u(vi), J::A(v)]))])
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let (tsz, isptr) = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => match value {
                                    rustc_public::abi::Primitive::Int { length, .. } => (length.bits() / 8, false),
                                    rustc_public::abi::Primitive::Pointer(_) => (8, true),
                                    _ => return opq("tag"),
                                },
                            };
                            let toff = match &sh.fields { FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(), _ => return opq("tagf") };
                            let Some(tv) = Self::uint(a, off + toff, tsz) else { return opq("tagu") };
                            let has_prov = isptr && a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    match def.variants().iter().position(|v| (def.discriminant_for_variant(v.idx()).val & mask) == tv) {
                                        Some(i) => i,
                                        None => return opq("discr"),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let us = rustc_public_variant(*untagged_variant);
                                    let lo = rustc_public_variant(*niche_variants.start());
                                    let hi = rustc_public_variant(*niche_variants.end());
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    if !has_prov && rel <= (hi - lo) as u128 { lo + rel as usize } else { us }
                                }
                            };
                            let offs = &variants[vi].offsets;
                            let v: Vec<J> = def.variants()[vi].fields().iter().enumerate().map(|(i, f)| {
                                let ft = f.ty_with_args(&args);
                                self.alloc(a, off + offs[i].bytes(), ft, depth + 1)
                            }).collect();
                            J::O(vec![("agg", J::A(vec![u(vi), J::A(v)]))])
                        }
                        _ => opq("variants"),
                    },
                    _ => opq("union"),
                }
            }
            _ => opq("other"),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> J {
        match r {
            Rvalue::AddressOf(_, p) => J::A(vec![s("addr"), self.place(p)]),
            Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![s("reborrow"), self.place(p), J::B(*m == Mutability::Mut)]),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let k = match k {
                    AggregateKind::Array(t) => J::A(vec![s("array"), u(self.ty(*t))]),
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        J::A(vec![s("adt"), u(self.ty(t)), u(rustc_public_variant(*v)), f.map(u).unwrap_or(J::N)])
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        J::A(vec![s("closure"), u(self.ty(t))])
                    }
                    AggregateKind::RawPtr(..) => J::A(vec![s("rawptr")]),
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), k, J::A(ops)])
            }
            Rvalue::BinaryOp(b, x, y) => J::A(vec![s("bin"), J::S(format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::CheckedBinaryOp(b, x, y) => J::A(vec![s("cbin"), J::S(format!("{:?}", b)), self.operand(x), self.operand(y)]),
            Rvalue::UnaryOp(b, x) => J::A(vec![s("un"), J::S(format!("{:?}", b)), self.operand(x)]),
            Rvalue::Cast(k, o, t) => J::A(vec![s("cast"), J::S(format!("{:?}", k)), self.operand(o), u(self.ty(*t))]),
            Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
            Rvalue::Discriminant(p) => J::A(vec![s("discr"), self.place(p)]),
            Rvalue::Len(p) => J::A(vec![s("len"), self.place(p)]),
            Rvalue::Repeat(o, n) => J::A(vec![s("repeat"), self.operand(o), n.eval_target_usize().map(|x| J::U(x as u128)).unwrap_or(J::N)]),
            Rvalue::ThreadLocalRef(_) => J::A(vec![s("tls")]),
            Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
        }
    }
    fn span(&mut self, sp: Span) -> J {
        let l = sp.get_lines();
        J::U(l.start_line as u128)
    }
    fn body(&mut self, inst: Instance) {
        let key = inst.mangled_name();
        let Some(b) = inst.body() else { return };
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(p, r) => {
                        let pl = self.place(p);
                        let rv = self.rvalue(r);
                        st.push(J::A(vec![s("="), pl, rv, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let pl = self.place(place);
                        st.push(J::A(vec![s("sd"), pl, u(rustc_public_variant(*variant_index))]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), u(*l)])),
                    _ => {}
                }
            }
            let line = self.span(bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => J::A(vec![s("goto"), u(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<J> = targets.branches().map(|(v, t)| J::A(vec![J::U(v), u(t)])).collect();
                    J::A(vec![s("switch"), self.operand(discr), J::A(br), u(targets.otherwise())])
                }
                TerminatorKind::Resume => J::A(vec![s("resume")]),
                TerminatorKind::Abort => J::A(vec![s("abort")]),
                TerminatorKind::Return => J::A(vec![s("return")]),
                TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => J::A(vec![s("drop"), self.place(place), u(*target)]),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a: Vec<J> = args.iter().map(|o| self.operand(o)).collect();
                    let d = self.place(destination);
                    J::A(vec![s("call"), f, J::A(a), d, target.map(u).unwrap_or(J::N)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => J::A(vec![s("bounds"), self.operand(len), self.operand(index)]),
                        AssertMessage::Overflow(b, x, y) => J::A(vec![s("overflow"), J::S(format!("{:?}", b)), self.operand(x), self.operand(y)]),
                        AssertMessage::OverflowNeg(x) => J::A(vec![s("neg"), self.operand(x)]),
                        AssertMessage::DivisionByZero(x) => J::A(vec![s("div0"), self.operand(x)]),
                        AssertMessage::RemainderByZero(x) => J::A(vec![s("rem0"), self.operand(x)]),
                        _ => J::A(vec![s("other")]),
                    };
                    J::A(vec![s("assert"), self.operand(cond), J::B(*expected), m, u(*target)])
                }
                TerminatorKind::InlineAsm { .. } => J::A(vec![s("asm")]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", t), ("l", line)]));
        }
        let locals: Vec<J> = b.locals().iter().map(|l| u(self.ty(l.ty))).collect();
        let mut names = vec![];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names.push(J::A(vec![u(l), J::S(v.name.clone())]));
            }
        }
        let d = inst.def.def_id();
        let sp = d.span();
        let file = sp.get_filename();
        let parent = d.parent().map(|p| p.name()).unwrap_or_default();
        self.files.insert(file.clone(), file.clone());
        let unsafe_ = match inst.ty().kind() {
            TyKind::RigidTy(RigidTy::FnDef(f, _)) => format!("{:?}", f.fn_sig().skip_binder().safety),
            _ => "Safe".into(),
        };
        let o = J::O(vec![
            ("name", J::S(inst.name())),
            ("d", J::S(inst.def.name())),
            ("parent", J::S(parent)),
            ("local", J::B(inst.def.krate().is_local)),
            ("kind", J::S(format!("{:?}", inst.kind))),
            ("safety", J::S(unsafe_)),
            ("file", J::S(file)),
            ("line", J::U(sp.get_lines().start_line as u128)),
            ("argc", u(b.arg_locals().len())),
            ("spread", b.spread_arg().map(u).unwrap_or(J::N)),
            ("locals", J::A(locals)),
            ("names", J::A(names)),
            ("blocks", J::A(blocks)),
        ]);
        let mut st = String::new();
        o.w(&mut st);
        self.fns.insert(key, st);
    }
}

fn rustc_public_variant(v: VariantIdx) -> usize {
    use rustc_public_bridge::IndexedVal;
    v.to_index()
}

fn run_dump(out: String) -> ControlFlow<()> {
    let mut c = Ctx { types: vec![], tyix: HashMap::new(), fns: BTreeMap::new(), queue: VecDeque::new(), seen: HashSet::new(), files: HashMap::new() };
    let mut items = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        if it.kind() == ItemKind::Fn {
            if it.requires_monomorphization() {
                generic.push(J::S(it.name()));
            } else if let Ok(i) = Instance::try_from(it) {
                let k = c.enqueue(i);
                items.push(J::A(vec![J::S(i.name()), J::S(k)]));
            }
        }
    }
    // trait impls: resolve every method of every local trait for every impl
    let krate = rustc_public::local_crate();
    let fdefs = krate.fn_defs();
    let mut impls = vec![];
    for im in krate.trait_impls() {
        let tr = im.trait_impl().value;
        let self_ty = tr.self_ty();
        let mut methods = vec![];
        if im.generics_of().params.is_empty() {
            for ai in tr.def_id.associated_items() {
                if let Some(fd) = fdefs.iter().find(|f| f.def_id() == ai.def_id.def_id()) {
                    if !fd.generics_of().params.is_empty() {
                        continue;
                    }
                    if let Ok(i) = Instance::resolve(*fd, tr.args()) {
                        let k = c.enqueue(i);
                        methods.push(J::A(vec![J::S(fd.name()), J::S(k)]));
                    }
                }
            }
        }
        impls.push(J::O(vec![("trait", J::S(tr.def_id.name())), ("self", J::S(format!("{}", self_ty))), ("m", J::A(methods))]));
    }
    let mut adts = vec![];
    for a in krate.adts() {
        if a.generics_of().params.is_empty() {
            let t = a.ty();
            adts.push(u(c.ty(t)));
        }
    }
    while let Some(i) = c.queue.pop_front() {
        c.body(i);
    }
    let mut o = String::new();
    o.push_str("{\"items\":");
    J::A(items).w(&mut o);
    o.push_str(",\"generic\":");
    J::A(generic).w(&mut o);
    o.push_str(",\"impls\":");
    J::A(impls).w(&mut o);
    o.push_str(",\"adts\":");
    J::A(adts).w(&mut o);
    o.push_str(",\"types\":[");
    o.push_str(&c.types.join(",\n"));
    o.push_str("],\"fns\":{");
    let mut first = true;
    for (k, v) in &c.fns {
        if !first {
            o.push_str(",\n");
        }
        first = false;
        esc(k, &mut o);
        o.push(':');
        o.push_str(v);
    }
    o.push_str("}}");
    std::fs::write(&out, o).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as argv[1]
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("PSV_CRATE").unwrap_or_default();
    let out = std::env::var("PSV_OUT").unwrap_or_default();
    let mut name = String::new();
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned().unwrap_or_default();
        }
        if a == "--test" {
            test = true;
        }
    }
    if name == want && !test && !out.is_empty() {
        let r = run!(&args, || run_dump(out.clone()));
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let r = run!(&args, || ControlFlow::<()>::Continue(()));
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
            _ => std::process::exit(1),
        }
    }
    let _ = (CrateItem::body, J::R(String::new()).clone());
}
