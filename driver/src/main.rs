//! Writes the monomorphised MIR that is reachable from the lemmas of the harness crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For every crate but the harness it behaves like rustc.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_middle::ty::TyCtxt;
use rustc_public::abi::{FieldsShape, LayoutShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::rustc_internal;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use std::collections::{HashMap, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<Option<String>>,
    type_ids: HashMap<Ty, usize>,
    insts: Vec<Option<String>>,
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<Instance>,
    impl_tys: Vec<Ty>,
    impl_seen: HashMap<Ty, ()>,
    traits: Vec<(String, rustc_span::def_id::DefId, Vec<String>)>,
    impls: Vec<String>,
    files: Vec<String>,
    file_ids: HashMap<String, usize>,
}

const STOP_IN_DESCEND: &[&str] = &[];

fn descend(krate: &str, path: &str) -> bool {
    for s in STOP_IN_DESCEND {
        if path.contains(s) {
            return false;
        }
    }
    match krate {
        "icalendar" | "icalharness" | "nom" | "serde" | "serde_core" => true,
        "core" | "alloc" | "std" => {
            const ALLOW: &[&str] = &[
                "std::option::", "std::result::", "std::ops::", "std::convert::", "std::cmp::",
                "std::clone::", "std::borrow::", "std::default::", "std::bool::", "std::tuple::",
                "std::mem::take", "std::mem::swap", "std::iter::Iterator::", "std::iter::IntoIterator",
                "std::iter::traits::", "std::iter::FromIterator", "std::iter::Extend", "std::str::FromStr",
                "std::str::<impl str>::parse", "core::str::<impl str>::parse", "std::marker::", "std::array::",
                "std::string::ToString", "std::num::", "std::slice::<impl [T]>::", "std::fmt::Display",
                "std::iter::", "std::ptr::drop_in_place", "core::bool::", "std::any::", "std::pin::",
                "core::num::", "std::char::", "core::char::", "std::boxed::", "std::ascii::", "std::fmt::impls",
                "std::cell::", "std::rc::", "std::fmt::Write",
            ];
            let p = path.trim_start_matches('<');
            ALLOW.iter().any(|a| p.starts_with(a) || path.contains(&format!(" as {a}")))
                || path.starts_with('<')
        }
        _ => false,
    }
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.type_ids.get(&t) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(None);
        self.type_ids.insert(t, id);
        let s = self.ty_json(t);
        self.types[id] = Some(s);
        id
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            match a {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{n}}}"),
                    Err(_) => "null".into(),
                }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = esc(&format!("{t}"));
        let TyKind::RigidTy(r) = t.kind() else {
            return format!("{{\"k\":\"other\",\"name\":{name}}}");
        };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":true}}", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("{{\"k\":\"int\",\"bits\":{},\"signed\":false}}", i.num_bytes() * 8),
            RigidTy::Float(f) => format!("{{\"k\":\"float\",\"bits\":{}}}", match f { FloatTy::F16 => 16, FloatTy::F32 => 32, FloatTy::F64 => 64, FloatTy::F128 => 128 }),
            RigidTy::Ref(_, inner, m) => {
                let i = self.ty(inner);
                format!("{{\"k\":\"ref\",\"to\":{i},\"mut\":{}}}", m == Mutability::Mut)
            }
            RigidTy::RawPtr(inner, m) => {
                let i = self.ty(inner);
                format!("{{\"k\":\"ptr\",\"to\":{i},\"mut\":{}}}", m == Mutability::Mut)
            }
            RigidTy::Slice(inner) => {
                let i = self.ty(inner);
                format!("{{\"k\":\"slice\",\"elem\":{i}}}")
            }
            RigidTy::Array(inner, n) => {
                let i = self.ty(inner);
                format!("{{\"k\":\"array\",\"elem\":{i},\"len\":{}}}", n.eval_target_usize().map(|n| n as i64).unwrap_or(-1))
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("{{\"k\":\"tuple\",\"elems\":[{}]}}", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                let a = self.args_json(&args);
                let mut vs = vec![];
                let is_enum = def.kind() == AdtKind::Enum;
                let path = def.name();
                let krate = def.krate().name;
                let opaque = def.kind() == AdtKind::Union;
                if !opaque {
                    for (i, v) in def.variants().iter().enumerate() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let fty = f.ty_with_args(&args);
                            fs.push(format!("[{},{}]", esc(&f.name.to_string()), self.ty(fty)));
                        }
                        let d = if is_enum {
                            def.discriminant_for_variant(VariantIdx::to_val(i)).val.to_string()
                        } else {
                            "0".into()
                        };
                        vs.push(format!("{{\"name\":{},\"discr\":{},\"fields\":[{}]}}", esc(&v.name().to_string()), d, fs.join(",")));
                    }
                }
                if (krate == "icalendar" || krate == "icalharness") && self.impl_seen.insert(t, ()).is_none() {
                    self.impl_tys.push(t);
                }
                format!(
                    "{{\"k\":\"adt\",\"path\":{},\"krate\":{},\"name\":{name},\"enum\":{is_enum},\"args\":{a},\"variants\":[{}]}}",
                    esc(&path.to_string()),
                    esc(&krate.to_string()),
                    vs.join(",")
                )
            }
            RigidTy::FnDef(def, args) => {
                let a = self.args_json(&args);
                let inst = match Instance::resolve(def, &args) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"fndef\",\"path\":{},\"args\":{a},\"inst\":{inst}}}", esc(&def.name().to_string()))
            }
            RigidTy::Closure(def, args) => {
                let a = self.args_json(&args);
                let kind = closure_kind(self.tcx, t);
                let ks = match kind {
                    ClosureKind::Fn => "fn",
                    ClosureKind::FnMut => "fnmut",
                    ClosureKind::FnOnce => "fnonce",
                };
                let inst = match Instance::resolve_closure(def, &args, kind) {
                    Ok(i) => self.inst(i).to_string(),
                    Err(_) => "null".into(),
                };
                format!("{{\"k\":\"closure\",\"path\":{},\"args\":{a},\"inst\":{inst},\"ckind\":\"{ks}\"}}", esc(&def.name().to_string()))
            }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Dynamic(..) => format!("{{\"k\":\"dyn\",\"name\":{name}}}"),
            _ => format!("{{\"k\":\"other\",\"name\":{name}}}"),
        }
    }

    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.inst_ids.get(&i) {
            return *n;
        }
        let id = self.insts.len();
        self.insts.push(None);
        self.inst_ids.insert(i, id);
        self.queue.push_back(i);
        id
    }

    fn scalar(&self, t: Ty, v: u128, size: usize) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Bool) => format!("[\"bool\",{}]", v != 0),
            TyKind::RigidTy(RigidTy::Char) => format!("[\"char\",{v}]"),
            TyKind::RigidTy(RigidTy::Int(_)) => {
                let shift = 128 - size * 8;
                let s = ((v << shift) as i128) >> shift;
                format!("[\"int\",{s}]")
            }
            TyKind::RigidTy(RigidTy::Float(_)) => format!("[\"float\",{v}]"),
            _ => format!("[\"int\",{v}]"),
        }
    }

    fn read(&self, a: &Allocation, off: usize, size: usize) -> Option<u128> {
        if size > 16 || off + size > a.bytes.len() {
            return None;
        }
        let mut v: u128 = 0;
        for i in (0..size).rev() {
            v = (v << 8) | (a.bytes[off + i]? as u128);
        }
        Some(v)
    }

    fn deref_ptr(&mut self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?.1;
        let delta = self.read(a, off, 8)? as usize;
        Some((GlobalAlloc::from(prov.0), delta))
    }

    fn pointee(&mut self, to: Ty, ga: GlobalAlloc, delta: usize, meta: Option<u128>, depth: usize) -> String {
        match ga {
            GlobalAlloc::Memory(m) => self.decode_place(to, &m, delta, meta, depth),
            GlobalAlloc::Static(s) => match s.eval_initializer() {
                Ok(m) => self.decode_place(to, &m, delta, meta, depth),
                Err(_) => "[\"unk\"]".into(),
            },
            GlobalAlloc::Function(i) => {
                let n = self.inst(i);
                format!("[\"fn\",{n}]")
            }
            _ => "[\"unk\"]".into(),
        }
    }

    fn decode_place(&mut self, to: Ty, m: &Allocation, off: usize, meta: Option<u128>, depth: usize) -> String {
        match to.kind() {
            TyKind::RigidTy(RigidTy::Str) => {
                let n = meta.unwrap_or(0) as usize;
                let b: Vec<u8> = m.bytes[off..off + n].iter().map(|b| b.unwrap_or(0)).collect();
                format!("[\"str\",{}]", esc(&String::from_utf8_lossy(&b)))
            }
            TyKind::RigidTy(RigidTy::Slice(e)) => {
                let n = meta.unwrap_or(0) as usize;
                self.decode_seq(e, n, m, off, depth)
            }
            TyKind::RigidTy(RigidTy::Dynamic(..)) => "[\"unk\"]".into(),
            _ => self.decode(to, m, off, depth),
        }
    }

    fn decode_seq(&mut self, e: Ty, n: usize, m: &Allocation, off: usize, depth: usize) -> String {
        if matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
            let b: Vec<String> = m.bytes[off..off + n].iter().map(|b| b.unwrap_or(0).to_string()).collect();
            return format!("[\"bytes\",[{}]]", b.join(","));
        }
        let stride = match e.layout() {
            Ok(l) => l.shape().size.bytes(),
            Err(_) => return "[\"unk\"]".into(),
        };
        let v: Vec<String> = (0..n).map(|i| self.decode(e, m, off + i * stride, depth + 1)).collect();
        format!("[\"seq\",[{}]]", v.join(","))
    }

    fn decode(&mut self, t: Ty, m: &Allocation, off: usize, depth: usize) -> String {
        if depth > 12 {
            return "[\"unk\"]".into();
        }
        let shape: LayoutShape = match t.layout() {
            Ok(l) => l.shape(),
            Err(_) => return "[\"unk\"]".into(),
        };
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return "[\"unk\"]".into() };
        match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                match self.read(m, off, size) {
                    Some(v) => self.scalar(t, v, size),
                    None => "[\"unk\"]".into(),
                }
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let meta = if size == 16 { self.read(m, off + 8, 8) } else { None };
                match self.deref_ptr(m, off) {
                    Some((ga, d)) => {
                        let s = self.pointee(to, ga, d, meta, depth + 1);
                        format!("[\"ref\",{s}]")
                    }
                    None => {
                        // dangling pointers to zero sized things
                        if meta == Some(0) {
                            if matches!(to.kind(), TyKind::RigidTy(RigidTy::Str)) {
                                return "[\"ref\",[\"str\",\"\"]]".into();
                            }
                            return "[\"ref\",[\"seq\",[]]]".into();
                        }
                        if to.layout().map(|l| l.shape().is_sized() && l.shape().size.bytes() == 0).unwrap_or(false) {
                            let s = self.decode(to, m, off, depth + 1);
                            return format!("[\"ref\",{s}]");
                        }
                        "[\"unk\"]".into()
                    }
                }
            }
            RigidTy::FnPtr(_) => match self.deref_ptr(m, off) {
                Some((GlobalAlloc::Function(i), _)) => {
                    let n = self.inst(i);
                    format!("[\"fn\",{n}]")
                }
                _ => "[\"unk\"]".into(),
            },
            RigidTy::FnDef(..) => "[\"zst\"]".into(),
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                self.decode_seq(e, n, m, off, depth)
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else {
                    return if ts.is_empty() { "[\"agg\",0,[]]".into() } else { "[\"unk\"]".into() };
                };
                let v: Vec<String> = ts.iter().zip(offsets).map(|(t, o)| self.decode(*t, m, off + o.bytes(), depth + 1)).collect();
                format!("[\"agg\",0,[{}]]", v.join(","))
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return "[\"unk\"]".into();
                }
                let (vi, offsets) = match &shape.variants {
                    VariantsShape::Empty => return "[\"unk\"]".into(),
                    VariantsShape::Single { index } => {
                        let o = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.clone(),
                            _ => vec![],
                        };
                        (index.to_index(), o)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                        let tag_off = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets[*tag_field].bytes(),
                            _ => 0,
                        };
                        let prim = match tag {
                            rustc_public::abi::Scalar::Initialized { value, .. } => value,
                            rustc_public::abi::Scalar::Union { value } => value,
                        };
                        let tsize = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        let has_prov = m.provenance.ptrs.iter().any(|(o, _)| *o == off + tag_off);
                        let tagv = self.read(m, off + tag_off, tsize);
                        let vi = match tag_encoding {
                            TagEncoding::Direct => {
                                let Some(tv) = tagv else { return "[\"unk\"]".into() };
                                let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                let mut found = None;
                                for i in 0..def.variants().len() {
                                    if def.discriminant_for_variant(VariantIdx::to_val(i)).val & mask == tv {
                                        found = Some(i);
                                    }
                                }
                                match found {
                                    Some(i) => i,
                                    None => return "[\"unk\"]".into(),
                                }
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if has_prov {
                                    untagged_variant.to_index()
                                } else {
                                    let Some(tv) = tagv else { return "[\"unk\"]".into() };
                                    let mask = if tsize >= 16 { u128::MAX } else { (1u128 << (tsize * 8)) - 1 };
                                    let rel = tv.wrapping_sub(*niche_start) & mask;
                                    let first = niche_variants.start().to_index() as u128;
                                    let last = niche_variants.end().to_index() as u128;
                                    if rel <= last - first {
                                        (first + rel) as usize
                                    } else {
                                        untagged_variant.to_index()
                                    }
                                }
                            }
                        };
                        (vi, variants[vi].offsets.clone())
                    }
                };
                let fields = def.variants()[vi].fields();
                let mut v = vec![];
                for (i, f) in fields.iter().enumerate() {
                    let fty = f.ty_with_args(&args);
                    let o = offsets.get(i).map(|o| o.bytes()).unwrap_or(0);
                    v.push(self.decode(fty, m, off + o, depth + 1));
                }
                format!("[\"agg\",{vi},[{}]]", v.join(","))
            }
            RigidTy::Closure(..) => "[\"zst\"]".into(),
            _ => "[\"unk\"]".into(),
        }
    }

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.decode(t, &a, 0, 0)
            }
            ConstantKind::ZeroSized => match t.kind() {
                TyKind::RigidTy(RigidTy::Tuple(_)) => "[\"agg\",0,[]]".into(),
                TyKind::RigidTy(RigidTy::Adt(..)) => {
                    let a = Allocation { bytes: vec![], provenance: ProvenanceMap { ptrs: vec![] }, align: 1, mutability: Mutability::Not };
                    self.decode(t, &a, 0, 0)
                }
                TyKind::RigidTy(RigidTy::Array(..)) => "[\"seq\",[]]".into(),
                _ => "[\"zst\"]".into(),
            },
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("[\"int\",{n}]"),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(ty, a) => {
                        let (ty, a) = (*ty, a.clone());
                        self.decode(ty, &a, 0, 0)
                    }
                    TyConstKind::ZSTValue(_) => "[\"zst\"]".into(),
                    _ => "[\"unk\"]".into(),
                },
            },
            _ => "[\"unk\"]".into(),
        };
        format!("[\"k\",{tid},{v}]")
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".into(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{i},{}]", self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".into(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("[\"rt\",{}]", esc(&format!("{r:?}"))),
        }
    }

    fn operands(&mut self, os: &[Operand]) -> String {
        let v: Vec<_> = os.iter().map(|o| self.operand(o)).collect();
        format!("[{}]", v.join(","))
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},\"raw\"]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},\"{}\"]", self.place(p), if m { "mut" } else { "shr" })
            }
            Rvalue::Reborrow(_, m, p) => format!("[\"use\",[\"c\",{}],\"{}\"]", self.place(p), if *m == Mutability::Mut { "mut" } else { "shr" }),
            Rvalue::Aggregate(k, ops) => {
                let o = self.operands(ops);
                match k {
                    AggregateKind::Array(t) => format!("[\"agg\",[\"array\",{}],{o}]", self.ty(*t)),
                    AggregateKind::Tuple => format!("[\"agg\",[\"tuple\"],{o}]"),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        let t = self.ty(def.ty_with_args(args));
                        format!("[\"agg\",[\"adt\",{t},{},{}],{o}]", v.to_index(), f.map(|f| f.to_string()).unwrap_or("null".into()))
                    }
                    AggregateKind::Closure(def, args) => {
                        let t = self.ty(Ty::new_closure(*def, args.clone()));
                        format!("[\"agg\",[\"closure\",{t}],{o}]")
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"agg\",[\"rawptr\",{}],{o}]", self.ty(*t)),
                    _ => "[\"unk\"]".into(),
                }
            }
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{op:?}\",{},{}]", self.operand(a), self.operand(b)),
            Rvalue::Cast(k, o, t) => {
                // function items that become function pointers
                let mut extra = "null".to_string();
                if let CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_)) = k {
                    if let Operand::Constant(c) = o {
                        let ct = c.const_.ty();
                        match ct.kind() {
                            TyKind::RigidTy(RigidTy::FnDef(def, args)) => {
                                if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) {
                                    extra = self.inst(i).to_string();
                                }
                            }
                            _ => {}
                        }
                    }
                }
                format!("[\"cast\",{},{},{},{extra}]", esc(&format!("{k:?}")), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|n| n as i64).unwrap_or(-1)),
            Rvalue::ThreadLocalRef(_) => "[\"unk\"]".into(),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{op:?}\",{}]", self.operand(a)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }

    fn span(&mut self, s: &Span) -> String {
        let f = s.get_filename().to_string();
        let n = match self.file_ids.get(&f) {
            Some(n) => *n,
            None => {
                self.files.push(f.clone());
                self.file_ids.insert(f, self.files.len() - 1);
                self.files.len() - 1
            }
        };
        format!("[{n},{}]", s.get_lines().start_line)
    }

    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<_> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        let j = format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), self.span(&s.source_info.span));
                        st.push(j);
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => st.push("[\"unk\"]".into()),
                    _ => {}
                }
            }
            let sp = self.span(&bb.terminator.source_info.span);
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<_> = targets.branches().map(|(v, t)| format!("[{v},{t}]")).collect();
                    format!("[\"switch\",{},[{}],{}]", self.operand(discr), br.join(","), targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => format!("[\"drop\",{},{target}]", self.place(place)),
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let a = self.operands(args);
                    let d = self.place(destination);
                    let t = target.map(|t| t.to_string()).unwrap_or("null".into());
                    format!("[\"call\",{f},{a},{d},{t}]")
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "bounds".to_string(),
                        m => m.description().map(|s| s.to_string()).unwrap_or("assert".into()),
                    };
                    format!("[\"assert\",{},{expected},{},{target}]", self.operand(cond), esc(&m))
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("{{\"s\":[{}],\"t\":{t},\"sp\":{sp}}}", st.join(",")));
        }
        let mut dbg = vec![];
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                dbg.push(format!("[{},{}]", esc(&v.name.to_string()), self.place(p)));
            }
        }
        let spread = b.spread_arg().map(|s| s.to_string()).unwrap_or("null".into());
        let sp = self.span(&b.span);
        format!(
            "{{\"args\":{},\"locals\":[{}],\"spread\":{spread},\"sp\":{sp},\"dbg\":[{}],\"blocks\":[{}]}}",
            b.arg_locals().len(),
            locals.join(","),
            dbg.join(","),
            blocks.join(",")
        )
    }

    fn emit(&mut self, i: Instance) {
        let id = self.inst_ids[&i];
        let name = i.name().to_string();
        let def = i.def.def_id();
        let path = def.name().to_string();
        let did = rustc_internal::internal(self.tcx, def);
        let krate = self.tcx.crate_name(did.krate).to_string();
        let args = i.args();
        let aj = self.args_json(&args);
        let tcx = self.tcx;
        let (mut trait_, mut method) = (String::new(), String::new());
        let mut self_ty = "null".to_string();
        let closure = tcx.is_closure_like(did);
        if let Some(assoc) = (!closure).then(|| tcx.opt_associated_item(did)).flatten() {
            method = assoc.name().to_string();
            if let Some(t) = tcx.trait_of_assoc(did) {
                trait_ = tcx.def_path_str(t);
                if let Some(GenericArgKind::Type(t)) = args.0.first() {
                    self_ty = self.ty(*t).to_string();
                }
            } else if let Some(imp) = tcx.impl_of_assoc(did) {
                if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                    trait_ = tcx.def_path_str(tr.skip_binder().def_id);
                }
                let st = rustc_internal::stable(tcx.type_of(imp).instantiate_identity().skip_norm_wip());
                let inner = rustc_internal::internal(tcx, &args);
                let conc = tcx.type_of(imp).instantiate(tcx, inner).skip_norm_wip();
                let conc = tcx.try_normalize_erasing_regions(
                    rustc_middle::ty::TypingEnv::fully_monomorphized(),
                    rustc_middle::ty::Unnormalized::new_wip(conc),
                ).unwrap_or(conc);
                let _ : Ty = st;
                let conc: Ty = rustc_internal::stable(conc);
                self_ty = self.ty(conc).to_string();
            }
        }
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "intrinsic",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let want = match i.kind {
            InstanceKind::Item => descend(&krate, &path),
            InstanceKind::Shim => !path.contains("drop_in_place") ,
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => false,
            InstanceKind::Virtual { .. } => false,
        };
        let body = if want && (i.kind == InstanceKind::Shim || i.has_body()) {
            match i.body() {
                Some(b) => self.body(&b),
                None => "null".into(),
            }
        } else {
            "null".into()
        };
        let s = format!(
            "{{\"name\":{},\"path\":{},\"krate\":{},\"trait\":{},\"method\":{},\"self\":{self_ty},\"args\":{aj},\"kind\":\"{kind}\",\"body\":{body}}}",
            esc(&name), esc(&path), esc(&krate), esc(&trait_), esc(&method)
        );
        self.insts[id] = Some(s);
    }

    fn emit_impls(&mut self) {
        while let Some(t) = self.impl_tys.pop() {
            let tcx = self.tcx;
            let ity = rustc_internal::internal(tcx, t);
            let traits = self.traits.clone();
            for (name, did, methods) in traits {
                let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
                // Self plus a possible Rhs parameter that defaults to Self
                let n = tcx.generics_of(did).count();
                let params: Vec<rustc_middle::ty::GenericArg<'tcx>> = vec![ity.into(); n];
                let (infcx_ok, args) = {
                    let a = tcx.mk_args(&params);
                    let pred = rustc_middle::ty::TraitRef::new_from_args(tcx, did, a);
                    (implements(tcx, env, pred), a)
                };
                if !infcx_ok {
                    continue;
                }
                for m in &methods {
                    let Some(item) = tcx.associated_items(did).in_definition_order().find(|i| i.opt_name().map(|n| n.as_str() == m).unwrap_or(false)) else { continue };
                    let margs = args;
                    if tcx.generics_of(item.def_id).count() != margs.len() + tcx.generics_of(item.def_id).own_params.iter().filter(|p| matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).count() {
                        continue;
                    }
                    let full = rustc_middle::ty::GenericArgs::for_item(tcx, item.def_id, |p, _| {
                        if (p.index as usize) < margs.len() { margs[p.index as usize] } else { tcx.lifetimes.re_erased.into() }
                    });
                    if let Ok(Some(inst)) = rustc_middle::ty::Instance::try_resolve(tcx, env, item.def_id, full) {
                        let st: Instance = rustc_internal::stable(inst);
                        let iid = self.inst(st);
                        let tid = self.ty(t);
                        self.impls.push(format!("[{tid},{},{},{iid}]", esc(&name), esc(m)));
                    }
                }
            }
        }
    }
}

fn closure_kind(tcx: TyCtxt<'_>, t: Ty) -> ClosureKind {
    let it = rustc_internal::internal(tcx, t);
    if let rustc_middle::ty::TyKind::Closure(_, args) = it.kind() {
        match args.as_closure().kind() {
            rustc_middle::ty::ClosureKind::Fn => ClosureKind::Fn,
            rustc_middle::ty::ClosureKind::FnMut => ClosureKind::FnMut,
            rustc_middle::ty::ClosureKind::FnOnce => ClosureKind::FnOnce,
        }
    } else {
        ClosureKind::FnOnce
    }
}

fn implements<'tcx>(tcx: TyCtxt<'tcx>, env: rustc_middle::ty::TypingEnv<'tcx>, tr: rustc_middle::ty::TraitRef<'tcx>) -> bool {
    tcx.codegen_select_candidate(env.as_query_input(tr)).is_ok()
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let wanted: &[(&str, &[&str])] = &[
        ("core::fmt::Display", &["fmt"]),
        ("core::fmt::Debug", &["fmt"]),
        ("core::clone::Clone", &["clone"]),
        ("core::cmp::PartialEq", &["eq"]),
        ("core::cmp::PartialOrd", &["partial_cmp"]),
        ("core::cmp::Ord", &["cmp"]),
        ("core::default::Default", &["default"]),
        ("core::fmt::Write", &["write_str"]),
        ("core::iter::traits::iterator::Iterator", &["next"]),
        ("core::ops::deref::Deref", &["deref"]),
    ];
    let mut traits = vec![];
    for t in tcx.all_traits_including_private() {
        let p = tcx.def_path(t);
        let full = format!("{}{}", tcx.crate_name(t.krate), p.to_string_no_crate_verbose());
        for (w, ms) in wanted {
            if full == *w {
                traits.push((tcx.def_path_str(t), t, ms.iter().map(|s| s.to_string()).collect()));
            }
        }
    }
    let mut cx = Cx {
        tcx,
        types: vec![],
        type_ids: HashMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        impl_tys: vec![],
        impl_seen: HashMap::new(),
        traits,
        impls: vec![],
        files: vec![],
        file_ids: HashMap::new(),
    };
    let mut roots = vec![];
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || item.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let id = cx.inst(i);
            roots.push(format!("[{},{id}]", esc(&item.name().to_string())));
        }
    }
    loop {
        while let Some(i) = cx.queue.pop_front() {
            cx.emit(i);
        }
        cx.emit_impls();
        if cx.queue.is_empty() {
            break;
        }
    }
    let mut s = String::new();
    s.push_str("{\"types\":[\n");
    s.push_str(&cx.types.iter().map(|t| t.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    s.push_str("],\n\"insts\":[\n");
    s.push_str(&cx.insts.iter().map(|t| t.clone().unwrap_or("null".into())).collect::<Vec<_>>().join(",\n"));
    let _ = write!(s, "],\n\"impls\":[{}],\n\"roots\":[{}],\n\"files\":[{}]}}\n", cx.impls.join(","), roots.join(","), cx.files.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","));
    std::fs::write(&out, s).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: our name, then rustc, then its arguments
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "icalharness")
        && std::env::var("MIRDUMP_OUT").is_ok();
    if is_harness {
        let r = rustc_public::run_with_tcx!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        struct Plain;
        impl rustc_driver::Callbacks for Plain {}
        rustc_driver::compiler_entrypoint(&args, &mut Plain);
    }
}
