//! Dumps, as JSON, the monomorphised MIR reachable from the `root_*` / `anchor_*` functions of the crate being
//! compiled (with evaluated constants, type structure and resolved callees).  No code of the analysed program runs.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;

use rustc_public::{CrateDef, CrateDefType};
use rustc_public_bridge::IndexedVal;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::abi::*;
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;


fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct Cx {
    ty_ids: HashMap<Ty, usize>,
    tys: Vec<Ty>,
    ty_json: Vec<String>,
    inst_ids: HashMap<Instance, usize>,
    insts: Vec<Instance>,
    inst_json: BTreeMap<usize, String>,
    queue: VecDeque<usize>,
    alloc_ids: HashMap<(AllocId, usize, Ty, u64), usize>,
    alloc_json: Vec<String>,
    statics: BTreeMap<String, String>,
    stop: Vec<String>,
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(&i) = self.ty_ids.get(&t) {
            return i;
        }
        let i = self.tys.len();
        self.ty_ids.insert(t, i);
        self.tys.push(t);
        self.ty_json.push(String::new());
        let j = self.ty_desc(t);
        self.ty_json[i] = j;
        i
    }
    fn args_tys(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => Some(match c.eval_target_usize() {
                    Ok(n) => format!("{{\"const\":{}}}", n),
                    Err(_) => "null".to_string(),
                }),
                _ => None,
            })
            .collect();
        arr(v)
    }
    fn ty_desc(&mut self, t: Ty) -> String {
        let size = t.layout().ok().map(|l| l.shape().size.bytes());
        let size = size.map(|s| s.to_string()).unwrap_or("null".into());
        let name = js(&format!("{}", t));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Adt(def, args) => {
                    let mut vs = Vec::new();
                    for v in def.variants() {
                        let fs: Vec<(String, Ty)> = v
                            .fields()
                            .iter()
                            .map(|f| (f.name.to_string(), f.ty_with_args(&args)))
                            .collect();
                        let fs: Vec<String> = fs
                            .into_iter()
                            .map(|(n, ft)| format!("[{},{}]", js(&n), self.ty(ft)))
                            .collect();
                        let d = if def.kind() == AdtKind::Enum {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            "0".to_string()
                        };
                        vs.push(format!(
                            "{{\"n\":{},\"d\":{},\"f\":{}}}",
                            js(&v.name().to_string()),
                            d,
                            arr(fs)
                        ));
                    }
                    let a = self.args_tys(&args);
                    format!(
                        "\"k\":\"adt\",\"kind\":{},\"def\":{},\"crate\":{},\"box\":{},\"args\":{},\"vars\":{}",
                        js(match def.kind() {
                            AdtKind::Enum => "enum",
                            AdtKind::Struct => "struct",
                            AdtKind::Union => "union",
                        }),
                        js(&def.name().to_string()),
                        js(&def.krate().name.to_string()),
                        def.is_box(),
                        a,
                        arr(vs)
                    )
                }
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into());
                    format!("\"k\":\"array\",\"e\":{},\"n\":{}", self.ty(e), n)
                }
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::RawPtr(e, m) => {
                    format!("\"k\":\"ptr\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::Ref(_, e, m) => {
                    format!("\"k\":\"ref\",\"e\":{},\"mut\":{}", self.ty(e), m == Mutability::Mut)
                }
                RigidTy::FnDef(d, a) => {
                    let _ = d;
                    let inst = Instance::resolve(d, &a).ok();
                    let i = inst.map(|i| self.inst(i).to_string()).unwrap_or("null".into());
                    format!("\"k\":\"fndef\",\"inst\":{}", i)
                }
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(d, a) => {
                    // upvar tuple is the last generic argument
                    let up = a.0.last().and_then(|g| g.ty().copied());
                    let ups: Vec<String> = match up.map(|u| u.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => {
                            ts.iter().map(|t| self.ty(*t).to_string()).collect()
                        }
                        _ => vec![],
                    };
                    let mut insts = vec![];
                    for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                        let i = Instance::resolve_closure(d, &a, k)
                            .ok()
                            .map(|i| self.inst(i).to_string())
                            .unwrap_or("null".into());
                        insts.push(i);
                    }
                    format!("\"k\":\"closure\",\"up\":{},\"insts\":{}", arr(ups), arr(insts))
                }
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                    format!("\"k\":\"tuple\",\"e\":{}", arr(v))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                RigidTy::Pat(b, _) => format!("\"k\":\"pat\",\"e\":{}", self.ty(b)),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"other\"".to_string(),
        };
        format!("{{\"name\":{},\"size\":{},{}}}", name, size, body)
    }
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(&n) = self.inst_ids.get(&i) {
            return n;
        }
        let n = self.insts.len();
        self.inst_ids.insert(i, n);
        self.insts.push(i);
        self.queue.push_back(n);
        n
    }

    // ---- constants
    fn uint(bytes: &[Option<u8>]) -> Option<u128> {
        let mut v = 0u128;
        for (i, b) in bytes.iter().enumerate() {
            v |= ((*b)? as u128) << (8 * i);
        }
        Some(v)
    }
    fn variant_of(&self, shape: &LayoutShape, bytes: &[Option<u8>], prov: &[(usize, AllocId)]) -> Option<usize> {
        match &shape.variants {
            VariantsShape::Empty => None,
            VariantsShape::Single { index } => Some(index.to_index()),
            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                let off = match &shape.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets[*tag_field].bytes(),
                    _ => 0,
                };
                let prim = match tag {
                    Scalar::Initialized { value, .. } | Scalar::Union { value } => value,
                };
                let (sz, is_ptr) = match prim {
                    Primitive::Int { length, .. } => (length.bits() / 8, false),
                    Primitive::Pointer(_) => (8, true),
                    Primitive::Float { .. } => (8, false),
                };
                match tag_encoding {
                    TagEncoding::Direct => {
                        let t = Self::uint(&bytes[off..off + sz])?;
                        Some(t as usize | 1usize << 63)
                    }
                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                        if is_ptr && prov.iter().any(|(o, _)| *o == off) {
                            return Some(untagged_variant.to_index());
                        }
                        let t = Self::uint(&bytes[off..off + sz])?;
                        let mask = if sz == 16 { u128::MAX } else { (1u128 << (8 * sz)) - 1 };
                        let rel = t.wrapping_sub(*niche_start) & mask;
                        let lo = niche_variants.start().to_index() as u128;
                        let hi = niche_variants.end().to_index() as u128;
                        let _ = variants;
                        if rel <= hi - lo {
                            Some((lo + rel) as usize)
                        } else {
                            Some(untagged_variant.to_index())
                        }
                    }
                }
            }
        }
    }
    fn val(&mut self, t: Ty, bytes: &[Option<u8>], prov: &[(usize, AllocId)], depth: usize) -> String {
        if depth > 40 {
            return "{\"x\":\"deep\"}".into();
        }
        let sub = |prov: &[(usize, AllocId)], off: usize, len: usize| -> Vec<(usize, AllocId)> {
            prov.iter().filter(|(o, _)| *o >= off && *o < off + len.max(1)).map(|(o, a)| (o - off, *a)).collect()
        };
        let kind = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return "{\"x\":\"alias\"}".into(),
        };
        match kind {
            RigidTy::Bool | RigidTy::Char | RigidTy::Uint(_) => match Self::uint(bytes) {
                Some(v) => v.to_string(),
                None => "{\"x\":\"uninit\"}".into(),
            },
            RigidTy::Int(_) => match Self::uint(bytes) {
                Some(v) => {
                    let bits = bytes.len() * 8;
                    if bits < 128 && v >> (bits - 1) == 1 {
                        (v as i128 - (1i128 << bits)).to_string()
                    } else {
                        (v as i128).to_string()
                    }
                }
                None => "{\"x\":\"uninit\"}".into(),
            },
            RigidTy::Float(_) => "{\"x\":\"float\"}".into(),
            RigidTy::Pat(b, _) => self.val(b, bytes, prov, depth + 1),
            RigidTy::Tuple(_) | RigidTy::Closure(..) => {
                let tys: Vec<Ty> = match &kind {
                    RigidTy::Tuple(ts) => ts.clone(),
                    RigidTy::Closure(_, a) => match a.0.last().and_then(|g| g.ty().copied()).map(|u| u.kind()) {
                        Some(TyKind::RigidTy(RigidTy::Tuple(ts))) => ts,
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let shape = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return "{\"x\":\"layout\"}".into(),
                };
                let offs: Vec<usize> = match &shape.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(),
                    _ => vec![0; tys.len()],
                };
                let mut fs = vec![];
                for (ft, off) in tys.iter().zip(offs) {
                    let sz = ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    fs.push(self.val(*ft, &bytes[off..off + sz], &sub(prov, off, sz), depth + 1));
                }
                format!("{{\"v\":0,\"f\":{}}}", arr(fs))
            }
            RigidTy::Adt(def, args) => {
                if def.kind() == AdtKind::Union {
                    return "{\"x\":\"union\"}".into();
                }
                let shape = match t.layout() {
                    Ok(l) => l.shape(),
                    Err(_) => return "{\"x\":\"layout\"}".into(),
                };
                let vs = def.variants();
                let vi = match self.variant_of(&shape, bytes, prov) {
                    Some(v) if v >> 63 == 1 => {
                        let tag = (v & !(1usize << 63)) as u128;
                        let m = match vs.iter().position(|x| {
                            let d = def.discriminant_for_variant(x.idx()).val;
                            let sz = 8usize;
                            let _ = sz;
                            d == tag || (d as u64 & 0xff) as u128 == tag && tag < 256
                        }) {
                            Some(i) => i,
                            None => return "{\"x\":\"tag\"}".into(),
                        };
                        m
                    }
                    Some(v) => v,
                    None => return "{\"x\":\"tag\"}".into(),
                };
                let offs: Vec<usize> = match &shape.variants {
                    VariantsShape::Multiple { variants, .. } => {
                        variants[vi].offsets.iter().map(|o| o.bytes()).collect()
                    }
                    _ => match &shape.fields {
                        FieldsShape::Arbitrary { offsets, .. } => offsets.iter().map(|o| o.bytes()).collect(),
                        _ => vec![0; 64],
                    },
                };
                let ftys: Vec<Ty> = vs[vi].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                let mut fs = vec![];
                for (ft, off) in ftys.iter().zip(offs) {
                    let sz = ft.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    fs.push(self.val(*ft, &bytes[off..off + sz], &sub(prov, off, sz), depth + 1));
                }
                format!("{{\"v\":{},\"f\":{}}}", vi, arr(fs))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap_or(0) as usize;
                let sz = e.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                let mut fs = Vec::with_capacity(n);
                for i in 0..n {
                    let pr = if prov.is_empty() { vec![] } else { sub(prov, i * sz, sz) };
                    fs.push(self.val(e, &bytes[i * sz..i * sz + sz], &pr, depth + 1));
                }
                format!("{{\"a\":{}}}", arr(fs))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let Some((_, aid)) = prov.iter().find(|(o, _)| *o == 0).copied() else {
                    return match Self::uint(&bytes[..8.min(bytes.len())]) {
                        Some(v) => format!("{{\"addr\":{},\"t\":{}}}", v, self.ty(e)),
                        None => "{\"x\":\"uninit ptr\"}".into(),
                    };
                };
                let off = Self::uint(&bytes[..8]).unwrap_or(0) as usize;
                let meta = if bytes.len() >= 16 { Self::uint(&bytes[8..16]).map(|x| x as u64) } else { None };
                self.pointee(aid, off, e, meta)
            }
            RigidTy::FnPtr(_) => {
                if let Some((_, aid)) = prov.iter().find(|(o, _)| *o == 0) {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(*aid) {
                        return format!("{{\"fn\":{}}}", self.inst(i));
                    }
                }
                "{\"x\":\"fnptr\"}".into()
            }
            RigidTy::FnDef(..) => format!("{{\"zst\":{}}}", self.ty(t)),
            RigidTy::Never => "{\"x\":\"never\"}".into(),
            _ => "{\"x\":\"kind\"}".into(),
        }
    }
    fn pointee(&mut self, aid: AllocId, off: usize, e: Ty, meta: Option<u64>) -> String {
        let key = (aid, off, e, meta.unwrap_or(u64::MAX));
        let id = if let Some(&i) = self.alloc_ids.get(&key) {
            i
        } else {
            let i = self.alloc_json.len();
            self.alloc_ids.insert(key, i);
            self.alloc_json.push(String::new());
            let ga = GlobalAlloc::from(aid);
            let (alloc, stat) = match ga {
                GlobalAlloc::Memory(a) => (Some(a), "null".to_string()),
                GlobalAlloc::Static(s) => {
                    let n = s.name().to_string();
                    self.note_static(s);
                    (s.eval_initializer().ok(), js(&n))
                }
                _ => (None, "null".to_string()),
            };
            let j = match alloc {
                None => "{\"x\":\"nonmem\"}".to_string(),
                Some(a) => {
                    let prov: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
                    let (elem, n) = match e.kind() {
                        TyKind::RigidTy(RigidTy::Slice(el)) => (el, meta.unwrap_or(0)),
                        TyKind::RigidTy(RigidTy::Str) => (Ty::unsigned_ty(UintTy::U8), meta.unwrap_or(0)),
                        TyKind::RigidTy(RigidTy::Dynamic(..)) => {
                            let i2 = format!("{{\"x\":\"dyn\"}}");
                            self.alloc_json[i] = i2;
                            return format!("{{\"p\":{},\"m\":null}}", i);
                        }
                        _ => (e, u64::MAX),
                    };
                    let sz = elem.layout().map(|l| l.shape().size.bytes()).unwrap_or(0);
                    let cnt = if n == u64::MAX { 1 } else { n as usize };
                    if off + cnt * sz > a.bytes.len() {
                        "{\"x\":\"oob\"}".to_string()
                    } else {
                        let mut vs = Vec::with_capacity(cnt);
                        for k in 0..cnt {
                            let o = off + k * sz;
                            let pr: Vec<(usize, AllocId)> = if prov.is_empty() {
                                vec![]
                            } else {
                                let lo = prov.partition_point(|(po, _)| *po < o);
                                prov[lo..].iter().take_while(|(po, _)| *po < o + sz).map(|(po, x)| (po - o, *x)).collect()
                            };
                            vs.push(self.val(elem, &a.bytes[o..o + sz], &pr, 0));
                        }
                        let ety = self.ty(elem);
                        format!(
                            "{{\"static\":{},\"t\":{},\"slice\":{},\"vals\":{}}}",
                            stat,
                            ety,
                            n != u64::MAX,
                            arr(vs)
                        )
                    }
                }
            };
            self.alloc_json[i] = j;
            i
        };
        match meta {
            Some(m) => format!("{{\"p\":{},\"m\":{}}}", id, m),
            None => format!("{{\"p\":{},\"m\":null}}", id),
        }
    }
    fn note_static(&mut self, s: mono::StaticDef) {
        let n = s.name().to_string();
        if !self.statics.contains_key(&n) {
            let t = self.ty(s.ty());
            let j = format!(
                "{{\"name\":{},\"crate\":{},\"mut\":{},\"t\":{}}}",
                js(&n),
                js(&s.krate().name.to_string()),
                static_mut(s),
                t
            );
            self.statics.insert(n, j);
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        match c.kind() {
            ConstantKind::ZeroSized => format!("{{\"c\":{{\"zst\":{}}},\"t\":{}}}", tid, tid),
            ConstantKind::Allocated(a) => {
                let prov: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
                let v = self.val(t, &a.bytes, &prov, 0);
                format!("{{\"c\":{},\"t\":{}}}", v, tid)
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(ty, a) => {
                    let prov: Vec<(usize, AllocId)> = a.provenance.ptrs.iter().map(|(o, p)| (*o, p.0)).collect();
                    let v = self.val(*ty, &a.bytes, &prov, 0);
                    format!("{{\"c\":{},\"t\":{}}}", v, tid)
                }
                TyConstKind::ZSTValue(_) => format!("{{\"c\":{{\"zst\":{}}},\"t\":{}}}", tid, tid),
                _ => match tc.eval_target_usize() {
                    Ok(n) => format!("{{\"c\":{},\"t\":{}}}", n, tid),
                    Err(_) => format!("{{\"c\":{{\"x\":\"tyconst\"}},\"t\":{}}}", tid),
                },
            },
            k => format!("{{\"c\":{{\"x\":{}}},\"t\":{}}}", js(&format!("{:?}", k)), tid),
        }
    }
    // ---- MIR
    fn place(&mut self, p: &Place) -> String {
        let mut o = vec![p.local.to_string()];
        for e in &p.projection {
            o.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{},{},{}]", offset, min_length, from_end)
                }
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "\"oc\"".to_string(),
            });
        }
        arr(o)
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"cp\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"mv\":{}}}", self.place(p)),
            Operand::Constant(c) => self.konst(&c.const_),
            Operand::RuntimeChecks(r) => format!("{{\"rc\":{}}}", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Ref(_, _, p) => format!("[\"ref\",{}]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let os = arr(os);
                match k {
                    AggregateKind::Array(_) => format!("[\"array\",{}]", os),
                    AggregateKind::Tuple => format!("[\"agg\",0,{}]", os),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        if let Some(f) = f {
                            format!("[\"union\",{},{}]", f, os)
                        } else {
                            let t = d.ty_with_args(a);
                            format!("[\"agg\",{},{},{}]", v.to_index(), os, self.ty(t))
                        }
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(*d, a.clone());
                        format!("[\"agg\",0,{},{}]", os, self.ty(t))
                    }
                    AggregateKind::RawPtr(..) => format!("[\"rawptr\",{}]", os),
                    _ => "[\"unk\",\"aggregate\"]".into(),
                }
            }
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",{},{},{}]", js(&format!("{:?}", b)), self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",{},{},{}]", js(&format!("{:?}", b)), self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",{},{}]", js(&format!("{:?}", u)), self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c) => {
                        // reified functions
                        if let PointerCoercion::ReifyFnPointer(_) | PointerCoercion::ClosureFnPointer(_) = c {
                            if let Operand::Constant(c) = o {
                                if let TyKind::RigidTy(RigidTy::FnDef(d, a)) = c.const_.ty().kind() {
                                    if let Ok(i) = Instance::resolve_for_fn_ptr(d, &a) {
                                        let n = self.inst(i);
                                        return format!("[\"fnptr\",{}]", n);
                                    }
                                }
                            }
                        }
                        format!("{:?}", c)
                    }
                    k => format!("{:?}", k),
                };
                format!("[\"cast\",{},{},{}]", js(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"cp\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())
            ),
            Rvalue::ThreadLocalRef(i) => format!("[\"tls\",{}]", js(&i.name().to_string())),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
        }
    }
    fn body(&mut self, b: &Body) -> String {
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{}]", self.place(p), self.rvalue(r)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index()));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        st.push(format!(
                            "[\"copy\",{},{},{}]",
                            self.operand(&c.src),
                            self.operand(&c.dst),
                            self.operand(&c.count)
                        ));
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{}]", l)),
                    _ => {}
                }
            }
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br: Vec<String> = targets.branches().map(|(v, t)| format!("[{},{}]", v, t)).collect();
                    format!("[\"switch\",{},{},{}]", self.operand(discr), arr(br), targets.otherwise())
                }
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Return => "[\"return\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let t = place.ty(b.locals()).unwrap();
                    let i = Instance::resolve_drop_in_place(t);
                    let iid = if i.is_empty_shim() { "null".to_string() } else { self.inst(i).to_string() };
                    format!("[\"drop\",{},{},{}]", self.place(place), target, iid)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = match func {
                        Operand::Constant(c) => match c.const_.ty().kind() {
                            TyKind::RigidTy(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                                Ok(i) => self.inst(i).to_string(),
                                Err(_) => "null".into(),
                            },
                            _ => self.operand(func),
                        },
                        _ => self.operand(func),
                    };
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{},{},{},{}]",
                        f,
                        arr(a),
                        self.place(destination),
                        target.map(|t| t.to_string()).unwrap_or("null".into())
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { len, index } => {
                            format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index))
                        }
                        AssertMessage::Overflow(op, _, _) => format!("[\"overflow\",{}]", js(&format!("{:?}", op))),
                        m => format!("[\"other\",{}]", js(m.description().unwrap_or("assert"))),
                    };
                    format!("[\"assert\",{},{},{},{}]", self.operand(cond), expected, m, target)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            let sp = &bb.terminator.source_info.span;
            let line = sp.get_lines().start_line;
            blocks.push(format!("[{},{},{}]", arr(st), t, line));
        }
        let names: Vec<String> = b
            .var_debug_info
            .iter()
            .filter_map(|v| match &v.value {
                VarDebugInfoContents::Place(p) if p.projection.is_empty() => {
                    Some(format!("[{},{}]", p.local, js(&v.name.to_string())))
                }
                _ => None,
            })
            .collect();
        format!(
            "{{\"locals\":{},\"argc\":{},\"spread\":{},\"blocks\":{},\"names\":{}}}",
            arr(locals),
            b.arg_locals().len(),
            b.spread_arg().map(|l| l.to_string()).unwrap_or("null".into()),
            arr(blocks),
            arr(names)
        )
    }
    fn process(&mut self, n: usize) {
        let i = self.insts[n];
        let name = i.name().to_string();
        let dname = i.def.name().to_string();
        let krate = i.def.krate().name.to_string();
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let intr = i.intrinsic_name().map(|s| js(&s.to_string())).unwrap_or("null".into());
        let local = krate == "harness" || krate == "unicode_normalization";
        let stopped = !local && self.stop.iter().any(|p| dname.starts_with(p.as_str()) || name.starts_with(p.as_str()));
        let (file, line) = {
            let sp = i.def.span();
            (sp.get_filename().to_string(), sp.get_lines().start_line)
        };
        let targs = {
            let a = i.args();
            self.args_tys(&a)
        };
        let unit = i.is_foreign_item();
        let body = if stopped || kind == "virtual" || kind == "llvm" || unit || !i.has_body() {
            "null".to_string()
        } else if kind == "intrinsic" {
            "null".to_string()
        } else {
            match i.body() {
                Some(b) => self.body(&b),
                None => "null".to_string(),
            }
        };
        let uns = match i.ty().kind().fn_sig() {
            Some(s) => s.value.safety == Safety::Unsafe,
            None => false,
        };
        // argument and result types
        let sig = match i.fn_abi() {
            Ok(f) => {
                let ins: Vec<String> = f.args.iter().map(|x| self.ty(x.ty).to_string()).collect();
                let out = self.ty(f.ret.ty);
                format!("{{\"in\":{},\"out\":{}}}", arr(ins), out)
            }
            Err(_) => "null".into(),
        };
        let j = format!(
            "{{\"id\":{},\"name\":{},\"def\":{},\"crate\":{},\"kind\":{},\"intr\":{},\"targs\":{},\"file\":{},\"line\":{},\"stopped\":{},\"foreign\":{},\"unsafe\":{},\"sig\":{},\"body\":{}}}",
            n, js(&name), js(&dname), js(&krate), js(kind), intr, targs, js(&file), line, stopped, unit, uns, sig, body
        );
        self.inst_json.insert(n, j);
    }
}

/// true if the memory of the static may change (static mut, or a type with interior mutability)
fn static_mut(s: mono::StaticDef) -> bool {
    match s.eval_initializer() {
        Ok(a) => a.mutability == Mutability::Mut,
        Err(_) => true,
    }
}

fn dump(out: &str, stop: Vec<String>) {
    let mut cx = Cx {
        ty_ids: HashMap::new(),
        tys: vec![],
        ty_json: vec![],
        inst_ids: HashMap::new(),
        insts: vec![],
        inst_json: BTreeMap::new(),
        queue: VecDeque::new(),
        alloc_ids: HashMap::new(),
        alloc_json: vec![],
        statics: BTreeMap::new(),
        stop,
    };
    let mut roots = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let n = it.name().to_string();
        let last = n.rsplit("::").next().unwrap_or("").to_string();
        if !(last.starts_with("root_") || last.starts_with("anchor_") || last.starts_with("src_") || last == "emit") {
            continue;
        }
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let id = cx.inst(i);
            roots.push(format!("[{},{}]", js(&n), id));
        }
    }
    while let Some(n) = cx.queue.pop_front() {
        cx.process(n);
    }
    let mut crates: Vec<String> = rustc_public::external_crates().iter().map(|c| js(&c.name.to_string())).collect();
    crates.sort();
    // trait impls and statics of the crate under analysis
    let mut impls = vec![];
    let mut all_statics = vec![];
    let mut fns = vec![];
    for c in rustc_public::external_crates() {
        if c.name.to_string() != "unicode_normalization" {
            continue;
        }
        for ti in c.trait_impls() {
            let items: Vec<String> = ti
                .associated_items()
                .iter()
                .map(|a| js(&a.def_id.name().to_string()))
                .collect();
            let tr = ti.trait_impl();
            let tr = tr.value;
            impls.push(format!(
                "{{\"trait\":{},\"self\":{},\"items\":{}}}",
                js(&tr.def_id.name().to_string()),
                js(&format!("{}", tr.self_ty())),
                arr(items)
            ));
        }
        for s in c.statics() {
            let t = cx.ty(s.ty());
            all_statics.push(format!("{{\"name\":{},\"mut\":{},\"t\":{}}}", js(&s.name().to_string()), static_mut(s), t));
        }
        for f in c.fn_defs() {
            fns.push(js(&f.name().to_string()));
        }
    }
    // types may have queued instances (closures, fn defs)
    while let Some(n) = cx.queue.pop_front() {
        cx.process(n);
    }
    let mut s = String::new();
    s.push_str("{\"roots\":");
    s.push_str(&arr(roots));
    s.push_str(",\n\"crates\":");
    s.push_str(&arr(crates));
    s.push_str(",\n\"impls\":");
    s.push_str(&arr(impls));
    s.push_str(",\n\"all_statics\":");
    s.push_str(&arr(all_statics));
    s.push_str(",\n\"fns\":");
    s.push_str(&arr(fns));
    s.push_str(",\n\"statics\":");
    s.push_str(&arr(cx.statics.values().cloned()));
    s.push_str(",\n\"types\":[\n");
    s.push_str(&cx.ty_json.join(",\n"));
    s.push_str("],\n\"allocs\":[\n");
    s.push_str(&cx.alloc_json.join(",\n"));
    s.push_str("],\n\"insts\":[\n");
    let v: Vec<String> = cx.inst_json.values().cloned().collect();
    s.push_str(&v.join(",\n"));
    s.push_str("]}\n");
    std::fs::write(out, s).expect("write dump");
}

fn main() {
    // as RUSTC_WORKSPACE_WRAPPER: argv = [driver, rustc, args...]
    let args: Vec<String> = std::env::args().skip(1).collect();
    let out = std::env::var("MIRDUMP_OUT").ok();
    let krate = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone());
    if krate.as_deref() != Some("harness") || out.is_none() {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = out.unwrap();
    let stop: Vec<String> = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
        .unwrap_or_default();
    let res = rustc_public::run!(&args, || -> ControlFlow<(), ()> {
        dump(&out, stop.clone());
        ControlFlow::Continue(())
    });
    match res {
        Ok(_) => {}
        Err(e) => {
            eprintln!("mirdump: {:?}", e);
            std::process::exit(1);
        }
    }
}
