//! MIR extractor: a rustc driver that, while compiling the harness crate,
//! writes the monomorphic, drop-elaborated MIR of every function reachable
//! from the harness roots (with resolved callees, types and evaluated
//! constants) as one JSON document.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::CrateDefType;
use rustc_public_bridge::IndexedVal;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::ops::ControlFlow;

struct Out {
    fns: Vec<Instance>,
    fn_ids: HashMap<Instance, usize>,
    tys: Vec<Ty>,
    ty_ids: HashMap<Ty, usize>,
    max_std_depth: usize,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Out {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.ty_ids.get(&t) {
            return *i;
        }
        let i = self.tys.len();
        self.tys.push(t);
        self.ty_ids.insert(t, i);
        i
    }
    fn func(&mut self, f: Instance) -> usize {
        if let Some(i) = self.fn_ids.get(&f) {
            return *i;
        }
        let i = self.fns.len();
        self.fns.push(f);
        self.fn_ids.insert(f, i);
        i
    }

    fn ty_json(&mut self, t: Ty) -> String {
        let name = js(&format!("{}", t));
        let size: i64 = self.simple_size(t).map(|x| x as i64).unwrap_or(-1);
        let k = t.kind();
        let r = match k.rigid() {
            Some(r) => r.clone(),
            None => return format!("{{\"k\":\"other\",\"n\":{name}}}"),
        };
        let body = match r {
            RigidTy::Bool => "\"k\":\"bool\"".into(),
            RigidTy::Char => "\"k\":\"char\"".into(),
            RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":true", i.num_bytes() * 8),
            RigidTy::Uint(i) => format!("\"k\":\"int\",\"bits\":{},\"signed\":false", i.num_bytes() * 8),
            RigidTy::Float(_) => "\"k\":\"float\"".into(),
            RigidTy::Str => "\"k\":\"str\"".into(),
            RigidTy::Never => "\"k\":\"never\"".into(),
            RigidTy::Array(e, n) => {
                let e = self.ty(e);
                format!("\"k\":\"array\",\"elem\":{e},\"len\":{}", n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            RigidTy::Slice(e) => {
                let e = self.ty(e);
                format!("\"k\":\"slice\",\"elem\":{e}")
            }
            RigidTy::RawPtr(e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ptr\",\"to\":{e},\"mut\":{}", matches!(m, Mutability::Mut))
            }
            RigidTy::Ref(_, e, m) => {
                let e = self.ty(e);
                format!("\"k\":\"ref\",\"to\":{e},\"mut\":{}", matches!(m, Mutability::Mut))
            }
            RigidTy::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect();
                format!("\"k\":\"tuple\",\"elems\":[{}]", v.join(","))
            }
            RigidTy::FnDef(d, args) => {
                let nm = js(&d.name().to_string());
                let fid = Instance::resolve(d, &args)
                    .or_else(|_| Instance::resolve_for_fn_ptr(d, &args))
                    .ok()
                    .map(|i| self.func(i) as i64)
                    .unwrap_or(-1);
                let targs = self.args_json(&args);
                format!("\"k\":\"fndef\",\"path\":{nm},\"fn\":{fid},\"targs\":[{targs}]")
            }
            RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".into(),
            RigidTy::Closure(d, args) => {
                // The last generic arguments of a closure are: kind, signature, tupled upvars.
                let up: Vec<Ty> = match args.0.last() {
                    Some(GenericArgKind::Type(t)) => match t.kind().rigid() {
                        Some(RigidTy::Tuple(ts)) => ts.clone(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let kind = args.0.len().checked_sub(3).and_then(|i| args.0.get(i)).map(|k| format!("{:?}", k)).unwrap_or_default();
                let _ = kind;
                let ups: Vec<String> = up.iter().map(|t| self.ty(*t).to_string()).collect();
                let mut fid = -1i64;
                for ck in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
                    if let Ok(i) = Instance::resolve_closure(d, &args, ck) {
                        if i.kind == InstanceKind::Item {
                            fid = self.func(i) as i64;
                            break;
                        }
                    }
                }
                format!("\"k\":\"closure\",\"fn\":{fid},\"path\":{},\"upvars\":[{}]", js(&d.name().to_string()), ups.join(","))
            }
            RigidTy::Dynamic(p, _) => {
                let mut n = String::new();
                for b in p {
                    if let ExistentialPredicate::Trait(t) = b.skip_binder() {
                        n = t.def_id.name().to_string();
                    }
                }
                format!("\"k\":\"dyn\",\"trait\":{}", js(&n))
            }
            RigidTy::Adt(d, args) => {
                let kind = match d.kind() {
                    AdtKind::Enum => "enum",
                    AdtKind::Struct => "struct",
                    AdtKind::Union => "union",
                };
                let mut vs = vec![];
                for v in d.variants() {
                    let mut fs = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        let i = self.ty(ft);
                        fs.push(format!("[{},{}]", js(&f.name.to_string()), i));
                    }
                    let discr = if d.kind() == AdtKind::Enum {
                        d.discriminant_for_variant(v.idx()).val.to_string()
                    } else {
                        "0".into()
                    };
                    vs.push(format!("{{\"n\":{},\"d\":{},\"f\":[{}]}}", js(&v.name().to_string()), discr, fs.join(",")));
                }
                let targs = self.args_json(&args);
                format!("\"k\":\"{kind}\",\"path\":{},\"vars\":[{}],\"targs\":[{targs}],\"local\":{}", js(&d.name().to_string()), vs.join(","), js(&d.krate().name.to_string()))
            }
            _ => "\"k\":\"other\"".into(),
        };
        format!("{{{body},\"n\":{name},\"size\":{size}}}")
    }

    /// The size of types made of integers only.
    fn simple_size(&self, t: Ty) -> Option<usize> {
        match t.kind().rigid()? {
            RigidTy::Bool => Some(1),
            RigidTy::Char => Some(4),
            RigidTy::Int(i) => Some(i.num_bytes()),
            RigidTy::Uint(i) => Some(i.num_bytes()),
            RigidTy::Array(e, n) => Some(self.simple_size(*e)? * n.eval_target_usize().ok()? as usize),
            RigidTy::Adt(d, args) if d.kind() == AdtKind::Struct => {
                let v = d.variants();
                let fs = v[0].fields();
                if fs.len() == 1 { self.simple_size(fs[0].ty_with_args(args)) } else { None }
            }
            _ => None,
        }
    }

    fn args_json(&mut self, args: &GenericArgs) -> String {
        let mut v = vec![];
        for a in &args.0 {
            if let GenericArgKind::Type(t) = a {
                v.push(self.ty(*t).to_string());
            }
        }
        v.join(",")
    }

    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "[\"*\"]".to_string(),
                ProjectionElem::Field(i, t) => {
                    let t = self.ty(*t);
                    format!("[\"f\",{i},{t}]")
                }
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"c\",{offset},{min_length},{from_end}]"),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"s\",{from},{to},{from_end}]"),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"o\"]".to_string(),
                #[allow(unreachable_patterns)]
                _ => "[\"o\"]".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }

    fn const_json(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let ti = self.ty(t);
        let v = match c.kind() {
            ConstantKind::Allocated(a) => self.decode(a, 0, t, 0),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(t, a) => self.decode(a, 0, *t, 0),
                TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => "{\"k\":\"unk\"}".into(),
            },
            _ => "{\"k\":\"unk\"}".into(),
        };
        format!("[\"k\",{ti},{v}]")
    }

    fn zst(&mut self, t: Ty) -> String {
        let i = self.ty(t);
        format!("{{\"k\":\"zst\",\"t\":{i}}}")
    }

    /// Decodes the constant at `off` of `a` as a value of type `t`.
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> String {
        self.decode_opt(a, off, t, depth).unwrap_or_else(|| "{\"k\":\"unk\"}".into())
    }

    fn decode_opt(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 12 {
            return None;
        }
        let shape = t.layout().ok()?.shape();
        if !shape.is_sized() {
            return None;
        }
        let size = shape.size.bytes();
        if size == 0 {
            // Zero-sized aggregates still have to be decoded field-wise for enums with one
            // inhabited variant, but none of those occur here.
            return Some(self.zst(t));
        }
        let kind = t.kind();
        let r = kind.rigid()?.clone();
        let uint = |o: usize, n: usize| a.read_partial_uint(o..o + n).ok();
        match r {
            RigidTy::Bool => Some(format!("{{\"k\":\"bool\",\"v\":{}}}", uint(off, 1)? != 0)),
            RigidTy::Char => Some(format!("{{\"k\":\"int\",\"v\":\"{}\"}}", uint(off, 4)?)),
            RigidTy::Uint(u) => Some(format!("{{\"k\":\"int\",\"v\":\"{}\"}}", uint(off, u.num_bytes())?)),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = uint(off, n)?;
                let sh = 128 - 8 * n as u32;
                let v = ((v << sh) as i128) >> sh;
                Some(format!("{{\"k\":\"int\",\"v\":\"{}\"}}", v))
            }
            RigidTy::Tuple(ts) => {
                let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() {
                    v.push(self.decode(a, off + offsets[i].bytes(), *ft, depth + 1));
                }
                Some(format!("{{\"k\":\"agg\",\"v\":0,\"f\":[{}]}}", v.join(",")))
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                if n > 4096 {
                    return None;
                }
                if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) {
                    let mut s = vec![];
                    for i in 0..n {
                        s.push(uint(off + i, 1)?.to_string());
                    }
                    return Some(format!("{{\"k\":\"bytes\",\"b\":[{}]}}", s.join(",")));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.decode(a, off + i * es, e, depth + 1));
                }
                Some(format!("{{\"k\":\"arr\",\"f\":[{}]}}", v.join(",")))
            }
            RigidTy::Adt(d, args) => {
                let vars = d.variants();
                let (idx, offsets) = match &shape.variants {
                    VariantsShape::Single { index } => {
                        let offs = match &shape.fields {
                            FieldsShape::Arbitrary { offsets } => offsets.iter().map(|o| o.bytes()).collect(),
                            FieldsShape::Union(_) => return None,
                            _ => vec![],
                        };
                        (index.to_index(), offs)
                    }
                    VariantsShape::Multiple { tag, tag_encoding, tag_field: _, variants } => {
                        let FieldsShape::Arbitrary { offsets } = &shape.fields else { return None };
                        let to = offsets[0].bytes();
                        let prim = match tag {
                            Scalar::Initialized { value, .. } => value.clone(),
                            Scalar::Union { value } => value.clone(),
                        };
                        let tsz = prim.size(&rustc_public::target::MachineInfo::target()).bytes();
                        // A pointer tag (niche in a reference): provenance means non-null.
                        let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + to);
                        let raw = uint(off + to, tsz);
                        let idx = match tag_encoding {
                            TagEncoding::Direct => {
                                let raw = raw?;
                                let mut f = None;
                                let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                for v in &vars {
                                    if d.discriminant_for_variant(v.idx()).val & mask == raw {
                                        f = Some(v.idx().to_index());
                                    }
                                }
                                f?
                            }
                            TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                if is_ptr {
                                    untagged_variant.to_index()
                                } else {
                                    let raw = raw?;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (8 * tsz)) - 1 };
                                    let s = niche_variants.start().to_index() as u128;
                                    let e = niche_variants.end().to_index() as u128;
                                    let rel = raw.wrapping_sub(*niche_start) & mask;
                                    if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                }
                            }
                        };
                        let offs = variants[idx].offsets.iter().map(|o| o.bytes()).collect();
                        (idx, offs)
                    }
                    VariantsShape::Empty => return None,
                };
                let mut v = vec![];
                for (i, f) in vars.get(idx)?.fields().iter().enumerate() {
                    let ft = f.ty_with_args(&args);
                    v.push(self.decode(a, off + offsets.get(i).copied()?, ft, depth + 1));
                }
                Some(format!("{{\"k\":\"agg\",\"v\":{idx},\"f\":[{}]}}", v.join(",")))
            }
            RigidTy::Ref(_, to, _) | RigidTy::RawPtr(to, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0);
                let Some(prov) = prov else {
                    return Some("{\"k\":\"rawptr\"}".into());
                };
                let base = uint(off, 8)? as usize;
                let ga = GlobalAlloc::from(prov);
                let tk = to.kind();
                match (ga, tk.rigid()?) {
                    (GlobalAlloc::Memory(m), RigidTy::Str) => {
                        let len = uint(off + 8, 8)? as usize;
                        let b = m.raw_bytes().ok()?;
                        let s = String::from_utf8_lossy(b.get(base..base + len)?).to_string();
                        Some(format!("{{\"k\":\"str\",\"s\":{}}}", js(&s)))
                    }
                    (GlobalAlloc::Memory(m), RigidTy::Slice(e)) => {
                        let len = uint(off + 8, 8)? as usize;
                        let es = e.layout().ok()?.shape().size.bytes();
                        if matches!(e.kind().rigid(), Some(RigidTy::Uint(UintTy::U8))) && len <= 65536 {
                            let b = m.raw_bytes().ok()?;
                            let s: Vec<String> = b.get(base..base + len)?.iter().map(|x| x.to_string()).collect();
                            return Some(format!("{{\"k\":\"ref\",\"to\":{{\"k\":\"bytes\",\"b\":[{}]}}}}", s.join(",")));
                        }
                        if len > 4096 {
                            return None;
                        }
                        let mut v = vec![];
                        for i in 0..len {
                            v.push(self.decode(&m, base + i * es, *e, depth + 1));
                        }
                        Some(format!("{{\"k\":\"ref\",\"to\":{{\"k\":\"arr\",\"f\":[{}]}}}}", v.join(",")))
                    }
                    (GlobalAlloc::Memory(m), _) => {
                        let v = self.decode(&m, base, to, depth + 1);
                        Some(format!("{{\"k\":\"ref\",\"to\":{v}}}"))
                    }
                    (GlobalAlloc::Static(s), _) => {
                        let v = match s.eval_initializer() {
                            Ok(m) => self.decode(&m, base, to, depth + 1),
                            Err(_) => "{\"k\":\"unk\"}".into(),
                        };
                        Some(format!("{{\"k\":\"ref\",\"static\":{},\"to\":{v}}}", js(&s.name().to_string())))
                    }
                    _ => None,
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)?;
                if let GlobalAlloc::Function(i) = GlobalAlloc::from(prov) {
                    let id = self.func(i);
                    return Some(format!("{{\"k\":\"fn\",\"fn\":{id}}}"));
                }
                None
            }
            _ => None,
        }
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => self.const_json(&c.const_),
            #[allow(unreachable_patterns)]
            _ => "[\"rt\"]".into(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", matches!(k, BorrowKind::Mut { .. }), self.place(p)),
            Rvalue::AddressOf(k, p) => format!("[\"addr\",{},{}]", matches!(k, RawPtrKind::Mut), self.place(p)),
            Rvalue::BinaryOp(b, x, y) => {
                format!("[\"bin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::CheckedBinaryOp(b, x, y) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", b, self.operand(x), self.operand(y))
            }
            Rvalue::UnaryOp(u, x) => format!("[\"un\",\"{:?}\",{}]", u, self.operand(x)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t);
                format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), t)
            }
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Repeat(o, n) => {
                format!("[\"repeat\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x as i64).unwrap_or(-1))
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                let kj = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        let t = d.ty_with_args(args);
                        format!("[\"adt\",{},{},{}]", self.ty(t), v.to_index(), f.map(|x| x as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, args) => {
                        let t = Ty::new_closure(*d, args.clone());
                        format!("[\"closure\",{}]", self.ty(t))
                    }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"other\"]".into(),
                };
                format!("[\"agg\",{kj},[{}]]", os.join(","))
            }
            _ => "[\"other\"]".into(),
        }
    }

    fn line(&self, s: &Span) -> String {
        let l = s.get_lines();
        format!("{}:{}", s.get_filename(), l.start_line)
    }

    fn fn_json(&mut self, id: usize) -> String {
        let inst = self.fns[id];
        let name = inst.name().to_string();
        let krate = inst.def.krate().name.to_string();
        let path = inst.def.name().to_string();
        let kind = format!("{:?}", inst.kind);
        let intr = inst.intrinsic_name().map(|s| s.to_string());
        let tc = matches!(inst.kind, InstanceKind::Item | InstanceKind::Shim) && inst.requires_caller_location();
        let args = inst.args();
        let targs = self.args_json(&args);
        let mut o = format!(
            "{{\"id\":{id},\"name\":{},\"path\":{},\"crate\":{},\"kind\":{},\"intr\":{},\"tc\":{tc},\"targs\":[{targs}]",
            js(&name),
            js(&path),
            js(&krate),
            js(&kind),
            intr.map(|s| js(&s)).unwrap_or("null".into()),
        );
        // The signature, also where there is no body.
        if let Some(sig) = inst.ty().kind().fn_sig() {
            let sig = sig.skip_binder();
            let ins: Vec<String> = sig.inputs().iter().map(|t| self.ty(*t).to_string()).collect();
            let out = self.ty(sig.output());
            let _ = write!(o, ",\"sig\":[[{}],{}]", ins.join(","), out);
        }
        let is_virtual = matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic);
        let skip = is_virtual || self.prune(&krate, &name, &path);
        let body = if skip { None } else { inst.body() };
        if let Some(b) = body {
            let mut ls = vec![];
            for l in b.locals() {
                ls.push(self.ty(l.ty).to_string());
            }
            let mut names = vec![];
            for v in &b.var_debug_info {
                if let Some(l) = v.local() {
                    names.push(format!("[{l},{}]", js(&v.name.to_string())));
                }
            }
            let _ = write!(
                o,
                ",\"argc\":{},\"spread\":{},\"span\":{},\"locals\":[{}],\"names\":[{}],\"blocks\":[",
                b.arg_locals().len(),
                b.spread_arg().map(|x| x as i64).unwrap_or(-1),
                js(&self.line(&b.span)),
                ls.join(","),
                names.join(",")
            );
            for (bi, bb) in b.blocks.iter().enumerate() {
                if bi > 0 {
                    o.push(',');
                }
                o.push_str("{\"s\":[");
                let mut first = true;
                for s in &bb.statements {
                    let t = match &s.kind {
                        StatementKind::Assign(p, r) => format!("[\"=\",{},{},{}]", self.place(p), self.rvalue(r), js(&self.line(&s.source_info.span))),
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())
                        }
                        StatementKind::StorageDead(l) => format!("[\"dead\",{l}]"),
                        StatementKind::StorageLive(l) => format!("[\"live\",{l}]"),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(x)) => format!("[\"assume\",{}]", self.operand(x)),
                        StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                            format!("[\"copy\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))
                        }
                        _ => continue,
                    };
                    if !first {
                        o.push(',');
                    }
                    first = false;
                    o.push_str(&t);
                }
                o.push_str("],\"t\":");
                let uw = |u: &UnwindAction| match u {
                    UnwindAction::Cleanup(b) => *b as i64,
                    _ => -1,
                };
                let t = match &bb.terminator.kind {
                    TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                    TerminatorKind::SwitchInt { discr, targets } => {
                        let mut v = vec![];
                        for (val, t) in targets.branches() {
                            v.push(format!("[\"{val}\",{t}]"));
                        }
                        format!("[\"switch\",{},[{}],{}]", self.operand(discr), v.join(","), targets.otherwise())
                    }
                    TerminatorKind::Return => "[\"ret\"]".into(),
                    TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                    TerminatorKind::Resume => "[\"resume\"]".into(),
                    TerminatorKind::Abort => "[\"abort\"]".into(),
                    TerminatorKind::Drop { place, target, unwind } => {
                        let t = place.ty(b.locals()).ok().map(|t| self.ty(t) as i64).unwrap_or(-1);
                        // Drop glue: remember the user-written Drop impls reachable from it.
                        format!("[\"drop\",{},{target},{},{t}]", self.place(place), uw(unwind))
                    }
                    TerminatorKind::Call { func, args, destination, target, unwind } => {
                        let mut a = vec![];
                        for x in args {
                            a.push(self.operand(x));
                        }
                        let callee = match func {
                            Operand::Constant(c) => {
                                let ty = c.const_.ty();
                                let k = ty.kind();
                                match k.rigid() {
                                    Some(RigidTy::FnDef(d, ga)) => match Instance::resolve(*d, ga) {
                                        Ok(i) => format!("[\"fn\",{}]", self.func(i)),
                                        Err(_) => format!("[\"unres\",{}]", js(&d.name().to_string())),
                                    },
                                    _ => format!("[\"op\",{}]", self.operand(func)),
                                }
                            }
                            _ => format!("[\"op\",{}]", self.operand(func)),
                        };
                        format!(
                            "[\"call\",{callee},[{}],{},{},{}]",
                            a.join(","),
                            self.place(destination),
                            target.map(|t| t as i64).unwrap_or(-1),
                            uw(unwind)
                        )
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                        let m = match msg {
                            AssertMessage::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len), self.operand(index)),
                            AssertMessage::Overflow(op, x, y) => format!("[\"overflow\",\"{:?}\",{},{}]", op, self.operand(x), self.operand(y)),
                            AssertMessage::OverflowNeg(x) => format!("[\"overflowneg\",{}]", self.operand(x)),
                            AssertMessage::DivisionByZero(x) => format!("[\"div0\",{}]", self.operand(x)),
                            AssertMessage::RemainderByZero(x) => format!("[\"rem0\",{}]", self.operand(x)),
                            m => format!("[\"other\",{}]", js(&format!("{:?}", m).chars().take(60).collect::<String>())),
                        };
                        format!("[\"assert\",{},{expected},{m},{target},{}]", self.operand(cond), uw(unwind))
                    }
                    TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
                };
                let _ = write!(o, "{t},\"l\":{}}}", js(&self.line(&bb.terminator.source_info.span)));
            }
            o.push(']');
        }
        o.push('}');
        o
    }

    /// Functions whose bodies are never needed: formatting, allocation, panic
    /// machinery and OS interfaces are leaves for every analysis.
    fn prune(&self, krate: &str, name: &str, path: &str) -> bool {
        if krate != "core" && krate != "alloc" && krate != "std" {
            return false;
        }
        let _ = self.max_std_depth;
        let p = path;
        let n = name;
        n.starts_with("std::rt::")
            || p.starts_with("core::fmt::") && !p.starts_with("core::fmt::Debug")
            || p.starts_with("std::fmt::")
            || p.starts_with("core::panicking::")
            || p.starts_with("alloc::alloc::")
            || p.starts_with("std::alloc::")
            || p.starts_with("alloc::raw_vec::")
            || p.starts_with("std::io::")
            || p.starts_with("std::fs::")
            || p.starts_with("std::sys::")
            || p.starts_with("core::unicode::")
            || p.starts_with("core::str::")
            || p.starts_with("alloc::collections::btree::")
            || p.starts_with("std::collections::btree")
            || p.starts_with("alloc::slice::")
            || p.starts_with("core::slice::sort")
            || p.starts_with("core::ub_checks")
    }
}

fn go() -> ControlFlow<(), ()> {
    let path = std::env::var("EXTRACT_OUT").expect("EXTRACT_OUT");
    let krate = rustc_public::local_crate();
    let mut o = Out { fns: vec![], fn_ids: HashMap::new(), tys: vec![], ty_ids: HashMap::new(), max_std_depth: 0 };
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let t = f.ty();
        if let Some(RigidTy::FnDef(d, a)) = t.kind().rigid() {
            if a.0.iter().any(|g| matches!(g, GenericArgKind::Type(_))) {
                continue;
            }
            if let Ok(i) = Instance::resolve(*d, a) {
                let id = o.func(i);
                roots.push(format!("[{},{}]", js(&d.name().to_string()), id));
            }
        }
    }
    // All functions of the crate under analysis, generic or not, for inventory.
    let mut inv = vec![];
    for c in rustc_public::find_crates("ext4_view") {
        for f in c.fn_defs() {
            inv.push(js(&f.name().to_string()));
            let t = f.ty();
            if let Some(RigidTy::FnDef(d, a)) = t.kind().rigid() {
                if a.0.iter().any(|g| !matches!(g, GenericArgKind::Lifetime(_))) {
                    continue;
                }
                if let Ok(i) = Instance::resolve(*d, a) {
                    o.func(i);
                }
            }
        }
    }
    let mut statics = vec![];
    for c in rustc_public::find_crates("ext4_view") {
        for st in c.statics() {
            let t = st.ty();
            let id = o.ty(t);
            statics.push(format!("[{},{}]", js(&st.name().to_string()), id));
        }
    }
    let mut s = String::from("{\"fns\":[\n");
    let mut i = 0;
    let mut ti = 0;
    let mut tys: Vec<String> = vec![];
    loop {
        while i < o.fns.len() {
            let j = o.fn_json(i);
            if i > 0 {
                s.push_str(",\n");
            }
            s.push_str(&j);
            i += 1;
        }
        while ti < o.tys.len() {
            let t = o.tys[ti];
            let j = o.ty_json(t);
            tys.push(j);
            ti += 1;
        }
        if i == o.fns.len() {
            break;
        }
    }
    s.push_str("],\n\"tys\":[\n");
    s.push_str(&tys.join(",\n"));
    let _ = write!(s, "],\n\"roots\":[{}],\"inventory\":[{}],\"statics\":[{}]}}\n", roots.join(","), inv.join(","), statics.join(","));
    std::fs::write(&path, s).expect("write");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // Invoked as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc.
    let want = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "harness");
    if !want {
        let st = std::process::Command::new(&args[1]).args(&args[2..]).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(1));
    }
    args.remove(1);
    let r = rustc_public::run!(&args, go);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("extract: {:?}", e);
            std::process::exit(1);
        }
    }
}
