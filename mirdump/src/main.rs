//! Exports the monomorphic MIR reachable from the probe crate's `root_*` functions as JSON.
//! It is run in place of rustc for the probe crate; nothing of /repo's source text is read:
//! what is exported is the compiler's own MIR of the code being built.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public_bridge;
#[macro_use]
extern crate rustc_public;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape, Scalar, Primitive};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;
use rustc_public_bridge::IndexedVal;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => { let _ = write!(o, "\\u{:04x}", c as u32); }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cfg {
    skip_prefix: Vec<String>,
    skip_contains: Vec<String>,
    keep: Vec<String>,
    overrides: Vec<(String, String)>,
}

struct Cx {
    cfg: Cfg,
    types: Vec<String>,
    tyids: HashMap<Ty, usize>,
    queue: VecDeque<(String, Instance)>,
    seen: HashSet<String>,
    fns: Vec<String>,
    skipped: Vec<String>,
    models: HashMap<String, FnDef>,
    consts: Vec<String>,
    constids: HashMap<String, usize>,
}

fn uint_w(u: &UintTy) -> &'static str {
    match u { UintTy::Usize => "64", UintTy::U8 => "8", UintTy::U16 => "16", UintTy::U32 => "32", UintTy::U64 => "64", UintTy::U128 => "128" }
}
fn int_w(u: &IntTy) -> &'static str {
    match u { IntTy::Isize => "64", IntTy::I8 => "8", IntTy::I16 => "16", IntTy::I32 => "32", IntTy::I64 => "64", IntTy::I128 => "128" }
}

/// definition name without lifetimes
fn norm_name(s: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') { i += 1; }
            if i < b.len() && b[i] == ',' { i += 1; }
            while i < b.len() && b[i] == ' ' { i += 1; }
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    o.replace("::<>", "").replace("<>", "")
}

impl Cx {
    fn ty(&mut self, t: Ty) -> usize {
        if let Some(i) = self.tyids.get(&t) { return *i; }
        let id = self.types.len();
        self.tyids.insert(t, id);
        self.types.push(String::new());
        let s = self.ty_json(t);
        self.types[id] = s;
        id
    }
    fn args_json(&mut self, a: &GenericArgs) -> String {
        let mut v = vec![];
        for g in a.0.iter() {
            match g {
                GenericArgKind::Type(t) => v.push(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => v.push(match c.eval_target_usize() { Ok(n) => format!("{{\"c\":{}}}", n), Err(_) => js(&format!("{:?}", c)) }),
                GenericArgKind::Lifetime(_) => {}
            }
        }
        format!("[{}]", v.join(","))
    }
    fn ty_json(&mut self, t: Ty) -> String {
        let TyKind::RigidTy(r) = t.kind() else { return format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", t.kind()))) };
        match r {
            RigidTy::Bool => "{\"k\":\"bool\"}".into(),
            RigidTy::Char => "{\"k\":\"char\"}".into(),
            RigidTy::Str => "{\"k\":\"str\"}".into(),
            RigidTy::Never => "{\"k\":\"never\"}".into(),
            RigidTy::Int(i) => format!("{{\"k\":\"int\",\"w\":{}}}", int_w(&i)),
            RigidTy::Uint(i) => format!("{{\"k\":\"uint\",\"w\":{}}}", uint_w(&i)),
            RigidTy::Float(_) => "{\"k\":\"float\"}".into(),
            RigidTy::Slice(t) => format!("{{\"k\":\"slice\",\"t\":{}}}", self.ty(t)),
            RigidTy::Array(t, n) => format!("{{\"k\":\"array\",\"t\":{},\"n\":{}}}", self.ty(t), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            RigidTy::RawPtr(t, m) => format!("{{\"k\":\"ptr\",\"t\":{},\"m\":{}}}", self.ty(t), m == Mutability::Mut),
            RigidTy::Ref(_, t, m) => format!("{{\"k\":\"ref\",\"t\":{},\"m\":{}}}", self.ty(t), m == Mutability::Mut),
            RigidTy::Tuple(ts) => { let v: Vec<String> = ts.iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"k\":\"tuple\",\"ts\":[{}]}}", v.join(",")) }
            RigidTy::FnPtr(_) => "{\"k\":\"fnptr\"}".into(),
            RigidTy::Dynamic(ps, _) => format!("{{\"k\":\"dyn\",\"d\":{}}}", js(&format!("{:?}", ps.iter().map(|p| match &p.value { ExistentialPredicate::Trait(t) => t.def_id.name(), ExistentialPredicate::AutoTrait(t) => t.name(), _ => String::new() }).collect::<Vec<_>>().join("+")))),
            RigidTy::FnDef(def, args) => {
                let f = match Instance::resolve_for_fn_ptr(def, &args) { Ok(i) => js(&self.enqueue(i)), Err(_) => "null".into() };
                format!("{{\"k\":\"fndef\",\"name\":{},\"f\":{}}}", js(&def.name()), f)
            }
            RigidTy::Closure(def, args) => {
                // upvar types: last generic arg is the tuple of upvars
                let ups = match args.0.last() { Some(GenericArgKind::Type(t)) => self.ty(*t).to_string(), _ => "null".into() };
                format!("{{\"k\":\"closure\",\"name\":{},\"ups\":{}}}", js(&def.name()), ups)
            }
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() { AdtKind::Enum => "enum", AdtKind::Struct => "struct", AdtKind::Union => "union" };
                let mut vs = vec![];
                for v in def.variants() {
                    let mut fs = vec![];
                    for f in v.fields() { let ft = f.ty_with_args(&args); fs.push(format!("[{},{}]", js(&f.name.to_string()), self.ty(ft))); }
                    let d = if def.kind() == AdtKind::Enum { def.discriminant_for_variant(v.idx()).val.to_string() } else { "0".into() };
                    vs.push(format!("{{\"n\":{},\"d\":\"{}\",\"f\":[{}]}}", js(&v.name()), d, fs.join(",")));
                }
                let a = self.args_json(&args);
                format!("{{\"k\":\"adt\",\"name\":{},\"ak\":\"{}\",\"args\":{},\"box\":{},\"vs\":[{}]}}", js(&def.name()), kind, a, def.is_box(), vs.join(","))
            }
            other => format!("{{\"k\":\"other\",\"d\":{}}}", js(&format!("{:?}", other))),
        }
    }

    fn enqueue(&mut self, inst: Instance) -> String {
        let defname = inst.def.name();
        // generic overrides: replace the instance by the model function with the same generic args
        let nn = norm_name(&defname);
        let ov = self.cfg.overrides.iter().find(|(a, _)| *a == nn).map(|x| x.1.clone());
        if let Some(m) = ov {
            if let Some(fd) = self.models.get(&m).copied() {
                let mut args = inst.args();
                args.0.retain(|a| !matches!(a, GenericArgKind::Lifetime(_)));
                match Instance::resolve(fd, &args) {
                    Ok(i) => return self.enqueue_raw(i),
                    Err(e) => eprintln!("mirdump: override {} failed: {:?}", defname, e),
                }
            } else { eprintln!("mirdump: no model fn {}", m); }
        }
        self.enqueue_raw(inst)
    }
    fn enqueue_raw(&mut self, inst: Instance) -> String {
        let key = match inst.kind { InstanceKind::Virtual { .. } => format!("virtual:{}", inst.def.name()), _ => inst.mangled_name() };
        if self.seen.insert(key.clone()) { self.queue.push_back((key.clone(), inst)); }
        key
    }
    fn skip(&self, name: &str) -> bool {
        if self.cfg.keep.iter().any(|p| name.starts_with(p.as_str())) { return false; }
        self.cfg.skip_prefix.iter().any(|p| name.starts_with(p.as_str())) || self.cfg.skip_contains.iter().any(|p| name.contains(p.as_str()))
    }

    // ---- constants
    fn decode(&mut self, a: &Allocation, off: usize, t: Ty, depth: usize) -> Option<String> {
        if depth > 24 { return None; }
        let TyKind::RigidTy(r) = t.kind() else { return None };
        let rd = |n: usize| -> Option<u128> { a.read_partial_uint(off..off + n).ok() };
        match r {
            RigidTy::Bool => Some(format!("{{\"b\":{}}}", rd(1)? != 0)),
            RigidTy::Char => Some(format!("{{\"i\":\"{}\"}}", rd(4)?)),
            RigidTy::Uint(u) => { let w: usize = uint_w(&u).parse().unwrap();
                // pointer-carrying ints are not decodable
                Some(format!("{{\"i\":\"{}\"}}", rd(w / 8)?)) }
            RigidTy::Int(u) => { let w: u32 = int_w(&u).parse().unwrap(); let v = rd((w / 8) as usize)?; let s = if w == 128 { v as i128 } else { let sh = 128 - w; ((v << sh) as i128) >> sh }; Some(format!("{{\"i\":\"{}\"}}", s)) }
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let mut v = vec![];
                for (i, ft) in ts.iter().enumerate() { v.push(self.decode(a, off + field_off(&sh.fields, i)?, *ft, depth + 1)?); }
                Some(format!("{{\"tup\":[{}]}}", v.join(",")))
            }
            RigidTy::Array(et, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = et.layout().ok()?.shape().size.bytes();
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = et.kind() {
                    let mut h = String::new();
                    for i in 0..n { let _ = write!(h, "{:02x}", a.read_partial_uint(off + i..off + i + 1).ok()?); }
                    return Some(format!("{{\"bytes\":\"{}\"}}", h));
                }
                let mut v = vec![];
                for i in 0..n { v.push(self.decode(a, off + i * es, et, depth + 1)?); }
                Some(format!("{{\"arr\":[{}]}}", v.join(",")))
            }
            RigidTy::Adt(def, args) => {
                let sh = t.layout().ok()?.shape();
                match def.kind() {
                    AdtKind::Union => None,
                    AdtKind::Struct => {
                        let v0 = def.variants().into_iter().next()?;
                        let mut v = vec![];
                        for (i, f) in v0.fields().into_iter().enumerate() { v.push(self.decode(a, off + field_off(&sh.fields, i)?, f.ty_with_args(&args), depth + 1)?); }
                        Some(format!("{{\"adt\":{},\"v\":0,\"f\":[{}]}}", self.ty(t), v.join(",")))
                    }
                    AdtKind::Enum => {
                        let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                            VariantsShape::Empty => return None,
                            VariantsShape::Single { index } => { let n = def.variants()[index.to_index()].fields().len(); (index.to_index(), (0..n).map(|i| field_off(&sh.fields, i).unwrap_or(0)).collect()) }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let toff = off + field_off(&sh.fields, *tag_field)?;
                                let tsz = scalar_size(tag)?;
                                let hasptr = a.provenance.ptrs.iter().any(|(o, _)| *o == toff);
                                let tagv = a.read_partial_uint(toff..toff + tsz).ok();
                                let vi = match tag_encoding {
                                    TagEncoding::Direct => { let tv = tagv?; let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        def.variants().iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv)? }
                                    TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                        if hasptr { untagged_variant.to_index() } else {
                                            let tv = tagv?; let mask = if tsz == 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            let (s, e) = (niche_variants.start().to_index() as u128, niche_variants.end().to_index() as u128);
                                            if rel <= e - s { (s + rel) as usize } else { untagged_variant.to_index() }
                                        }
                                    }
                                };
                                (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                            }
                        };
                        let mut v = vec![];
                        for (i, f) in def.variants()[vi].fields().into_iter().enumerate() { v.push(self.decode(a, off + *offs.get(i)?, f.ty_with_args(&args), depth + 1)?); }
                        Some(format!("{{\"adt\":{},\"v\":{},\"f\":[{}]}}", self.ty(t), vi, v.join(",")))
                    }
                }
            }
            RigidTy::Ref(_, pt, _) | RigidTy::RawPtr(pt, _) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p);
                let Some(prov) = prov else { return Some(format!("{{\"addr\":\"{}\"}}", rd(8)?)) };
                let base = rd(8)? as usize;
                match GlobalAlloc::from(prov.0) {
                    GlobalAlloc::Memory(m) => self.decode_ptr(&m, base, pt, a, off, depth),
                    GlobalAlloc::Static(s) => { match s.eval_initializer() { Ok(m) => self.decode_ptr(&m, base, pt, a, off, depth), Err(_) => None } }
                    GlobalAlloc::Function(i) => Some(format!("{{\"fn\":{}}}", js(&self.enqueue(i)))),
                    _ => None,
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| *p)?;
                match GlobalAlloc::from(prov.0) { GlobalAlloc::Function(i) => Some(format!("{{\"fn\":{}}}", js(&self.enqueue(i)))), _ => None }
            }
            RigidTy::FnDef(..) | RigidTy::Closure(..) => Some(format!("{{\"zst\":{}}}", self.ty(t))),
            _ => None,
        }
    }
    fn decode_ptr(&mut self, m: &Allocation, base: usize, pt: Ty, outer: &Allocation, off: usize, depth: usize) -> Option<String> {
        let TyKind::RigidTy(r) = pt.kind() else { return None };
        match r {
            RigidTy::Str => {
                let len = outer.read_partial_uint(off + 8..off + 16).ok()? as usize;
                let mut h = String::new();
                for i in 0..len { let _ = write!(h, "{:02x}", m.read_partial_uint(base + i..base + i + 1).ok()?); }
                Some(format!("{{\"str\":\"{}\"}}", h))
            }
            RigidTy::Slice(et) => {
                let len = outer.read_partial_uint(off + 8..off + 16).ok()? as usize;
                if let TyKind::RigidTy(RigidTy::Uint(UintTy::U8)) = et.kind() {
                    let mut h = String::new();
                    for i in 0..len { let _ = write!(h, "{:02x}", m.read_partial_uint(base + i..base + i + 1).ok()?); }
                    return Some(format!("{{\"bslice\":\"{}\"}}", h));
                }
                let es = et.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..len { v.push(self.decode(m, base + i * es, et, depth + 1)?); }
                Some(format!("{{\"slice\":[{}]}}", v.join(",")))
            }
            RigidTy::Dynamic(..) => None,
            _ => { let v = self.decode(m, base, pt, depth + 1)?; Some(format!("{{\"ref\":{}}}", v)) }
        }
    }
    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let tid = self.ty(t);
        let v = match c.kind() {
            ConstantKind::ZeroSized => Some(format!("{{\"zst\":{}}}", tid)),
            ConstantKind::Allocated(a) => {
                if t.layout().map(|l| l.shape().size.bytes() == 0).unwrap_or(false) && !matches!(t.kind(), TyKind::RigidTy(RigidTy::Adt(..)) | TyKind::RigidTy(RigidTy::Tuple(..))| TyKind::RigidTy(RigidTy::Array(..))) { Some(format!("{{\"zst\":{}}}", tid)) } else { self.decode(a, 0, t, 0) }
            }
            ConstantKind::Ty(tc) => match tc.kind() {
                TyConstKind::Value(vt, a) => self.decode(a, 0, *vt, 0),
                TyConstKind::ZSTValue(vt) => Some(format!("{{\"zst\":{}}}", self.ty(*vt))),
                _ => None,
            },
            _ => None,
        };
        let v = v.unwrap_or_else(|| format!("{{\"opaque\":{}}}", js(&format!("{:?}", t).chars().take(300).collect::<String>())));
        let full = format!("[{},{}]", tid, v);
        let n = self.consts.len();
        let id = *self.constids.entry(full.clone()).or_insert(n);
        if id == n { self.consts.push(full); }
        id.to_string()
    }

    // ---- MIR
    fn place(&mut self, p: &Place) -> String {
        let mut v = vec![];
        for e in &p.projection {
            v.push(match e {
                ProjectionElem::Deref => "\"*\"".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{}]", l),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => format!("[\"ci\",{},{},{}]", offset, min_length, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"ss\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(v) => format!("[\"d\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "\"o\"".to_string(),
            });
        }
        format!("[{},[{}]]", p.local, v.join(","))
    }
    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("[\"c\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"m\",{}]", self.place(p)),
            Operand::Constant(c) => format!("[\"k\",{}]", self.konst(&c.const_)),
            Operand::RuntimeChecks(r) => format!("[\"rc\",{}]", js(&format!("{:?}", r))),
        }
    }
    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::Ref(_, k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(_, p) => format!("[\"ref\",{},true]", self.place(p)),
            Rvalue::Reborrow(_, _, p) => format!("[\"use\",[\"c\",{}]]", self.place(p)),
            Rvalue::BinaryOp(op, a, b) => format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::CheckedBinaryOp(op, a, b) => format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b)),
            Rvalue::UnaryOp(op, a) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(a)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Cast(k, o, t) => format!("[\"cast\",{},{},{}]", js(&format!("{:?}", k)), self.operand(o), self.ty(*t)),
            Rvalue::Repeat(o, n) => format!("[\"rep\",{},{}]", self.operand(o), n.eval_target_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".into(),
            Rvalue::Aggregate(k, os) => {
                let v: Vec<String> = os.iter().map(|o| self.operand(o)).collect();
                let ks = match k {
                    AggregateKind::Array(t) => format!("[\"array\",{}]", self.ty(*t)),
                    AggregateKind::Tuple => "[\"tuple\"]".into(),
                    AggregateKind::Adt(d, vi, args, _, uf) => { let t = d.ty_with_args(args); format!("[\"adt\",{},{},{}]", self.ty(t), vi.to_index(), uf.map(|x| x.to_string()).unwrap_or("null".into())) }
                    AggregateKind::Closure(d, args) => { let t = Ty::new_closure(*d, args.clone()); format!("[\"closure\",{}]", self.ty(t)) }
                    AggregateKind::RawPtr(t, _) => format!("[\"rawptr\",{}]", self.ty(*t)),
                    _ => "[\"coroutine\"]".into(),
                };
                format!("[\"agg\",{},[{}]]", ks, v.join(","))
            }
        }
    }
    fn dump_fn(&mut self, key: &str, inst: Instance) {
        let name = inst.name();
        let def = inst.def.name();
        let args = inst.args();
        let aj = self.args_json(&args);
        let kind = match inst.kind { InstanceKind::Item => "item", InstanceKind::Intrinsic => "intrinsic", InstanceKind::LlvmIntrinsic => "llvm", InstanceKind::Virtual { .. } => "virtual", InstanceKind::Shim => "shim" };
        let iname = inst.intrinsic_name().map(|s| js(&s)).unwrap_or("null".into());
        let isclosure = matches!(inst.ty().kind(), TyKind::RigidTy(RigidTy::Closure(..)));
        let head = format!("\"key\":{},\"name\":{},\"def\":{},\"args\":{},\"kind\":\"{}\",\"iname\":{},\"closure\":{}", js(key), js(&name), js(&def), aj, kind, iname, isclosure);
        let sk = self.skip(&def);
        if sk { self.skipped.push(name.clone()); }
        let body = if sk || kind == "virtual" || kind == "intrinsic" || kind == "llvm" { None } else { inst.body() };
        // signature types even without a body
        let sig = match inst.ty().kind() { TyKind::RigidTy(RigidTy::FnDef(d, a)) => {
                let _ = (d, a);
                inst.ty().kind().fn_sig().map(|s| { let s = s.skip_binder(); let ins: Vec<String> = s.inputs().iter().map(|t| self.ty(*t).to_string()).collect(); format!("{{\"in\":[{}],\"out\":{}}}", ins.join(","), self.ty(s.output())) }) }
            _ => None };
        let sig = sig.unwrap_or("null".into());
        let Some(body) = body else { self.fns.push(format!("{{{},\"sig\":{},\"skipped\":{},\"body\":null}}", head, sig, sk)); return; };
        let locals: Vec<String> = body.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let argc = body.arg_locals().len();
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut st = vec![];
            for s in &b.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => { let ps = self.place(p); let rs = self.rvalue(r); st.push(format!("[\"=\",{},{}]", ps, rs)); }
                    StatementKind::SetDiscriminant { place, variant_index } => { st.push(format!("[\"sd\",{},{}]", self.place(place), variant_index.to_index())); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::Assume(o)) => { st.push(format!("[\"assume\",{}]", self.operand(o))); }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => { st.push(format!("[\"copy\",{},{},{}]", self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))); }
                    _ => {}
                }
            }
            let line = b.terminator.source_info.span.get_lines().start_line;
            let t = match &b.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{}]", target),
                TerminatorKind::SwitchInt { discr, targets } => { let v: Vec<String> = targets.branches().map(|(v, b)| format!("[\"{}\",{}]", v, b)).collect(); let dt = discr.ty(body.locals()).ok(); let dt = dt.map(|t| self.ty(t).to_string()).unwrap_or("null".into()); format!("[\"switch\",{},[{}],{},{}]", self.operand(discr), v.join(","), targets.otherwise(), dt) }
                TerminatorKind::Return => "[\"ret\"]".into(),
                TerminatorKind::Resume => "[\"resume\"]".into(),
                TerminatorKind::Abort => "[\"abort\"]".into(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { target, .. } => format!("[\"goto\",{}]", target),
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg { AssertMessage::BoundsCheck { .. } => "bounds".to_string(), AssertMessage::Overflow(op, ..) => format!("overflow {:?}", op), AssertMessage::DivisionByZero(_) => "div by zero".into(), AssertMessage::RemainderByZero(_) => "rem by zero".into(), AssertMessage::OverflowNeg(_) => "overflow neg".into(), AssertMessage::NullPointerDereference | AssertMessage::MisalignedPointerDereference { .. } | AssertMessage::NullReferenceConstructed | AssertMessage::InvalidEnumConstruction(_) => "ub".into(), _ => "other".into() };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond), expected, js(&m), target, line)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let a: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    let fty = func.ty(body.locals()).unwrap();
                    let callee = match fty.kind() {
                        TyKind::RigidTy(RigidTy::FnDef(d, ga)) => {
                            let dn = d.name();
                            match Instance::resolve(d, &ga) {
                                Ok(i) => { let k = if i.is_empty_shim() { "noop".to_string() } else { self.enqueue(i) }; format!("[\"d\",{},{}]", js(&k), js(&dn)) }
                                Err(_) => format!("[\"u\",{}]", js(&dn)),
                            }
                        }
                        _ => format!("[\"p\",{}]", self.operand(func)),
                    };
                    format!("[\"call\",{},[{}],{},{},{}]", callee, a.join(","), self.place(destination), target.map(|t| t.to_string()).unwrap_or("null".into()), line)
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".into(),
            };
            blocks.push(format!("[[{}],{}]", st.join(","), t));
        }
        let file = inst.def.span().get_filename();
        self.fns.push(format!("{{{},\"sig\":{},\"skipped\":false,\"file\":{},\"line\":{},\"body\":{{\"locals\":[{}],\"argc\":{},\"spread\":{},\"blocks\":[{}]}}}}", head, sig, js(&file), inst.def.span().get_lines().start_line, locals.join(","), argc, body.spread_arg().map(|x| x.to_string()).unwrap_or("null".into()), blocks.join(",")));
    }
}

fn field_off(f: &FieldsShape, i: usize) -> Option<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|o| o.bytes()),
        FieldsShape::Array { stride, .. } => Some(stride.bytes() * i),
        FieldsShape::Union(_) => Some(0),
        FieldsShape::Primitive => None,
    }
}
fn scalar_size(s: &Scalar) -> Option<usize> {
    let p = match s { Scalar::Initialized { value, .. } | Scalar::Union { value } => value };
    Some(match p { Primitive::Int { length, .. } => length.bits() / 8, Primitive::Pointer(_) => 8, Primitive::Float { length } => length.bits() / 8 })
}

fn run_dump() -> ControlFlow<(), ()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let cfgtext = std::fs::read_to_string(std::env::var("MIRDUMP_CFG").expect("MIRDUMP_CFG")).unwrap();
    let mut cfg = Cfg { skip_prefix: vec![], skip_contains: vec![], keep: vec![], overrides: vec![] };
    for l in cfgtext.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue; }
        let (k, r) = l.split_once('\t').expect("cfg line");
        match k {
            "prefix" => cfg.skip_prefix.push(r.into()),
            "contains" => cfg.skip_contains.push(r.into()),
            "keep" => cfg.keep.push(r.into()),
            "override" => { let (a, b) = r.split_once('\t').unwrap(); cfg.overrides.push((a.into(), b.into())) }
            _ => panic!("cfg {}", l),
        }
    }
    let mut cx = Cx { cfg, types: vec![], tyids: HashMap::new(), queue: VecDeque::new(), seen: HashSet::new(), fns: vec![], skipped: vec![], models: HashMap::new(), consts: vec![], constids: HashMap::new() };
    let krate = rustc_public::local_crate();
    let mut roots = vec![];
    for f in krate.fn_defs() {
        let n = f.name();
        let last = n.rsplit("::").next().unwrap().to_string();
        if last.starts_with("model_") { cx.models.insert(last.clone(), f); }
        if last.starts_with("root_") { roots.push((last, f)); }
    }
    let mut rj = vec![];
    for (n, f) in roots {
        let i = Instance::resolve(f, &GenericArgs(vec![])).unwrap();
        let k = cx.enqueue(i);
        rj.push(format!("{}:{}", js(&n), js(&k)));
    }
    while let Some((k, i)) = cx.queue.pop_front() { cx.dump_fn(&k, i); }
    let s = format!("{{\"types\":[\n{}\n],\n\"consts\":[\n{}\n],\n\"fns\":[\n{}\n],\n\"roots\":{{{}}}}}\n", cx.types.join(",\n"), cx.consts.join(",\n"), cx.fns.join(",\n"), rj.join(","));
    std::fs::write(&out, s).unwrap();
    eprintln!("mirdump: {} fns, {} types, {} skipped", cx.fns.len(), cx.types.len(), cx.skipped.len());
    ControlFlow::Continue(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let r = run!(&args, run_dump);
    if r.is_err() { std::process::exit(1); }
}
