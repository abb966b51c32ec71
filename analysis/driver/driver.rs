//! mirdump: a rustc driver that behaves like rustc, except that for the crate(s) named in
//! MIRDUMP_CRATES it also writes, as JSON, the monomorphised and resolved MIR of every function
//! instance reachable from that crate's functions (MIRDUMP_OUT/<crate>.json).
//!
//! Instances whose definition path matches a prefix listed in MIRDUMP_STOP (a file, one per line)
//! are recorded by name but their bodies are not followed: the analyser models them.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem, ItemKind};
use rustc_public_bridge::IndexedVal;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::fmt::Write as _;
use std::ops::ControlFlow;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a RUSTC_WRAPPER the first argument is the path of the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(0);
    }
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    if name.is_empty() || !want.split(',').any(|w| w == name) {
        let err = std::os::unix::process::CommandExt::exec(
            std::process::Command::new(&args[0]).args(&args[1..]),
        );
        eprintln!("mirdump: cannot exec {}: {err}", args[0]);
        std::process::exit(101);
    }
    let cname = name.clone();
    let r: Result<(), rustc_public::CompilerError<()>> =
        rustc_public::run_with_tcx!(&args, |tcx| dump(tcx, &cname));
    if let Err(e) = r {
        eprintln!("mirdump: {e:?}");
        std::process::exit(1);
    }
}

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list<I: IntoIterator<Item = String>>(it: I) -> String {
    let v: Vec<String> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}

fn uninhabited(t: Ty) -> bool {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Never) => true,
        TyKind::RigidTy(RigidTy::Adt(def, _)) => def.kind() == AdtKind::Enum && def.num_variants() == 0,
        _ => false,
    }
}

struct Cx {
    tys: Vec<String>,
    ty_ids: HashMap<Ty, usize>,
    adts: BTreeMap<String, String>,
    insts: Vec<(Instance, String)>, // name key
    inst_ids: HashMap<Instance, usize>,
    queue: VecDeque<usize>,
    stop: Vec<String>,
}

impl Cx {
    fn inst(&mut self, i: Instance) -> usize {
        if let Some(n) = self.inst_ids.get(&i) {
            return *n;
        }
        let n = self.insts.len();
        self.inst_ids.insert(i, n);
        self.insts.push((i, i.name()));
        self.queue.push_back(n);
        n
    }

    fn gargs(&mut self, a: &GenericArgs) -> String {
        let v: Vec<String> = a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(self.ty(*t).to_string()),
                GenericArgKind::Const(c) => {
                    Some(match c.eval_target_usize() {
                        Ok(n) => format!("{{\"const\":{n}}}"),
                        Err(_) => esc(&format!("{:?}", c)),
                    })
                }
                GenericArgKind::Lifetime(_) => None,
            })
            .collect();
        format!("[{}]", v.join(","))
    }

    fn ty(&mut self, t: Ty) -> usize {
        if let Some(n) = self.ty_ids.get(&t) {
            return *n;
        }
        let n = self.tys.len();
        self.ty_ids.insert(t, n);
        self.tys.push(String::new());
        let name = esc(&format!("{t}"));
        let body = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => "\"k\":\"bool\"".to_string(),
                RigidTy::Char => "\"k\":\"char\"".to_string(),
                RigidTy::Int(i) => format!("\"k\":\"int\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Uint(i) => format!("\"k\":\"uint\",\"bits\":{}", i.num_bytes() * 8),
                RigidTy::Float(_) => "\"k\":\"float\"".to_string(),
                RigidTy::Str => "\"k\":\"str\"".to_string(),
                RigidTy::Never => "\"k\":\"never\"".to_string(),
                RigidTy::Slice(e) => format!("\"k\":\"slice\",\"e\":{}", self.ty(e)),
                RigidTy::Array(e, c) => format!(
                    "\"k\":\"array\",\"e\":{},\"n\":{}",
                    self.ty(e),
                    c.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
                ),
                RigidTy::Ref(_, e, m) => format!(
                    "\"k\":\"ref\",\"e\":{},\"mut\":{}",
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::RawPtr(e, m) => format!(
                    "\"k\":\"ptr\",\"e\":{},\"mut\":{}",
                    self.ty(e),
                    m == Mutability::Mut
                ),
                RigidTy::Tuple(ts) => {
                    let v: Vec<String> = ts.iter().map(|x| self.ty(*x).to_string()).collect();
                    format!("\"k\":\"tuple\",\"es\":[{}]", v.join(","))
                }
                RigidTy::Adt(def, args) => {
                    self.adt(def);
                    let k = def.krate().name;
                    let n = def.name();
                    let deep = k.starts_with("rdftk")
                        || k.starts_with("roots")
                        || ["std::option::Option", "std::result::Result", "std::borrow::Cow", "std::ops::ControlFlow",
                            "std::cmp::Ordering"].contains(&n.as_str());
                    let vs = if deep && def.kind() != AdtKind::Union {
                        let mut o = vec![];
                        for v in def.variants() {
                            let mut fs = vec![];
                            for f in v.fields() {
                                fs.push(self.ty(f.ty_with_args(&args)).to_string());
                            }
                            o.push(list(fs));
                        }
                        list(o)
                    } else {
                        "null".to_string()
                    };
                    format!(
                        "\"k\":\"adt\",\"def\":{},\"args\":{},\"vs\":{}",
                        esc(&n),
                        self.gargs(&args),
                        vs
                    )
                }
                RigidTy::FnDef(def, args) => format!(
                    "\"k\":\"fndef\",\"def\":{},\"args\":{}",
                    esc(&def.name()),
                    self.gargs(&args)
                ),
                RigidTy::FnPtr(_) => "\"k\":\"fnptr\"".to_string(),
                RigidTy::Closure(def, args) => {
                    let _ = args;
                    format!("\"k\":\"closure\",\"def\":{}", esc(&def.name()))
                }
                RigidTy::Dynamic(..) => "\"k\":\"dyn\"".to_string(),
                _ => "\"k\":\"other\"".to_string(),
            },
            _ => "\"k\":\"nonrigid\"".to_string(),
        };
        self.tys[n] = format!("{{\"name\":{name},{body}}}");
        n
    }

    fn adt(&mut self, def: AdtDef) {
        let name = def.name();
        if self.adts.contains_key(&name) {
            return;
        }
        self.adts.insert(name.clone(), String::new());
        let kind = match def.kind() {
            AdtKind::Enum => "enum",
            AdtKind::Struct => "struct",
            AdtKind::Union => "union",
        };
        let mut vs = vec![];
        for v in def.variants() {
            let fields = list(v.fields().iter().map(|f| esc(&f.name)));
            let d = if kind == "enum" { def.discriminant_for_variant(v.idx()).val as i128 } else { 0 };
            vs.push(format!("{{\"name\":{},\"fields\":{},\"discr\":{}}}", esc(&v.name()), fields, d));
        }
        let s = format!(
            "{{\"kind\":\"{kind}\",\"crate\":{},\"variants\":{}}}",
            esc(&def.krate().name),
            list(vs)
        );
        self.adts.insert(name, s);
    }

    // ---------------------------------------------------------------- constants

    fn konst(&mut self, c: &MirConst) -> String {
        let t = c.ty();
        let v = match c.kind() {
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Allocated(a) => self.decode(t, a, 0, 0),
            ConstantKind::Ty(tc) => match tc.eval_target_usize() {
                Ok(n) => format!("{{\"int\":{n}}}"),
                Err(_) => match tc.kind() {
                    TyConstKind::Value(vt, a) => self.decode(*vt, a, 0, 0),
                    _ => "{\"opaque\":\"tyconst\"}".to_string(),
                },
            },
            ConstantKind::Unevaluated(u) => {
                format!("{{\"uneval\":{}}}", esc(&u.def.name()))
            }
            ConstantKind::Param(_) => "{\"opaque\":\"param\"}".to_string(),
        };
        format!("{{\"ty\":{},\"v\":{}}}", self.ty(t), v)
    }

    fn closure_inst(&mut self, def: ClosureDef, args: &GenericArgs) -> String {
        for kind in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
            if let Ok(i) = Instance::resolve_closure(def, args, kind) {
                return self.inst(i).to_string();
            }
        }
        "null".to_string()
    }

    fn fndef(&mut self, def: FnDef, args: &GenericArgs) -> String {
        match Instance::resolve(def, args) {
            Ok(i) => {
                let n = self.inst(i);
                format!("{{\"fn\":{n}}}")
            }
            Err(_) => format!("{{\"opaque\":{}}}", esc(&def.name())),
        }
    }

    fn zst(&mut self, t: Ty) -> String {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(def, args)) => self.fndef(def, &args),
            TyKind::RigidTy(RigidTy::Closure(def, args)) => {
                let b = self.closure_inst(def, &args);
                format!("{{\"closure\":{b}}}")
            }
            TyKind::RigidTy(RigidTy::Tuple(ts)) => {
                let v: Vec<String> = ts.iter().map(|x| self.zst(*x)).collect();
                format!("{{\"tup\":{}}}", list(v))
            }
            TyKind::RigidTy(RigidTy::Array(..)) => "{\"arr\":[]}".to_string(),
            TyKind::RigidTy(RigidTy::Adt(def, args)) => {
                if def.kind() == AdtKind::Struct {
                    let v: Vec<String> = def.variants()[0]
                        .fields()
                        .iter()
                        .map(|f| self.zst(f.ty_with_args(&args)))
                        .collect();
                    format!("{{\"adt\":0,\"f\":{}}}", list(v))
                } else if def.kind() == AdtKind::Enum && def.num_variants() == 1 {
                    let v: Vec<String> = def.variants()[0]
                        .fields()
                        .iter()
                        .map(|f| self.zst(f.ty_with_args(&args)))
                        .collect();
                    format!("{{\"adt\":0,\"f\":{}}}", list(v))
                } else {
                    // the inhabited variant, when there is exactly one (e.g. Option<Infallible>)
                    let inhabited: Vec<usize> = (0..def.num_variants())
                        .filter(|i| {
                            !def.variants()[*i].fields().iter().any(|f| uninhabited(f.ty_with_args(&args)))
                        })
                        .collect();
                    if let [i] = inhabited[..] {
                        let v: Vec<String> = def.variants()[i]
                            .fields()
                            .iter()
                            .map(|f| self.zst(f.ty_with_args(&args)))
                            .collect();
                        format!("{{\"adt\":{i},\"f\":{}}}", list(v))
                    } else {
                        "{\"opaque\":\"zst enum\"}".to_string()
                    }
                }
            }
            _ => "{\"opaque\":\"zst\"}".to_string(),
        }
    }

    fn prov_at(&self, a: &Allocation, off: usize) -> Option<GlobalAlloc> {
        a.provenance
            .ptrs
            .iter()
            .find(|(o, _)| *o == off)
            .map(|(_, p)| GlobalAlloc::from(p.0))
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        a.read_partial_uint(off..off + n).ok()
    }

    fn decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> String {
        match self.try_decode(t, a, off, depth) {
            Some(s) => s,
            None => format!("{{\"opaque\":{}}}", esc(&format!("const {t}"))),
        }
    }

    fn try_decode(&mut self, t: Ty, a: &Allocation, off: usize, depth: usize) -> Option<String> {
        if depth > 40 {
            return None;
        }
        let d = depth + 1;
        let r = match t.kind() {
            TyKind::RigidTy(r) => r,
            _ => return None,
        };
        Some(match r {
            RigidTy::Bool => format!("{{\"bool\":{}}}", self.uint(a, off, 1)? != 0),
            RigidTy::Char => format!("{{\"char\":{}}}", self.uint(a, off, 4)?),
            RigidTy::Uint(u) => format!("{{\"int\":{}}}", self.uint(a, off, u.num_bytes())?),
            RigidTy::Int(i) => {
                let n = i.num_bytes();
                let v = self.uint(a, off, n)?;
                let sh = 128 - 8 * n as u32;
                format!("{{\"int\":{}}}", ((v << sh) as i128) >> sh)
            }
            RigidTy::Float(_) => return None,
            RigidTy::FnDef(..) | RigidTy::Closure(..) => {
                if let RigidTy::Closure(..) = r {
                    if t.layout().ok()?.shape().size.bits() != 0 {
                        return None;
                    }
                }
                self.zst(t)
            }
            RigidTy::FnPtr(_) => match self.prov_at(a, off)? {
                GlobalAlloc::Function(i) => {
                    let n = self.inst(i);
                    format!("{{\"fn\":{n}}}")
                }
                _ => return None,
            },
            RigidTy::Tuple(ts) => {
                let sh = t.layout().ok()?.shape();
                let offs = match &sh.fields {
                    FieldsShape::Arbitrary { offsets, .. } => offsets.clone(),
                    _ => vec![],
                };
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    v.push(self.decode(*x, a, off + offs.get(i)?.bytes(), d));
                }
                format!("{{\"tup\":{}}}", list(v))
            }
            RigidTy::Array(e, c) => {
                let n = c.eval_target_usize().ok()? as usize;
                let sz = e.layout().ok()?.shape().size.bytes();
                let v: Vec<String> = (0..n).map(|i| self.decode(e, a, off + i * sz, d)).collect();
                format!("{{\"arr\":{}}}", list(v))
            }
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => {
                let inner_off = self.uint(a, off, 8)? as usize;
                match e.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let len = self.uint(a, off + 8, 8)? as usize;
                        if len == 0 {
                            return Some("{\"str\":\"\"}".to_string());
                        }
                        match self.prov_at(a, off)? {
                            GlobalAlloc::Memory(m) => {
                                let b: Option<Vec<u8>> =
                                    m.bytes[inner_off..inner_off + len].iter().copied().collect();
                                format!("{{\"str\":{}}}", esc(&String::from_utf8(b?).ok()?))
                            }
                            _ => return None,
                        }
                    }
                    TyKind::RigidTy(RigidTy::Slice(el)) => {
                        let len = self.uint(a, off + 8, 8)? as usize;
                        if len == 0 {
                            return Some("{\"ref\":{\"arr\":[]}}".to_string());
                        }
                        match self.prov_at(a, off)? {
                            GlobalAlloc::Memory(m) => {
                                let sz = el.layout().ok()?.shape().size.bytes();
                                let v: Vec<String> = (0..len)
                                    .map(|i| self.decode(el, &m, inner_off + i * sz, d))
                                    .collect();
                                format!("{{\"ref\":{{\"arr\":{}}}}}", list(v))
                            }
                            _ => return None,
                        }
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => return None,
                    _ => match self.prov_at(a, off) {
                        Some(GlobalAlloc::Memory(m)) => {
                            let s = self.decode(e, &m, inner_off, d);
                            format!("{{\"ref\":{s}}}")
                        }
                        Some(GlobalAlloc::Static(s)) => {
                            self.static_def(&s);
                            format!("{{\"static\":{}}}", esc(&s.name()))
                        }
                        Some(GlobalAlloc::Function(i)) => {
                            let n = self.inst(i);
                            format!("{{\"fn\":{n}}}")
                        }
                        Some(_) => return None,
                        None => {
                            // dangling pointer to a ZST
                            if e.layout().ok()?.shape().size.bits() == 0 {
                                let z = self.zst(e);
                                format!("{{\"ref\":{z}}}")
                            } else {
                                return None;
                            }
                        }
                    },
                }
            }
            RigidTy::Adt(def, args) => {
                self.ty(t);
                let sh = t.layout().ok()?.shape();
                match def.kind() {
                    AdtKind::Union => return None,
                    AdtKind::Struct => {
                        let offs = match &sh.fields {
                            FieldsShape::Arbitrary { offsets, .. } => offsets.clone(),
                            _ => vec![],
                        };
                        let mut v = vec![];
                        for (i, f) in def.variants()[0].fields().iter().enumerate() {
                            let fo = offs.get(i)?.bytes();
                            v.push(self.decode(f.ty_with_args(&args), a, off + fo, d));
                        }
                        format!("{{\"adt\":0,\"f\":{}}}", list(v))
                    }
                    AdtKind::Enum => {
                        let (idx, offs) = match &sh.variants {
                            VariantsShape::Empty => return None,
                            VariantsShape::Single { index } => {
                                let offs = match &sh.fields {
                                    FieldsShape::Arbitrary { offsets, .. } => offsets.clone(),
                                    _ => vec![],
                                };
                                (index.to_index(), offs)
                            }
                            VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                                let tag_off = match &sh.fields {
                                    FieldsShape::Arbitrary { offsets, .. } => {
                                        offsets.get(*tag_field)?.bytes()
                                    }
                                    _ => 0,
                                };
                                let mi = rustc_public::target::MachineInfo::target();
                                let tsz = match tag {
                                    rustc_public::abi::Scalar::Initialized { value, .. }
                                    | rustc_public::abi::Scalar::Union { value } => {
                                        value.size(&mi).bytes()
                                    }
                                };
                                let is_ptr = self.prov_at(a, off + tag_off).is_some();
                                let idx = match tag_encoding {
                                    TagEncoding::Direct => {
                                        let tv = self.uint(a, off + tag_off, tsz)?;
                                        let mut found = None;
                                        for v in def.variants() {
                                            let dv = def.discriminant_for_variant(v.idx()).val;
                                            let mask = if tsz >= 16 {
                                                u128::MAX
                                            } else {
                                                (1u128 << (8 * tsz)) - 1
                                            };
                                            if dv & mask == tv {
                                                found = Some(v.idx().to_index());
                                            }
                                        }
                                        found?
                                    }
                                    TagEncoding::Niche {
                                        untagged_variant,
                                        niche_variants,
                                        niche_start,
                                    } => {
                                        let lo = niche_variants.start().to_index() as u128;
                                        let hi = niche_variants.end().to_index() as u128;
                                        if is_ptr {
                                            untagged_variant.to_index()
                                        } else {
                                            let tv = self.uint(a, off + tag_off, tsz)?;
                                            let mask = if tsz >= 16 {
                                                u128::MAX
                                            } else {
                                                (1u128 << (8 * tsz)) - 1
                                            };
                                            let rel = tv.wrapping_sub(*niche_start) & mask;
                                            if rel <= hi - lo {
                                                (rel + lo) as usize
                                            } else {
                                                untagged_variant.to_index()
                                            }
                                        }
                                    }
                                };
                                (idx, variants.get(idx)?.offsets.clone())
                            }
                        };
                        let mut v = vec![];
                        let vd = def.variants()[idx];
                        for (i, f) in vd.fields().iter().enumerate() {
                            let fo = offs.get(i)?.bytes();
                            v.push(self.decode(f.ty_with_args(&args), a, off + fo, d));
                        }
                        format!("{{\"adt\":{idx},\"f\":{}}}", list(v))
                    }
                }
            }
            _ => return None,
        })
    }

    fn static_def(&mut self, _s: &rustc_public::mir::mono::StaticDef) {}

    // ---------------------------------------------------------------- bodies

    fn place(&mut self, p: &Place) -> String {
        let mut pr = vec![];
        for e in &p.projection {
            pr.push(match e {
                ProjectionElem::Deref => "[\"d\"]".to_string(),
                ProjectionElem::Field(i, t) => format!("[\"f\",{},{}]", i, self.ty(*t)),
                ProjectionElem::Index(l) => format!("[\"i\",{l}]"),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    format!("[\"ci\",{offset},{min_length},{from_end}]")
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    format!("[\"ss\",{from},{to},{from_end}]")
                }
                ProjectionElem::Downcast(v) => format!("[\"v\",{}]", v.to_index()),
                ProjectionElem::OpaqueCast(_) => "[\"oc\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local, list(pr))
    }

    fn operand(&mut self, o: &Operand) -> String {
        match o {
            Operand::Copy(p) => format!("{{\"p\":{}}}", self.place(p)),
            Operand::Move(p) => format!("{{\"p\":{},\"mv\":true}}", self.place(p)),
            Operand::Constant(c) => format!("{{\"c\":{}}}", self.konst(&c.const_)),
            Operand::RuntimeChecks(_) => "{\"rt\":true}".to_string(),
        }
    }

    fn rvalue(&mut self, r: &Rvalue) -> String {
        match r {
            Rvalue::AddressOf(_, p) => format!("[\"addr\",{}]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let kind = match k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(def, v, args, _, f) => {
                        self.adt(*def);
                        let t = def.ty_with_args(args);
                        format!(
                            "[\"adt\",{},{},{},{}]",
                            esc(&def.name()),
                            v.to_index(),
                            f.map(|x| x as i64).unwrap_or(-1),
                            self.ty(t)
                        )
                    }
                    AggregateKind::Closure(def, args) => {
                        // record the closure body as an instance
                        let t = Ty::new_closure(*def, args.clone());
                        let b = self.closure_inst(*def, args);
                        format!("[\"closure\",{},{},{}]", esc(&def.name()), self.ty(t), b)
                    }
                    AggregateKind::RawPtr(..) => "[\"rawptr\"]".to_string(),
                    _ => "[\"other\"]".to_string(),
                };
                let v: Vec<String> = ops.iter().map(|o| self.operand(o)).collect();
                format!("[\"agg\",{},{}]", kind, list(v))
            }
            Rvalue::BinaryOp(op, a, b) => {
                format!("[\"bin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                format!("[\"cbin\",\"{:?}\",{},{}]", op, self.operand(a), self.operand(b))
            }
            Rvalue::Cast(k, o, t) => {
                let ks = match k {
                    CastKind::PointerCoercion(c) => format!("{:?}", c),
                    k => format!("{:?}", k),
                };
                // reifying a closure/fn to a pointer
                format!("[\"cast\",{},{},{}]", esc(&ks), self.operand(o), self.ty(*t))
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",{{\"p\":{}}}]", self.place(p)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::Len(p) => format!("[\"len\",{}]", self.place(p)),
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                format!("[\"ref\",{},{}]", self.place(p), m)
            }
            Rvalue::Repeat(o, c) => format!(
                "[\"repeat\",{},{}]",
                self.operand(o),
                c.eval_target_usize().map(|x| x as i64).unwrap_or(-1)
            ),
            Rvalue::ThreadLocalRef(_) => "[\"tls\"]".to_string(),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",\"{:?}\",{}]", op, self.operand(o)),
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o)),
            Rvalue::Reborrow(_, m, p) => {
                format!("[\"ref\",{},{}]", self.place(p), *m == Mutability::Mut)
            }
        }
    }

    fn body(&mut self, b: &Body) -> String {
        let mut blocks = vec![];
        for bb in &b.blocks {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => {
                        st.push(format!("[\"=\",{},{}]", self.place(p), self.rvalue(r)));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!(
                            "[\"sd\",{},{}]",
                            self.place(place),
                            variant_index.to_index()
                        ));
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(_)) => {
                        st.push("[\"copy_nonoverlapping\"]".to_string());
                    }
                    StatementKind::StorageDead(l) => st.push(format!("[\"dead\",{l}]")),
                    _ => {}
                }
            }
            let line = bb.terminator.source_info.span.get_lines().start_line;
            let t = match &bb.terminator.kind {
                TerminatorKind::Goto { target } => format!("[\"goto\",{target}]"),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let br = list(targets.branches().map(|(v, t)| format!("[{v},{t}]")));
                    format!("[\"switch\",{},{},{}]", self.operand(discr), br, targets.otherwise())
                }
                TerminatorKind::Return => "[\"return\"]".to_string(),
                TerminatorKind::Resume => "[\"resume\"]".to_string(),
                TerminatorKind::Abort => "[\"abort\"]".to_string(),
                TerminatorKind::Unreachable => "[\"unreachable\"]".to_string(),
                TerminatorKind::Drop { place, target, .. } => {
                    format!("[\"drop\",{},{}]", self.place(place), target)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.operand(func);
                    let fty = func.ty(b.locals()).ok();
                    let rustcall = fty
                        .and_then(|t| t.kind().fn_sig())
                        .map(|s| format!("{:?}", s.value.abi) == "RustCall")
                        .unwrap_or(false);
                    let v: Vec<String> = args.iter().map(|o| self.operand(o)).collect();
                    format!(
                        "[\"call\",{},{},{},{},{}]",
                        f,
                        list(v),
                        self.place(destination),
                        target.map(|t| t as i64).unwrap_or(-1),
                        rustcall
                    )
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match msg {
                        AssertMessage::BoundsCheck { .. } => "index out of bounds".to_string(),
                        m => m.description().unwrap_or("assertion").to_string(),
                    };
                    format!(
                        "[\"assert\",{},{},{},{}]",
                        self.operand(cond),
                        expected,
                        esc(&m),
                        target
                    )
                }
                TerminatorKind::InlineAsm { .. } => "[\"asm\"]".to_string(),
            };
            blocks.push(format!("{{\"s\":{},\"t\":{},\"l\":{}}}", list(st), t, line));
        }
        let locals: Vec<String> = b.locals().iter().map(|l| self.ty(l.ty).to_string()).collect();
        let spread = b.spread_arg().map(|x| x as i64).unwrap_or(-1);
        format!(
            "{{\"argc\":{},\"locals\":{},\"spread\":{},\"blocks\":{},\"file\":{}}}",
            b.arg_locals().len(),
            list(locals),
            spread,
            list(blocks),
            esc(&b.span.get_filename())
        )
    }
}

/// Containers whose operations call the element types' own operations.
const CONTAINERS: [&str; 9] = [
    "std::vec::", "std::collections::", "std::sync::Arc", "std::rc::Rc", "std::boxed::", "std::slice::", "core::slice::",
    "alloc::slice::", "std::string::String as std::iter::",
];

/// The trait methods a modelled container operation may call on its type arguments:
/// {"eq": [instance or null per type argument], ...}.
fn helpers(tcx: rustc_middle::ty::TyCtxt<'_>, cx: &mut Cx, i: &Instance, def: &str) -> String {
    use rustc_public::rustc_internal::{internal, stable};
    use rustc_span::sym;
    let d = def.trim_start_matches(['<', '&']);
    if !CONTAINERS.iter().any(|p| d.starts_with(p)) {
        return "{}".to_string();
    }
    let tys: Vec<Ty> =
        i.args().0.iter().filter_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }).collect();
    let resolve = |tr: rustc_span::Symbol, m: &str, t: Ty| -> Option<Instance> {
        let tr = tcx.get_diagnostic_item(tr)?;
        let m = tcx.associated_items(tr).in_definition_order().find(|a| a.opt_name().is_some_and(|n| n.as_str() == m))?.def_id;
        let t = internal(tcx, t);
        let g = tcx.generics_of(tr);
        // `Self`, and `Rhs = Self` where there is one
        let mut v: Vec<rustc_middle::ty::GenericArg<'_>> = vec![t.into()];
        if g.count() == 2 {
            v.push(t.into());
        }
        let own = tcx.generics_of(m);
        if own.own_params.iter().any(|p| !matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)) {
            return None;
        }
        let mut full = v.clone();
        for p in &own.own_params {
            if matches!(p.kind, rustc_middle::ty::GenericParamDefKind::Lifetime) {
                full.push(tcx.lifetimes.re_erased.into());
            }
        }
        let args = tcx.mk_args(&full);
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        match rustc_middle::ty::Instance::try_resolve(tcx, env, m, args) {
            Ok(Some(x)) => Some(stable(x)),
            _ => None,
        }
    };
    let mut out = vec![];
    for (key, tr, m) in [
        ("eq", sym::PartialEq, "eq"),
        ("cmp", sym::Ord, "cmp"),
        ("fmt", sym::Display, "fmt"),
        ("into_iter", sym::IntoIterator, "into_iter"),
        ("next", sym::Iterator, "next"),
        ("default", sym::Default, "default"),
    ] {
        if key == "default" && !def.ends_with("or_default") {
            continue;
        }
        let v: Vec<Option<Instance>> = tys.iter().map(|t| resolve(tr, m, *t)).collect();
        if v.iter().all(|x| x.is_none()) {
            continue;
        }
        out.push(format!("\"{key}\":{}", list(v.iter().map(|x| x.map_or("null".to_string(), |x| cx.inst(x).to_string())).collect::<Vec<_>>())));
        if key == "into_iter" {
            let mut nx = vec![];
            for x in &v {
                let it = x.and_then(|x| x.ty().kind().fn_sig()).map(|s| s.skip_binder().output());
                let n = it.and_then(|t| resolve(sym::Iterator, "next", t));
                nx.push(n.map_or("null".to_string(), |x| cx.inst(x).to_string()));
            }
            out.push(format!("\"iter_next\":{}", list(nx)));
        }
    }
    format!("{{{}}}", out.join(","))
}

/// The functions a body names (calls, or passes on), those in its closures included.
#[derive(Default)]
struct Uses {
    fns: std::collections::BTreeSet<String>,
    closures: usize,
    seen: HashSet<String>,
}

impl Uses {
    fn visit_body(&mut self, b: &Body) {
        MirVisitor::visit_body(self, b)
    }
    fn on_ty(&mut self, t: &Ty) {
        match t.kind() {
            TyKind::RigidTy(RigidTy::FnDef(d, _)) => {
                self.fns.insert(d.name());
            }
            TyKind::RigidTy(RigidTy::Closure(d, _)) => {
                if self.seen.insert(d.name()) {
                    self.closures += 1;
                    if let Some(b) = d.body() {
                        self.visit_body(&b);
                    }
                }
            }
            _ => {}
        }
    }
}

impl MirVisitor for Uses {
    fn visit_ty(&mut self, t: &Ty, l: rustc_public::mir::visit::Location) {
        self.on_ty(t);
        self.super_ty(t);
        let _ = l;
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: rustc_public::mir::visit::Location) {
        if let Rvalue::Aggregate(AggregateKind::Closure(d, _), _) = r {
            if self.seen.insert(d.name()) {
                self.closures += 1;
                if let Some(b) = d.body() {
                    self.visit_body(&b);
                }
            }
        }
        self.super_rvalue(r, l);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: rustc_public::mir::visit::Location) {
        self.on_ty(&c.ty());
        self.super_mir_const(c, l);
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>, name: &str) -> ControlFlow<(), ()> {
    use rustc_public::rustc_internal::internal;
    let stop = std::env::var("MIRDUMP_STOP")
        .ok()
        .and_then(|p| std::fs::read_to_string(p).ok())
        .unwrap_or_default()
        .lines()
        .map(|s| s.to_string())
        .filter(|s| !s.is_empty())
        .collect();
    let mut cx = Cx {
        tys: vec![],
        ty_ids: HashMap::new(),
        adts: BTreeMap::new(),
        insts: vec![],
        inst_ids: HashMap::new(),
        queue: VecDeque::new(),
        stop,
    };
    let scan: HashSet<String> = std::env::var("MIRDUMP_SCAN")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect();

    // roots: every non-generic function of the local crate, and of the scanned crates
    let mut roots = vec![];
    let mut consts = vec![];
    for item in rustc_public::all_local_items() {
        match item.kind() {
            ItemKind::Fn => {
                if let Ok(i) = Instance::try_from(item) {
                    let n = cx.inst(i);
                    roots.push(format!("[{},{n}]", esc(&item.name())));
                }
            }
            ItemKind::Const => {
                if let Ok(i) = Instance::try_from(item) {
                    let n = cx.inst(i);
                    consts.push(format!("[{},{n}]", esc(&item.name())));
                }
            }
            _ => {}
        }
    }
    let mut scanned = vec![];
    let mut statics = vec![];
    let mut adt_list = vec![];
    let mut impls = vec![];
    for k in rustc_public::external_crates() {
        if !scan.contains(&k.name) {
            continue;
        }
        for s in k.statics() {
            statics.push(format!("[{},{},{}]", esc(&s.name()), esc(&format!("{}", s.ty())), tcx.is_mutable_static(internal(tcx, s.def_id()))));
        }
        for a in k.adts() {
            cx.adt(a);
            let did = internal(tcx, a.def_id());
            let def = tcx.adt_def(did);
            let open: Vec<String> = if def.is_struct() {
                def.all_fields().filter(|f| f.vis.is_public()).map(|f| esc(f.name.as_str())).collect()
            } else {
                vec![]
            };
            adt_list.push(format!(
                "{{\"name\":{},\"kind\":{},\"open\":{}}}",
                esc(&a.name()),
                esc(if def.is_struct() { "struct" } else if def.is_enum() { "enum" } else { "union" }),
                list(open)
            ));
        }
        for im in k.trait_impls() {
            let t = im.trait_impl();
            let tr = t.value.clone();
            impls.push(format!(
                "{{\"trait\":{},\"args\":{},\"name\":{}}}",
                esc(&tr.def_id.name()),
                esc(&format!("{}", tr.self_ty())),
                esc(&im.name())
            ));
        }
        for f in k.fn_defs() {
            let item = CrateItem::try_from_def(f.def_id());
            let generic = item.map(|i| i.requires_monomorphization()).unwrap_or(true);
            let has = f.has_body();
            let did = internal(tcx, f.def_id());
            let public = tcx.visibility(did).is_public();
            let sig = format!("{}", tcx.fn_sig(did).instantiate_identity().skip_binder());
            let mut uses = Uses::default();
            if let Some(b) = f.body() {
                uses.visit_body(&b);
            }
            scanned.push(format!(
                "{{\"name\":{},\"generic\":{},\"body\":{},\"public\":{public},\"uses\":{},\"closures\":{},\"sig\":{}}}",
                esc(&f.name()),
                generic,
                has,
                list(uses.fns.iter().map(|x| esc(x)).collect::<Vec<_>>()),
                uses.closures,
                esc(&sig)
            ));
        }
    }

    let mut fns = vec![];
    let mut done = 0;
    while let Some(n) = cx.queue.pop_front() {
        done += 1;
        if done > 60000 {
            eprintln!("mirdump: too many instances");
            std::process::exit(1);
        }
        let (i, iname) = cx.insts[n].clone();
        let def = i.def.name();
        let krate = i.def.krate().name;
        let kind = match i.kind {
            InstanceKind::Item => "item",
            InstanceKind::Intrinsic => "intrinsic",
            InstanceKind::LlvmIntrinsic => "llvm",
            InstanceKind::Virtual { .. } => "virtual",
            InstanceKind::Shim => "shim",
        };
        let args = cx.gargs(&i.args());
        let keep = cx.stop.iter().filter_map(|p| p.strip_prefix('!')).any(|p| def.trim_start_matches(['<', '&']).starts_with(p));
        let stopped = !keep && cx.stop.iter().any(|p| {
            if let Some(q) = p.strip_suffix('$') {
                def == q
            } else {
                def.trim_start_matches(['<', '&']).starts_with(p.as_str())
            }
        });
        let body = if stopped && kind != "shim" {
            "null".to_string()
        } else if matches!(i.kind, InstanceKind::Virtual { .. } | InstanceKind::LlvmIntrinsic) {
            "null".to_string()
        } else if i.kind == InstanceKind::Shim && i.is_empty_shim() {
            "null".to_string()
        } else if i.kind == InstanceKind::Shim && iname.contains("drop_in_place") {
            "null".to_string()
        } else if i.has_body() || i.kind == InstanceKind::Shim {
            match i.body() {
                Some(b) => cx.body(&b),
                None => "null".to_string(),
            }
        } else {
            "null".to_string()
        };
        let ity = cx.ty(i.ty());
        let aux = if stopped { helpers(tcx, &mut cx, &i, &def) } else { "{}".to_string() };
        fns.push(format!(
            "{{\"aux\":{aux},\"id\":{n},\"name\":{},\"def\":{},\"crate\":{},\"kind\":\"{kind}\",\"args\":{args},\"ty\":{ity},\"stopped\":{stopped},\"body\":{body}}}",
            esc(&iname),
            esc(&def),
            esc(&krate)
        ));
    }
    let adts = cx
        .adts
        .iter()
        .map(|(k, v)| format!("{}:{}", esc(k), v))
        .collect::<Vec<_>>()
        .join(",\n");
    let out = format!(
        "{{\"crate\":{},\n\"roots\":{},\n\"consts\":{},\n\"scanned\":{},\n\"statics\":{},\n\"adt_list\":{},\n\"impls\":{},\n\"adts\":{{{adts}}},\n\"tys\":[{}],\n\"fns\":[\n{}\n]}}\n",
        esc(name),
        list(roots),
        list(consts),
        list(scanned),
        list(statics),
        list(adt_list),
        list(impls),
        cx.tys.join(",\n"),
        fns.join(",\n")
    );
    let dir = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    std::fs::write(format!("{dir}/{name}.json"), out).expect("write dump");
    ControlFlow::Continue(())
}

trait TryDef: Sized {
    fn try_from_def(d: rustc_public::DefId) -> Option<Self>;
}
impl TryDef for CrateItem {
    fn try_from_def(d: rustc_public::DefId) -> Option<Self> {
        Some(CrateItem(d))
    }
}
