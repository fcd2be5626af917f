//! rustc wrapper: compiles every crate normally, except the harness crate, for
//! which it lowers everything reachable from the harness entry points to the
//! analyzer's IR and writes it to $VEXPORT_OUT.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_session;

use rustc_public::abi::{FieldsShape, Primitive, Scalar, TagEncoding, VariantsShape};
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{self, AggregateKind, ProjectionElem, Rvalue, StatementKind, TerminatorKind};
use rustc_public::ty::{
    AdtKind, Allocation, ClosureKind, ConstantKind, GenericArgKind, GenericArgs, IntTy, RigidTy, Ty, TyKind,
    UintTy,
};
use rustc_public::{run, CrateDef, CrateDefType, CrateItem, ItemKind};
use std::collections::HashMap;
use std::ops::ControlFlow;
use vir as ir;

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WRAPPER convention: argv[1] is the real rustc.
    args.remove(0);
    let is_harness = args.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "vharness");
    if !is_harness {
        use std::os::unix::process::CommandExt;
        let e = std::process::Command::new(&args[0]).args(&args[1..]).exec();
        eprintln!("cannot run rustc: {e}");
        std::process::exit(101);
    }
    let r = run!(&args, export);
    match r {
        Ok(_) => {}
        Err(e) => {
            eprintln!("export failed: {e:?}");
            std::process::exit(1)
        }
    }
}

struct Ex {
    prog: ir::Program,
    tys: HashMap<Ty, u32>,
    fns: HashMap<Instance, u32>,
    queue: Vec<(Instance, u32)>,
    files: HashMap<String, u32>,
}

fn export() -> ControlFlow<(), ()> {
    let mut ex = Ex {
        prog: ir::Program::default(),
        tys: HashMap::new(),
        fns: HashMap::new(),
        queue: vec![],
        files: HashMap::new(),
    };
    let items: Vec<CrateItem> = rustc_public::all_local_items();
    for it in items {
        if it.kind() != ItemKind::Fn || it.requires_monomorphization() {
            continue;
        }
        let Ok(inst) = Instance::try_from(it) else { continue };
        let name = it.name();
        let id = ex.func(inst);
        ex.prog.roots.push((name, id));
    }
    while let Some((inst, id)) = ex.queue.pop() {
        ex.lower(inst, id);
    }
    for krate in rustc_public::find_crates("deflate") {
        for s in krate.statics() {
            let item = s.ty();
            let _ = item;
            ex.prog.facts.statics.push((s.name(), false));
        }
    }
    let out = std::env::var("VEXPORT_OUT").expect("VEXPORT_OUT");
    let f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    serde_json::to_writer(f, &ex.prog).unwrap();
    ControlFlow::Continue(())
}

/// Functions whose bodies are never needed: panics and formatting.
fn skip_body(path: &str) -> bool {
    const P: &[&str] = &[
        "core::fmt::", "std::fmt::", "alloc::fmt::", "core::panicking::", "std::panicking::", "std::rt::",
        "alloc::alloc::", "std::alloc::", "core::alloc::", "alloc::raw_vec::", "std::sys::", "std::backtrace",
        "std::thread::", "core::str::", "alloc::string::", "std::io::error::repr", "std::process::",
        "core::num::flt2dec", "std::sync::", "std::ffi::", "std::time::",
    ];
    const C: &[&str] = &["adler32::", "crc32fast::", "<adler32::", "<crc32fast::"];
    if C.iter().any(|p| path.starts_with(p)) {
        return true;
    }
    P.iter().any(|p| path.starts_with(p) || path.starts_with(&format!("<{p}")))
}

impl Ex {
    fn file(&mut self, f: &str) -> u32 {
        if let Some(&i) = self.files.get(f) {
            return i;
        }
        let i = self.prog.files.len() as u32;
        self.prog.files.push(f.to_string());
        self.files.insert(f.to_string(), i);
        i
    }

    fn func(&mut self, inst: Instance) -> u32 {
        if let Some(&i) = self.fns.get(&inst) {
            return i;
        }
        let id = self.prog.fns.len() as u32;
        self.fns.insert(inst, id);
        let path = inst.def.name();
        let krate = inst.def.krate().name;
        let span = inst.def.span();
        let fname = span.get_filename().to_string();
        let file = self.file(&fname);
        let line = span.get_lines().start_line as u32;
        self.prog.fns.push(ir::Func {
            name: inst.name(),
            path,
            local: krate == "deflate",
            krate,
            intrinsic: inst.intrinsic_name(),
            generic_tys: vec![],
            args: vec![],
            ret: 0,
            spread_arg: None,
            body: None,
            file,
            line,
        });
        let g: Vec<Ty> = inst
            .args()
            .0
            .iter()
            .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
            .collect();
        let g: Vec<u32> = g.into_iter().map(|t| self.ty(t)).collect();
        self.prog.fns[id as usize].generic_tys = g;
        self.queue.push((inst, id));
        id
    }

    fn ty(&mut self, t: Ty) -> u32 {
        if let Some(&i) = self.tys.get(&t) {
            return i;
        }
        let id = self.prog.types.len() as u32;
        self.tys.insert(t, id);
        let size = t.layout().ok().map(|l| l.shape()).filter(|s| s.is_sized()).map(|s| s.size.bytes() as u64);
        self.prog.types.push(ir::Type { name: format!("{t}"), kind: ir::TyKind::Opaque, size });
        let kind = self.ty_kind(t);
        self.prog.types[id as usize].kind = kind;
        id
    }

    fn ty_kind(&mut self, t: Ty) -> ir::TyKind {
        let TyKind::RigidTy(r) = t.kind() else { return ir::TyKind::Opaque };
        let iw = |b| match b {
            IntTy::I8 => 8,
            IntTy::I16 => 16,
            IntTy::I32 => 32,
            IntTy::I64 | IntTy::Isize => 64,
            IntTy::I128 => 128,
        };
        let uw = |b| match b {
            UintTy::U8 => 8,
            UintTy::U16 => 16,
            UintTy::U32 => 32,
            UintTy::U64 | UintTy::Usize => 64,
            UintTy::U128 => 128,
        };
        match r {
            RigidTy::Bool => ir::TyKind::Bool,
            RigidTy::Char => ir::TyKind::Char,
            RigidTy::Int(i) => ir::TyKind::Int { bits: iw(i), signed: true },
            RigidTy::Uint(i) => ir::TyKind::Int { bits: uw(i), signed: false },
            RigidTy::Float(_) => ir::TyKind::Float,
            RigidTy::Str => ir::TyKind::Str,
            RigidTy::Never => ir::TyKind::Never,
            RigidTy::Array(e, n) => {
                let elem = self.ty(e);
                ir::TyKind::Array { elem, len: n.eval_target_usize().unwrap_or(u64::MAX) }
            }
            RigidTy::Slice(e) => ir::TyKind::Slice(self.ty(e)),
            RigidTy::Ref(_, e, m) => {
                let to = self.ty(e);
                ir::TyKind::Ref { to, mutable: m == mir::Mutability::Mut }
            }
            RigidTy::RawPtr(e, m) => {
                let to = self.ty(e);
                ir::TyKind::Ptr { to, mutable: m == mir::Mutability::Mut }
            }
            RigidTy::Pat(e, _) => {
                let k = self.ty(e);
                self.prog.types[k as usize].kind.clone()
            }
            RigidTy::Tuple(ts) => ir::TyKind::Tuple(ts.into_iter().map(|t| self.ty(t)).collect()),
            RigidTy::FnDef(def, args) => {
                let f = Instance::resolve(def, &args).ok().map(|i| self.func(i));
                ir::TyKind::FnDef(f)
            }
            RigidTy::FnPtr(_) => ir::TyKind::FnPtr,
            RigidTy::Dynamic(..) => ir::TyKind::Dyn,
            RigidTy::Closure(_, args) => {
                // The last generic argument is the tuple of captured types.
                let mut fields = vec![];
                if let Some(GenericArgKind::Type(t)) = args.0.last() {
                    if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                        fields = ts;
                    }
                }
                ir::TyKind::Closure { fields: fields.into_iter().map(|t| self.ty(t)).collect() }
            }
            RigidTy::Adt(def, args) => {
                let kind = match def.kind() {
                    AdtKind::Struct => ir::AdtKind::Struct,
                    AdtKind::Enum => ir::AdtKind::Enum,
                    AdtKind::Union => ir::AdtKind::Union,
                };
                let mut variants = vec![];
                for v in def.variants() {
                    let discr = if kind == ir::AdtKind::Enum {
                        let d = def.discriminant_for_variant(v.idx());
                        sign(d.val, d.ty)
                    } else {
                        0
                    };
                    let mut fields = vec![];
                    for f in v.fields() {
                        let ft = f.ty_with_args(&args);
                        fields.push((f.name.clone(), self.ty(ft)));
                    }
                    variants.push(ir::Variant { name: v.name(), discr, fields });
                }
                let g: Vec<Ty> = args
                    .0
                    .iter()
                    .filter_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None })
                    .collect();
                let args = g.into_iter().map(|t| self.ty(t)).collect();
                ir::TyKind::Adt { path: def.name(), kind, variants, args }
            }
            _ => ir::TyKind::Opaque,
        }
    }

    fn lower(&mut self, inst: Instance, id: u32) {
        let path = self.prog.fns[id as usize].path.clone();
        let kind = inst.kind;
        // Signature
        if matches!(kind, InstanceKind::Intrinsic) || inst.is_foreign_item() {
            if let Some(sig) = inst.ty().kind().fn_sig() {
                let sig = sig.skip_binder();
                let a: Vec<u32> = sig.inputs().iter().map(|t| self.ty(*t)).collect();
                let r = self.ty(sig.output());
                self.prog.fns[id as usize].args = a;
                self.prog.fns[id as usize].ret = r;
            }
            return;
        }
        if let Ok(abi) = inst.fn_abi() {
            let a: Vec<u32> = abi.args.iter().map(|a| self.ty(a.ty)).collect();
            let r = self.ty(abi.ret.ty);
            self.prog.fns[id as usize].args = a;
            self.prog.fns[id as usize].ret = r;
        }
        if matches!(kind, InstanceKind::Intrinsic | InstanceKind::Virtual { .. }) {
            return;
        }
        if skip_body(&path) || self.prog.fns[id as usize].intrinsic.is_some() {
            return;
        }
        if matches!(self.prog.types[self.prog.fns[id as usize].ret as usize].kind, ir::TyKind::Never)
            && self.prog.fns[id as usize].krate != "deflate"
        {
            return;
        }
        if inst.is_foreign_item() || !inst.has_body() {
            return;
        }
        let Some(body) = inst.body() else { return };
        let locals: Vec<u32> = body.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![None; locals.len()];
        for v in &body.var_debug_info {
            if let Some(l) = v.local() {
                names[l] = Some(v.name.clone());
            }
        }
        let nargs = body.arg_locals().len();
        let f = &mut self.prog.fns[id as usize];
        f.args = locals[1..1 + nargs].to_vec();
        f.ret = locals[0];
        f.spread_arg = body.spread_arg().map(|l| l as u32);
        let mut blocks = vec![];
        for b in &body.blocks {
            let mut stmts = vec![];
            for s in &b.statements {
                let line = s.source_info.span.get_lines().start_line as u32;
                if let Some(kind) = self.stmt(&s.kind, &body) {
                    stmts.push(ir::Stmt { kind, line });
                }
            }
            let span = b.terminator.source_info.span;
            let line = span.get_lines().start_line as u32;
            let fname = span.get_filename().to_string();
            let file = self.file(&fname);
            let term = self.term(&b.terminator.kind, &body);
            blocks.push(ir::BasicBlock { stmts, term, line, file });
        }
        self.prog.fns[id as usize].body = Some(ir::Body { locals, names, blocks });
    }

    fn place(&mut self, p: &mir::Place) -> ir::Place {
        let proj = p
            .projection
            .iter()
            .filter_map(|e| {
                Some(match e {
                    ProjectionElem::Deref => ir::Proj::Deref,
                    ProjectionElem::Field(i, t) => ir::Proj::Field(*i as u32, self.ty(*t)),
                    ProjectionElem::Index(l) => ir::Proj::Index(*l as u32),
                    ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                        ir::Proj::ConstIndex { offset: *offset, from_end: *from_end }
                    }
                    ProjectionElem::Subslice { from, to, from_end } => {
                        ir::Proj::Subslice { from: *from, to: *to, from_end: *from_end }
                    }
                    ProjectionElem::Downcast(v) => ir::Proj::Downcast(variant_idx(v)),
                    ProjectionElem::OpaqueCast(_) => return None,
                })
            })
            .collect();
        ir::Place { local: p.local as u32, proj }
    }

    fn operand(&mut self, o: &mir::Operand) -> ir::Operand {
        match o {
            mir::Operand::Copy(p) => ir::Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => ir::Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let ty = self.ty(t);
                let k = self.constant(c.const_.kind(), t);
                ir::Operand::Const(ty, k)
            }
            mir::Operand::RuntimeChecks(c) => ir::Operand::Checks(match c {
                mir::RuntimeChecks::UbChecks => 0,
                mir::RuntimeChecks::ContractChecks => 1,
                mir::RuntimeChecks::OverflowChecks => 2,
            }),
        }
    }

    fn constant(&mut self, k: &ConstantKind, t: Ty) -> ir::Const {
        match k {
            ConstantKind::Allocated(a) => self.decode(a, 0, t),
            ConstantKind::ZeroSized => self.zst(t),
            ConstantKind::Ty(c) => match c.kind() {
                rustc_public::ty::TyConstKind::Value(ty, a) => self.decode(a, 0, *ty),
                rustc_public::ty::TyConstKind::ZSTValue(t) => self.zst(*t),
                _ => match c.eval_target_usize() {
                    Ok(n) => ir::Const::Int(n as u128),
                    Err(_) => ir::Const::Unknown,
                },
            },
            _ => ir::Const::Unknown,
        }
    }

    fn zst(&mut self, t: Ty) -> ir::Const {
        if let TyKind::RigidTy(r) = t.kind() {
            match r {
                RigidTy::FnDef(def, args) => {
                    if let Ok(i) = Instance::resolve(def, &args) {
                        return ir::Const::Fn(self.func(i));
                    }
                    return ir::Const::Unknown;
                }
                RigidTy::Tuple(ts) => return ir::Const::Agg(ts.into_iter().map(|t| self.zst(t)).collect()),
                RigidTy::Adt(def, args) if def.kind() == AdtKind::Struct => {
                    let fs: Vec<Ty> =
                        def.variants()[0].fields().iter().map(|f| f.ty_with_args(&args)).collect();
                    return ir::Const::Agg(fs.into_iter().map(|t| self.zst(t)).collect());
                }
                _ => {}
            }
        }
        ir::Const::Zst
    }

    fn uint(&self, a: &Allocation, off: usize, n: usize) -> Option<u128> {
        let mut v = 0u128;
        for i in (0..n).rev() {
            v = v << 8 | (*a.bytes.get(off + i)?)? as u128;
        }
        Some(v)
    }

    fn decode(&mut self, a: &Allocation, off: usize, t: Ty) -> ir::Const {
        self.try_decode(a, off, t).unwrap_or(ir::Const::Unknown)
    }

    fn ptr_target(&mut self, a: &Allocation, off: usize) -> Option<(GlobalAlloc, usize)> {
        let base = self.uint(a, off, 8)? as usize;
        let (_, p) = a.provenance.ptrs.iter().find(|(o, _)| *o == off)?;
        Some((GlobalAlloc::from(p.0), base))
    }

    fn try_decode(&mut self, a: &Allocation, off: usize, t: Ty) -> Option<ir::Const> {
        let shape = t.layout().ok()?.shape();
        let size = shape.size.bytes();
        let TyKind::RigidTy(r) = t.kind() else { return None };
        Some(match r {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                ir::Const::Int(self.uint(a, off, size)?)
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().ok()? as usize;
                let es = e.layout().ok()?.shape().size.bytes();
                if es == 1 && matches!(e.kind(), TyKind::RigidTy(RigidTy::Uint(UintTy::U8))) {
                    let mut v = vec![];
                    for i in 0..n {
                        v.push((*a.bytes.get(off + i)?)?);
                    }
                    return Some(ir::Const::Bytes(v));
                }
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.try_decode(a, off + i * es, e)?);
                }
                ir::Const::Agg(v)
            }
            RigidTy::Tuple(ts) => {
                let mut v = vec![];
                for (i, e) in ts.into_iter().enumerate() {
                    v.push(self.try_decode(a, off + field_off(&shape.fields, i)?, e)?);
                }
                ir::Const::Agg(v)
            }
            RigidTy::Pat(e, _) => return self.try_decode(a, off, e),
            RigidTy::Ref(_, e, _) | RigidTy::RawPtr(e, _) => return self.decode_ptr(a, off, e),
            RigidTy::FnDef(..) | RigidTy::Closure(..) => self.zst(t),
            RigidTy::Adt(def, args) => match def.kind() {
                AdtKind::Struct => {
                    let mut v = vec![];
                    for (i, f) in def.variants()[0].fields().iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        v.push(self.decode(a, off + field_off(&shape.fields, i)?, ft));
                    }
                    ir::Const::Agg(v)
                }
                AdtKind::Union => ir::Const::Unknown,
                AdtKind::Enum => {
                    let (vi, offs): (usize, Vec<usize>) = match &shape.variants {
                        VariantsShape::Empty => return None,
                        VariantsShape::Single { index } => {
                            let vi = variant_idx(index) as usize;
                            let n = def.variants()[vi].fields().len();
                            (vi, (0..n).map(|i| field_off(&shape.fields, i).unwrap_or(0)).collect())
                        }
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                            let toff = field_off(&shape.fields, *tag_field)?;
                            let tsz = match tag {
                                Scalar::Initialized { value, .. } | Scalar::Union { value } => match value {
                                    Primitive::Int { length, .. } => length.bits() / 8,
                                    Primitive::Pointer(_) => 8,
                                    Primitive::Float { .. } => return None,
                                },
                            };
                            let is_ptr = a.provenance.ptrs.iter().any(|(o, _)| *o == off + toff);
                            let raw = self.uint(a, off + toff, tsz);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let raw = raw?;
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    def.variants().iter().position(|v| {
                                        def.discriminant_for_variant(v.idx()).val & mask == raw
                                    })?
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    let u = variant_idx(untagged_variant) as usize;
                                    match raw {
                                        _ if is_ptr => u,
                                        None => u,
                                        Some(raw) => {
                                            let mask =
                                                if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                            let s = variant_idx(niche_variants.start()) as u128;
                                            let e = variant_idx(niche_variants.end()) as u128;
                                            let rel = raw.wrapping_sub(*niche_start) & mask;
                                            if rel <= e - s { (s + rel) as usize } else { u }
                                        }
                                    }
                                }
                            };
                            (vi, variants[vi].offsets.iter().map(|o| o.bytes()).collect())
                        }
                    };
                    let fs = def.variants()[vi].fields();
                    let mut v = vec![];
                    for (i, f) in fs.iter().enumerate() {
                        let ft = f.ty_with_args(&args);
                        v.push(self.decode(a, off + offs[i], ft));
                    }
                    ir::Const::Enum(vi as u32, v)
                }
            },
            _ => return None,
        })
    }

    fn decode_ptr(&mut self, a: &Allocation, off: usize, e: Ty) -> Option<ir::Const> {
        let (g, base) = self.ptr_target(a, off)?;
        let (name, al) = match g {
            GlobalAlloc::Memory(m) => (None, m),
            GlobalAlloc::Static(s) => (Some(s.name()), s.eval_initializer().ok()?),
            GlobalAlloc::Function(i) => return Some(ir::Const::Fn(self.func(i))),
            _ => return None,
        };
        let TyKind::RigidTy(r) = e.kind() else { return None };
        let inner = match r {
            RigidTy::Str => {
                let n = self.uint(a, off + 8, 8)? as usize;
                let b: Option<Vec<u8>> = al.bytes[base..base + n].iter().copied().collect();
                return Some(ir::Const::Str(String::from_utf8_lossy(&b?).into_owned()));
            }
            RigidTy::Slice(el) => {
                let n = self.uint(a, off + 8, 8)? as usize;
                let es = el.layout().ok()?.shape().size.bytes();
                let mut v = vec![];
                for i in 0..n {
                    v.push(self.try_decode(&al, base + i * es, el)?);
                }
                ir::Const::Slice(v)
            }
            RigidTy::Dynamic(..) => return None,
            _ => self.try_decode(&al, base, e)?,
        };
        Some(match name {
            Some(n) => ir::Const::StaticRef(n, Box::new(inner)),
            None => ir::Const::Ref(Box::new(inner)),
        })
    }

    fn stmt(&mut self, s: &StatementKind, body: &mir::Body) -> Option<ir::StmtKind> {
        Some(match s {
            StatementKind::Assign(p, r) => {
                let p2 = self.place(p);
                let r = self.rvalue(r, body);
                ir::StmtKind::Assign(p2, r)
            }
            StatementKind::SetDiscriminant { place, variant_index } => {
                ir::StmtKind::SetDiscr(self.place(place), variant_idx(variant_index))
            }
            StatementKind::StorageLive(l) => ir::StmtKind::Live(*l as u32),
            StatementKind::StorageDead(l) => ir::StmtKind::Dead(*l as u32),
            StatementKind::Intrinsic(mir::NonDivergingIntrinsic::Assume(o)) => {
                ir::StmtKind::Assume(self.operand(o))
            }
            StatementKind::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                ir::StmtKind::CopyNonOverlapping {
                    src: self.operand(&c.src),
                    dst: self.operand(&c.dst),
                    count: self.operand(&c.count),
                }
            }
            _ => return None,
        })
    }

    fn rvalue(&mut self, r: &Rvalue, body: &mir::Body) -> ir::Rvalue {
        match r {
            Rvalue::AddressOf(k, p) => {
                ir::Rvalue::AddrOf(k.to_mutable_lossy() == mir::Mutability::Mut, self.place(p))
            }
            Rvalue::Ref(_, k, p) => ir::Rvalue::Ref(k.to_mutable_lossy() == mir::Mutability::Mut, self.place(p)),
            Rvalue::Reborrow(_, m, p) => ir::Rvalue::Use(if *m == mir::Mutability::Mut {
                ir::Operand::Copy(self.place(p))
            } else {
                ir::Operand::Copy(self.place(p))
            }),
            Rvalue::Aggregate(k, ops) => {
                let o: Vec<ir::Operand> = ops.iter().map(|o| self.operand(o)).collect();
                let ty = r.ty(body.locals()).unwrap();
                let t = self.ty(ty);
                match k {
                    AggregateKind::Adt(_, v, _, _, union_field) => {
                        let _ = union_field;
                        ir::Rvalue::Agg(t, variant_idx(v), o)
                    }
                    AggregateKind::RawPtr(..) => ir::Rvalue::RawPtrAgg(t, o),
                    _ => ir::Rvalue::Agg(t, 0, o),
                }
            }
            Rvalue::BinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                ir::Rvalue::Bin(binop(*op), a, b)
            }
            Rvalue::CheckedBinaryOp(op, a, b) => {
                let (a, b) = (self.operand(a), self.operand(b));
                ir::Rvalue::CheckedBin(binop(*op), a, b)
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o);
                let t = self.ty(*t);
                use mir::CastKind::*;
                use mir::PointerCoercion::*;
                let k = match k {
                    IntToInt => ir::CastKind::IntToInt,
                    PtrToPtr => ir::CastKind::PtrToPtr,
                    Transmute | BoxDerefTransmute | Subtype => ir::CastKind::Transmute,
                    PointerCoercion(Unsize) => ir::CastKind::Unsize,
                    PointerCoercion(MutToConstPointer) | PointerCoercion(ArrayToPointer) => {
                        ir::CastKind::PtrToPtr
                    }
                    PointerCoercion(_) => ir::CastKind::ReifyFn,
                    PointerExposeAddress => ir::CastKind::PtrToInt,
                    PointerWithExposedProvenance => ir::CastKind::IntToPtr,
                    _ => ir::CastKind::Other,
                };
                ir::Rvalue::Cast(k, o, t)
            }
            Rvalue::CopyForDeref(p) => ir::Rvalue::Use(ir::Operand::Copy(self.place(p))),
            Rvalue::Discriminant(p) => ir::Rvalue::Discr(self.place(p)),
            Rvalue::Len(p) => ir::Rvalue::Len(self.place(p)),
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o);
                ir::Rvalue::Repeat(o, n.eval_target_usize().unwrap_or(u64::MAX))
            }
            Rvalue::ThreadLocalRef(_) => ir::Rvalue::ThreadLocal,
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(o);
                ir::Rvalue::Un(
                    match op {
                        mir::UnOp::Not => ir::UnOp::Not,
                        mir::UnOp::Neg => ir::UnOp::Neg,
                        mir::UnOp::PtrMetadata => ir::UnOp::PtrMetadata,
                    },
                    o,
                )
            }
            Rvalue::Use(o, _) => ir::Rvalue::Use(self.operand(o)),
        }
    }

    fn term(&mut self, t: &TerminatorKind, body: &mir::Body) -> ir::Term {
        match t {
            TerminatorKind::Goto { target } => ir::Term::Goto(*target as u32),
            TerminatorKind::SwitchInt { discr, targets } => {
                let dt = discr.ty(body.locals()).unwrap();
                ir::Term::Switch {
                    discr: self.operand(discr),
                    ty: self.ty(dt),
                    targets: targets.branches().map(|(v, b)| (v, b as u32)).collect(),
                    otherwise: targets.otherwise() as u32,
                }
            }
            TerminatorKind::Resume | TerminatorKind::Abort => ir::Term::Resume,
            TerminatorKind::Return => ir::Term::Return,
            TerminatorKind::Unreachable => ir::Term::Unreachable,
            TerminatorKind::Drop { place, target, .. } => {
                let pt = place.ty(body.locals()).unwrap();
                let inst = Instance::resolve_drop_in_place(pt);
                let glue = if inst.is_empty_shim() { None } else { Some(self.func(inst)) };
                ir::Term::Drop { place: self.place(place), ty: self.ty(pt), glue, target: *target as u32 }
            }
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let ft = func.ty(body.locals()).unwrap();
                let callee = match ft.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, ga)) => match resolve(def, &ga) {
                        Some(i) => ir::Callee::Fn(self.func(i)),
                        None => ir::Callee::Dynamic(self.operand(func)),
                    },
                    _ => ir::Callee::Dynamic(self.operand(func)),
                };
                ir::Term::Call {
                    callee,
                    args: args.iter().map(|a| self.operand(a)).collect(),
                    dest: self.place(destination),
                    target: target.map(|t| t as u32),
                }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => ir::Term::Assert {
                cond: self.operand(cond),
                expected: *expected,
                msg: format!("{}", msg.description().unwrap_or("assert")),
                target: *target as u32,
            },
            TerminatorKind::InlineAsm { .. } => ir::Term::Unreachable,
        }
    }
}

fn resolve(def: rustc_public::ty::FnDef, args: &GenericArgs) -> Option<Instance> {
    Instance::resolve(def, args).ok()
}

fn variant_idx<T: std::fmt::Debug>(v: &T) -> u32 {
    let s = format!("{v:?}");
    s.chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()
}

fn field_off(f: &FieldsShape, i: usize) -> Option<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|o| o.bytes()),
        FieldsShape::Union(_) => Some(0),
        FieldsShape::Array { stride, .. } => Some(stride.bytes() * i),
        FieldsShape::Primitive => Some(0),
    }
}

fn sign(v: u128, t: Ty) -> i128 {
    let b = match t.kind() {
        TyKind::RigidTy(RigidTy::Int(IntTy::I8)) => 8,
        TyKind::RigidTy(RigidTy::Int(IntTy::I16)) => 16,
        TyKind::RigidTy(RigidTy::Int(IntTy::I32)) => 32,
        TyKind::RigidTy(RigidTy::Int(IntTy::I64 | IntTy::Isize)) => 64,
        _ => return v as i128,
    };
    ((v << (128 - b)) as i128) >> (128 - b)
}

fn binop(o: mir::BinOp) -> ir::BinOp {
    use mir::BinOp::*;
    match o {
        Add => ir::BinOp::Add,
        AddUnchecked => ir::BinOp::AddUnchecked,
        Sub => ir::BinOp::Sub,
        SubUnchecked => ir::BinOp::SubUnchecked,
        Mul => ir::BinOp::Mul,
        MulUnchecked => ir::BinOp::MulUnchecked,
        Div => ir::BinOp::Div,
        Rem => ir::BinOp::Rem,
        BitXor => ir::BinOp::BitXor,
        BitAnd => ir::BinOp::BitAnd,
        BitOr => ir::BinOp::BitOr,
        Shl => ir::BinOp::Shl,
        ShlUnchecked => ir::BinOp::ShlUnchecked,
        Shr => ir::BinOp::Shr,
        ShrUnchecked => ir::BinOp::ShrUnchecked,
        Eq => ir::BinOp::Eq,
        Lt => ir::BinOp::Lt,
        Le => ir::BinOp::Le,
        Ne => ir::BinOp::Ne,
        Ge => ir::BinOp::Ge,
        Gt => ir::BinOp::Gt,
        Cmp => ir::BinOp::Cmp,
        Offset => ir::BinOp::Offset,
    }
}

#[allow(unused)]
fn unused(_: ClosureKind) {}
