//! C20: nothing but input, options and calls can influence the output.
//!
//! An effect query over the whole monomorphic call graph reachable from the
//! public entry points: no function whose result depends on time, environment,
//! randomness, threads, addresses or allocation sizes may be reachable, and no
//! code of the crate may touch mutable global state or turn addresses into
//! values. (That the crate has no unsafe code is checked by the compiler, see
//! tools/unsafe.sh.)
use crate::interp::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use vir::*;

/// Forbidden wherever they are reached from.
const DENY: &[(&str, &str)] = &[
    ("std::time::", "the clock"),
    ("std::sys::time", "the clock"),
    ("std::env::", "the environment"),
    ("std::process::", "the process"),
    ("std::net::", "the network"),
    ("std::fs::", "the file system"),
    ("std::os::", "the operating system"),
    ("std::io::stdin", "standard input"),
    ("std::io::Stdin", "standard input"),
    ("std::hash::random::", "randomness"),
    ("std::hash::RandomState", "randomness"),
    ("std::collections::hash_map::RandomState", "randomness"),
    ("std::random::", "randomness"),
    ("core::random::", "randomness"),
    ("std::thread::", "threads"),
    ("std::sync::", "shared mutable state"),
    ("core::sync::", "shared mutable state"),
    ("core::arch::", "the processor"),
    ("std::arch::", "the processor"),
    ("std_detect::", "the processor"),
    ("std::detect::", "the processor"),
    ("std::backtrace", "the call stack"),
    ("std::panic::catch_unwind", "panics"),
];
/// Forbidden when called by the crate itself.
const DENY_LOCAL: &[(&str, &str)] = &[
    ("::as_ptr", "an address"),
    ("::as_mut_ptr", "an address"),
    ("::as_ptr_range", "an address"),
    ("::as_mut_ptr_range", "an address"),
    ("::addr", "an address"),
    ("::expose_provenance", "an address"),
    ("::align_offset", "an address"),
    ("::is_aligned", "an address"),
    ("::align_to", "an address"),
    ("::as_chunks_unchecked", "an address"),
    ("std::ptr::eq", "an address"),
    ("core::ptr::eq", "an address"),
    ("std::ptr::addr_eq", "an address"),
    ("core::ptr::addr_eq", "an address"),
    ("std::ptr::hash", "an address"),
    ("::ptr_eq", "an address"),
    ("::new_pointer", "an address"),
    ("::capacity", "the size of an allocation"),
    ("::strong_count", "shared ownership"),
];

fn strip(p: &str) -> &str {
    p.trim_start_matches(['<', '&', '*'])
}

fn deny(path: &str, local_caller: bool) -> Option<&'static str> {
    let p = strip(path);
    for (d, w) in DENY {
        if p.starts_with(d) || path.contains(&format!(" as {d}")) {
            // Reference counting has no observable result.
            if p.starts_with("std::sync::Arc") {
                return None;
            }
            return Some(w);
        }
    }
    if local_caller {
        for (d, w) in DENY_LOCAL {
            if path == *d || path.ends_with(d) && d.starts_with("::") {
                return Some(w);
            }
        }
    }
    None
}

struct Q<'a> {
    pr: &'a Prog,
    cell: BTreeMap<TyId, bool>,
}

impl<'a> Q<'a> {
    /// Does the type contain interior mutability (not behind a pointer)?
    fn has_cell(&mut self, t: TyId) -> bool {
        if let Some(&b) = self.cell.get(&t) {
            return b;
        }
        self.cell.insert(t, false);
        let b = match self.pr.ty(t).kind.clone() {
            TyKind::Adt { path, variants, .. } => {
                path.ends_with("cell::UnsafeCell")
                    || variants.iter().any(|v| v.fields.iter().any(|f| self.has_cell(f.1)))
            }
            TyKind::Array { elem, .. } => self.has_cell(elem),
            TyKind::Slice(e) => self.has_cell(e),
            TyKind::Tuple(ts) => ts.iter().any(|t| self.has_cell(*t)),
            TyKind::Closure { fields } => fields.iter().any(|t| self.has_cell(*t)),
            TyKind::Ref { to, .. } => self.has_cell(to),
            _ => false,
        };
        self.cell.insert(t, b);
        b
    }
    fn is_ptr(&self, t: TyId) -> bool {
        matches!(self.pr.ty(t).kind, TyKind::Ptr { .. } | TyKind::FnPtr | TyKind::FnDef(_))
    }
    fn place_ty(&self, b: &Body, p: &Place) -> TyId {
        let mut t = b.locals[p.local as usize];
        for e in &p.proj {
            match e {
                Proj::Deref => {
                    t = match &self.pr.ty(t).kind {
                        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                        TyKind::Adt { args, .. } if !args.is_empty() => args[0],
                        _ => t,
                    }
                }
                Proj::Field(_, ft) => t = *ft,
                Proj::Index(_) | Proj::ConstIndex { .. } => t = self.pr.elem_of(t),
                _ => {}
            }
        }
        t
    }
    fn op_ty(&self, b: &Body, o: &Operand) -> Option<TyId> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => Some(self.place_ty(b, p)),
            Operand::Const(t, _) => Some(*t),
            Operand::Checks(_) => None,
        }
    }
}

fn operands(r: &Rvalue) -> Vec<&Operand> {
    match r {
        Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::Un(_, o) => vec![o],
        Rvalue::Bin(_, a, b) | Rvalue::CheckedBin(_, a, b) => vec![a, b],
        Rvalue::Agg(_, _, os) | Rvalue::RawPtrAgg(_, os) => os.iter().collect(),
        _ => vec![],
    }
}

fn succ(t: &Term) -> Vec<Block> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { discr: Operand::Const(_, Const::Int(v)), targets, otherwise, .. } => {
            vec![targets.iter().find(|(x, _)| x == v).map(|x| x.1).unwrap_or(*otherwise)]
        }
        Term::Switch { targets, otherwise, .. } => targets.iter().map(|x| x.1).chain([*otherwise]).collect(),
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}

/// The constants reachable in a constant (function items stored in it).
fn const_fns(c: &Const, out: &mut Vec<FnId>) {
    match c {
        Const::Fn(f) => out.push(*f),
        Const::Agg(v) | Const::Enum(_, v) | Const::Slice(v) => v.iter().for_each(|c| const_fns(c, out)),
        Const::Ref(c) | Const::StaticRef(_, c) => const_fns(c, out),
        _ => {}
    }
}

pub fn run(pr: &Prog, prop: &str) -> i32 {
    let mut log = Log::default();
    let mut q = Q { pr, cell: BTreeMap::new() };
    // Two walks: everything, and everything but what only destructors reach.
    let mut all: BTreeMap<FnId, Option<FnId>> = BTreeMap::new();
    for through_drop in [true, false] {
        let mut seen: BTreeMap<FnId, Option<FnId>> = BTreeMap::new();
        let mut wl = VecDeque::new();
        for (n, f) in &pr.p.roots {
            if !through_drop && n.ends_with("drop_encoder") {
                continue;
            }
            seen.insert(*f, None);
            wl.push_back(*f);
        }
        while let Some(f) = wl.pop_front() {
            let fun = &pr.p.fns[f as usize];
            for (g, file, line) in callees(pr, f) {
                let gf = &pr.p.fns[g as usize];
                let is_drop = gf.path.ends_with("ops::Drop>::drop") || gf.name.contains("drop_in_place");
                if is_drop && !through_drop {
                    continue;
                }
                let panicking = gf.path == "std::thread::panicking";
                if let Some(w) = deny(&gf.path, fun.local) {
                    let ok = panicking && through_drop;
                    let what = if panicking {
                        "the result of a call other than drop depends on threads".to_string()
                    } else {
                        format!("the result depends on {w}: {}", gf.path)
                    };
                    *log.sites.entry(format!("call of {}", gf.path)).or_default() += 1;
                    if !ok {
                        report(pr, &mut log, &seen, f, what, file, line);
                    }
                    continue;
                }
                if !seen.contains_key(&g) {
                    seen.insert(g, Some(f));
                    wl.push_back(g);
                }
            }
        }
        if through_drop {
            all = seen;
        }
    }
    let mut calls = 0u64;
    for &f in all.keys() {
        let fun = &pr.p.fns[f as usize];
        log.fns.insert(f);
        let Some(body) = &fun.body else { continue };
        let ours = fun.local;
        let mut seen = BTreeSet::from([0]);
        let mut wl = vec![0u32];
        while let Some(b) = wl.pop() {
            let bb = &body.blocks[b as usize];
            log.blocks += 1;
            for s in succ(&bb.term) {
                if seen.insert(s) {
                    wl.push(s);
                }
            }
            if matches!(bb.term, Term::Call { .. }) {
                calls += 1;
            }
            if !ours {
                continue;
            }
            let mut bad: Vec<(String, u32)> = vec![];
            let mut ops: Vec<(&Operand, u32)> = vec![];
            for s in &bb.stmts {
                if let StmtKind::Assign(_, r) = &s.kind {
                    match r {
                        Rvalue::Cast(CastKind::PtrToInt, ..) => {
                            bad.push(("the address of a value is used as a number".into(), s.line))
                        }
                        Rvalue::Cast(CastKind::Transmute, o, t) => {
                            if q.op_ty(body, o).is_some_and(|x| q.is_ptr(x)) && pr.ity(*t).is_some() {
                                bad.push(("the address of a value is used as a number".into(), s.line))
                            }
                        }
                        Rvalue::Bin(
                            BinOp::Eq | BinOp::Ne | BinOp::Lt | BinOp::Le | BinOp::Gt | BinOp::Ge | BinOp::Cmp,
                            a,
                            _,
                        ) => {
                            if q.op_ty(body, a).is_some_and(|x| q.is_ptr(x)) {
                                bad.push(("addresses of values are compared".into(), s.line))
                            }
                        }
                        Rvalue::ThreadLocal => bad.push(("a thread-local variable is used".into(), s.line)),
                        _ => {}
                    }
                    ops.extend(operands(r).into_iter().map(|o| (o, s.line)));
                }
            }
            match &bb.term {
                Term::Call { args, .. } => ops.extend(args.iter().map(|o| (o, bb.line))),
                Term::Switch { discr, .. } => ops.push((discr, bb.line)),
                _ => {}
            }
            for (o, l) in ops {
                let Operand::Const(t, c) = o else { continue };
                *log.sites.entry("constants that could refer to global state".into()).or_default() += 1;
                let k = &pr.ty(*t).kind;
                let st = match k {
                    TyKind::Ref { to, .. } => q.has_cell(*to),
                    TyKind::Ptr { mutable, to } => *mutable || q.has_cell(*to),
                    _ => false,
                };
                // Format strings and panic locations have no cells.
                if st && !matches!(c, Const::Zst) {
                    let n = match c {
                        Const::StaticRef(n, _) => n.as_str(),
                        _ => pr.ty(*t).name.as_str(),
                    };
                    bad.push((format!("mutable global state is used: {n}"), l));
                }
            }
            for (w, l) in bad {
                let file = pr.p.files[bb.file as usize].clone();
                report(pr, &mut log, &all, f, w, file, l);
            }
            *log.sites.entry("address uses, casts and comparisons in the crate's code".into()).or_default() +=
                bb.stmts.len() as u64;
        }
    }
    log.calls = calls;
    *log.sites.entry("calls in the reachable call graph".into()).or_default() += calls;
    log.notes.push(format!("{} functions reachable from {} entry points", all.len(), pr.p.roots.len()));
    if let Ok(e) = std::env::var("VUNSAFE") {
        *log.sites.entry("crate compiled with -F unsafe_code".into()).or_default() += 1;
        for l in std::fs::read_to_string(e).unwrap_or_default().lines() {
            let mut it = l.split('\t');
            let (file, line, what) = (it.next().unwrap_or(""), it.next().unwrap_or("0"), it.next().unwrap_or(""));
            log.violations.entry(l.to_string()).or_insert(Violation {
                what: format!("unsafe code: {what}"),
                file: file.into(),
                line: line.parse().unwrap_or(0),
                func: "deflate".into(),
                stack: vec![],
            });
        }
    }
    super::finish(pr, &log, prop)
}

fn report(pr: &Prog, log: &mut Log, seen: &BTreeMap<FnId, Option<FnId>>, f: FnId, what: String, file: String, line: u32) {
    let mut stack = vec![];
    let mut c = Some(f);
    let mut at = None;
    while let Some(x) = c {
        let g = &pr.p.fns[x as usize];
        stack.push(g.name.clone());
        if g.local && at.is_none() {
            at = Some(x);
        }
        c = seen.get(&x).copied().flatten();
    }
    let g = &pr.p.fns[at.unwrap_or(f) as usize];
    log.violations.entry(format!("{what} {}", g.name)).or_insert(Violation {
        what,
        file,
        line,
        func: g.name.clone(),
        stack,
    });
}

pub fn callees(pr: &Prog, f: FnId) -> Vec<(FnId, String, u32)> {
    let mut out = vec![];
    let Some(body) = &pr.p.fns[f as usize].body else { return out };
    let mut seen = BTreeSet::from([0]);
    let mut wl = vec![0u32];
    while let Some(b) = wl.pop() {
        let bb = &body.blocks[b as usize];
        let file = pr.p.files[bb.file as usize].clone();
        for s in succ(&bb.term) {
            if seen.insert(s) {
                wl.push(s);
            }
        }
        let mut fs = vec![];
        for s in &bb.stmts {
            if let StmtKind::Assign(_, r) = &s.kind {
                for o in operands(r) {
                    if let Operand::Const(_, c) = o {
                        const_fns(c, &mut fs);
                    }
                }
                if let Rvalue::Agg(t, _, _) = r {
                    // A closure that is created is taken to be called.
                    if let TyKind::FnDef(Some(g)) = pr.ty(*t).kind {
                        fs.push(g);
                    }
                }
            }
        }
        match &bb.term {
            Term::Call { callee, args, .. } => {
                if let Callee::Fn(g) = callee {
                    fs.push(*g);
                }
                for a in args {
                    if let Operand::Const(_, c) = a {
                        const_fns(c, &mut fs);
                    }
                }
            }
            Term::Drop { glue: Some(g), .. } => fs.push(*g),
            _ => {}
        }
        out.extend(fs.into_iter().map(|g| (g, file.clone(), bb.line)));
    }
    out
}
