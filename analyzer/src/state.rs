//! Abstract values, memory and state.
use crate::lin::*;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use vir::*;

/// Integer type: bits, and sign in the high bit.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ITy(pub u8);
impl ITy {
    pub fn new(bits: u32, signed: bool) -> ITy {
        ITy(if bits == 128 { 127 } else { bits as u8 } | if signed { 0x80 } else { 0 })
    }
    pub fn bits(self) -> u32 {
        let b = (self.0 & 0x7f) as u32;
        if b == 127 {
            128
        } else {
            b
        }
    }
    pub fn signed(self) -> bool {
        self.0 & 0x80 != 0
    }
    pub fn range(self) -> (i128, i128) {
        let b = self.bits();
        if b >= 100 {
            return (if self.signed() { -BIG } else { 0 }, BIG);
        }
        if self.signed() {
            (-(1i128 << (b - 1)), (1i128 << (b - 1)) - 1)
        } else {
            (0, (1i128 << b) - 1)
        }
    }
}
pub const USIZE: ITy = ITy(64);
pub const U8: ITy = ITy(8);

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Root {
    Local(u32, u32),
    Heap(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    F(u32),
    V(u32),
    E(Lin),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub root: Root,
    pub path: Rc<Vec<PE>>,
}
impl Ptr {
    pub fn root(root: Root) -> Ptr {
        Ptr { root, path: Rc::new(vec![]) }
    }
    pub fn push(&self, e: PE) -> Ptr {
        let mut p = (*self.path).clone();
        p.push(e);
        Ptr { root: self.root, path: Rc::new(p) }
    }
}

#[derive(Clone, Debug)]
pub enum Kind {
    /// Element i is `array[off + i]` of an immutable abstract array.
    Src(u32, Lin),
    Fill(Val),
    /// Element i is a*i + b.
    Aff(i128, i128),
    Elems(Rc<Vec<Val>>),
}

#[derive(Clone, Debug)]
pub struct Seg {
    pub end: Lin,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct Arr {
    pub elem: TyId,
    pub len: Lin,
    pub segs: Vec<Seg>,
}

/// A bit of a tracked bit vector.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Bit {
    Zero,
    One,
    Src(u32, u32),
    Any,
}

#[derive(Clone, Debug)]
pub enum Val {
    Uninit,
    Int(Lin, ITy),
    /// Booleans and field-less enums (as variant index).
    Disc(Lin),
    Agg(Rc<Vec<Val>>),
    Enum(Rc<BTreeMap<u32, Rc<Vec<Val>>>>),
    Ref(Ptr),
    Slice(Ptr, Lin, Lin),
    Arr(Rc<Arr>),
    /// slice::Iter / IterMut: container, next, end
    It(Ptr, Lin, Lin),
    Str,
    Fn(FnId),
    /// Opaque object; identity is the expression.
    Tok(Lin),
    Bv(Rc<Vec<Bit>>),
    Top(TyId),
}

#[derive(Clone, Debug)]
pub struct Frame {
    pub f: FnId,
    pub locals: Vec<Val>,
}

/// `stream[p + i] == stream[q + i]` for all i < n.
#[derive(Clone, Debug, PartialEq)]
pub struct EqFact {
    pub p: Lin,
    pub q: Lin,
    pub n: Lin,
}
/// `stream[p + i] == v` for all i < n.
#[derive(Clone, Debug, PartialEq)]
pub struct ValFact {
    pub p: Lin,
    pub n: Lin,
    pub v: Lin,
}

#[derive(Clone, Debug)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub heap: Rc<BTreeMap<u32, Val>>,
    pub cons: Rc<Cons>,
    pub ghost: Rc<BTreeMap<&'static str, Val>>,
    pub eqf: Rc<Vec<EqFact>>,
    pub valf: Rc<Vec<ValFact>>,
    /// Variables bound by the join that made this state.
    pub binders: Rc<Vec<Sym>>,
}

impl State {
    pub fn new() -> State {
        State {
            frames: vec![],
            heap: Default::default(),
            cons: Default::default(),
            ghost: Default::default(),
            eqf: Default::default(),
            valf: Default::default(),
            binders: Default::default(),
        }
    }
    pub fn cons_mut(&mut self) -> &mut Cons {
        Rc::make_mut(&mut self.cons)
    }
    pub fn add_ge(&mut self, l: &Lin) {
        self.cons_mut().add_ge(l)
    }
    pub fn add_eq(&mut self, l: &Lin) {
        self.cons_mut().add_eq(l)
    }
    pub fn ge(&self, l: &Lin) -> bool {
        self.cons.entails_ge(l)
    }
    pub fn le(&self, a: &Lin, b: &Lin) -> bool {
        self.cons.entails_ge(&b.sub(a))
    }
    pub fn lt(&self, a: &Lin, b: &Lin) -> bool {
        self.cons.entails_ge(&b.sub(a).addk(-1))
    }
    pub fn eq(&self, a: &Lin, b: &Lin) -> bool {
        a == b || self.cons.entails_eq(&a.sub(b))
    }
    pub fn norm(&self, l: &Lin) -> Lin {
        self.cons.norm(l)
    }
    pub fn konst(&self, l: &Lin) -> Option<i128> {
        self.cons.norm(l).is_k()
    }
    pub fn root(&self, r: Root) -> Option<&Val> {
        match r {
            Root::Local(d, l) => self.frames.get(d as usize)?.locals.get(l as usize),
            Root::Heap(h) => self.heap.get(&h),
        }
    }
    pub fn set_root(&mut self, r: Root, v: Val) {
        match r {
            Root::Local(d, l) => {
                if let Some(f) = self.frames.get_mut(d as usize) {
                    Rc::make_mut(f).locals[l as usize] = v;
                }
            }
            Root::Heap(h) => {
                Rc::make_mut(&mut self.heap).insert(h, v);
            }
        }
    }
    fn take_root(&mut self, r: Root) -> Val {
        match r {
            Root::Local(d, l) => match self.frames.get_mut(d as usize) {
                Some(f) => {
                    std::mem::replace(&mut Rc::make_mut(f).locals[l as usize], Val::Uninit)
                }
                None => Val::Uninit,
            },
            Root::Heap(h) => {
                Rc::make_mut(&mut self.heap).insert(h, Val::Uninit).unwrap_or(Val::Uninit)
            }
        }
    }
    pub fn g(&self, k: &'static str) -> Val {
        self.ghost.get(k).cloned().unwrap_or(Val::Uninit)
    }
    pub fn gi(&self, k: &'static str) -> Lin {
        match self.ghost.get(k) {
            Some(Val::Int(l, _)) | Some(Val::Disc(l)) | Some(Val::Tok(l)) => l.clone(),
            _ => Lin::k(0),
        }
    }
    /// Finite ghost state.
    pub fn gd(&self, k: &'static str) -> i128 {
        match self.ghost.get(k) {
            Some(Val::Disc(l)) => l.is_k().unwrap_or(-1),
            _ => 0,
        }
    }
    pub fn set_gi(&mut self, k: &'static str, l: Lin) {
        Rc::make_mut(&mut self.ghost).insert(k, Val::Int(l, ITy(0x80 | 100)));
    }
    pub fn set_gd(&mut self, k: &'static str, v: i128) {
        Rc::make_mut(&mut self.ghost).insert(k, Val::Disc(Lin::k(v)));
    }
}

/// Immutable abstract arrays.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum ArrId {
    Stream,
    Const(Vec<i128>),
    Tok(u32),
    App(Rc<str>, Vec<u32>),
}
pub struct ArrTab {
    pub v: Vec<ArrId>,
    pub m: std::collections::HashMap<ArrId, u32>,
}
thread_local! {
    pub static ARRS: std::cell::RefCell<ArrTab> = std::cell::RefCell::new(ArrTab { v: vec![], m: Default::default() });
}
pub fn arr_id(a: ArrId) -> u32 {
    ARRS.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&i) = t.m.get(&a) {
            return i;
        }
        let n = t.v.len() as u32;
        t.v.push(a.clone());
        t.m.insert(a, n);
        n
    })
}
pub fn arr_tok() -> u32 {
    ARRS.with(|t| {
        let mut t = t.borrow_mut();
        let n = t.v.len() as u32;
        t.v.push(ArrId::Tok(n));
        n
    })
}
pub fn arr_get(i: u32) -> ArrId {
    ARRS.with(|t| t.borrow().v[i as usize].clone())
}

pub struct Prog {
    pub p: Program,
    pub by_name: BTreeMap<String, FnId>,
    pub cenum: Vec<bool>,
}

impl Prog {
    pub fn new(p: Program) -> Prog {
        let mut by_name = BTreeMap::new();
        for (i, f) in p.fns.iter().enumerate() {
            by_name.insert(f.name.clone(), i as FnId);
        }
        let cenum = p
            .types
            .iter()
            .map(|t| match &t.kind {
                TyKind::Adt { kind: AdtKind::Enum, variants, .. } => {
                    !variants.is_empty() && variants.iter().all(|v| v.fields.is_empty())
                }
                TyKind::Bool => true,
                _ => false,
            })
            .collect();
        Prog { p, by_name, cenum }
    }
    pub fn ty(&self, t: TyId) -> &Type {
        &self.p.types[t as usize]
    }
    pub fn adt(&self, t: TyId) -> Option<&str> {
        match &self.ty(t).kind {
            TyKind::Adt { path, .. } => Some(path),
            _ => None,
        }
    }
    pub fn is_vec(&self, t: TyId) -> bool {
        matches!(self.adt(t), Some("std::vec::Vec") | Some("alloc::vec::Vec"))
    }
    pub fn is_box(&self, t: TyId) -> bool {
        matches!(self.adt(t), Some("std::boxed::Box") | Some("alloc::boxed::Box"))
    }
    pub fn is_ioerr(&self, t: TyId) -> bool {
        matches!(self.adt(t), Some("std::io::Error") | Some("core::io::error::Error"))
    }
    pub fn is_opaque_adt(&self, t: TyId) -> bool {
        match self.adt(t) {
            Some(p) => {
                p.starts_with("adler32::")
                    || p.starts_with("crc32fast::")
                    || p == "vharness::W"
                    || p == "gzip_header::GzBuilder"
                    || p == "gzip_header::Crc"
            }
            None => false,
        }
    }
    pub fn elem_of(&self, t: TyId) -> TyId {
        match &self.ty(t).kind {
            TyKind::Adt { args, .. } => args[0],
            TyKind::Array { elem, .. } => *elem,
            TyKind::Slice(e) => *e,
            _ => t,
        }
    }
    pub fn ity(&self, t: TyId) -> Option<ITy> {
        match &self.ty(t).kind {
            TyKind::Int { bits, signed } => Some(ITy::new(*bits, *signed)),
            TyKind::Char => Some(ITy::new(32, false)),
            _ => None,
        }
    }
    pub fn field_ty(&self, t: TyId, variant: u32, i: u32) -> Option<TyId> {
        match &self.ty(t).kind {
            TyKind::Adt { variants, .. } => {
                variants.get(variant as usize)?.fields.get(i as usize).map(|f| f.1)
            }
            TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.get(i as usize).copied(),
            _ => None,
        }
    }
}

pub fn fresh_int(t: ITy, hint: &str) -> Val {
    let (lo, hi) = t.range();
    Val::Int(Lin::s(fresh(lo, hi, hint)), t)
}

/// Make an unknown value of a type explicit, one level deep.
/// Heap roots from here on are constants of the program.
pub const CONSTS: u32 = 0x8000_0000;
/// A new root for an object of type ty; the type can be read off the number.
pub fn new_id(heap: &BTreeMap<u32, Val>, ty: TyId) -> u32 {
    let base = (ty + 1) << 12;
    heap.range(base..base + 4096).next_back().map_or(base, |k| *k.0 + 1)
}
pub const NOTY: TyId = 0x7fff0;
pub fn id_ty(h: u32) -> Option<TyId> {
    if h < 4096 || h >= CONSTS {
        None
    } else {
        Some((h >> 12) - 1)
    }
}

pub fn expand(pr: &Prog, heap: &mut BTreeMap<u32, Val>, ty: TyId) -> Val {
    if let Some(t) = pr.ity(ty) {
        return fresh_int(t, "u");
    }
    if pr.is_vec(ty) {
        let len = Lin::s(fresh(0, i64::MAX as i128, "len"));
        return Val::Arr(Rc::new(Arr {
            elem: pr.elem_of(ty),
            segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
            len,
        }));
    }
    if matches!(pr.adt(ty), Some("std::slice::Iter") | Some("std::slice::IterMut")) {
        if let TyKind::Adt { args, .. } = &pr.ty(ty).kind {
            let h = new_id(heap, NOTY);
            let len = Lin::s(fresh(0, i64::MAX as i128, "len"));
            heap.insert(
                h,
                Val::Arr(Rc::new(Arr {
                    elem: args[0],
                    segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                    len: len.clone(),
                })),
            );
            return Val::It(Ptr::root(Root::Heap(h)), Lin::k(0), len);
        }
    }
    if pr.is_ioerr(ty) {
        return Val::Disc(Lin::s(fresh(0, 43, "errkind")));
    }
    if pr.is_opaque_adt(ty) {
        return Val::Tok(Lin::s(fresh(-BIG, BIG, "obj")));
    }
    if pr.is_box(ty) {
        let to = pr.elem_of(ty);
        let h = new_id(heap, to);
        heap.insert(h, Val::Top(to));
        return Val::Ref(Ptr::root(Root::Heap(h)));
    }
    match &pr.ty(ty).kind {
        TyKind::Bool => Val::Disc(Lin::s(fresh(0, 1, "b"))),
        TyKind::Adt { kind: AdtKind::Enum, variants, .. } => {
            if pr.cenum[ty as usize] {
                if variants.len() == 1 {
                    Val::Disc(Lin::k(0))
                } else {
                    Val::Disc(Lin::s(fresh(0, variants.len() as i128 - 1, "e")))
                }
            } else {
                let mut m = BTreeMap::new();
                for (i, v) in variants.iter().enumerate() {
                    if v.fields.iter().any(|f| matches!(pr.ty(f.1).kind, TyKind::Never)) {
                        continue;
                    }
                    m.insert(i as u32, Rc::new(v.fields.iter().map(|f| Val::Top(f.1)).collect()));
                }
                Val::Enum(Rc::new(m))
            }
        }
        TyKind::Adt { kind: AdtKind::Struct, variants, .. } => {
            Val::Agg(Rc::new(variants[0].fields.iter().map(|f| Val::Top(f.1)).collect()))
        }
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => {
            Val::Agg(Rc::new(v.iter().map(|f| Val::Top(*f)).collect()))
        }
        TyKind::Array { elem, len } => {
            let len = Lin::k(*len as i128);
            Val::Arr(Rc::new(Arr {
                elem: *elem,
                segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                len,
            }))
        }
        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => match &pr.ty(*to).kind {
            TyKind::Slice(e) => {
                let h = new_id(heap, *to);
                let len = Lin::s(fresh(0, i64::MAX as i128, "len"));
                heap.insert(
                    h,
                    Val::Arr(Rc::new(Arr {
                        elem: *e,
                        segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                        len: len.clone(),
                    })),
                );
                Val::Slice(Ptr::root(Root::Heap(h)), Lin::k(0), len)
            }
            TyKind::Str | TyKind::Dyn => Val::Str,
            _ => {
                let h = new_id(heap, *to);
                heap.insert(h, Val::Top(*to));
                Val::Ref(Ptr::root(Root::Heap(h)))
            }
        },
        TyKind::FnDef(Some(f)) => Val::Fn(*f),
        _ => Val::Tok(Lin::s(fresh(-BIG, BIG, "t"))),
    }
}

/// Element `e` of an abstract array, as a value of type ty.
pub fn load_src(pr: &Prog, st_cons: &mut Cons, id: u32, e: &Lin, ty: TyId, path: &mut Vec<u32>) -> Val {
    let e = &st_cons.norm(e);
    if let Some(it) = pr.ity(ty) {
        if path.is_empty() {
            if let ArrId::Const(tab) = arr_get(id) {
                if let Some(k) = e.is_k() {
                    if k >= 0 && (k as usize) < tab.len() {
                        return Val::Int(Lin::k(tab[k as usize]), it);
                    }
                }
                let (mut lo, mut hi) = st_cons.interval(e);
                lo = lo.max(0);
                hi = hi.min(tab.len() as i128 - 1);
                // Relational constraints may bound the index further.
                while lo < hi && hi - lo < 4096 && st_cons.entails_ge(&e.addk(-lo - 1)) {
                    lo += 1;
                }
                while lo < hi && hi - lo < 4096 && st_cons.entails_ge(&e.neg().addk(hi - 1)) {
                    hi -= 1;
                }
                if lo <= hi {
                    let s = &tab[lo as usize..=hi as usize];
                    let (mn, mx) = (*s.iter().min().unwrap(), *s.iter().max().unwrap());
                    if mn == mx {
                        return Val::Int(Lin::k(mn), it);
                    }
                    let sy = defsym(
                        Def::Load(id, e.clone(), vec![]),
                        *tab.iter().min().unwrap(),
                        *tab.iter().max().unwrap(),
                    );
                    let l = Lin::s(sy);
                    st_cons.add_ge(&l.addk(-mn));
                    st_cons.add_ge(&l.neg().addk(mx));
                    return Val::Int(l, it);
                }
            }
        }
        let (lo, hi) = it.range();
        return Val::Int(Lin::s(defsym(Def::Load(id, e.clone(), path.clone()), lo, hi)), it);
    }
    if pr.cenum[ty as usize] {
        let n = match &pr.ty(ty).kind {
            TyKind::Adt { variants, .. } => variants.len() as i128,
            _ => 2,
        };
        return Val::Disc(Lin::s(defsym(Def::Load(id, e.clone(), path.clone()), 0, n - 1)));
    }
    match &pr.ty(ty).kind {
        TyKind::Adt { kind: AdtKind::Struct, variants, .. } => {
            let fs: Vec<TyId> = variants[0].fields.iter().map(|f| f.1).collect();
            let mut o = vec![];
            for (i, f) in fs.iter().enumerate() {
                path.push(i as u32);
                o.push(load_src(pr, st_cons, id, e, *f, path));
                path.pop();
            }
            Val::Agg(Rc::new(o))
        }
        TyKind::Adt { kind: AdtKind::Enum, variants, .. } => {
            let mut m = BTreeMap::new();
            for (vi, v) in variants.iter().enumerate() {
                let mut o = vec![];
                for (i, f) in v.fields.iter().enumerate() {
                    path.push(1000 + vi as u32 * 16 + i as u32);
                    o.push(load_src(pr, st_cons, id, e, f.1, path));
                    path.pop();
                }
                m.insert(vi as u32, Rc::new(o));
            }
            Val::Enum(Rc::new(m))
        }
        _ => Val::Top(ty),
    }
}

/// Find the segment that contains index i.
pub fn seg_of(cons: &Cons, a: &Arr, i: &Lin) -> Option<(usize, Lin)> {
    let mut start = Lin::k(0);
    let i = cons.norm(i);
    for (k, s) in a.segs.iter().enumerate() {
        let last = k + 1 == a.segs.len();
        // Invariant: start <= i.
        if last || cons.entails_ge(&s.end.sub(&i).addk(-1)) {
            return Some((k, start));
        }
        if !cons.entails_ge(&i.sub(&s.end)) {
            return None;
        }
        start = s.end.clone();
    }
    None
}

pub fn arr_load(pr: &Prog, cons: &mut Cons, heap: &mut BTreeMap<u32, Val>, a: &Arr, i: &Lin) -> Val {
    match seg_of(cons, a, i) {
        None => {
            // All candidate segments equal constants?
            expand_deep(pr, heap, a.elem)
        }
        Some((k, start)) => match &a.segs[k].kind {
            Kind::Src(id, off) => load_src(pr, cons, *id, &off.add(i), a.elem, &mut vec![]),
            Kind::Fill(v) => v.clone(),
            Kind::Aff(x, b) => {
                let it = pr.ity(a.elem).unwrap_or(USIZE);
                Val::Int(i.scale(*x).addk(*b), it)
            }
            Kind::Elems(v) => {
                let k = cons.norm(&i.sub(&start)).is_k();
                match k {
                    Some(k) if k >= 0 && (k as usize) < v.len() => v[k as usize].clone(),
                    _ => expand_deep(pr, heap, a.elem),
                }
            }
        },
    }
}

pub fn expand_deep(pr: &Prog, heap: &mut BTreeMap<u32, Val>, ty: TyId) -> Val {
    match expand(pr, heap, ty) {
        Val::Agg(v) => Val::Agg(Rc::new(
            v.iter()
                .map(|x| match x {
                    Val::Top(t) => expand_deep(pr, heap, *t),
                    o => o.clone(),
                })
                .collect(),
        )),
        o => o,
    }
}

/// Collect the segments covering [s, e) of an array, re-based to 0.
/// None if the bounds cannot be located.
pub fn arr_slice(cons: &Cons, a: &Arr, s: &Lin, e: &Lin) -> Option<Vec<Seg>> {
    let mut out = vec![];
    if cons.entails_eq(&e.sub(s)) {
        return Some(out);
    }
    let mut start = Lin::k(0);
    let mut cur = cons.norm(s);
    let e = cons.norm(e);
    for (k, g) in a.segs.iter().enumerate() {
        let last = k + 1 == a.segs.len();
        // skip segments that end at or before cur
        if !last && cons.entails_ge(&cur.sub(&g.end)) {
            start = g.end.clone();
            continue;
        }
        if !last && !cons.entails_ge(&g.end.sub(&cur)) {
            return None;
        }
        // cur in [start, g.end]
        let ends_here = last || cons.entails_ge(&g.end.sub(&e));
        if !ends_here && !cons.entails_ge(&e.sub(&g.end)) {
            return None;
        }
        let stop = if ends_here { e.clone() } else { g.end.clone() };
        let kind = match &g.kind {
            Kind::Src(id, off) => Kind::Src(*id, off.add(s)),
            Kind::Fill(v) => Kind::Fill(v.clone()),
            Kind::Aff(x, b) => {
                let d = cons.norm(s).is_k()?;
                Kind::Aff(*x, x * d + b)
            }
            Kind::Elems(v) => {
                let from = cons.norm(&cur.sub(&start)).is_k()?;
                let to = cons.norm(&stop.sub(&start)).is_k()?;
                if from < 0 || to < from || to as usize > v.len() {
                    return None;
                }
                Kind::Elems(Rc::new(v[from as usize..to as usize].to_vec()))
            }
        };
        out.push(Seg { end: stop.sub(s), kind });
        if ends_here {
            return Some(out);
        }
        start = g.end.clone();
        cur = stop;
    }
    None
}

/// Replace [s, s+n) by the given segments (rebased to 0, last end == n).
/// Returns false when the location could not be resolved (content is lost).
pub fn arr_splice(cons: &Cons, a: &mut Arr, s: &Lin, n: &Lin, with: &[Seg]) -> bool {
    splice(cons, a, s, n, with, true)
}
/// The kinds of `with` count from where it goes, or from the array's start.
fn splice(cons: &Cons, a: &mut Arr, s: &Lin, n: &Lin, with: &[Seg], relative: bool) -> bool {
    if cons.entails_eq(n) {
        return true;
    }
    let e = s.add(n);
    let len = a.len.clone();
    let pre = prefix(cons, a, s);
    let post = arr_slice(cons, a, &e, &len);
    match (pre, post) {
        (Some(mut pre), Some(post)) => {
            for g in with {
                let kind = if relative { shift(&g.kind, s) } else { g.kind.clone() };
                pre.push(Seg { end: g.end.add(s), kind });
            }
            for g in post {
                pre.push(Seg { end: g.end.add(&e), kind: shift(&g.kind, &e) });
            }
            a.segs = pre;
            canon(cons, a);
            true
        }
        _ => {
            a.segs = vec![Seg { end: a.len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }];
            false
        }
    }
}
fn prefix(cons: &Cons, a: &Arr, s: &Lin) -> Option<Vec<Seg>> {
    arr_slice(cons, a, &Lin::k(0), s)
}
/// Undo the re-basing done by arr_slice.
pub fn shift(k: &Kind, s: &Lin) -> Kind {
    match k {
        Kind::Src(id, off) => Kind::Src(*id, off.sub(s)),
        Kind::Aff(x, b) => match s.is_k() {
            Some(d) => Kind::Aff(*x, b - x * d),
            None => Kind::Src(arr_tok(), Lin::k(0)),
        },
        k => k.clone(),
    }
}

/// Drop empty segments and merge equal neighbours.
pub fn canon(cons: &Cons, a: &mut Arr) {
    let mut out: Vec<Seg> = vec![];
    let mut start = Lin::k(0);
    for g in a.segs.drain(..) {
        if cons.entails_eq(&g.end.sub(&start)) {
            continue;
        }
        let merged = match (out.last_mut(), &g.kind) {
            (Some(p), k) => {
                let same = match (&p.kind, k) {
                    (Kind::Src(i, o), Kind::Src(j, q)) => i == j && cons.entails_eq(&o.sub(q)),
                    (Kind::Fill(Val::Int(x, _)), Kind::Fill(Val::Int(y, _))) => {
                        cons.entails_eq(&x.sub(y))
                    }
                    (Kind::Fill(Val::Disc(x)), Kind::Fill(Val::Disc(y))) => {
                        cons.entails_eq(&x.sub(y))
                    }
                    (Kind::Aff(a, b), Kind::Aff(c, d)) => a == c && b == d,
                    _ => false,
                };
                if same {
                    p.end = g.end.clone();
                    true
                } else if let (Kind::Elems(x), Kind::Elems(y)) = (&p.kind, k) {
                    let mut z = (**x).clone();
                    z.extend(y.iter().cloned());
                    p.kind = Kind::Elems(Rc::new(z));
                    p.end = g.end.clone();
                    true
                } else {
                    false
                }
            }
            _ => false,
        };
        start = g.end.clone();
        if !merged {
            out.push(g);
        }
    }
    if out.len() > 10 {
        out = vec![Seg { end: a.len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }];
    }
    // The last segment always reaches the end.
    if let Some(l) = out.last_mut() {
        l.end = a.len.clone();
    }
    a.segs = out;
}

pub struct Mem<'a> {
    pub pr: &'a Prog,
}

impl State {
    fn get_in(&self, v: &Val, path: &[PE]) -> Option<Val> {
        if path.is_empty() {
            return match v {
                Val::Top(_) => None,
                v => Some(v.clone()),
            };
        }
        match (&path[0], v) {
            (PE::F(i), Val::Agg(a)) => self.get_in(a.get(*i as usize)?, &path[1..]),
            (PE::F(_), Val::Ref(_) | Val::Slice(..)) => self.get_in(v, &path[1..]),
            (PE::V(k), Val::Enum(m)) => match path.get(1) {
                Some(PE::F(i)) => self.get_in(m.get(k)?.get(*i as usize)?, &path[2..]),
                _ => None,
            },
            _ => None,
        }
    }

    /// Read the value at a pointer.
    pub fn get(&mut self, pr: &Prog, p: &Ptr, ty: Option<TyId>) -> Val {
        if let Some(r) = self.root(p.root) {
            if let Some(v) = self.get_in(r, &p.path) {
                if !matches!(v, Val::Uninit) {
                    return v;
                }
            }
        }
        // Slow path: materialise unknown parts.
        let mut root = self.take_root(p.root);
        let mut cons = (*self.cons).clone();
        let mut heap = std::mem::take(Rc::make_mut(&mut self.heap));
        let v = at(pr, &mut cons, &mut heap, &mut root, &p.path, None, ty);
        self.heap = Rc::new(heap);
        self.cons = Rc::new(cons);
        self.set_root(p.root, root);
        v
    }

    pub fn set(&mut self, pr: &Prog, p: &Ptr, v: Val) {
        if p.path.is_empty() {
            self.set_root(p.root, v);
            return;
        }
        let mut root = self.take_root(p.root);
        let mut cons = (*self.cons).clone();
        let mut heap = std::mem::take(Rc::make_mut(&mut self.heap));
        at(pr, &mut cons, &mut heap, &mut root, &p.path, Some(v), None);
        self.heap = Rc::new(heap);
        self.cons = Rc::new(cons);
        self.set_root(p.root, root);
    }
}

fn at(
    pr: &Prog,
    cons: &mut Cons,
    heap: &mut BTreeMap<u32, Val>,
    v: &mut Val,
    path: &[PE],
    new: Option<Val>,
    ty: Option<TyId>,
) -> Val {
    if path.is_empty() {
        if let Some(n) = new {
            *v = n;
            return Val::Uninit;
        }
        if let Val::Top(t) = v {
            *v = expand(pr, heap, *t);
        }
        if let (Val::Uninit, Some(t)) = (&v, ty) {
            *v = expand(pr, heap, t);
        }
        return v.clone();
    }
    if let Val::Top(t) = v {
        *v = expand(pr, heap, *t);
    }
    match &path[0] {
        PE::F(i) => match v {
            Val::Agg(a) => {
                let a = Rc::make_mut(a);
                while a.len() <= *i as usize {
                    a.push(Val::Uninit);
                }
                at(pr, cons, heap, &mut a[*i as usize], &path[1..], new, ty)
            }
            Val::Ref(_) | Val::Slice(..) => at(pr, cons, heap, v, &path[1..], new, ty),
            Val::Uninit => {
                let mut a = vec![];
                while a.len() <= *i as usize {
                    a.push(Val::Uninit);
                }
                let r = at(pr, cons, heap, &mut a[*i as usize], &path[1..], new, ty);
                *v = Val::Agg(Rc::new(a));
                r
            }
            _ => {
                if new.is_some() {
                    spoil(v);
                }
                match (new, ty) {
                    (None, Some(t)) => expand(pr, heap, t),
                    _ => Val::Uninit,
                }
            }
        },
        PE::V(k) => match v {
            Val::Enum(m) => {
                let i = match path.get(1) {
                    Some(PE::F(i)) => *i as usize,
                    _ => return Val::Uninit,
                };
                let m = Rc::make_mut(m);
                match m.get_mut(k) {
                    Some(f) => {
                        let f = Rc::make_mut(f);
                        while f.len() <= i {
                            f.push(Val::Uninit);
                        }
                        at(pr, cons, heap, &mut f[i], &path[2..], new, ty)
                    }
                    None => match ty {
                        Some(t) if new.is_none() => expand(pr, heap, t),
                        _ => Val::Uninit,
                    },
                }
            }
            _ => {
                if new.is_some() {
                    spoil(v);
                }
                match ty {
                    Some(t) if new.is_none() => expand(pr, heap, t),
                    _ => Val::Uninit,
                }
            }
        },
        PE::E(i) => match v {
            Val::Arr(a) => {
                let mut e = if path.len() == 1 && new.is_some() {
                    Val::Uninit
                } else {
                    arr_load(pr, cons, heap, a, i)
                };
                let wr = new.is_some();
                let r = at(pr, cons, heap, &mut e, &path[1..], new, ty);
                if wr {
                    arr_store(pr, cons, Rc::make_mut(a), i, e);
                }
                r
            }
            _ => {
                if new.is_some() {
                    spoil(v);
                }
                match ty {
                    Some(t) if new.is_none() => expand(pr, heap, t),
                    _ => Val::Uninit,
                }
            }
        },
    }
}

/// The value was written in a way that does not fit its shape.
fn spoil(v: &mut Val) {
    *v = match v {
        Val::Arr(a) => {
            let len = Lin::s(fresh(0, i64::MAX as i128, "len"));
            Val::Arr(Rc::new(Arr {
                elem: a.elem,
                segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                len,
            }))
        }
        _ => Val::Uninit,
    };
}

/// Make an unknown value explicit, all levels (recursion through pointers is cut).
pub fn expand_full(pr: &Prog, heap: &mut BTreeMap<u32, Val>, ty: TyId, depth: u32) -> Val {
    let v = expand(pr, heap, ty);
    if depth > 12 {
        return v;
    }
    full(pr, heap, v, depth)
}
fn full(pr: &Prog, heap: &mut BTreeMap<u32, Val>, v: Val, depth: u32) -> Val {
    match v {
        Val::Top(t) => expand_full(pr, heap, t, depth + 1),
        Val::Agg(f) => Val::Agg(Rc::new(f.iter().map(|x| full(pr, heap, x.clone(), depth)).collect())),
        Val::Enum(m) => Val::Enum(Rc::new(
            m.iter()
                .map(|(k, f)| (*k, Rc::new(f.iter().map(|x| full(pr, heap, x.clone(), depth)).collect())))
                .collect(),
        )),
        Val::Ref(p) => {
            if let (Root::Heap(h), true) = (p.root, p.path.is_empty()) {
                if let Some(Val::Top(t)) = heap.get(&h).cloned() {
                    if depth < 6 {
                        let n = expand_full(pr, heap, t, depth + 1);
                        heap.insert(h, n);
                    }
                }
            }
            Val::Ref(p)
        }
        v => v,
    }
}

pub fn arr_store(_pr: &Prog, cons: &mut Cons, a: &mut Arr, i: &Lin, v: Val) {
    let i = cons.norm(i);
    if let (Some(k), true) = (i.is_k(), a.segs.len() == 1) {
        if let Kind::Elems(e) = &mut a.segs[0].kind {
            if k >= 0 && (k as usize) < e.len() {
                Rc::make_mut(e)[k as usize] = v;
                return;
            }
        }
    }
    let one = Lin::k(1);
    let kind = match (&v, i.is_k()) {
        // Part of an arithmetic progression with the neighbour below?
        (Val::Int(l, _), _) => {
            let d = cons.norm(&l.sub(&i));
            match d.is_k() {
                Some(b) if i.is_k().is_none() || a.segs.len() > 1 || big(a) => {
                    // Storing zero at the start of zeros may begin 0, 1, 2, ...
                    let first = i.is_k() == Some(0) && b == 0 && a.segs.len() == 1;
                    if !first && is_fill_const(a, cons, &i, l) {
                        Kind::Fill(v.clone())
                    } else {
                        Kind::Aff(1, b)
                    }
                }
                _ => Kind::Fill(v.clone()),
            }
        }
        _ => Kind::Fill(v.clone()),
    };
    splice(cons, a, &i, &one, &[Seg { end: one.clone(), kind }], false);
}
fn big(a: &Arr) -> bool {
    a.len.is_k().map_or(true, |k| k > 64)
}
fn is_fill_const(a: &Arr, cons: &Cons, i: &Lin, l: &Lin) -> bool {
    // A constant store next to a fill with the same constant.
    if l.is_k().is_none() || i.is_k().is_none() {
        return false;
    }
    let mut start = Lin::k(0);
    for s in &a.segs {
        if let Kind::Fill(Val::Int(x, _)) = &s.kind {
            if x == l && (cons.entails_eq(&s.end.sub(i)) || cons.entails_eq(&start.sub(i))) {
                return true;
            }
        }
        start = s.end.clone();
    }
    false
}

pub fn hash_shape<H: Hasher>(v: &Val, c: &Cons, h: &mut H, soft: bool) {
    match v {
        Val::Uninit => 0u8.hash(h),
        Val::Int(l, _) => {
            1u8.hash(h);
            if soft {
                (c.norm(l).is_k() == Some(0)).hash(h);
            }
        }
        Val::Disc(l) => {
            2u8.hash(h);
            c.norm(l).is_k().hash(h);
        }
        Val::Agg(a) => {
            if a.is_empty() {
                0u8.hash(h);
                return;
            }
            3u8.hash(h);
            for x in a.iter() {
                hash_shape(x, c, h, soft);
            }
        }
        Val::Enum(m) => {
            4u8.hash(h);
            for (k, f) in m.iter() {
                k.hash(h);
                for x in f.iter() {
                    hash_shape(x, c, h, soft);
                }
            }
        }
        Val::Ref(p) => {
            5u8.hash(h);
            hash_ptr(p, h);
        }
        Val::Slice(p, s, e) => {
            6u8.hash(h);
            hash_ptr(p, h);
            (c.norm(&e.sub(s)).is_k() == Some(0)).hash(h);
        }
        Val::Arr(_) => 7u8.hash(h),
        Val::It(p, s, e) => {
            8u8.hash(h);
            hash_ptr(p, h);
            (c.norm(&e.sub(s)).is_k() == Some(0)).hash(h);
        }
        Val::Str => 9u8.hash(h),
        Val::Fn(f) => {
            10u8.hash(h);
            f.hash(h);
        }
        Val::Tok(_) => 11u8.hash(h),
        Val::Bv(b) => {
            12u8.hash(h);
            b.len().hash(h);
        }
        Val::Top(t) => {
            13u8.hash(h);
            t.hash(h);
        }
    }
}
fn hash_ptr<H: Hasher>(p: &Ptr, h: &mut H) {
    p.root.hash(h);
    for e in p.path.iter() {
        match e {
            PE::F(i) => (0u8, *i).hash(h),
            PE::V(i) => (1u8, *i).hash(h),
            PE::E(_) => 2u8.hash(h),
        }
    }
}
