//! Summaries of the functions below the bit writer.
//!
//! A function that can only reach the encoder's output through a bit writer
//! (not the wrapped writer) is analysed once from an arbitrary state. If every
//! change it makes to the output buffer is an append, later calls use that
//! summary: unknown bytes are appended, everything else it could change is
//! unknown, and it returns one of the shapes it was seen to return.
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::rules::api::ptr_types;
use crate::state::*;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;
use vir::*;

pub fn is_bitw(pr: &Prog, t: TyId) -> bool {
    pr.adt(t).map_or(false, |a| a.ends_with("::LsbWriter"))
}

struct Has<'a>(&'a dyn Fn(&str) -> bool);
impl<'a> Rule for Has<'a> {
    fn interesting(&self, a: &str) -> bool {
        (self.0)(a)
    }
}
/// Does t own (or mutably reach) an ADT satisfying f?
pub fn contains(pr: &Prog, t: TyId, f: &dyn Fn(&str) -> bool) -> bool {
    reaches(pr, t, &Has(f), true, &mut BTreeSet::new())
}
pub fn has_bitw(pr: &Prog, t: TyId) -> bool {
    contains(pr, t, &|a| a.ends_with("::LsbWriter"))
}

/// A value up to its scalars.
#[derive(Clone, Debug)]
pub enum Shape {
    Int(ITy, i128, i128),
    Disc(i128, i128),
    Agg(Vec<Shape>),
    Enum(Vec<(u32, Vec<Shape>)>),
    Other(Option<TyId>),
}

pub struct Contract {
    pub rets: Vec<Shape>,
    /// Constant leaves of the bit writers after the call: argument, path.
    pub posts: Vec<(usize, Vec<u32>, i128)>,
    /// Panics (or never returns) on some path.
    pub panics: bool,
}

struct Probe {
    /// Enter everything (with the pending bits known).
    deep: Cell<bool>,
    inner: Rc<dyn Rule>,
    bad: RefCell<Option<String>>,
    panics: Cell<bool>,
}

impl Probe {
    fn fail(&self, s: &str) {
        self.bad.borrow_mut().get_or_insert(s.to_string());
    }
}

impl Rule for Probe {
    fn interesting(&self, adt: &str) -> bool {
        self.inner.interesting(adt)
    }
    fn force_opaque(&self, n: &str) -> bool {
        self.inner.force_opaque(n)
    }
    fn enter(&self, a: &str) -> bool {
        self.inner.enter(a)
    }
    fn soft(&self) -> bool {
        self.inner.soft()
    }
    fn contracts(&self) -> bool {
        !self.deep.get()
    }
    fn panic(&self, _it: &mut Interp, _st: &State, _msg: &str) {
        self.panics.set(true);
    }
    fn vec_event(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: VecEv) {
        match ptr_types(it, st, p, None) {
            Some((_, Some(par), _)) if is_bitw(it.pr, par) => {
                if !matches!(ev, VecEv::Append(..)) {
                    self.fail("changes the output other than by appending");
                }
            }
            Some(_) => {}
            None => self.fail("changes an unresolved vector"),
        }
    }
    fn store(&self, it: &mut Interp, st: &mut State, p: &Ptr, _v: &Val) {
        if let Root::Local(..) = p.root {
            if p.path.is_empty() {
                return;
            }
        }
        match ptr_types(it, st, p, None) {
            Some((t, par, _)) => {
                let own = par.map_or(false, |q| is_bitw(it.pr, q)) && it.pr.is_vec(t);
                let elem = matches!(p.path.last(), Some(PE::E(_)))
                    && matches!(ptr_types(it, st, &parent(p), None), Some((_, Some(q), _)) if is_bitw(it.pr, q));
                let whole = (t as usize) < it.pr.p.types.len()
                    && !matches!(it.pr.ty(t).kind, TyKind::Ref { .. })
                    && has_bitw(it.pr, t)
                    && !matches!(p.root, Root::Local(..));
                if own || elem || whole {
                    self.fail("replaces the output buffer");
                }
            }
            None => self.fail("stores to an unresolved place"),
        }
    }
}

pub fn peel(pr: &Prog, t: TyId) -> (TyId, u32, bool) {
    match &pr.ty(t).kind {
        TyKind::Ref { to, mutable } => {
            let (u, n, m) = peel(pr, *to);
            (u, n + 1, if n == 0 { *mutable } else { *mutable && m })
        }
        _ => (t, 0, false),
    }
}

/// Arguments through which the output can change.
pub fn writers(pr: &Prog, fu: &Func) -> Option<Vec<usize>> {
    if has_ref(pr, fu.ret, &mut BTreeSet::new()) {
        return None;
    }
    let mut w = vec![];
    for (i, t) in fu.args.iter().enumerate() {
        let (to, n, m) = peel(pr, *t);
        // What holds a writer also says how much of the output it was given.
        if contains(pr, *t, &|a| a.ends_with("::W")) || n > 0 && m && has_mut(pr, to, &mut BTreeSet::new()) {
            return None;
        }
        let hb = has_bitw(pr, to);
        if n > 0 && m && hb {
            match &pr.ty(to).kind {
                TyKind::Adt { kind: AdtKind::Struct, .. } => w.push(i),
                _ => return None,
            }
        } else if hb || has_mut(pr, *t, &mut BTreeSet::new()) {
            return None;
        }
    }
    if w.is_empty() {
        return None;
    }
    Some(w)
}

pub fn target(it: &mut Interp, st: &mut State, v: &Val, n: u32) -> Option<Ptr> {
    let mut v = v.clone();
    for k in 0..n {
        match v {
            Val::Ref(p) => {
                if k + 1 == n {
                    return Some(p);
                }
                v = st.get(it.pr, &p, None);
            }
            _ => return None,
        }
    }
    None
}

/// What a (chain of) reference(s) points to.
pub fn target_of(it: &mut Interp, st: &mut State, v: &Val) -> Option<Ptr> {
    let mut v = v.clone();
    let mut r = None;
    for _ in 0..5 {
        match v {
            Val::Ref(p) => {
                v = st.get(it.pr, &p, None);
                r = Some(p);
            }
            _ => break,
        }
    }
    r
}

/// Paths of the bit writers inside a struct type.
fn bitws(pr: &Prog, t: TyId, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, TyId)>) {
    if is_bitw(pr, t) {
        out.push((path.clone(), t));
        return;
    }
    if let TyKind::Adt { kind: AdtKind::Struct, variants, .. } = &pr.ty(t).kind {
        if pr.is_vec(t) || pr.is_box(t) {
            return;
        }
        for (i, f) in variants[0].fields.iter().enumerate() {
            path.push(i as u32);
            bitws(pr, f.1, path, out);
            path.pop();
        }
    }
}

pub fn fields(pr: &Prog, t: TyId) -> Vec<TyId> {
    match &pr.ty(t).kind {
        TyKind::Adt { variants, .. } => variants[0].fields.iter().map(|f| f.1).collect(),
        _ => vec![],
    }
}

fn at_path(p: &Ptr, path: &[u32]) -> Ptr {
    let mut q = p.clone();
    for i in path {
        q = q.push(PE::F(*i));
    }
    q
}

pub fn get(it: &mut Interp, f: FnId) -> Option<Rc<Contract>> {
    if let Some(c) = it.contracts.get(&f) {
        return c.clone();
    }
    it.contracts.insert(f, None);
    let pr = it.pr;
    let fu = it.func(f);
    if !(fu.local || it.reaches_local(f)) || fu.body.is_none() || fu.name.contains("{closure") {
        return None;
    }
    let ws = writers(pr, fu)?;
    let probe = Rc::new(Probe { inner: it.rule.clone(), bad: RefCell::new(None), panics: Cell::new(false), deep: Cell::new(false) });
    let saved = std::mem::replace(&mut it.rule, probe.clone());
    let stack = std::mem::take(&mut it.stack);
    it.mute += 1;
    let unroll = it.unroll;
    let mut rets: Vec<(Val, State)> = vec![];
    let mut posts: Option<Vec<(usize, Vec<u32>, i128)>> = None;
    // The number of pending bits is small: with nothing else to vary, go
    // through all of them.
    let cases: Vec<Option<i128>> =
        if fu.args.len() == 1 && is_bitw(pr, peel(pr, fu.args[0]).0) { (0..48).map(Some).collect() } else { vec![None] };
    for case in cases {
        let mut st = State::new();
        let mut args = vec![];
        for t in &fu.args {
            args.push(it.unknown(&mut st, *t));
        }
        probe.deep.set(case.is_some());
        it.unroll = if case.is_some() { 64 } else { 0 };
        if let Some(k) = case {
            let (to, n, _) = peel(pr, fu.args[0]);
            if let Some(p) = target(it, &mut st, &args[0], n) {
                for (i, ft) in fields(pr, to).into_iter().enumerate() {
                    if let Some(t) = pr.ity(ft) {
                        if t.bits() == 8 {
                            st.set(pr, &p.push(PE::F(i as u32)), Val::Int(Lin::k(k), t));
                        }
                    }
                }
            }
        }
        let ptrs: Vec<(usize, Ptr, TyId)> = ws
            .iter()
            .filter_map(|i| {
                let (to, n, _) = peel(pr, fu.args[*i]);
                target(it, &mut st, &args[*i], n).map(|p| (*i, p, to))
            })
            .collect();
        if ptrs.len() != ws.len() {
            probe.fail("argument without a target");
            break;
        }
        // Keeps the arguments alive.
        Rc::make_mut(&mut st.ghost).insert("args", agg(args.clone()));
        for (mut s, v) in it.inline(f, args.clone(), st) {
            let mut now = vec![];
            for (i, p, t) in &ptrs {
                let mut bw = vec![];
                bitws(pr, *t, &mut vec![], &mut bw);
                for (path, bt) in bw {
                    for (k, ft) in fields(pr, bt).into_iter().enumerate() {
                        if pr.ity(ft).is_some() {
                            let mut full = path.clone();
                            full.push(k as u32);
                            if let Val::Int(l, _) = s.get(pr, &at_path(p, &full), Some(ft)) {
                                if let Some(c) = s.konst(&l) {
                                    now.push((*i, full, c));
                                }
                            }
                        }
                    }
                }
            }
            posts = Some(match posts {
                None => now,
                Some(o) => o.into_iter().filter(|x| now.contains(x)).collect(),
            });
            rets.push((v, s));
        }
    }
    it.unroll = unroll;
    it.mute -= 1;
    it.stack = stack;
    it.rule = saved;
    if let Some(b) = probe.bad.borrow().as_ref() {
        if it.trace {
            eprintln!("  no summary for {}: {}", fu.name, b);
        }
        return None;
    }
    if rets.is_empty() {
        return None;
    }
    let rets: Vec<Shape> = group(pr, rets, fu.ret, &[], &[]).into_iter().map(|m| m.ret).collect();
    if it.trace {
        eprintln!("  summary for {}: {:?} {:?}", fu.name, rets, posts);
    }
    let c = Rc::new(Contract { rets, posts: posts.unwrap_or_default(), panics: probe.panics.get() });
    it.log.contracts.insert(fu.name.clone());
    it.contracts.insert(f, Some(c.clone()));
    Some(c)
}

pub fn shape(pr: &Prog, vs: &[(&Val, &State)], ty: Option<TyId>) -> Shape {
    match vs[0].0 {
        Val::Int(_, t) => {
            let (mut lo, mut hi) = (BIG, -BIG);
            for (v, s) in vs {
                if let Val::Int(l, _) = v {
                    let (a, b) = s.cons.interval(l);
                    lo = lo.min(a);
                    hi = hi.max(b);
                }
            }
            let (a, b) = t.range();
            Shape::Int(*t, lo.max(a), hi.min(b))
        }
        Val::Disc(_) => {
            let (mut lo, mut hi) = (BIG, -BIG);
            for (v, s) in vs {
                if let Val::Disc(l) = v {
                    let (a, b) = s.cons.interval(l);
                    lo = lo.min(a);
                    hi = hi.max(b);
                }
            }
            Shape::Disc(lo, hi)
        }
        Val::Agg(a) => {
            let mut o = vec![];
            for i in 0..a.len() {
                let sub: Vec<(&Val, &State)> = vs
                    .iter()
                    .filter_map(|(v, s)| match v {
                        Val::Agg(b) => b.get(i).map(|x| (x, *s)),
                        _ => None,
                    })
                    .collect();
                let ft = ty.and_then(|t| match &pr.ty(t).kind {
                    TyKind::Tuple(ts) => ts.get(i).copied(),
                    _ => pr.field_ty(t, 0, i as u32),
                });
                o.push(if sub.is_empty() { Shape::Other(ft) } else { shape(pr, &sub, ft) });
            }
            Shape::Agg(o)
        }
        Val::Enum(m) => {
            let mut o = vec![];
            for (k, f) in m.iter() {
                let mut fs = vec![];
                for i in 0..f.len() {
                    let sub: Vec<(&Val, &State)> = vs
                        .iter()
                        .filter_map(|(v, s)| match v {
                            Val::Enum(b) => b.get(k).and_then(|g| g.get(i)).map(|x| (x, *s)),
                            _ => None,
                        })
                        .collect();
                    let ft = ty.and_then(|t| pr.field_ty(t, *k, i as u32));
                    fs.push(if sub.is_empty() { Shape::Other(ft) } else { shape(pr, &sub, ft) });
                }
                o.push((*k, fs));
            }
            Shape::Enum(o)
        }
        _ => Shape::Other(ty),
    }
}

pub fn build(it: &mut Interp, st: &mut State, s: &Shape) -> Val {
    match s {
        Shape::Int(t, lo, hi) => Val::Int(if lo == hi { Lin::k(*lo) } else { Lin::s(fresh(*lo, *hi, "r")) }, *t),
        Shape::Disc(lo, hi) => Val::Disc(if lo == hi { Lin::k(*lo) } else { Lin::s(fresh(*lo, *hi, "r")) }),
        Shape::Agg(a) => agg(a.iter().map(|x| build(it, st, x)).collect()),
        Shape::Enum(m) => Val::Enum(Rc::new(
            m.iter().map(|(k, a)| (*k, Rc::new(a.iter().map(|x| build(it, st, x)).collect()))).collect(),
        )),
        Shape::Other(Some(t)) => it.unknown(st, *t),
        Shape::Other(None) => Val::Uninit,
    }
}

/// Havoc a structure, except that output buffers only grow.
pub fn smear(it: &mut Interp, st: &mut State, p: &Ptr, t: TyId) -> bool {
    let pr = it.pr;
    for (i, ft) in fields(pr, t).into_iter().enumerate() {
        let q = p.push(PE::F(i as u32));
        if is_bitw(pr, t) && pr.is_vec(ft) {
            let n = Lin::s(fresh(0, i64::MAX as i128 >> 1, "out"));
            let seg = Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) };
            if !append(it, st, &q, &[seg], &n) {
                return false;
            }
        } else if has_bitw(pr, ft) {
            if !smear(it, st, &q, ft) {
                return false;
            }
        } else {
            let v = it.unknown(st, ft);
            it.write_ptr(st, &q, v);
        }
    }
    true
}

pub fn apply(it: &mut Interp, f: FnId, args: &[Val], st: &State) -> Option<Vec<(State, Val)>> {
    let c = get(it, f)?;
    let pr = it.pr;
    let fu = it.func(f);
    let ws = writers(pr, fu)?;
    let mut st = st.clone();
    let mut ptrs = vec![];
    if fu.args.len() == 1 {
        // With a known number of pending bits the exact effect is as cheap.
        let (to, n, _) = peel(pr, fu.args[0]);
        let p = target(it, &mut st, &args[0], n)?;
        let mut bw = vec![];
        bitws(pr, to, &mut vec![], &mut bw);
        for (path, bt) in bw {
            for (k, ft) in fields(pr, bt).into_iter().enumerate() {
                if pr.ity(ft).map_or(false, |t| t.bits() == 8) {
                    if let Val::Int(l, _) = st.get(pr, &at_path(&p, &path).push(PE::F(k as u32)), Some(ft)) {
                        if st.konst(&l).is_some() {
                            return None;
                        }
                    }
                }
            }
        }
    }
    for i in ws {
        let (to, n, _) = peel(pr, fu.args[i]);
        let p = target(it, &mut st, &args[i], n)?;
        if !smear(it, &mut st, &p, to) {
            return None;
        }
        ptrs.push((i, p));
    }
    for (i, path, k) in &c.posts {
        if let Some((_, p)) = ptrs.iter().find(|x| x.0 == *i) {
            let q = at_path(p, path);
            if let Val::Int(_, t) = st.get(pr, &q, None) {
                st.set(pr, &q, Val::Int(Lin::k(*k), t));
            }
        }
    }
    let mut out = vec![];
    for r in &c.rets {
        let mut s = st.clone();
        let v = build(it, &mut s, r);
        out.push((s, v));
    }
    Some(out)
}

/// Sees nothing.
struct Quiet {
    inner: Rc<dyn Rule>,
}
impl Rule for Quiet {
    fn interesting(&self, adt: &str) -> bool {
        self.inner.interesting(adt)
    }
    fn force_opaque(&self, n: &str) -> bool {
        self.inner.force_opaque(n)
    }
    fn enter(&self, a: &str) -> bool {
        self.inner.enter(a)
    }
}

/// Returns nothing, and can change a structure with flags.
fn sets_flags(pr: &Prog, fu: &Func) -> bool {
    let unit = matches!(&pr.ty(fu.ret).kind, TyKind::Tuple(v) if v.is_empty());
    let flag = |t: TyId| match &pr.ty(t).kind {
        TyKind::Bool => true,
        TyKind::Adt { kind: AdtKind::Enum, variants, .. } => variants.iter().all(|v| v.fields.is_empty()),
        _ => false,
    };
    unit && fu.args.iter().any(|t| match &pr.ty(*t).kind {
        TyKind::Ref { to, mutable: true } => fields(pr, *to).into_iter().any(flag),
        _ => false,
    })
}

/// What an otherwise opaque function can return for given modes (arguments
/// that are enums without payload).
pub fn modes(it: &mut Interp, f: FnId, args: &[Val], st: &State) -> Option<Rc<Vec<Mode>>> {
    let pr = it.pr;
    let fu = it.func(f);
    fu.body.as_ref()?;
    if !fu.local || has_ref(pr, fu.ret, &mut BTreeSet::new()) {
        return None;
    }
    let mut key = vec![];
    for (i, t) in fu.args.iter().enumerate() {
        match &pr.ty(*t).kind {
            TyKind::Adt { kind: AdtKind::Enum, variants, .. }
                if variants.len() <= 8 && variants.iter().all(|v| v.fields.is_empty()) =>
            {
                match args.get(i) {
                    Some(Val::Disc(l)) => key.push(st.konst(l)),
                    Some(Val::Enum(m)) if m.len() == 1 => key.push(m.keys().next().map(|k| *k as i128)),
                    _ => key.push(None),
                }
            }
            _ => {}
        }
    }
    if !key.iter().any(|k| k.is_some()) && !sets_flags(pr, fu) {
        return None;
    }
    if let Some(r) = it.modes.get(&(f, key.clone())) {
        return r.clone();
    }
    it.modes.insert((f, key.clone()), None);
    let saved = it.rule.clone();
    it.rule = Rc::new(Quiet { inner: saved.clone() });
    let stack = std::mem::take(&mut it.stack);
    it.mute += 1;
    let mut s = State::new();
    let mut a = vec![];
    for (i, t) in fu.args.iter().enumerate() {
        let en = matches!(&pr.ty(*t).kind, TyKind::Adt { kind: AdtKind::Enum, variants, .. }
            if variants.len() <= 8 && variants.iter().all(|v| v.fields.is_empty()));
        match &args[i] {
            v @ (Val::Disc(_) | Val::Enum(_)) if en => match v {
                Val::Disc(l) => match st.konst(l) {
                    Some(k) => a.push(Val::Disc(Lin::k(k))),
                    None => a.push(it.unknown(&mut s, *t)),
                },
                v => a.push(v.clone()),
            },
            _ => a.push(it.unknown(&mut s, *t)),
        }
    }
    let ptrs: Vec<(usize, Ptr, TyId)> = a
        .iter()
        .enumerate()
        .filter_map(|(i, v)| match (v, &pr.ty(fu.args[i]).kind) {
            (Val::Ref(p), TyKind::Ref { to, mutable: true }) => Some((i, p.clone(), *to)),
            _ => None,
        })
        .collect();
    Rc::make_mut(&mut s.ghost).insert("args", Val::Agg(Rc::new(a.clone())));
    let mut old = vec![];
    for (i, p, t) in &ptrs {
        open(pr, &mut s, p, *t, 0);
        let v = s.get(pr, p, Some(*t));
        let mut l = vec![];
        leaves(pr, &v, *t, &mut vec![], &mut l);
        old.extend(l.into_iter().map(|(p, x)| (*i, p, x)));
    }
    let rets: Vec<(State, Val)> = it.inline(f, a, s);
    it.mute -= 1;
    it.stack = stack;
    it.rule = saved;
    let r = group(pr, rets.into_iter().map(|(s, v)| (v, s)).collect(), fu.ret, &ptrs, &old);
    if it.trace {
        eprintln!("  modes of {} {:?}: {:?}", fu.name, key, r);
    }
    let r = Some(Rc::new(r));
    it.modes.insert((f, key), r.clone());
    r
}

/// One way an opaque function can return: the value, and scalars behind its
/// mutable arguments that then have a known value (None: the one before).
#[derive(Debug)]
pub struct Mode {
    pub ret: Shape,
    pub posts: Vec<(usize, Vec<u32>, Option<i128>)>,
}

fn leaves(pr: &Prog, v: &Val, t: TyId, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, Lin)>) {
    match v {
        Val::Int(l, _) | Val::Disc(l) => out.push((path.clone(), l.clone())),
        Val::Agg(fs) if path.len() < 5 => {
            for (i, x) in fs.iter().enumerate() {
                if let Some(ft) = pr.field_ty(t, 0, i as u32) {
                    path.push(i as u32);
                    leaves(pr, x, ft, path, out);
                    path.pop();
                }
            }
        }
        _ => {}
    }
}

/// Read every scalar once, so that it has a name.
pub fn open(pr: &Prog, st: &mut State, p: &Ptr, t: TyId, depth: u32) {
    let v = st.get(pr, p, Some(t));
    if let (Val::Agg(fs), true) = (&v, depth < 5) {
        for i in 0..fs.len() {
            if let Some(ft) = pr.field_ty(t, 0, i as u32) {
                let q = p.push(PE::F(i as u32));
                let scalar = pr.ity(ft).is_some() || pr.cenum[ft as usize];
                let v = st.get(pr, &q, Some(ft));
                if scalar {
                    st.set(pr, &q, v);
                } else if matches!(&pr.ty(ft).kind, TyKind::Adt { kind: AdtKind::Struct, .. }) && !pr.is_vec(ft) && !pr.is_box(ft) {
                    open(pr, st, &q, ft, depth + 1);
                }
            }
        }
    }
}

pub fn group(
    pr: &Prog,
    rets: Vec<(Val, State)>,
    ty: TyId,
    ptrs: &[(usize, Ptr, TyId)],
    old: &[(usize, Vec<u32>, Lin)],
) -> Vec<Mode> {
    let mut groups: Vec<(u64, Vec<(Val, State)>)> = vec![];
    for (v, s) in rets {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        hash_shape(&v, &s.cons, &mut h, false);
        let k = h.finish();
        match groups.iter_mut().find(|g| g.0 == k) {
            Some(g) => g.1.push((v, s)),
            None => groups.push((k, vec![(v, s)])),
        }
    }
    groups
        .iter()
        .map(|(_, g)| {
            let r: Vec<(&Val, &State)> = g.iter().map(|x| (&x.0, &x.1)).collect();
            let mut posts: Option<Vec<(usize, Vec<u32>, Option<i128>)>> = None;
            for (_, s) in g {
                let mut s = s.clone();
                let mut o = vec![];
                for (i, p, t) in ptrs {
                    let v = s.get(pr, p, Some(*t));
                    let mut l = vec![];
                    leaves(pr, &v, *t, &mut vec![], &mut l);
                    for (p, x) in l {
                        if let Some(k) = s.konst(&x) {
                            o.push((*i, p.clone(), Some(k)));
                        }
                        if let Some(y) = old.iter().find(|y| y.0 == *i && y.1 == p) {
                            if s.eq(&x, &y.2) {
                                o.push((*i, p, None));
                            }
                        }
                    }
                }
                posts = Some(match posts {
                    None => o,
                    Some(q) => q.into_iter().filter(|x| o.contains(x)).collect(),
                });
            }
            Mode { ret: shape(pr, &r, Some(ty)), posts: posts.unwrap_or_default() }
        })
        .collect()
}

/// Make the posts of a mode hold after a call of unknown effect.
pub fn settle(it: &mut Interp, st: &mut State, args: &[Val], m: &Mode, before: &State) {
    let mut before = before.clone();
    for (i, path, k) in &m.posts {
        if let Some(Val::Ref(p)) = args.get(*i) {
            let q = at_path(p, path);
            let l = match k {
                Some(k) => Lin::k(*k),
                None => match before.get(it.pr, &q, None).lin() {
                    Some(l) => l,
                    None => continue,
                },
            };
            match st.get(it.pr, &q, None) {
                Val::Int(_, t) => st.set(it.pr, &q, Val::Int(l, t)),
                Val::Disc(_) => st.set(it.pr, &q, Val::Disc(l)),
                _ => {}
            }
        }
    }
}
