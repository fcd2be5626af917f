//! C11: after a successful reset, the encoder is what a new one with the same
//! options would be.
use super::api::*;
use super::delivery::*;
use super::effects::callees;
use crate::contract::{fields, is_bitw};
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vir::*;

#[derive(Default)]
pub struct Fresh {
    follow: Option<BTreeSet<String>>,
    /// Encoders as they come from a constructor.
    born: Vec<(Val, State)>,
}

fn reach(pr: &Prog, roots: &[String]) -> BTreeSet<FnId> {
    let mut wl: Vec<FnId> = roots.iter().filter_map(|r| root_fn(pr, r)).collect();
    let mut seen: BTreeSet<FnId> = wl.iter().copied().collect();
    while let Some(f) = wl.pop() {
        for (g, _, _) in callees(pr, f) {
            if seen.insert(g) {
                wl.push(g);
            }
        }
    }
    seen
}
fn succs(t: &Term) -> Vec<u32> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { targets, otherwise, .. } => targets.iter().map(|x| x.1).chain([*otherwise]).collect(),
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target, .. } => target.iter().copied().collect(),
        _ => vec![],
    }
}
pub fn has_loop(b: &Body) -> bool {
    // Depth-first search for a back edge.
    let mut state = vec![0u8; b.blocks.len()];
    let mut stack = vec![(0u32, 0usize)];
    state[0] = 1;
    while let Some((n, i)) = stack.pop() {
        let ss = succs(&b.blocks[n as usize].term);
        if i < ss.len() {
            stack.push((n, i + 1));
            let m = ss[i];
            match state[m as usize] {
                0 => {
                    state[m as usize] = 1;
                    stack.push((m, 0));
                }
                1 => return true,
                _ => {}
            }
        } else {
            state[n as usize] = 2;
        }
    }
    false
}

impl Fresh {
    /// What only constructors and reset do, and what is simple.
    fn follow(&mut self, pr: &Prog, part: &str) -> &BTreeSet<String> {
        if self.follow.is_none() {
            let r = |ns: &[&str]| reach(pr, &ns.iter().map(|n| format!("{}::{}", part, n)).collect::<Vec<_>>());
            let make = r(&["new", "reset", "from_builder", "reset_with_builder"]);
            let work = r(&["write", "flush", "finish"]);
            let mut out = BTreeSet::new();
            let mut memo: BTreeMap<FnId, bool> = BTreeMap::new();
            for f in &make {
                if pr.p.fns[*f as usize].local && (!work.contains(f) || simple(pr, *f, &mut memo)) {
                    out.insert(pr.p.fns[*f as usize].name.clone());
                }
            }
            self.follow = Some(out);
        }
        self.follow.as_ref().unwrap()
    }
}
fn simple(pr: &Prog, f: FnId, memo: &mut BTreeMap<FnId, bool>) -> bool {
    if let Some(b) = memo.get(&f) {
        return *b;
    }
    memo.insert(f, false);
    let fu = &pr.p.fns[f as usize];
    let r = fu.body.as_ref().map_or(false, |b| !has_loop(b))
        && callees(pr, f).iter().all(|(g, _, _)| !pr.p.fns[*g as usize].local || simple(pr, *g, memo));
    memo.insert(f, r);
    r
}

/// Rewritten for every block before it is used (C17), or cleared first.
fn scratch(pr: &Prog, t: TyId) -> bool {
    pr.adt(t).map_or(false, |a| a.ends_with("::HuffmanTable") || a.ends_with("::LengthBuffers"))
}

fn target(pr: &Prog, t: TyId) -> Option<TyId> {
    match &pr.ty(t).kind {
        TyKind::Ref { to, .. } => Some(*to),
        TyKind::Adt { args, .. } if pr.is_box(t) => args.get(0).copied(),
        _ => None,
    }
}

struct Cmp<'a> {
    pr: &'a Prog,
    post: &'a mut State,
    born: &'a mut State,
    /// What in a new encoder depends on the options, as kept since then.
    opts: Option<Val>,
    bad: Vec<String>,
}

fn sub(v: &Option<Val>, i: usize) -> Option<Val> {
    match v {
        Some(Val::Agg(f)) => f.get(i).cloned(),
        _ => None,
    }
}

impl<'a> Cmp<'a> {
    fn go(&mut self, a: &Val, b: &Val, o: &Option<Val>, t: Option<TyId>, path: &str, depth: u32) {
        if depth > 12 || t.map_or(false, |t| self.pr.ty(t).size == Some(0)) || t.map_or(false, |t| scratch(self.pr, t)) {
            return;
        }
        let name = |i: usize| -> String {
            let n = t.and_then(|t| match &self.pr.ty(t).kind {
                TyKind::Adt { variants, .. } if variants.len() == 1 => variants[0].fields.get(i).map(|f| f.0.clone()),
                _ => None,
            });
            format!("{}.{}", path, n.unwrap_or(i.to_string()))
        };
        match (a, b) {
            (_, Val::Tok(_)) | (_, Val::Uninit) | (_, Val::Str) | (_, Val::Fn(_)) => {}
            (Val::Int(x, _), Val::Int(y, _)) | (Val::Disc(x), Val::Disc(y)) => {
                let ok = match self.born.konst(y) {
                    Some(k) => self.post.eq(x, &Lin::k(k)),
                    None => match o {
                        Some(Val::Int(z, _)) | Some(Val::Disc(z)) => self.post.eq(x, z),
                        _ => true,
                    },
                };
                if !ok {
                    self.bad.push(path.to_string());
                }
            }
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                let ts = t.map(|t| fields(self.pr, t)).unwrap_or_default();
                let bitw = t.map_or(false, |t| is_bitw(self.pr, t));
                for i in 0..x.len() {
                    // Above its fill level, the accumulator is zero (C19).
                    if bitw && ts.get(i).and_then(|t| self.pr.ity(*t)).map_or(false, |t| t != ITy::new(8, false)) {
                        continue;
                    }
                    self.go(&x[i].clone(), &y[i].clone(), &sub(o, i), ts.get(i).copied(), &name(i), depth + 1);
                }
            }
            (Val::Enum(x), Val::Enum(y)) => {
                if x.keys().collect::<Vec<_>>() != y.keys().collect::<Vec<_>>() {
                    self.bad.push(path.to_string());
                } else {
                    for (k, f) in x.iter() {
                        for (i, v) in f.iter().enumerate() {
                            self.go(v, &y[k][i], &None, None, path, depth + 1);
                        }
                    }
                }
            }
            (Val::Ref(p), Val::Ref(q)) => {
                let x = self.post.get(self.pr, p, None);
                let y = self.born.get(self.pr, q, None);
                self.go(&x, &y, &None, t.and_then(|t| target(self.pr, t)), path, depth + 1);
            }
            (Val::Arr(x), Val::Arr(y)) => {
                let n = match self.born.konst(&y.len) {
                    Some(n) => n,
                    None => return,
                };
                if !self.post.eq(&x.len, &Lin::k(n)) {
                    self.bad.push(format!("{} (length)", path));
                    return;
                }
                let (v, w) = (values(self.post, x, n), values(self.born, y, n));
                if (0..n as usize).any(|i| w[i].is_some() && v[i] != w[i]) {
                    self.bad.push(format!("{} (contents)", path));
                }
            }
            (Val::Top(ta), _) => {
                let mut heap = std::mem::take(Rc::make_mut(&mut self.post.heap));
                let v = expand_deep(self.pr, &mut heap, *ta);
                self.post.heap = Rc::new(heap);
                if !matches!(v, Val::Top(_)) {
                    self.go(&v, b, o, t, path, depth + 1);
                } else {
                    self.bad.push(path.to_string());
                }
            }
            (_, Val::Top(_)) => {}
            (_, Val::Agg(f)) if f.is_empty() => {}
            _ => self.bad.push(format!("{} (not known)", path)),
        }
    }
}

/// The elements of an array, where they are constants.
fn values(st: &State, a: &Arr, n: i128) -> Vec<Option<i128>> {
    let mut out = vec![None; n as usize];
    let k = |v: &Val| match v {
        Val::Int(l, _) | Val::Disc(l) => st.konst(l),
        _ => None,
    };
    // Where a segment may begin and end.
    let (mut lo, mut exact) = (0, true);
    let mut seen = vec![false; n as usize];
    for g in &a.segs {
        let (elo, ehi) = match st.konst(&g.end) {
            Some(e) => (e, e),
            None => st.cons.interval(&g.end),
        };
        let start = lo;
        for i in start..ehi.clamp(0, n) {
            let x = match &g.kind {
                Kind::Fill(v) => k(v),
                Kind::Aff(x, b) => Some(x * i + b),
                Kind::Elems(v) if exact => v.get((i - start) as usize).and_then(|v| k(v)),
                Kind::Elems(_) => None,
                Kind::Src(id, off) => match (arr_get(*id), st.konst(off)) {
                    (ArrId::Const(v), Some(o)) => v.get((o + i) as usize).copied(),
                    _ => None,
                },
            };
            let o = &mut out[i as usize];
            if seen[i as usize] && *o != x {
                *o = None;
            } else {
                *o = x;
            }
            seen[i as usize] = true;
        }
        lo = elo.clamp(start, n);
        exact = elo == ehi;
    }
    out
}

/// The numbers and flags of a value that are not constants.
fn options(st: &State, v: &Val) -> Val {
    match v {
        Val::Int(l, t) if st.konst(l).is_none() => Val::Int(l.clone(), *t),
        Val::Disc(l) if st.konst(l).is_none() => v.clone(),
        Val::Agg(f) => Val::Agg(Rc::new(f.iter().map(|x| options(st, x)).collect())),
        _ => Val::Uninit,
    }
}

impl Delivery {
    pub fn fresh_wants(&self, pr: &Prog, fu: &Func) -> bool {
        self.fresh.borrow_mut().follow(pr, &self.part).contains(&fu.name)
    }
    pub fn fresh_end(&self, it: &mut Interp, st: &mut State, op: &str, v: &Val) {
        if !self.on("C11") {
            return;
        }
        match op {
            "new" | "from_builder" => {
                let o = options(st, v);
                Rc::make_mut(&mut st.ghost).insert("born", o);
                let mut s = st.clone();
                s.frames.clear();
                self.fresh.borrow_mut().born.push((v.clone(), s));
            }
            "reset" | "reset_with_builder" if variants_of(v).contains(&0) => {
                it.obligation("state after reset");
                let a = match st.heap.get(&1) {
                    Some(a) => a.clone(),
                    None => return,
                };
                let opts = st.ghost.get("born").cloned();
                let mut best: Option<Vec<String>> = None;
                let n = self.fresh.borrow().born.len();
                for i in 0..n {
                    let (b, mut s) = self.fresh.borrow().born[i].clone();
                    let mut post = st.clone();
                    let mut c = Cmp { pr: it.pr, post: &mut post, born: &mut s, opts: opts.clone(), bad: vec![] };
                    let o = c.opts.clone();
                    c.go(&a, &b, &o, self.enc.get(), "encoder", 0);
                    if best.as_ref().map_or(true, |x| x.len() > c.bad.len()) {
                        best = Some(c.bad);
                    }
                }
                for p in best.unwrap_or_default() {
                    it.violation(&format!("after reset, {} is not what it is in a new encoder", p));
                }
            }
            _ => {}
        }
    }
}
