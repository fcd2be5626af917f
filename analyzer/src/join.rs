//! Joining and comparing states that have the same shape.
use crate::lin::*;
use crate::state::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// Heap roots below this number are fixed objects of the analysis.
pub const FIXED: u32 = 1000;

fn roots_in(v: &Val, out: &mut Vec<u32>) {
    match v {
        Val::Agg(f) => f.iter().for_each(|x| roots_in(x, out)),
        Val::Enum(m) => m.values().for_each(|f| f.iter().for_each(|x| roots_in(x, out))),
        Val::Ref(p) | Val::Slice(p, ..) | Val::It(p, ..) => {
            if let Root::Heap(h) = p.root {
                out.push(h)
            }
        }
        Val::Arr(a) => {
            for s in &a.segs {
                match &s.kind {
                    Kind::Fill(v) => roots_in(v, out),
                    Kind::Elems(v) => v.iter().for_each(|x| roots_in(x, out)),
                    _ => {}
                }
            }
        }
        _ => {}
    }
}

pub fn reachable(st: &State) -> BTreeSet<u32> {
    let mut seen = BTreeSet::new();
    let mut todo: Vec<u32> = st.heap.keys().copied().filter(|h| *h < FIXED).collect();
    for f in &st.frames {
        f.locals.iter().for_each(|v| roots_in(v, &mut todo));
    }
    st.ghost.values().for_each(|v| roots_in(v, &mut todo));
    while let Some(h) = todo.pop() {
        if seen.insert(h) {
            if let Some(v) = st.heap.get(&h) {
                roots_in(v, &mut todo);
            }
        }
    }
    seen
}

thread_local! {
    pub static WHY: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn why(f: &dyn Fn() -> String) {
    if WHY.with(|w| w.get()) {
        eprintln!("    not included: {}", f());
    }
}

pub fn gc(st: &mut State) {
    let live = reachable(st);
    if st.heap.keys().any(|k| !live.contains(k)) {
        Rc::make_mut(&mut st.heap).retain(|k, _| live.contains(k));
    }
}

/// Number the objects of the state by the order in which they are reached.
pub fn canon_heap(st: &mut State) {
    fn walk(v: &Val, out: &mut Vec<u32>) {
        roots_in(v, out);
    }
    let mut order: Vec<u32> = vec![];
    let mut seen = BTreeSet::new();
    let mut q: Vec<u32> = vec![];
    for (h, v) in st.heap.range(..FIXED) {
        seen.insert(*h);
        walk(v, &mut q);
    }
    for f in &st.frames {
        f.locals.iter().for_each(|v| walk(v, &mut q));
    }
    st.ghost.values().for_each(|v| walk(v, &mut q));
    let mut i = 0;
    while i < q.len() {
        let h = q[i];
        i += 1;
        if seen.insert(h) {
            if (FIXED..CONSTS).contains(&h) {
                order.push(h);
            }
            if let Some(v) = st.heap.get(&h) {
                walk(v, &mut q);
            }
        }
    }
    let mut count: HashMap<u32, u32> = HashMap::new();
    let mut map: HashMap<u32, u32> = HashMap::new();
    for h in &order {
        let n = count.entry(*h >> 12).or_insert(0);
        let id = (*h & !0xfff) + *n;
        *n += 1;
        if id != *h {
            map.insert(*h, id);
        }
    }
    let dead = st.heap.range(FIXED..).any(|(h, _)| !seen.contains(h));
    if map.is_empty() && !dead {
        return;
    }
    let old = std::mem::take(Rc::make_mut(&mut st.heap));
    let mut heap = BTreeMap::new();
    for (h, v) in old {
        if h >= FIXED && !seen.contains(&h) {
            continue;
        }
        heap.insert(map.get(&h).copied().unwrap_or(h), if map.is_empty() { v } else { reroot(&v, &map) });
    }
    st.heap = Rc::new(heap);
    if map.is_empty() {
        return;
    }
    for f in st.frames.iter_mut() {
        let mut r = vec![];
        f.locals.iter().for_each(|v| roots_in(v, &mut r));
        if r.iter().any(|h| map.contains_key(h)) {
            let f = Rc::make_mut(f);
            for v in f.locals.iter_mut() {
                *v = reroot(v, &map);
            }
        }
    }
    let g: BTreeMap<&'static str, Val> = st.ghost.iter().map(|(k, v)| (*k, reroot(v, &map))).collect();
    st.ghost = Rc::new(g);
}

fn reroot(v: &Val, m: &HashMap<u32, u32>) -> Val {
    let pt = |p: &Ptr| match p.root {
        Root::Heap(h) => match m.get(&h) {
            Some(n) => Ptr { root: Root::Heap(*n), path: p.path.clone() },
            None => p.clone(),
        },
        _ => p.clone(),
    };
    let vs = |a: &Rc<Vec<Val>>| Rc::new(a.iter().map(|x| reroot(x, m)).collect::<Vec<_>>());
    match v {
        Val::Agg(a) => Val::Agg(vs(a)),
        Val::Enum(e) => Val::Enum(Rc::new(e.iter().map(|(k, a)| (*k, vs(a))).collect())),
        Val::Ref(p) => Val::Ref(pt(p)),
        Val::Slice(p, a, b) => Val::Slice(pt(p), a.clone(), b.clone()),
        Val::It(p, a, b) => Val::It(pt(p), a.clone(), b.clone()),
        Val::Arr(a) => {
            let mut r = vec![];
            roots_in(v, &mut r);
            if r.is_empty() {
                return v.clone();
            }
            let mut b = (**a).clone();
            for s in b.segs.iter_mut() {
                s.kind = match &s.kind {
                    Kind::Fill(x) => Kind::Fill(reroot(x, m)),
                    Kind::Elems(x) => Kind::Elems(vs(x)),
                    k => k.clone(),
                };
            }
            Val::Arr(Rc::new(b))
        }
        _ => v.clone(),
    }
}

pub fn key(st: &State, soft: bool) -> u64 {
    let mut h = DefaultHasher::new();
    for f in &st.frames {
        f.f.hash(&mut h);
        for v in &f.locals {
            hash_shape(v, &st.cons, &mut h, soft);
        }
    }
    for r in reachable(st) {
        r.hash(&mut h);
        if let Some(v) = st.heap.get(&r) {
            hash_shape(v, &st.cons, &mut h, soft);
        }
    }
    for (k, v) in st.ghost.iter() {
        k.hash(&mut h);
        hash_shape(v, &st.cons, &mut h, false);
    }
    h.finish()
}

/// Normalise, also inside definitions.
pub fn renorm(c: &Cons, l: &Lin) -> Lin {
    let l = c.norm(l);
    if !l.t.iter().any(|x| def_of(x.0).is_some()) {
        return l;
    }
    map_defs(&l, &|x| renorm(c, x))
}

/// Rebuild the definitions of the symbols of l.
pub fn map_defs(l: &Lin, f: &dyn Fn(&Lin) -> Lin) -> Lin {
    let mut o = Lin::k(l.c);
    for &(s, a) in &l.t {
        let e = match def_of(s) {
            None => Lin::s(s),
            Some(d) => map_def(s, &d, f),
        };
        o = o.axpy(a, &e).expect("overflow");
    }
    o
}
fn map_def(s: Sym, d: &Def, f: &dyn Fn(&Lin) -> Lin) -> Lin {
    let n = match d {
        Def::Load(a, i, p) => Def::Load(*a, f(i), p.clone()),
        Def::Ge0(x) => Def::Ge0(f(x)),
        Def::Eq0(x) => {
            let mut x = f(x);
            if !x.t.is_empty() && x.t[0].1 < 0 {
                x = x.neg();
            }
            Def::Eq0(x)
        }
        Def::And(x, y) => Def::And(f(x), f(y)),
        Def::Or(x, y) => Def::Or(f(x), f(y)),
        Def::Mod(x, n) => Def::Mod(f(x), *n),
        Def::Byte(x, n) => Def::Byte(f(x), *n),
        Def::Div(x, n) => Def::Div(f(x), *n),
        Def::App(g, v) => Def::App(g.clone(), v.iter().map(|x| f(x)).collect()),
    };
    if n == *d {
        return Lin::s(s);
    }
    match &n {
        Def::Ge0(x) => {
            if let Some(k) = x.is_k() {
                return Lin::k((k >= 0) as i128);
            }
        }
        Def::Eq0(x) => {
            if let Some(k) = x.is_k() {
                return Lin::k((k == 0) as i128);
            }
        }
        Def::And(x, y) => match (x.is_k(), y.is_k()) {
            (Some(0), _) | (_, Some(0)) => return Lin::k(0),
            (Some(_), _) => return y.clone(),
            (_, Some(_)) => return x.clone(),
            _ => {}
        },
        Def::Or(x, y) => match (x.is_k(), y.is_k()) {
            (Some(1), _) | (_, Some(1)) => return Lin::k(1),
            (Some(_), _) => return y.clone(),
            (_, Some(_)) => return x.clone(),
            _ => {}
        },
        Def::Mod(x, n) => {
            if let Some(k) = x.is_k() {
                return Lin::k(k.rem_euclid(1 << n));
            }
        }
        Def::Byte(x, n) => {
            if let Some(k) = x.is_k() {
                return Lin::k((k >> (8 * n)) & 255);
            }
        }
        Def::Div(x, n) => {
            if let Some(k) = x.is_k() {
                return Lin::k(k.div_euclid(*n));
            }
        }
        _ => {}
    }
    let (lo, hi) = range_of(s);
    // Ranges of these depend on the operand; keep only what always holds.
    let (lo, hi) = match &n {
        Def::Div(x, k) => {
            let (a, b) = Cons::default().interval(x);
            let g = |v: i128| if v.abs() >= BIG { v } else { v.div_euclid(*k) };
            (g(a), g(b))
        }
        Def::App(..) => (-BIG, BIG),
        _ => (lo, hi),
    };
    Lin::s(defsym(n, lo, hi))
}

pub fn deep_syms(l: &Lin, out: &mut BTreeSet<Sym>) {
    for s in l.syms() {
        if out.insert(s) {
            if let Some(d) = def_of(s) {
                def_syms(&d, out);
            }
        }
    }
}
fn def_syms(d: &Def, out: &mut BTreeSet<Sym>) {
    match d {
        Def::Load(_, x, _) | Def::Ge0(x) | Def::Eq0(x) | Def::Mod(x, _) | Def::Byte(x, _) | Def::Div(x, _) => {
            deep_syms(x, out)
        }
        Def::And(x, y) | Def::Or(x, y) => {
            deep_syms(x, out);
            deep_syms(y, out);
        }
        Def::App(_, v) => v.iter().for_each(|x| deep_syms(x, out)),
    }
}

/// Visit every expression of a value.
pub fn lins(v: &Val, f: &mut dyn FnMut(&Lin)) {
    match v {
        Val::Int(l, _) | Val::Disc(l) | Val::Tok(l) => f(l),
        Val::Agg(a) => a.iter().for_each(|x| lins(x, f)),
        Val::Enum(m) => m.values().for_each(|a| a.iter().for_each(|x| lins(x, f))),
        Val::Ref(p) => ptr_lins(p, f),
        Val::Slice(p, s, e) | Val::It(p, s, e) => {
            ptr_lins(p, f);
            f(s);
            f(e);
        }
        Val::Arr(a) => {
            f(&a.len);
            for s in &a.segs {
                f(&s.end);
                match &s.kind {
                    Kind::Src(_, o) => f(o),
                    Kind::Fill(v) => lins(v, f),
                    Kind::Elems(v) => v.iter().for_each(|x| lins(x, f)),
                    Kind::Aff(..) => {}
                }
            }
        }
        _ => {}
    }
}
fn ptr_lins(p: &Ptr, f: &mut dyn FnMut(&Lin)) {
    for e in p.path.iter() {
        if let PE::E(l) = e {
            f(l)
        }
    }
}
pub fn state_lins(st: &State, f: &mut dyn FnMut(&Lin)) {
    for fr in &st.frames {
        fr.locals.iter().for_each(|v| lins(v, f));
    }
    st.heap.values().for_each(|v| lins(v, f));
    st.ghost.values().for_each(|v| lins(v, f));
    for e in st.eqf.iter() {
        f(&e.p);
        f(&e.q);
        f(&e.n);
    }
    for e in st.valf.iter() {
        f(&e.p);
        f(&e.n);
        f(&e.v);
    }
}
pub fn state_syms(st: &State) -> BTreeSet<Sym> {
    let mut o = BTreeSet::new();
    state_lins(st, &mut |l| deep_syms(l, &mut o));
    o
}

// ---------------------------------------------------------------------- join

struct J<'a> {
    a: &'a State,
    b: &'a State,
    memo: HashMap<(Lin, Lin), Lin>,
    /// New symbol, its value on either side.
    leaves: Vec<(Lin, Lin, Lin)>,
    rows: Vec<(Sym, Lin, Lin)>,
    taken: Option<(Lin, Lin)>,
    eqa: Cons,
    eqb: Cons,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let r = a % b;
        a = b;
        b = r;
    }
    a as i128
}

impl<'a> J<'a> {
    fn leaf(&mut self, x: &Lin, y: &Lin, lo: i128, hi: i128) -> Lin {
        if x == y {
            return x.clone();
        }
        let (p, q) = (renorm(&self.a.cons, x), renorm(&self.b.cons, y));
        if p == q {
            return p;
        }
        // Equal through the constraints of the other side?
        if self.eqb.norm(&p) == q {
            return p;
        }
        if self.eqa.norm(&q) == p {
            return q;
        }
        if let Some(r) = self.memo.get(&(p.clone(), q.clone())) {
            return r.clone();
        }
        let r = self.leaf2(&p, &q, lo, hi);
        self.memo.insert((p, q), r.clone());
        r
    }
    fn leaf2(&mut self, p: &Lin, q: &Lin, lo: i128, hi: i128) -> Lin {
        // Same function of different arguments.
        if p.t.len() == 1 && q.t.len() == 1 && p.c == q.c && p.t[0].1 == q.t[0].1 {
            if let (Some(d), Some(e)) = (def_of(p.t[0].0), def_of(q.t[0].0)) {
                if let Some(n) = self.join_def(p.t[0].0, &d, q.t[0].0, &e) {
                    return Lin::s(n).scale(p.t[0].1).addk(p.c);
                }
            }
        }
        // A common stride survives.
        let mut g = p.c - q.c;
        for x in p.t.iter().chain(q.t.iter()) {
            g = gcd(g, x.1);
        }
        let g = if g == 0 { 1 } else { g.abs() };
        let r = p.c.rem_euclid(g);
        let (lo, hi) = if g > 1 {
            (
                if lo <= -BIG { lo } else { (lo - r).div_euclid(g) - 1 },
                if hi >= BIG { hi } else { (hi - r).div_euclid(g) + 1 },
            )
        } else {
            (lo, hi)
        };
        let s = fresh(lo, hi, "j");
        let f = |l: &Lin| {
            let mut l = l.addk(-r);
            l.c /= g;
            for x in l.t.iter_mut() {
                x.1 /= g;
            }
            l
        };
        self.rows.push((s, f(p), f(q)));
        let l = Lin::s(s).scale(g).addk(r);
        self.leaves.push((l.clone(), p.clone(), q.clone()));
        l
    }
    fn join_def(&mut self, s: Sym, d: &Def, t: Sym, e: &Def) -> Option<Sym> {
        let n = match (d, e) {
            (Def::Load(a, ..), Def::Load(..)) if PLAIN.with(|p| p.get()) && KEEP.with(|k| k.get()) != Some(*a) => return None,
            (Def::Load(a, i, p), Def::Load(b, j, q)) if a == b && p == q => {
                Def::Load(*a, self.leaf(i, j, -BIG, BIG), p.clone())
            }
            (Def::Ge0(x), Def::Ge0(y)) => Def::Ge0(self.leaf(x, y, -BIG, BIG)),
            (Def::Eq0(x), Def::Eq0(y)) => Def::Eq0(self.leaf(x, y, -BIG, BIG)),
            (Def::Mod(x, n), Def::Mod(y, m)) if n == m => Def::Mod(self.leaf(x, y, -BIG, BIG), *n),
            (Def::Byte(x, n), Def::Byte(y, m)) if n == m => Def::Byte(self.leaf(x, y, -BIG, BIG), *n),
            (Def::App(f, u), Def::App(g, v)) if f == g && u.len() == v.len() => {
                let w = u.iter().zip(v.iter()).map(|(x, y)| self.leaf(x, y, -BIG, BIG)).collect();
                Def::App(f.clone(), w)
            }
            _ => return None,
        };
        let ((a, b), (c, d)) = (range_of(s), range_of(t));
        Some(defsym(n, a.min(c), b.max(d)))
    }
    fn ptr(&mut self, p: &Ptr, q: &Ptr) -> Ptr {
        if p == q {
            return p.clone();
        }
        let path = p
            .path
            .iter()
            .zip(q.path.iter())
            .map(|(x, y)| match (x, y) {
                (PE::E(x), PE::E(y)) => PE::E(self.leaf(x, y, 0, i64::MAX as i128)),
                (x, _) => x.clone(),
            })
            .collect();
        Ptr { root: p.root, path: Rc::new(path) }
    }
    fn vals(&mut self, a: &Rc<Vec<Val>>, b: &Rc<Vec<Val>>) -> Rc<Vec<Val>> {
        if Rc::ptr_eq(a, b) {
            return a.clone();
        }
        let n = a.len().max(b.len());
        let u = Val::Uninit;
        Rc::new((0..n).map(|i| self.val(a.get(i).unwrap_or(&u), b.get(i).unwrap_or(&u))).collect())
    }
    fn val(&mut self, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::Int(x, t), Val::Int(y, _)) => {
                let (lo, hi) = t.range();
                Val::Int(self.leaf(x, y, lo, hi), *t)
            }
            (Val::Disc(x), Val::Disc(y)) => {
                let ((l1, h1), (l2, h2)) = (Cons::default().interval(x), Cons::default().interval(y));
                Val::Disc(self.leaf(x, y, l1.min(l2), h1.max(h2)))
            }
            (Val::Tok(x), Val::Tok(y)) => Val::Tok(self.leaf(x, y, -BIG, BIG)),
            (Val::Agg(x), Val::Agg(y)) => {
                if x.is_empty() || y.is_empty() {
                    return Val::Uninit;
                }
                Val::Agg(self.vals(x, y))
            }
            (Val::Enum(x), Val::Enum(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                let mut m = BTreeMap::new();
                for (k, f) in x.iter() {
                    if let Some(g) = y.get(k) {
                        m.insert(*k, self.vals(f, g));
                    } else {
                        m.insert(*k, f.clone());
                    }
                }
                for (k, g) in y.iter() {
                    if !m.contains_key(k) {
                        m.insert(*k, g.clone());
                    }
                }
                Val::Enum(Rc::new(m))
            }
            (Val::Ref(p), Val::Ref(q)) if p.root == q.root && p.path.len() == q.path.len() => {
                Val::Ref(self.ptr(p, q))
            }
            (Val::Slice(p, s, e), Val::Slice(q, t, f)) if p.root == q.root && p.path.len() == q.path.len() => {
                let p = self.ptr(p, q);
                Val::Slice(p, self.leaf(s, t, 0, i64::MAX as i128), self.leaf(e, f, 0, i64::MAX as i128))
            }
            (Val::It(p, s, e), Val::It(q, t, f)) if p.root == q.root && p.path.len() == q.path.len() => {
                let p = self.ptr(p, q);
                Val::It(p, self.leaf(s, t, 0, i64::MAX as i128), self.leaf(e, f, 0, i64::MAX as i128))
            }
            (Val::Arr(x), Val::Arr(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                Val::Arr(Rc::new(self.arr(x, y)))
            }
            (Val::Str, Val::Str) => Val::Str,
            (Val::Fn(f), Val::Fn(g)) if f == g => Val::Fn(*f),
            (Val::Bv(x), Val::Bv(y)) => {
                if Rc::ptr_eq(x, y) {
                    return a.clone();
                }
                Val::Bv(Rc::new(
                    x.iter().zip(y.iter()).map(|(p, q)| if p == q { *p } else { Bit::Any }).collect(),
                ))
            }
            (Val::Top(t), Val::Top(u)) if t == u => Val::Top(*t),
            _ => Val::Uninit,
        }
    }
    fn kinds_match(x: &Kind, y: &Kind) -> bool {
        match (x, y) {
            (Kind::Src(i, _), Kind::Src(j, _)) => i == j,
            (Kind::Fill(_), Kind::Fill(_)) => true,
            (Kind::Aff(a, b), Kind::Aff(c, d)) => a == c && b == d,
            (Kind::Elems(a), Kind::Elems(b)) => a.len() == b.len(),
            _ => false,
        }
    }
    fn can_insert(k: &Kind) -> bool {
        match k {
            Kind::Src(i, _) => !matches!(arr_get(*i), ArrId::Tok(_)),
            Kind::Aff(..) => true,
            Kind::Fill(Val::Int(l, _)) => l.is_k().is_some(),
            _ => false,
        }
    }
    fn empty_like(&self, g: &Seg, at: &Lin, a_side: bool) -> Seg {
        let kind = match &g.kind {
            Kind::Src(i, off) => {
                let stream = matches!(arr_get(*i), ArrId::Stream);
                match (&self.taken, stream) {
                    (Some((ta, tb)), true) => {
                        let t = if a_side { ta } else { tb };
                        Kind::Src(*i, t.sub(at))
                    }
                    _ => Kind::Src(*i, off.clone()),
                }
            }
            k => k.clone(),
        };
        Seg { end: at.clone(), kind }
    }
    fn align(&self, x: &Arr, y: &Arr) -> Option<(Vec<Seg>, Vec<Seg>)> {
        let (xs, ys) = (&x.segs, &y.segs);
        if xs.len() == ys.len() && xs.iter().zip(ys.iter()).all(|(a, b)| Self::kinds_match(&a.kind, &b.kind)) {
            return Some((xs.clone(), ys.clone()));
        }
        let (mut i, mut j) = (0, 0);
        let (mut ox, mut oy): (Vec<Seg>, Vec<Seg>) = (vec![], vec![]);
        let zero = Lin::k(0);
        while i < xs.len() || j < ys.len() {
            if i < xs.len() && j < ys.len() && Self::kinds_match(&xs[i].kind, &ys[j].kind) {
                ox.push(xs[i].clone());
                oy.push(ys[j].clone());
                i += 1;
                j += 1;
                continue;
            }
            // Insert an empty copy of the other side's segment.
            let in_x = i >= xs.len()
                || (j < ys.len() && xs[i..].iter().any(|s| j + 1 < ys.len() && Self::kinds_match(&s.kind, &ys[j + 1].kind)));
            if in_x && j < ys.len() {
                if !Self::can_insert(&ys[j].kind) {
                    return None;
                }
                let at = ox.last().map_or(zero.clone(), |s: &Seg| s.end.clone());
                ox.push(self.empty_like(&ys[j], &at, true));
                oy.push(ys[j].clone());
                j += 1;
            } else if i < xs.len() {
                if !Self::can_insert(&xs[i].kind) {
                    return None;
                }
                let at = oy.last().map_or(zero.clone(), |s: &Seg| s.end.clone());
                oy.push(self.empty_like(&xs[i], &at, false));
                ox.push(xs[i].clone());
                i += 1;
            } else {
                return None;
            }
            if ox.len() > 4 {
                return None;
            }
        }
        Some((ox, oy))
    }
    fn arr(&mut self, x: &Arr, y: &Arr) -> Arr {
        let len = self.leaf(&x.len, &y.len, 0, i64::MAX as i128);
        let mut segs = vec![];
        match self.align(x, y) {
            Some((xs, ys)) => {
                let n = xs.len();
                for (k, (s, t)) in xs.iter().zip(ys.iter()).enumerate() {
                    let end = if k + 1 == n { len.clone() } else { self.leaf(&s.end, &t.end, 0, i64::MAX as i128) };
                    let kind = match (&s.kind, &t.kind) {
                        (Kind::Src(i, o), Kind::Src(_, p)) => Kind::Src(*i, self.leaf(o, p, -BIG, BIG)),
                        (Kind::Fill(v), Kind::Fill(w)) => {
                            // Different values cannot be one repeated value.
                            let same = match (v, w) {
                                (Val::Int(l, _), Val::Int(m, _)) | (Val::Disc(l), Val::Disc(m)) => {
                                    renorm(&self.a.cons, l) == renorm(&self.b.cons, m)
                                }
                                _ => false,
                            };
                            let one = Cons::default();
                            let single = |c: &Cons, ss: &[Seg], k: usize| {
                                let st = if k == 0 { Lin::k(0) } else { ss[k - 1].end.clone() };
                                c.norm(&ss[k].end.sub(&st)).is_k() == Some(1)
                            };
                            let _ = one;
                            if same {
                                Kind::Fill(v.clone())
                            } else if single(&self.a.cons, &xs, k) && single(&self.b.cons, &ys, k) {
                                Kind::Fill(self.val(v, w))
                            } else if matches!((v, w), (Val::Agg(_), Val::Agg(_)) | (Val::Enum(_), Val::Enum(_))) {
                                Kind::Src(arr_tok(), Lin::k(0))
                            } else {
                                Kind::Src(arr_tok(), Lin::k(0))
                            }
                        }
                        (Kind::Elems(v), Kind::Elems(w)) => Kind::Elems(self.vals(v, w)),
                        (k, _) => k.clone(),
                    };
                    segs.push(Seg { end, kind });
                }
            }
            None => {
                segs = vec![Seg { end: len.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }];
            }
        }
        Arr { elem: x.elem, len, segs }
    }
}

thread_local! {
    /// Bounds tried when a loop's values grow.
    pub static BOUNDS: std::cell::RefCell<Vec<i128>> = Default::default();
    /// Elements of arrays are values like any other.
    pub static PLAIN: std::cell::Cell<bool> = Default::default();
    /// ... but for this one.
    pub static KEEP: std::cell::Cell<Option<u32>> = Default::default();
}

pub fn join(pr: &Prog, a: &State, b: &State, widen: bool) -> State {
    join_n(pr, a, b, widen, 0)
}

/// `a` is the current invariant when widening.
pub fn join_n(_pr: &Prog, a: &State, b: &State, widen: bool, n: u32) -> State {
    if a.cons.bot {
        return b.clone();
    }
    if b.cons.bot {
        return a.clone();
    }
    let taken = match (a.ghost.get("taken"), b.ghost.get("taken")) {
        (Some(Val::Int(x, _)), Some(Val::Int(y, _))) => Some((x.clone(), y.clone())),
        _ => None,
    };
    let mut j = J {
        a,
        b,
        memo: HashMap::new(),
        rows: vec![],
        leaves: vec![],
        taken,
        eqa: (*a.cons).clone(),
        eqb: (*b.cons).clone(),
    };
    let frames = a
        .frames
        .iter()
        .zip(b.frames.iter())
        .map(|(x, y)| {
            if Rc::ptr_eq(x, y) {
                return x.clone();
            }
            Rc::new(Frame {
                f: x.f,
                locals: x.locals.iter().zip(y.locals.iter()).map(|(v, w)| j.val(v, w)).collect(),
            })
        })
        .collect::<Vec<_>>();
    let (la, lb) = (reachable(a), reachable(b));
    let mut heap = BTreeMap::new();
    for h in la.intersection(&lb) {
        if let (Some(v), Some(w)) = (a.heap.get(h), b.heap.get(h)) {
            heap.insert(*h, j.val(v, w));
        }
    }
    let mut ghost = BTreeMap::new();
    for (k, v) in a.ghost.iter() {
        if let Some(w) = b.ghost.get(k) {
            ghost.insert(*k, j.val(v, w));
        }
    }
    let mut st = State {
        frames,
        heap: Rc::new(heap),
        cons: Default::default(),
        ghost: Rc::new(ghost),
        eqf: Default::default(),
        valf: Default::default(),
        binders: Default::default(),
    };
    facts(&mut j, a, b, &mut st);
    let syms = state_syms(&st);
    let phis: BTreeSet<Sym> = j.rows.iter().map(|r| r.0).collect();
    // Rows for the affine hull: new symbols first, then shared ones.
    let mut rows = j.rows.clone();
    let mut used = BTreeSet::new();
    for (_, x, y) in &j.rows {
        used.extend(x.syms());
        used.extend(y.syms());
    }
    let mut shared: Vec<(Sym, Lin, Lin)> = vec![];
    for &s in &syms {
        if phis.contains(&s) {
            continue;
        }
        let (x, y) = (a.cons.norm(&Lin::s(s)), b.cons.norm(&Lin::s(s)));
        let solved = a.cons.sub.contains_key(&s) || b.cons.sub.contains_key(&s);
        if solved || used.contains(&s) {
            shared.push((s, x, y));
        }
    }
    // Eliminate new symbols in terms of shared ones: shared rows first.
    let mut all = shared;
    all.append(&mut rows);
    let hull = affine_hull(&all);
    let mut cons = Cons::default();
    let pref = |s: Sym| (if phis.contains(&s) { 1 } else { 0 }, s as i64);
    for e in &hull {
        cons.add_eq_pref(e, &pref);
    }
    // Inequalities.
    let mut ca = (*a.cons).clone();
    let mut cb = (*b.cons).clone();
    for (s, x, y) in &j.rows {
        ca.add_eq(&Lin::s(*s).sub(x));
        cb.add_eq(&Lin::s(*s).sub(y));
    }
    let keep = |s: Sym| syms.contains(&s);
    let mut cand: Vec<(bool, Lin)> = vec![]; // (from a, >= 0)
    let lists = [(true, &ca, &cb), (false, &cb, &ca)];
    for (from_a, c, _) in lists.iter() {
        if !from_a && widen {
            continue;
        }
        // Once with the symbols both sides share, once with the new symbols
        // in their place.
        for again in [false, true] {
            let p = if again {
                if j.rows.is_empty() {
                    break;
                }
                c.project(&|s: Sym| phis.contains(&s) || (keep(s) && !used.contains(&s)))
            } else {
                c.project(&keep)
            };
            for (eq, l) in p.list() {
                cand.push((*from_a, l.clone()));
                if eq {
                    cand.push((*from_a, l.neg()));
                }
            }
        }
        // Interval bounds of the new symbols.
        if !widen {
            for (s, _, _) in &j.rows {
                let (lo, hi) = c.interval(&Lin::s(*s));
                let (rl, rh) = range_of(*s);
                if lo > rl {
                    cand.push((*from_a, Lin::s(*s).addk(-lo)));
                }
                if hi < rh {
                    cand.push((*from_a, Lin::s(*s).neg().addk(hi)));
                }
            }
        }
    }
    let mut bounds = BOUNDS.with(|b| b.borrow().clone());
    if !bounds.is_empty() {
        bounds.sort();
        for (s, _, _) in &j.rows {
            let both = |l: &Lin| ca.entails_ge(l) && cb.entails_ge(l);
            if let Some(t) = bounds.iter().find(|t| both(&Lin::s(*s).neg().addk(**t))) {
                cons.add_ge(&Lin::s(*s).neg().addk(*t));
            }
            if let Some(t) = bounds.iter().rev().find(|t| both(&Lin::s(*s).addk(-**t))) {
                cons.add_ge(&Lin::s(*s).addk(-*t));
            }
        }
    }
    for (from_a, l) in cand {
        if n > 12 && l.syms().any(|s| phis.contains(&s)) {
            if n > 20 || l.t.len() > 1 {
                continue;
            }
        }
        let other = if from_a { &cb } else { &ca };
        if cons.entails_ge(&l) {
            continue;
        }
        if other.entails_ge(&l) {
            cons.add_ge(&l);
        } else if n <= 4 && l.t.len() > 1 && other.entails_ge(&l.addk(1)) {
            cons.add_ge(&l.addk(1));
        } else if !widen && l.t.iter().all(|x| x.1.abs() == 1) {
            // Weaken a bound to what the other side satisfies.
            let (lo, _) = other.interval(&l);
            if lo > -BIG && (l.t.len() == 1 || lo > -(1 << 20)) {
                let w = l.addk(-lo);
                if !cons.entails_ge(&w) {
                    cons.add_ge(&w);
                }
            }
        }
    }
    // Strided values against the others.
    if n <= 12 {
        for (x, p, q) in &j.leaves {
            if x.t.len() == 1 && x.t[0].1 == 1 {
                continue;
            }
            for (y, u, v) in &j.leaves {
                for (g, d, e) in [(x.sub(y), p.sub(u), q.sub(v)), (y.sub(x), u.sub(p), v.sub(q))] {
                    if a.cons.entails_ge(&d) && b.cons.entails_ge(&e) && !cons.entails_ge(&g) {
                        cons.add_ge(&g);
                    }
                }
            }
        }
    }
    let mut binders: BTreeSet<Sym> = phis;
    for s in a.binders.iter() {
        if syms.contains(s) {
            binders.insert(*s);
        }
    }
    if std::env::var("VJ").is_ok() && a.ghost.contains_key("D") {
        let f = |s: &State, c: &Cons| c.entails_ge(&s.gi("L").sub(&s.gi("D")));
        if f(a, &a.cons) && f(b, &b.cons) && !f(&st, &cons) {
            eprintln!("LOST D<=L widen={} n={}", widen, n);
            for (w, s, c) in [("a", a, &*a.cons), ("b", b, &*b.cons), ("ca", &st, &ca), ("cb", &st, &cb), ("j", &st, &cons)] {
                eprintln!("  {}: D={} L={}", w, show(&c.norm(&s.gi("D"))), show(&c.norm(&s.gi("L"))));
                for (eq, l) in c.list() {
                    eprintln!("        {} {}", show(&l), if eq { "= 0" } else { ">= 0" });
                }
            }
        }
    }
    st.cons = Rc::new(cons);
    st.binders = Rc::new(binders.into_iter().collect());
    st
}

fn facts(_j: &mut J, a: &State, b: &State, st: &mut State) {
    // Facts that hold verbatim on both sides.
    let mut o = vec![];
    for e in a.eqf.iter() {
        if b.eqf.contains(e) {
            o.push(e.clone());
        }
    }
    st.eqf = Rc::new(o);
    let mut o = vec![];
    for e in a.valf.iter() {
        if b.valf.contains(e) {
            o.push(e.clone());
        }
    }
    st.valf = Rc::new(o);
}

// ------------------------------------------------------------------ inclusion

struct U<'a> {
    new: &'a State,
    inv: &'a State,
    binders: BTreeSet<Sym>,
    bind: HashMap<Sym, Lin>,
    pairs: Vec<(Lin, Lin)>,
    fail: bool,
    /// How often each unknown array is mentioned in the invariant.
    toks: Rc<HashMap<u32, u32>>,
}

fn tok_uses(st: &State) -> HashMap<u32, u32> {
    fn in_val(v: &Val, m: &mut HashMap<u32, u32>) {
        match v {
            Val::Agg(a) => a.iter().for_each(|x| in_val(x, m)),
            Val::Enum(e) => e.values().for_each(|a| a.iter().for_each(|x| in_val(x, m))),
            Val::Arr(a) => {
                for s in &a.segs {
                    match &s.kind {
                        Kind::Src(i, _) => *m.entry(*i).or_insert(0) += 1,
                        Kind::Fill(v) => in_val(v, m),
                        Kind::Elems(v) => v.iter().for_each(|x| in_val(x, m)),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let mut m = HashMap::new();
    for f in &st.frames {
        f.locals.iter().for_each(|v| in_val(v, &mut m));
    }
    st.heap.values().for_each(|v| in_val(v, &mut m));
    st.ghost.values().for_each(|v| in_val(v, &mut m));
    let mut all = state_syms(st);
    for s in st.cons.all_syms() {
        deep_syms(&Lin::s(s), &mut all);
    }
    for s in all {
        if let Some(d) = def_of(s) {
            if let Def::Load(i, ..) = &*d {
                *m.entry(*i).or_insert(0) += 1;
            }
        }
    }
    m
}

impl<'a> U<'a> {
    fn has_binder(&self, l: &Lin) -> bool {
        if self.binders.is_empty() {
            return false;
        }
        let mut o = BTreeSet::new();
        deep_syms(l, &mut o);
        o.iter().any(|s| self.binders.contains(s))
    }
    fn leaf(&mut self, i: &Lin, n: &Lin) {
        if self.fail {
            return;
        }
        let i = renorm(&self.inv.cons, i);
        let n = renorm(&self.new.cons, n);
        if !self.has_binder(&i) {
            if i != n && !self.new.cons.entails_eq(&i.sub(&n)) {
                self.fail = true;
                why(&|| format!("leaf {} vs {}", show(&i), show(&n)));
            }
            return;
        }
        self.pairs.push((i, n));
    }
    fn ptr(&mut self, p: &Ptr, q: &Ptr) {
        if p.root != q.root || p.path.len() != q.path.len() {
            self.fail = true;
            return;
        }
        for (x, y) in p.path.iter().zip(q.path.iter()) {
            if let (PE::E(x), PE::E(y)) = (x, y) {
                self.leaf(x, y);
            } else if x != y {
                self.fail = true;
            }
        }
    }
    fn vals(&mut self, i: &Rc<Vec<Val>>, n: &Rc<Vec<Val>>) {
        let u = Val::Uninit;
        for k in 0..i.len().max(n.len()) {
            self.val(i.get(k).unwrap_or(&u), n.get(k).unwrap_or(&u));
        }
    }
    fn val(&mut self, i: &Val, n: &Val) {
        if self.fail {
            return;
        }
        match (i, n) {
            (Val::Uninit, _) => {}
            (Val::Top(_), _) => {}
            (Val::Int(x, _), Val::Int(y, _)) | (Val::Disc(x), Val::Disc(y)) | (Val::Tok(x), Val::Tok(y)) => {
                self.leaf(x, y)
            }
            (Val::Agg(x), Val::Agg(y)) => {
                if x.is_empty() {
                    return;
                }
                self.vals(x, y)
            }
            (Val::Enum(x), Val::Enum(y)) => {
                for (k, f) in y.iter() {
                    match x.get(k) {
                        Some(g) => self.vals(g, f),
                        None => self.fail = true,
                    }
                }
            }
            (Val::Ref(p), Val::Ref(q)) => self.ptr(p, q),
            (Val::Slice(p, a, b), Val::Slice(q, c, d)) | (Val::It(p, a, b), Val::It(q, c, d)) => {
                self.ptr(p, q);
                self.leaf(a, c);
                self.leaf(b, d);
            }
            (Val::Arr(x), Val::Arr(y)) => self.arr(x, y),
            (Val::Str, Val::Str) => {}
            (Val::Fn(f), Val::Fn(g)) if f == g => {}
            (Val::Bv(x), Val::Bv(y)) => {
                if !(x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p == q || *p == Bit::Any)) {
                    self.fail = true
                }
            }
            _ => {
                self.fail = true;
                why(&|| format!("shape {:?} vs {:?}", i, n));
            }
        }
    }
    fn arr(&mut self, x: &Arr, y: &Arr) {
        self.leaf(&x.len, &y.len);
        // Unknown contents include everything.
        let uses = self.toks.clone();
        let unknown = |k: &Kind| {
            matches!(k, Kind::Src(i, _) if matches!(arr_get(*i), ArrId::Tok(_)) && uses.get(i).copied().unwrap_or(0) <= 1)
        };
        if x.segs.len() == 1 && unknown(&x.segs[0].kind) {
            return;
        }
        let dummy = J {
            a: self.inv,
            b: self.new,
            memo: HashMap::new(),
            leaves: vec![],
            rows: vec![],
            taken: match (self.inv.ghost.get("taken"), self.new.ghost.get("taken")) {
                (Some(Val::Int(p, _)), Some(Val::Int(q, _))) => Some((p.clone(), q.clone())),
                _ => None,
            },
            eqa: Cons::default(),
            eqb: Cons::default(),
        };
        // Kinds may differ where the invariant knows nothing.
        let mut yy = y.clone();
        if x.segs.len() == y.segs.len() {
            for (s, t) in x.segs.iter().zip(yy.segs.iter_mut()) {
                if unknown(&s.kind) {
                    t.kind = s.kind.clone();
                }
            }
        }
        match dummy.align(x, &yy) {
            Some((xs, ys)) if xs.len() == x.segs.len() => {
                let n = xs.len();
                for (k, (s, t)) in xs.iter().zip(ys.iter()).enumerate() {
                    if k + 1 < n {
                        self.leaf(&s.end, &t.end);
                    }
                    match (&s.kind, &t.kind) {
                        (k, _) if unknown(k) => {}
                        (Kind::Src(_, o), Kind::Src(_, p)) => self.leaf(o, p),
                        (Kind::Fill(v), Kind::Fill(w)) => self.val(v, w),
                        (Kind::Elems(v), Kind::Elems(w)) => self.vals(v, w),
                        (Kind::Aff(..), Kind::Aff(..)) => {}
                        _ => self.fail = true,
                    }
                }
            }
            _ => {
                self.fail = true;
                why(&|| format!("array {:?} vs {:?}", x, y));
            }
        }
    }
    fn subst(&self, l: &Lin) -> Lin {
        if !self.has_binder(l) {
            return l.clone();
        }
        let mut o = Lin::k(l.c);
        for &(s, a) in &l.t {
            let e = match self.bind.get(&s) {
                Some(e) => e.clone(),
                None => match def_of(s) {
                    Some(_) => map_defs(&Lin::s(s), &|x| self.subst(x)),
                    None => Lin::s(s),
                },
            };
            o = o.axpy(a, &e).expect("overflow");
        }
        o
    }
    fn unify(&mut self, i: &Lin, n: &Lin) -> bool {
        // Find the single unbound binder.
        let mut unb: Option<(Sym, i128)> = None;
        let mut rest = n.clone();
        let mut known = Lin::k(i.c);
        for &(s, a) in &i.t {
            if self.binders.contains(&s) && !self.bind.contains_key(&s) {
                if unb.is_some() {
                    return false;
                }
                unb = Some((s, a));
            } else if self.binders.contains(&s) {
                known = known.axpy(a, &self.bind[&s]).expect("overflow");
            } else {
                if def_of(s).is_some() && self.has_binder(&Lin::s(s)) {
                    let e = self.subst(&Lin::s(s));
                    known = known.axpy(a, &e).expect("overflow");
                } else {
                    known = known.axpy(a, &Lin::s(s)).expect("overflow");
                }
            }
        }
        rest = match rest.axpy(-1, &known) {
            Some(r) => r,
            None => return false,
        };
        if let Some((s, a)) = unb {
            let rest = renorm(&self.new.cons, &rest);
            if rest.c % a == 0 && rest.t.iter().all(|x| x.1 % a == 0) {
                let e = Lin { c: rest.c / a, t: rest.t.iter().map(|x| (x.0, x.1 / a)).collect() };
                self.bind.insert(s, e);
                return true;
            }
            return false;
        }
        // Inside definitions.
        if i.t.len() == 1 && n.t.len() == 1 && i.c == n.c && i.t[0].1 == n.t[0].1 {
            if let (Some(d), Some(e)) = (def_of(i.t[0].0), def_of(n.t[0].0)) {
                return match (&*d, &*e) {
                    (Def::Load(a, x, p), Def::Load(b, y, q)) if a == b && p == q => self.unify(x, y),
                    (Def::Ge0(x), Def::Ge0(y)) | (Def::Eq0(x), Def::Eq0(y)) => self.unify(x, y),
                    (Def::Mod(x, _), Def::Mod(y, _)) | (Def::Byte(x, _), Def::Byte(y, _)) => self.unify(x, y),
                    (Def::App(f, u), Def::App(g, v)) if f == g && u.len() == v.len() => {
                        let mut r = false;
                        for (x, y) in u.iter().zip(v.iter()) {
                            r |= self.unify(x, y);
                        }
                        r
                    }
                    _ => false,
                };
            }
        }
        false
    }
}

/// Is every concrete state of `new` described by `inv`?
pub fn included(_pr: &Prog, new: &State, inv: &State) -> bool {
    if new.cons.bot {
        return true;
    }
    if inv.cons.bot || new.frames.len() != inv.frames.len() {
        return false;
    }
    let mut u = U {
        new,
        inv,
        binders: inv.binders.iter().copied().collect(),
        bind: HashMap::new(),
        pairs: vec![],
        fail: false,
        toks: Rc::new(tok_uses(inv)),
    };
    for (x, y) in inv.frames.iter().zip(new.frames.iter()) {
        if Rc::ptr_eq(x, y) && u.binders.is_empty() && Rc::ptr_eq(&new.cons, &inv.cons) {
            continue;
        }
        for (v, w) in x.locals.iter().zip(y.locals.iter()) {
            u.val(v, w);
        }
    }
    let li = reachable(inv);
    for h in li {
        match (inv.heap.get(&h), new.heap.get(&h)) {
            (Some(v), Some(w)) => u.val(v, w),
            (None, _) => {}
            _ => return false,
        }
    }
    for (k, v) in inv.ghost.iter() {
        match new.ghost.get(k) {
            Some(w) => u.val(v, w),
            None => return false,
        }
    }
    if u.fail {
        return false;
    }
    // Bind.
    loop {
        let mut prog = false;
        for (i, n) in u.pairs.clone() {
            if u.unify(&i, &n) {
                prog = true;
            }
        }
        if !prog {
            break;
        }
    }
    // The range of a binder is part of its meaning.
    for (s, e) in u.bind.iter() {
        let (lo, hi) = range_of(*s);
        if lo > -BIG && !new.cons.entails_ge(&e.addk(-lo)) {
            why(&|| format!("range lo of {} := {}", show_sym(*s), show(e)));
            return false;
        }
        if hi < BIG && !new.cons.entails_ge(&e.neg().addk(hi)) {
            why(&|| format!("range hi of {} := {}", show_sym(*s), show(e)));
            return false;
        }
    }
    for (i, n) in &u.pairs {
        let x = renorm(&new.cons, &u.subst(i));
        if x != *n && !new.cons.entails_eq(&x.sub(n)) {
            why(&|| format!("pair {} ({}) vs {}", show(i), show(&x), show(n)));
            return false;
        }
    }
    let ok_syms = |l: &Lin| {
        let mut o = BTreeSet::new();
        deep_syms(l, &mut o);
        o.iter().all(|s| !u.binders.contains(s) || u.bind.contains_key(s))
    };
    for (eq, l) in inv.cons.list() {
        let l2 = if eq {
            // s == r: a solved binder is defined by it.
            let s = inv.cons.sub.iter().find(|(s, r)| Lin::s(**s).sub(r) == l).map(|x| *x.0).unwrap();
            if u.binders.contains(&s) && !u.bind.contains_key(&s) {
                continue;
            }
            l
        } else {
            l
        };
        if !ok_syms(&l2) {
            why(&|| format!("unbound binder in {}", show(&l2)));
            return false;
        }
        let x = renorm(&new.cons, &u.subst(&l2));
        let ok = if eq { new.cons.entails_eq(&x) } else { new.cons.entails_ge(&x) };
        if !ok {
            why(&|| format!("constraint {} {} ({})", show(&l2), if eq { "== 0" } else { ">= 0" }, show(&x)));
            return false;
        }
    }
    for e in inv.eqf.iter() {
        let f = EqFact { p: u.subst(&e.p), q: u.subst(&e.q), n: u.subst(&e.n) };
        let same = |a: &Lin, b: &Lin| new.eq(a, b);
        if !new.eqf.iter().any(|g| same(&g.p, &f.p) && same(&g.q, &f.q) && same(&g.n, &f.n)) {
            why(&|| "eq fact".to_string());
            return false;
        }
    }
    for e in inv.valf.iter() {
        let (p, n, v) = (u.subst(&e.p), u.subst(&e.n), u.subst(&e.v));
        if !new.valf.iter().any(|g| new.eq(&g.p, &p) && new.eq(&g.n, &n) && new.eq(&g.v, &v)) {
            return false;
        }
    }
    true
}

/// Where the shapes of two states differ.
pub fn shape_diff(a: &State, b: &State) -> Vec<String> {
    fn go(p: String, a: &Val, b: &Val, c: (&Cons, &Cons), o: &mut Vec<String>) {
        let sh = |v: &Val, c: &Cons| {
            let mut h = DefaultHasher::new();
            hash_shape(v, c, &mut h, false);
            h.finish()
        };
        if sh(a, c.0) == sh(b, c.1) {
            return;
        }
        match (a, b) {
            (Val::Agg(x), Val::Agg(y)) if x.len() == y.len() => {
                for (i, (u, v)) in x.iter().zip(y.iter()).enumerate() {
                    go(format!("{}.{}", p, i), u, v, c, o);
                }
            }
            (Val::Enum(x), Val::Enum(y)) => {
                let (kx, ky): (Vec<_>, Vec<_>) = (x.keys().collect(), y.keys().collect());
                if kx != ky {
                    o.push(format!("{}: {:?}/{:?}", p, kx, ky));
                }
                for (k, f) in x.iter() {
                    if let Some(g) = y.get(k) {
                        for (i, (u, v)) in f.iter().zip(g.iter()).enumerate() {
                            go(format!("{}@{}.{}", p, k, i), u, v, c, o);
                        }
                    }
                }
            }
            (Val::Disc(x), Val::Disc(y)) => o.push(format!("{}: {}/{}", p, show(&c.0.norm(x)), show(&c.1.norm(y)))),
            _ => {
                let f = |v: &Val| format!("{:?}", v).chars().take(40).collect::<String>();
                o.push(format!("{}: {}/{}", p, f(a), f(b)))
            }
        }
    }
    let mut o = vec![];
    let c = (&*a.cons, &*b.cons);
    for (d, (x, y)) in a.frames.iter().zip(b.frames.iter()).enumerate() {
        for (i, (u, v)) in x.locals.iter().zip(y.locals.iter()).enumerate() {
            go(format!("f{}_{}", d, i), u, v, c, &mut o);
        }
    }
    let (ra, rb) = (reachable(a), reachable(b));
    for h in ra.union(&rb) {
        match (ra.contains(h), rb.contains(h)) {
            (true, true) => {
                if let (Some(u), Some(v)) = (a.heap.get(h), b.heap.get(h)) {
                    go(format!("h{}", h), u, v, c, &mut o);
                }
            }
            _ => o.push(format!("h{} only on one side", h)),
        }
    }
    for (k, v) in a.ghost.iter() {
        if let Some(w) = b.ghost.get(k) {
            go(format!("g.{}", k), v, w, c, &mut o);
        }
    }
    o
}
