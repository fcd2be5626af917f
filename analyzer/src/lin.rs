//! Affine expressions over symbols, and conjunctions of affine equalities and
//! inequalities with a Fourier-Motzkin entailment test (integer tightened).
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

pub type Sym = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub t: Vec<(Sym, i128)>,
}

/// Meaning of a symbol that stands for something that is not affine.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Def {
    /// Element of an immutable abstract array, and a field path inside it.
    Load(u32, Lin, Vec<u32>),
    /// Truth value of `lin >= 0` / `lin == 0`.
    Ge0(Lin),
    Eq0(Lin),
    And(Lin, Lin),
    Or(Lin, Lin),
    /// Value modulo 2^bits.
    Mod(Lin, u32),
    /// k-th least significant byte.
    Byte(Lin, u32),
    /// Floor division by a constant.
    Div(Lin, i128),
    /// Deterministic function of its arguments.
    App(Rc<str>, Vec<Lin>),
}

#[derive(Clone)]
pub struct SymInfo {
    pub lo: i128,
    pub hi: i128,
    pub def: Option<Rc<Def>>,
    pub hint: Rc<str>,
}

pub struct Tab {
    pub syms: Vec<SymInfo>,
    pub defs: HashMap<Rc<Def>, Sym>,
}

thread_local! {
    pub static TAB: RefCell<Tab> = RefCell::new(Tab { syms: Vec::new(), defs: HashMap::new() });
}

pub const BIG: i128 = 1 << 100;

pub fn fresh(lo: i128, hi: i128, hint: &str) -> Sym {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        t.syms.push(SymInfo { lo, hi, def: None, hint: hint.into() });
        (t.syms.len() - 1) as Sym
    })
}
pub fn range_of(s: Sym) -> (i128, i128) {
    TAB.with(|t| {
        let t = t.borrow();
        let i = &t.syms[s as usize];
        (i.lo, i.hi)
    })
}
pub fn def_of(s: Sym) -> Option<Rc<Def>> {
    TAB.with(|t| t.borrow().syms[s as usize].def.clone())
}
pub fn hint_of(s: Sym) -> Rc<str> {
    TAB.with(|t| t.borrow().syms[s as usize].hint.clone())
}
/// Symbol for a defined (deterministic) value; the same definition always gets
/// the same symbol.
pub fn defsym(d: Def, lo: i128, hi: i128) -> Sym {
    TAB.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(&s) = t.defs.get(&d) {
            let i = &mut t.syms[s as usize];
            // The range is part of the meaning of the definition; keep the tightest.
            i.lo = i.lo.max(lo);
            i.hi = i.hi.min(hi);
            return s;
        }
        let d = Rc::new(d);
        t.syms.push(SymInfo { lo, hi, def: Some(d.clone()), hint: "".into() });
        let s = (t.syms.len() - 1) as Sym;
        t.defs.insert(d, s);
        s
    })
}
pub fn nsyms() -> usize {
    TAB.with(|t| t.borrow().syms.len())
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    while b != 0 {
        let r = a % b;
        a = b;
        b = r;
    }
    a as i128
}

impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, t: vec![] }
    }
    pub fn s(s: Sym) -> Lin {
        Lin { c: 0, t: vec![(s, 1)] }
    }
    pub fn is_k(&self) -> Option<i128> {
        if self.t.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    /// A single symbol with coefficient one and no constant.
    pub fn as_sym(&self) -> Option<Sym> {
        if self.c == 0 && self.t.len() == 1 && self.t[0].1 == 1 {
            Some(self.t[0].0)
        } else {
            None
        }
    }
    pub fn axpy(&self, k: i128, o: &Lin) -> Option<Lin> {
        if k == 0 {
            return Some(self.clone());
        }
        let mut t = Vec::with_capacity(self.t.len() + o.t.len());
        let (mut i, mut j) = (0, 0);
        while i < self.t.len() || j < o.t.len() {
            if j >= o.t.len() || (i < self.t.len() && self.t[i].0 < o.t[j].0) {
                t.push(self.t[i]);
                i += 1;
            } else if i >= self.t.len() || o.t[j].0 < self.t[i].0 {
                t.push((o.t[j].0, o.t[j].1.checked_mul(k)?));
                j += 1;
            } else {
                let v = self.t[i].1.checked_add(o.t[j].1.checked_mul(k)?)?;
                if v != 0 {
                    t.push((self.t[i].0, v));
                }
                i += 1;
                j += 1;
            }
        }
        let c = self.c.checked_add(o.c.checked_mul(k)?)?;
        Some(Lin { c, t })
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.axpy(1, o).expect("affine overflow")
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.axpy(-1, o).expect("affine overflow")
    }
    pub fn addk(&self, k: i128) -> Lin {
        Lin { c: self.c + k, t: self.t.clone() }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c * k, t: self.t.iter().map(|&(s, a)| (s, a * k)).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn coef(&self, s: Sym) -> i128 {
        match self.t.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => self.t[i].1,
            Err(_) => 0,
        }
    }
    pub fn syms(&self) -> impl Iterator<Item = Sym> + '_ {
        self.t.iter().map(|x| x.0)
    }
    /// Replace s by r.
    pub fn subst(&self, s: Sym, r: &Lin) -> Option<Lin> {
        let k = self.coef(s);
        if k == 0 {
            return Some(self.clone());
        }
        let mut l = self.clone();
        l.t.retain(|x| x.0 != s);
        l.axpy(k, r)
    }
    fn content(&self) -> i128 {
        self.t.iter().fold(0, |g, x| gcd(g, x.1))
    }
    fn type_lo(&self) -> Option<i128> {
        let mut v = self.c;
        for &(s, a) in &self.t {
            let (lo, hi) = range_of(s);
            let b = if a > 0 { lo } else { hi };
            if b.abs() >= BIG {
                return None;
            }
            v = v.checked_add(a.checked_mul(b)?)?;
        }
        Some(v)
    }
}

pub fn show(l: &Lin) -> String {
    let mut o = String::new();
    for &(s, a) in &l.t {
        if !o.is_empty() && a > 0 {
            o.push('+');
        }
        if a == -1 {
            o.push('-');
        } else if a != 1 {
            o += &format!("{}*", a);
        }
        o += &show_sym(s);
    }
    if l.c != 0 || o.is_empty() {
        if l.c >= 0 && !o.is_empty() {
            o.push('+');
        }
        o += &format!("{}", l.c);
    }
    o
}
pub fn show_sym(s: Sym) -> String {
    match def_of(s) {
        None => {
            let h = hint_of(s);
            format!("{}${}", h, s)
        }
        Some(d) => match &*d {
            Def::Load(a, i, p) => format!("a{}[{}]{:?}", a, show(i), p),
            Def::Ge0(l) => format!("({}>=0)", show(l)),
            Def::Eq0(l) => format!("({}==0)", show(l)),
            Def::And(a, b) => format!("({}&&{})", show(a), show(b)),
            Def::Or(a, b) => format!("({}||{})", show(a), show(b)),
            Def::Mod(a, b) => format!("({} mod 2^{})", show(a), b),
            Def::Byte(a, b) => format!("byte{}({})", b, show(a)),
            Def::Div(a, b) => format!("({} div {})", show(a), b),
            Def::App(f, a) => {
                format!("{}({})", f, a.iter().map(show).collect::<Vec<_>>().join(","))
            }
        },
    }
}
impl std::fmt::Debug for Lin {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&show(self))
    }
}

/// A conjunction of affine constraints.
#[derive(Clone, Default, Debug)]
pub struct Cons {
    pub bot: bool,
    /// Solved equalities; right-hand sides contain no solved symbol.
    pub sub: BTreeMap<Sym, Lin>,
    /// Inequalities `>= 0` over unsolved symbols.
    pub ges: Vec<Lin>,
}

pub static mut QUERIES: u64 = 0;

impl Cons {
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.sub.is_empty() || !l.t.iter().any(|x| self.sub.contains_key(&x.0)) {
            return l.clone();
        }
        let mut o = Lin::k(l.c);
        for &(s, a) in &l.t {
            match self.sub.get(&s) {
                Some(r) => o = o.axpy(a, r).expect("overflow"),
                None => o = o.axpy(a, &Lin::s(s)).expect("overflow"),
            }
        }
        o
    }

    pub fn add_eq(&mut self, l: &Lin) {
        self.add_eq_pref(l, &|s| (0, s as i64))
    }

    /// Add `l == 0`; the symbol with the highest preference is solved for.
    pub fn add_eq_pref(&mut self, l: &Lin, pref: &dyn Fn(Sym) -> (i64, i64)) {
        if self.bot {
            return;
        }
        let mut l = self.norm(l);
        if let Some(c) = l.is_k() {
            if c != 0 {
                self.bot = true;
            }
            return;
        }
        let g = l.content();
        if l.c % g != 0 {
            self.bot = true;
            return;
        }
        if g > 1 {
            l.c /= g;
            for x in l.t.iter_mut() {
                x.1 /= g;
            }
        }
        let piv = l.t.iter().filter(|x| x.1.abs() == 1).max_by_key(|x| pref(x.0)).copied();
        match piv {
            None => {
                self.add_ge(&l);
                self.add_ge(&l.neg());
            }
            Some((s, a)) => {
                // a*s + rest = 0  =>  s = -rest/a
                let mut r = l.clone();
                r.t.retain(|x| x.0 != s);
                let r = r.scale(-a);
                let keys: Vec<Sym> =
                    self.sub.iter().filter(|(_, v)| v.coef(s) != 0).map(|x| *x.0).collect();
                for k in keys {
                    let v = self.sub[&k].subst(s, &r).expect("overflow");
                    self.sub.insert(k, v);
                }
                let old = std::mem::take(&mut self.ges);
                let (mut touched, mut kept) = (vec![], vec![]);
                for g in old {
                    if g.coef(s) != 0 {
                        if let Some(x) = g.subst(s, &r) {
                            touched.push(x);
                        }
                    } else {
                        kept.push(g);
                    }
                }
                self.ges = kept;
                self.sub.insert(s, r.clone());
                let (lo, hi) = range_of(s);
                for t in touched {
                    self.add_ge(&t);
                }
                if lo > -BIG {
                    self.add_ge(&r.addk(-lo));
                }
                if hi < BIG {
                    self.add_ge(&r.neg().addk(hi));
                }
            }
        }
    }

    pub fn add_ge(&mut self, l: &Lin) {
        if self.bot {
            return;
        }
        let mut l = self.norm(l);
        if let Some(c) = l.is_k() {
            if c < 0 {
                self.bot = true;
            }
            return;
        }
        let g = l.content();
        if g > 1 {
            l.c = l.c.div_euclid(g);
            for x in l.t.iter_mut() {
                x.1 /= g;
            }
        }
        if let Some(v) = l.type_lo() {
            if v >= 0 {
                return;
            }
        }
        if let Some(v) = l.neg().type_lo() {
            // l <= -v
            if -v < 0 {
                self.bot = true;
                return;
            }
            if v == 0 {
                self.add_eq(&l);
                return;
            }
        }
        let n = l.neg();
        let mut eq = false;
        for g in self.ges.iter_mut() {
            if g.t == l.t {
                if l.c < g.c {
                    g.c = l.c;
                    l = g.clone();
                    // recheck the opposite side below
                    let c = l.c;
                    let nt = l.neg().t;
                    for h in self.ges.iter() {
                        if h.t == nt {
                            if h.c + c < 0 {
                                self.bot = true;
                                return;
                            }
                            if h.c + c == 0 {
                                eq = true;
                            }
                        }
                    }
                    if eq {
                        self.add_eq(&l);
                    }
                }
                return;
            }
        }
        for g in self.ges.iter() {
            if g.t == n.t {
                if g.c + l.c < 0 {
                    self.bot = true;
                    return;
                }
                if g.c + l.c == 0 {
                    eq = true;
                }
            }
        }
        if eq {
            self.add_eq(&l);
        } else {
            self.ges.push(l);
        }
    }

    /// Interval of each symbol from single-variable constraints.
    fn bound1(&self, s: Sym) -> (i128, i128) {
        let (mut lo, mut hi) = range_of(s);
        for g in &self.ges {
            if g.t.len() == 1 && g.t[0].0 == s {
                let a = g.t[0].1;
                if a > 0 {
                    // a*s + c >= 0 -> s >= ceil(-c/a)
                    lo = lo.max(-(g.c.div_euclid(a)));
                } else {
                    hi = hi.min(g.c.div_euclid(-a));
                }
            }
        }
        (lo, hi)
    }

    pub fn interval(&self, l: &Lin) -> (i128, i128) {
        let l = self.norm(l);
        let (mut lo, mut hi) = (l.c, l.c);
        for &(s, a) in &l.t {
            let (x, y) = self.bound1(s);
            let (x, y) = if a > 0 { (x, y) } else { (y, x) };
            if x.abs() >= BIG || lo <= -BIG {
                lo = -BIG;
            } else {
                lo = lo.saturating_add(a.saturating_mul(x)).max(-BIG);
            }
            if y.abs() >= BIG || hi >= BIG {
                hi = BIG;
            } else {
                hi = hi.saturating_add(a.saturating_mul(y)).min(BIG);
            }
        }
        (lo, hi)
    }

    pub fn entails_ge(&self, l: &Lin) -> bool {
        if self.bot {
            return true;
        }
        let l = self.norm(l);
        if let Some(c) = l.is_k() {
            return c >= 0;
        }
        if let Some(v) = l.type_lo() {
            if v >= 0 {
                return true;
            }
        }
        for g in &self.ges {
            if g.t == l.t && l.c >= g.c {
                return true;
            }
        }
        if self.interval(&l).0 >= 0 {
            return true;
        }
        unsafe { QUERIES += 1 };
        // Refute l <= -1.
        let goal = l.neg().addk(-1);
        self.refute(&goal)
    }
    pub fn entails_eq(&self, l: &Lin) -> bool {
        if self.bot {
            return true;
        }
        let l = self.norm(l);
        match l.is_k() {
            Some(c) => c == 0,
            None => self.entails_ge(&l) && self.entails_ge(&l.neg()),
        }
    }

    fn refute(&self, goal: &Lin) -> bool {
        let mut syms: BTreeSet<Sym> = goal.syms().collect();
        let mut used = vec![false; self.ges.len()];
        let mut set: Vec<Lin> = vec![goal.clone()];
        let mut last = 0;
        for round in 0..8 {
            let before = syms.clone();
            for (i, g) in self.ges.iter().enumerate() {
                if !used[i] && g.syms().any(|s| before.contains(&s)) {
                    used[i] = true;
                    set.push(g.clone());
                    for s in g.syms() {
                        syms.insert(s);
                    }
                }
            }
            if set.len() == last {
                break;
            }
            last = set.len();
            if round == 0 || round == 2 || round == 7 {
                let mut v = set.clone();
                push_bounds(&mut v, &syms);
                if unsat(v) {
                    return true;
                }
            }
        }
        let mut v = set;
        push_bounds(&mut v, &syms);
        unsat(v)
    }

    /// True if the constraints are contradictory.
    pub fn infeasible(&self) -> bool {
        if self.bot {
            return true;
        }
        let mut syms = BTreeSet::new();
        for g in &self.ges {
            syms.extend(g.syms());
        }
        let mut v = self.ges.clone();
        push_bounds(&mut v, &syms);
        unsat(v)
    }

    /// Project onto the symbols satisfying `keep`.
    pub fn project(&self, keep: &dyn Fn(Sym) -> bool) -> Cons {
        if self.bot {
            return self.clone();
        }
        // Re-solve so that dropped symbols are eliminated first.
        let mut c = Cons::default();
        for (s, r) in &self.sub {
            let e = Lin::s(*s).sub(r);
            c.add_eq_pref(&e, &|s| (if keep(s) { 0 } else { 1 }, s as i64));
        }
        for g in &self.ges {
            c.add_ge(g);
        }
        if c.bot {
            return c;
        }
        let drop: Vec<Sym> = c.sub.keys().copied().filter(|s| !keep(*s)).collect();
        for s in drop {
            c.sub.remove(&s);
        }
        // Solved kept symbols defined through dropped ones carry no information we can keep.
        let bad: Vec<(Sym, Lin)> = c
            .sub
            .iter()
            .filter(|(_, r)| r.syms().any(|s| !keep(s)))
            .map(|(s, r)| (*s, r.clone()))
            .collect();
        for (s, r) in bad {
            c.sub.remove(&s);
            let e = Lin::s(s).sub(&r);
            c.ges.push(e.clone());
            c.ges.push(e.neg());
        }
        let mut elim: BTreeSet<Sym> = BTreeSet::new();
        for g in &c.ges {
            for s in g.syms() {
                if !keep(s) {
                    elim.insert(s);
                }
            }
        }
        let mut ges = std::mem::take(&mut c.ges);
        while !elim.is_empty() {
            // Cheapest first.
            let mut best: Option<(usize, Sym)> = None;
            for &s in &elim {
                let p = ges.iter().filter(|g| g.coef(s) > 0).count() + 1;
                let q = ges.iter().filter(|g| g.coef(s) < 0).count() + 1;
                let cost = p * q;
                if best.map_or(true, |b| cost < b.0) {
                    best = Some((cost, s));
                }
            }
            let (_, s) = best.unwrap();
            elim.remove(&s);
            let (lo, hi) = range_of(s);
            let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
            for g in ges {
                let k = g.coef(s);
                if k > 0 {
                    pos.push(g)
                } else if k < 0 {
                    neg.push(g)
                } else {
                    rest.push(g)
                }
            }
            if pos.len() * neg.len() <= 64 {
                if lo > -BIG {
                    pos.push(Lin::s(s).addk(-lo));
                }
                if hi < BIG {
                    neg.push(Lin::s(s).neg().addk(hi));
                }
                for p in &pos {
                    for n in &neg {
                        if let Some(x) = combine(p, n, s) {
                            if x.t.is_empty() {
                                if x.c < 0 {
                                    c.bot = true;
                                    return c;
                                }
                                continue;
                            }
                            if x.type_lo().map_or(false, |v| v >= 0) {
                                continue;
                            }
                            rest.push(x);
                        }
                    }
                }
            }
            ges = dedup(rest);
        }
        for g in ges {
            c.add_ge(&g);
        }
        c
    }

    pub fn all_syms(&self) -> BTreeSet<Sym> {
        let mut o = BTreeSet::new();
        for (s, r) in &self.sub {
            o.insert(*s);
            o.extend(r.syms());
        }
        for g in &self.ges {
            o.extend(g.syms());
        }
        o
    }

    /// All constraints as a list (eq, lin).
    pub fn list(&self) -> Vec<(bool, Lin)> {
        let mut o = vec![];
        for (s, r) in &self.sub {
            o.push((true, Lin::s(*s).sub(r)));
        }
        for g in &self.ges {
            o.push((false, g.clone()));
        }
        o
    }
}

fn push_bounds(v: &mut Vec<Lin>, syms: &BTreeSet<Sym>) {
    for &s in syms {
        let (lo, hi) = range_of(s);
        if lo > -BIG {
            v.push(Lin::s(s).addk(-lo));
        }
        if hi < BIG {
            v.push(Lin::s(s).neg().addk(hi));
        }
    }
}

fn tighten(mut l: Lin) -> Lin {
    let g = l.content();
    if g > 1 {
        l.c = l.c.div_euclid(g);
        for x in l.t.iter_mut() {
            x.1 /= g;
        }
    }
    l
}

fn combine(p: &Lin, n: &Lin, s: Sym) -> Option<Lin> {
    let a = p.coef(s);
    let b = -n.coef(s);
    let g = gcd(a, b);
    let x = scale_ck(p, b / g)?.axpy(a / g, n)?;
    Some(tighten(x))
}
fn scale_ck(l: &Lin, k: i128) -> Option<Lin> {
    Lin::k(0).axpy(k, l)
}

fn dedup(v: Vec<Lin>) -> Vec<Lin> {
    let mut m: HashMap<Vec<(Sym, i128)>, i128> = HashMap::with_capacity(v.len());
    for l in v {
        let e = m.entry(l.t).or_insert(l.c);
        if l.c < *e {
            *e = l.c;
        }
    }
    let mut o: Vec<Lin> = m.into_iter().map(|(t, c)| Lin { c, t }).collect();
    o.sort();
    o
}

/// Fourier-Motzkin; false means "not shown contradictory".
fn unsat(v: Vec<Lin>) -> bool {
    let mut v = dedup(v.into_iter().map(tighten).collect());
    let mut steps = 0;
    loop {
        let mut next = Vec::with_capacity(v.len());
        for l in v {
            if l.t.is_empty() {
                if l.c < 0 {
                    return true;
                }
            } else {
                next.push(l);
            }
        }
        v = next;
        if v.is_empty() {
            return false;
        }
        // opposite pairs
        let mut cnt: BTreeMap<Sym, (usize, usize)> = BTreeMap::new();
        for l in &v {
            for &(s, a) in &l.t {
                let e = cnt.entry(s).or_insert((0, 0));
                if a > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        let (&s, &(p, q)) = cnt
            .iter()
            .min_by_key(|(_, &(p, q))| (p * q) as i64 - (p + q) as i64)
            .unwrap();
        steps += 1;
        if steps > 60 || p * q > 1500 {
            return false;
        }
        let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
        for l in v {
            let k = l.coef(s);
            if k > 0 {
                pos.push(l)
            } else if k < 0 {
                neg.push(l)
            } else {
                rest.push(l)
            }
        }
        for a in &pos {
            for b in &neg {
                if let Some(x) = combine(a, b, s) {
                    if x.t.is_empty() {
                        if x.c < 0 {
                            return true;
                        }
                    } else {
                        rest.push(x);
                    }
                }
            }
        }
        v = dedup(rest);
        if v.len() > 500 {
            // Keep the shortest ones; dropping constraints is sound.
            v.sort_by_key(|l| l.t.len());
            v.truncate(500);
        }
    }
}

/// All affine equalities among `rows` that hold in both parametrisations.
/// rows[i] = (symbol, expression in state 1, expression in state 2).
pub fn affine_hull(rows: &[(Sym, Lin, Lin)]) -> Vec<Lin> {
    // Vector per row: coefficients of state-1 params, of state-2 params, and
    // the difference of constants. Left null space gives the equalities.
    type R = (i128, i128);
    fn rn(n: i128, d: i128) -> Option<R> {
        let g = gcd(n, d);
        let (n, d) = if g == 0 { (0, 1) } else { (n / g, d / g) };
        Some(if d < 0 { (-n, -d) } else { (n, d) })
    }
    fn rsubmul(a: R, f: R, b: R) -> Option<R> {
        // a - f*b
        let p = rn(f.0.checked_mul(b.0)?, f.1.checked_mul(b.1)?)?;
        let n = a.0.checked_mul(p.1)?.checked_sub(p.0.checked_mul(a.1)?)?;
        rn(n, a.1.checked_mul(p.1)?)
    }
    fn rdiv(a: R, b: R) -> Option<R> {
        rn(a.0.checked_mul(b.1)?, a.1.checked_mul(b.0)?)
    }
    let mut cols: BTreeMap<(u8, Sym), usize> = BTreeMap::new();
    for (_, a, b) in rows {
        for s in a.syms() {
            let n = cols.len();
            cols.entry((1, s)).or_insert(n);
        }
        for s in b.syms() {
            let n = cols.len();
            cols.entry((2, s)).or_insert(n);
        }
    }
    let nc = cols.len() + 1;
    let n = rows.len();
    let mut m: Vec<Vec<R>> = vec![];
    for (i, (_, a, b)) in rows.iter().enumerate() {
        let mut r = vec![(0, 1); nc + n];
        for &(s, k) in &a.t {
            r[cols[&(1, s)]] = (k, 1);
        }
        for &(s, k) in &b.t {
            r[cols[&(2, s)]] = (k, 1);
        }
        r[nc - 1] = (a.c - b.c, 1);
        r[nc + i] = (1, 1);
        m.push(r);
    }
    let mut rank = 0;
    for c in 0..nc {
        // Prefer pivots early in the row order.
        let p = match (rank..n).find(|&r| m[r][c].0 != 0) {
            None => continue,
            Some(p) => p,
        };
        m.swap(rank, p);
        for r in rank + 1..n {
            if m[r][c].0 != 0 {
                let f = match rdiv(m[r][c], m[rank][c]) {
                    Some(f) => f,
                    None => return vec![],
                };
                for k in 0..nc + n {
                    if m[rank][k].0 != 0 {
                        let v = match rsubmul(m[r][k], f, m[rank][k]) {
                            Some(v) => v,
                            None => return vec![],
                        };
                        m[r][k] = v;
                    }
                }
            }
        }
        rank += 1;
    }
    let mut out = vec![];
    'rows: for r in rank..n {
        let mut den: i128 = 1;
        for k in 0..n {
            let d = m[r][nc + k].1;
            den = match (den / gcd(den, d)).checked_mul(d) {
                Some(x) if x < (1 << 60) => x,
                _ => continue 'rows,
            };
        }
        let mut e = Lin::k(0);
        let mut cst = Lin::k(0);
        for k in 0..n {
            let v = m[r][nc + k].0 * (den / m[r][nc + k].1);
            if v != 0 {
                e = match e.axpy(v, &Lin::s(rows[k].0)) {
                    Some(x) => x,
                    None => continue 'rows,
                };
                cst = match cst.axpy(v, &rows[k].1) {
                    Some(x) => x,
                    None => continue 'rows,
                };
            }
        }
        if let Some(c) = cst.is_k() {
            out.push(e.addk(-c));
        }
    }
    out
}
