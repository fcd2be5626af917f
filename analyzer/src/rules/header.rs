//! C16: the header of a dynamic block has the fields of RFC 1951.
//!
//! The function writing the header is interpreted for every number of codes
//! and every kind of element of the sequence of code lengths, with lengths
//! and repeat counts as intervals. The function making this sequence is
//! interpreted for all sequences of code lengths at once, to see that repeat
//! counts stay within what their symbols can express. Tables of code lengths
//! that are constant are those of the fixed codes.
use super::codes::group_op;
use crate::contract::{self, has_bitw, is_bitw};
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use vir::*;

const ORDER: [i128; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

struct Header {
    paths: std::cell::Cell<i128>,
    /// The code lengths a sequence is made from, if each of them is followed.
    exact: RefCell<Option<Vec<Lin>>>,
    /// Only what makes code lengths is of interest.
    only: std::cell::Cell<bool>,
    /// Limits on code lengths, and how many codes they are for.
    limits: RefCell<Vec<(i128, i128, (FnId, u32))>>,
    /// The constant tables of code lengths that codes were made from.
    fixed: RefCell<Vec<(u32, (FnId, u32))>>,
    /// What the variants of an element stand for, while its sequence is made.
    kinds: RefCell<Vec<i128>>,
}

/// Makes codes from their lengths.
fn makes_codes(pr: &Prog, fu: &Func) -> bool {
    let of = |t: TyId, m: bool, w: u32| match pr.ty(t).kind {
        TyKind::Ref { to, mutable } if mutable == m => match pr.ty(to).kind {
            TyKind::Slice(e) => pr.ity(e).map_or(false, |t| t.bits() == w),
            TyKind::Array { elem, .. } => pr.ity(elem).map_or(false, |t| t.bits() == w),
            _ => false,
        },
        _ => false,
    };
    fu.local && fu.args.len() == 2 && of(fu.args[0], true, 16) && (of(fu.args[1], false, 8))
}

/// Makes code lengths from frequencies: where the limit and the lengths are.
fn makes_lengths(pr: &Prog, fu: &Func) -> Option<(usize, usize)> {
    let of = |t: TyId, m: bool, w: u32| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable } if mutable == m && matches!(pr.ty(to).kind, TyKind::Slice(e) if pr.ity(e).map_or(false, |t| t.bits() == w)));
    let one = |f: &dyn Fn(TyId) -> bool| {
        let v: Vec<usize> = fu.args.iter().enumerate().filter(|a| f(*a.1)).map(|a| a.0).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    };
    one(&|t| of(t, false, 16))?;
    let out = one(&|t| of(t, true, 8))?;
    let limit = one(&|t| pr.ity(t).is_some())?;
    if fu.local { Some((limit, out)) } else { None }
}

/// Calls something that makes code lengths.
fn reaches(pr: &Prog, fu: &Func, depth: u32) -> bool {
    let calls = fu.body.iter().flat_map(|b| b.blocks.iter()).filter_map(|b| match &b.term {
        Term::Call { callee: Callee::Fn(h), .. } => Some(&pr.p.fns[*h as usize]),
        _ => None,
    });
    for g in calls {
        if makes_lengths(pr, g).is_some() || depth < 3 && g.local && reaches(pr, g, depth + 1) {
            return true;
        }
    }
    false
}

impl Rule for Header {
    fn interesting(&self, _: &str) -> bool {
        false
    }
    fn wants(&self, pr: &Prog, fu: &Func) -> bool {
        fu.local && (!self.only.get() || reaches(pr, fu, 0))
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let fu = it.func(c.f);
        if group_op(it.pr, fu) {
            let mut st = st.clone();
            let mut log = match st.ghost.get("log") {
                Some(Val::Agg(v)) => (**v).clone(),
                _ => vec![],
            };
            log.push(agg(vec![c.args[1].clone(), c.args[2].clone()]));
            Rc::make_mut(&mut st.ghost).insert("log", agg(log));
            return Some(vec![(st, unit())]);
        }
        if let Some((limit, out)) = makes_lengths(it.pr, fu) {
            // The longest code there may be has to be the one that can be described.
            if let (Some(l), Val::Slice(_, s, n)) = (c.args[limit].lin(), &c.args[out]) {
                let n = st.norm(&n.sub(s)).is_k();
                if let (Some(l), Some(n)) = (st.norm(&l).is_k(), n) {
                    let at = it.stack.last().copied();
                    if let Some(at) = at {
                        self.limits.borrow_mut().push((l, n, at));
                    }
                }
            }
            return Some(it.havoc_call(c.f, c.args, st.clone()));
        }
        if makes_codes(it.pr, fu) {
            // The codes are named after their symbols.
            let mut st = st.clone();
            let from = match &c.args[1] {
                Val::Slice(p, s, n) if st.eq(s, &Lin::k(0)) => Some((p.clone(), Some(n.clone()))),
                Val::Ref(p) => Some((p.clone(), None)),
                _ => None,
            };
            if let Some((p, n)) = from {
                let a = crate::models::arr_of(it, &mut st, &p);
                let a = a.filter(|a| n.map_or(true, |n| st.eq(&n, &a.len)));
                let at = it.stack.last().copied();
                if let (Some(id), Some(at)) = (a.and_then(|a| super::blocks::ident(&a.segs)), at) {
                    if matches!(arr_get(id), ArrId::Const(_)) {
                        self.fixed.borrow_mut().push((id, at));
                    }
                }
            }
            let (p, len) = match &c.args[0] {
                Val::Slice(p, s, n) if st.eq(s, &Lin::k(0)) => (p.clone(), n.clone()),
                Val::Ref(p) => match crate::models::arr_of(it, &mut st, p) {
                    Some(a) => (p.clone(), a.len.clone()),
                    None => return None,
                },
                _ => return None,
            };
            let a = crate::models::arr_of(it, &mut st, &p)?;
            if !st.eq(&a.len, &len) {
                return None;
            }
            let id = arr_id(ArrId::App("code".into(), vec![]));
            let n = Arr { elem: a.elem, len: len.clone(), segs: vec![Seg { end: len, kind: Kind::Src(id, Lin::k(0)) }] };
            st.set(it.pr, &p, Val::Arr(Rc::new(n)));
            return Some(vec![(st, unit())]);
        }
        None
    }
    fn split(&self, it: &mut Interp, st: State) -> Vec<State> {
        if self.exact.borrow().is_some() {
            // Every path is followed by itself.
            let mut st = st;
            self.paths.set(self.paths.get() + 1);
            st.set_gd("case", self.paths.get());
            return vec![st];
        }
        if self.kinds.borrow().is_empty() {
            return vec![st];
        }
        // Bytes that are zero, and those that are not.
        let f = match st.frames.last() {
            Some(f) if it.func(f.f).local => f.clone(),
            _ => return vec![st],
        };
        let bytes: Vec<(usize, Lin)> = f
            .locals
            .iter()
            .enumerate()
            .filter_map(|(i, v)| match v {
                Val::Int(l, t) if t.bits() == 8 => Some((i, l.clone())),
                _ => None,
            })
            .collect();
        let given = src("given");
        let read = |l: &Lin| l.as_sym().and_then(def_of).map_or(false, |d| matches!(&*d, Def::Load(id, ..) if *id == given));
        let mut out: Vec<(State, i128)> = vec![(st, 0)];
        for (i, l) in &bytes {
            let mut next = vec![];
            for (s, h) in out {
                for z in 0..2 {
                    let mut s = s.clone();
                    if z == 0 {
                        s.add_eq(l);
                    } else {
                        s.add_ge(&l.addk(-1));
                    }
                    if !s.cons.bot {
                        next.push((s, (h * 31 + *i as i128 * 2 + z + 1) % 1_000_000_007));
                    }
                }
            }
            out = next;
        }
        out.into_iter()
            .map(|(mut s, mut h)| {
                // Bytes that are known to be the same, or to differ.
                for (i, x) in &bytes {
                    for (j, y) in bytes.iter().take_while(|b| b.0 < *i) {
                        let (x, y) = (s.norm(x), s.norm(y));
                        if x.is_k().is_some() || y.is_k().is_some() || !(read(&x) || read(&y)) {
                            continue;
                        }
                        let e = it.eq0(&s, &x.sub(&y));
                        if let Some(k) = s.konst(&e) {
                            h = (h * 37 + (*i * 64 + *j) as i128 * 2 + k + 1) % 1_000_000_007;
                        }
                    }
                }
                s.set_gd("case", h);
                s
            })
            .collect()
    }
    fn vec_event(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: VecEv) {
        let kinds = self.kinds.borrow().clone();
        if kinds.is_empty() {
            return;
        }
        match crate::models::arr_of(it, st, p) {
            Some(a) if is_element(it.pr, a.elem) => {}
            _ => return,
        }
        match ev {
            VecEv::Append(segs, _) => {
                for g in segs {
                    match &g.kind {
                        Kind::Elems(v) => {
                            for v in v.iter() {
                                match &*self.exact.borrow() {
                                    Some(given) => follow(it, st, &kinds, v, given),
                                    None => described(it, st, &kinds, v),
                                }
                            }
                        }
                        _ => it.violation("elements of the sequence of code lengths are not known"),
                    }
                }
            }
            VecEv::Truncate(n) => {
                if st.eq(n, &Lin::k(0)) {
                    st.set_gi("covered", Lin::k(0));
                } else if self.exact.borrow().is_some() {
                    it.violation("the sequence of code lengths is cut short");
                }
            }
            VecEv::Other => it.violation("the sequence of code lengths is changed in a way that is not understood"),
        }
    }
}

/// One more element of the sequence of code lengths.
fn described(it: &mut Interp, st: &mut State, kinds: &[i128], v: &Val) {
    it.obligation("element of the sequence of code lengths");
    let m = match v {
        Val::Enum(m) if m.len() > 0 => m.clone(),
        _ => {
            it.violation("an element of the sequence of code lengths is not known");
            return;
        }
    };
    for (k, f) in m.iter() {
        let (n, k) = (f[0].lin(), kinds[*k as usize]);
        let (a, b) = range(k);
        if k != 0 && !n.map_or(false, |n| st.ge(&n.addk(-a)) && st.ge(&n.neg().addk(b))) {
            it.violation(&format!("symbol {} may be used for a repeat count outside {}..={}", k, a, b));
        }
    }
}

/// One more element of the sequence for these code lengths.
fn follow(it: &mut Interp, st: &mut State, kinds: &[i128], v: &Val, given: &[Lin]) {
    let at = st.gi("covered");
    let (at, m) = match (st.norm(&at).is_k(), v) {
        (Some(at), Val::Enum(m)) if m.len() == 1 => (at as usize, m.clone()),
        _ => {
            it.violation("an element of the sequence of code lengths is not known");
            return;
        }
    };
    let (k, f) = m.iter().next().unwrap();
    let (n, k) = (f[0].lin().unwrap_or(Lin::k(-1)), kinds[*k as usize]);
    let (count, like) = match k {
        0 => (Some(1), Some(n)),
        16 => (st.norm(&n).is_k(), if at > 0 { given.get(at - 1).cloned() } else { None }),
        _ => (st.norm(&n).is_k(), Some(Lin::k(0))),
    };
    let ok = match (count, like) {
        (Some(c), Some(l)) if c >= 1 => (at..at + c as usize).all(|i| given.get(i).map_or(false, |g| st.eq(g, &l))),
        _ => false,
    };
    if !ok {
        it.violation("an element of the sequence of code lengths does not stand for the code lengths that come next");
    }
    st.set_gi("covered", Lin::k(at as i128 + count.unwrap_or(1)));
}

pub const PARTS: [&str; 8] = ["counts", "distances", "lengths", "sequence", "runs", "windows", "limits", "fixed"];

pub fn run(pr: &Prog, prop: &str) -> i32 {
    super::parallel(pr, prop, &PARTS, &|p, log| part(pr, p, log))
}

/// Elements of a sequence of code lengths: every variant carries one byte.
fn is_element(pr: &Prog, t: TyId) -> bool {
    match &pr.ty(t).kind {
        TyKind::Adt { kind: AdtKind::Enum, variants, path, .. } => {
            path.starts_with("deflate::")
                && variants.len() >= 3
                && variants.iter().all(|v| v.fields.len() == 1 && pr.ity(v.fields[0].1).map_or(false, |t| t.bits() <= 16))
        }
        _ => false,
    }
}
fn elements(pr: &Prog, t: TyId) -> Option<TyId> {
    match pr.ty(t).kind {
        TyKind::Ref { to, .. } => match pr.ty(to).kind {
            TyKind::Slice(e) if is_element(pr, e) => Some(e),
            _ if pr.is_vec(to) && is_element(pr, pr.elem_of(to)) => Some(pr.elem_of(to)),
            _ => None,
        },
        _ => None,
    }
}

/// What a header is made from.
struct Given {
    used: i128,
    lits: i128,
    dists: i128,
    elems: Vec<Val>,
}

struct Run<'a, 'b> {
    it: &'b mut Interp<'a>,
    f: FnId,
    el: TyId,
    ok: u64,
    /// The code lengths to give, if they are listed.
    exact: Option<Vec<Lin>>,
}

fn src(name: &str) -> u32 {
    arr_id(ArrId::App(name.into(), vec![]))
}

impl<'a, 'b> Run<'a, 'b> {
    fn array(&mut self, st: &mut State, elem: TyId, len: u64, g: &Given) -> Option<Val> {
        let n = Lin::k(len as i128);
        let whole = |id: u32| Arr { elem, len: n.clone(), segs: vec![Seg { end: n.clone(), kind: Kind::Src(id, Lin::k(0)) }] };
        if self.it.pr.ity(elem).map_or(true, |t| t.bits() != 8) {
            return None;
        }
        let _ = st;
        let k = match len {
            19 => return Some(Val::Arr(Rc::new(whole(src("hclen"))))),
            286..=288 => g.lits,
            30..=32 => g.dists,
            _ => return None,
        };
        // The last code in use has a length.
        let t = self.it.pr.ity(elem).unwrap();
        let mut segs = vec![];
        if k > 1 {
            segs.push(Seg { end: Lin::k(k - 1), kind: Kind::Src(src(if len > 200 { "lits" } else { "dists" }), Lin::k(0)) });
        }
        segs.push(Seg { end: Lin::k(k), kind: Kind::Fill(Val::Int(Lin::s(fresh(1, 15, "length")), t)) });
        if k < len as i128 {
            segs.push(Seg { end: n.clone(), kind: Kind::Fill(Val::Int(Lin::k(0), t)) });
        }
        Some(Val::Arr(Rc::new(Arr { elem, len: n, segs })))
    }
    fn fill(&mut self, st: &mut State, p: &Ptr, t: TyId, g: &Given) {
        let pr = self.it.pr;
        if is_bitw(pr, t) {
            return;
        }
        match pr.ty(t).kind.clone() {
            TyKind::Array { elem, len } => {
                if let Some(v) = self.array(st, elem, len, g) {
                    st.set(pr, p, v);
                }
            }
            TyKind::Int { bits, .. } if bits >= 8 => {
                st.set(pr, p, Val::Int(Lin::k(g.used), pr.ity(t).unwrap()));
            }
            _ if pr.is_vec(t) => {
                let e = pr.elem_of(t);
                let v = if is_element(pr, e) { Some(seq(e, &g.elems)) } else { self.array(st, e, 19, g) };
                if let Some(v) = v {
                    st.set(pr, p, v);
                }
            }
            TyKind::Adt { kind: AdtKind::Struct, .. } => {
                for (i, ft) in contract::fields(pr, t).into_iter().enumerate() {
                    let q = p.push(PE::F(i as u32));
                    st.get(pr, &q, None);
                    self.fill(st, &q, ft, g);
                }
            }
            _ => {}
        }
    }
    fn header(&mut self, g: &Given) -> Vec<(State, Vec<(Lin, Lin)>)> {
        let pr = self.it.pr;
        let fu = self.it.func(self.f);
        let mut st = State::new();
        let mut args = vec![];
        for t in fu.args.clone() {
            match pr.ty(t).kind.clone() {
                TyKind::Ref { to, .. } => match pr.ty(to).kind.clone() {
                    TyKind::Slice(e) => {
                        let v = if is_element(pr, e) { Some(seq(e, &g.elems)) } else { self.array(&mut st, e, 19, g) };
                        match v {
                            Some(Val::Arr(a)) => {
                                let n = a.len.clone();
                                let p = self.it.alloc(&mut st, to, Val::Arr(a));
                                args.push(Val::Slice(p, Lin::k(0), n));
                            }
                            _ => {
                                let v = self.it.unknown(&mut st, t);
                                args.push(v)
                            }
                        }
                    }
                    _ => {
                        let v = self.it.unknown(&mut st, t);
                        if let Some(p) = contract::target_of(self.it, &mut st, &v) {
                            self.fill(&mut st, &p, to, g);
                        }
                        args.push(v);
                    }
                },
                TyKind::Int { .. } => args.push(Val::Int(Lin::k(g.used), pr.ity(t).unwrap())),
                _ => {
                    let v = self.it.unknown(&mut st, t);
                    args.push(v)
                }
            }
        }
        let rets = self.it.inline(self.f, args, st);
        rets.into_iter()
            .map(|(s, _)| {
                let log = match s.ghost.get("log") {
                    Some(Val::Agg(v)) => (**v).clone(),
                    _ => vec![],
                };
                let mut got = vec![];
                for e in &log {
                    if let Val::Agg(x) = e {
                        match (x[0].lin(), x[1].lin()) {
                            (Some(_), Some(n)) if s.eq(&n, &Lin::k(0)) => {}
                            (Some(v), Some(n)) => got.push((v, n)),
                            _ => got.push((Lin::k(-2), Lin::k(-2))),
                        }
                    }
                }
                if std::env::var("VDETAIL").is_ok() {
                    eprintln!("used {} lits {} dists {} got {:?}", g.used, g.lits, g.dists, got.iter().map(|x| (show(&s.norm(&x.0)), show(&s.norm(&x.1)))).collect::<Vec<_>>());
                }
                (s, got)
            })
            .collect()
    }
    fn tell(&mut self, what: &str, bad: Option<String>) {
        self.it.stack.push((self.f, self.it.func(self.f).line));
        self.it.obligation(what);
        match bad {
            Some(m) => self.it.violation(&m),
            None => self.ok += 1,
        }
        self.it.stack.pop();
    }
    fn elem(&self, v: u32, n: Lin) -> Val {
        let pr = self.it.pr;
        let t = match &pr.ty(self.el).kind {
            TyKind::Adt { variants, .. } => pr.ity(variants[v as usize].fields[0].1).unwrap(),
            _ => unreachable!(),
        };
        let mut m = BTreeMap::new();
        m.insert(v, Rc::new(vec![Val::Int(n, t)]));
        Val::Enum(Rc::new(m))
    }
    fn variants(&self) -> u32 {
        match &self.it.pr.ty(self.el).kind {
            TyKind::Adt { variants, .. } => variants.len() as u32,
            _ => 0,
        }
    }

    /// The three counts and the lengths of the code lengths' codes.
    fn counts(&mut self, g: &Given) {
        let mut bad = None;
        let rets = self.header(g);
        if rets.is_empty() {
            bad = Some("cannot be written".to_string());
        }
        for (s, got) in rets {
            let mut want = vec![(Lin::k(g.lits - 257), 5), (Lin::k(g.dists - 1), 5), (Lin::k(g.used - 4), 4)];
            for i in 0..g.used {
                want.push((load(self.it, &mut s.clone(), "hclen", ORDER[i as usize]), 3));
            }
            if got.len() != want.len() {
                bad = Some(format!("consists of {} fields instead of {}", got.len(), want.len()));
                continue;
            }
            for (i, (a, b)) in got.iter().zip(&want).enumerate() {
                if !s.eq(&a.1, &Lin::k(b.1)) || !s.eq(&a.0, &b.0) {
                    let what = match i {
                        0 => "HLIT".to_string(),
                        1 => "HDIST".to_string(),
                        2 => "HCLEN".to_string(),
                        _ => format!("the length of the code for code length {}", ORDER[i - 3]),
                    };
                    bad = Some(format!("does not have {} where RFC 1951 has it", what));
                    break;
                }
            }
        }
        let m = bad.map(|b| format!("the header of a block with {} literal/length codes, {} distance codes and {} code length codes {}", g.lits, g.dists, g.used, b));
        self.tell("header fields", m);
    }

    /// How element v is written: what it stands for, or what is wrong.
    fn kind(&mut self, v: u32, lo: i128, hi: i128) -> Result<i128, String> {
        let n = if lo == hi { Lin::k(lo) } else { Lin::s(fresh(lo, hi, "count")) };
        let e = self.elem(v, n.clone());
        let g = Given { used: 4, lits: 257, dists: 1, elems: vec![e.clone(), e] };
        let rets = self.header(&g);
        if rets.is_empty() {
            return Err("cannot be written".into());
        }
        let mut kinds = vec![];
        for (s, got) in rets {
            let got = got.get(7..).unwrap_or(&[]).to_vec();
            if got.len() < 2 || got.len() % 2 != 0 {
                return Err("is not written".into());
            }
            let mut s = s;
            let (a, b) = got.split_at(got.len() / 2);
            let mut k = -1;
            for x in [a, b] {
                let (sym, base) = match (x.len(), x.get(1).and_then(|y| s.norm(&y.1).is_k())) {
                    (1, _) => (None, 0),
                    (2, Some(2)) => (Some(16), 3),
                    (2, Some(3)) => (Some(17), 3),
                    (2, Some(7)) => (Some(18), 11),
                    _ => return Err("is not written with the number of extra bits of RFC 1951".into()),
                };
                let i = sym.map_or(n.clone(), Lin::k);
                let code = load_at(self.it, &mut s, "code", &i, 16);
                let len = load_at(self.it, &mut s, "hclen", &i, 8);
                if !s.eq(&x[0].1, &len) || !s.eq(&x[0].0, &code) {
                    return Err("is not written with the code of its symbol".into());
                }
                if x.len() == 2 && !s.eq(&x[1].0, &n.addk(-base)) {
                    return Err("is not written with the extra bits for its repeat count".into());
                }
                k = sym.unwrap_or(0);
            }
            kinds.push(k);
        }
        if kinds.iter().any(|k| *k != kinds[0]) {
            return Err("is written in different ways".into());
        }
        Ok(kinds[0])
    }
}

impl<'a, 'b> Run<'a, 'b> {
    /// Put the whole sequence of lengths into the first place that takes it.
    fn give(&mut self, st: &mut State, t: TyId, n: &Lin, given: &mut bool) -> Val {
        let pr = self.it.pr;
        let byte = |t: TyId| matches!(pr.ty(t).kind, TyKind::Int { bits: 8, signed: false });
        let exact = self.exact.clone();
        let mut array = |it: &mut Interp, st: &mut State, e: TyId, given: &mut bool| {
            let n = if *given { Lin::k(0) } else { n.clone() };
            *given = true;
            let t = (0..pr.p.types.len() as TyId).find(|t| matches!(pr.ty(*t).kind, TyKind::Array { elem, .. } if elem == e)).unwrap_or(e);
            let byte = pr.ity(e);
            let vals = |g: &Vec<Lin>| Kind::Elems(Rc::new(g.iter().map(|l| Val::Int(l.clone(), byte.unwrap())).collect()));
            let segs = if n.is_k() == Some(0) {
                vec![]
            } else if let Some(g) = &exact {
                vec![Seg { end: n.clone(), kind: vals(g) }]
            } else { vec![Seg { end: n.clone(), kind: Kind::Src(src("given"), Lin::k(0)) }] };
            (it.alloc(st, t, Val::Arr(Rc::new(Arr { elem: e, len: n.clone(), segs }))), n)
        };
        match pr.ty(t).kind.clone() {
            TyKind::Ref { to, mutable: false } => match pr.ty(to).kind {
                TyKind::Slice(e) if byte(e) => {
                    let (p, n) = array(self.it, st, e, given);
                    Val::Slice(p, Lin::k(0), n)
                }
                _ => self.it.unknown(st, t),
            },
            TyKind::Adt { path, variants, args, kind, .. } => {
                if path.ends_with("slice::Iter") {
                    if let Some(e) = args.iter().copied().find(|t| byte(*t)) {
                        let (p, n) = array(self.it, st, e, given);
                        return Val::It(p, Lin::k(0), n);
                    }
                }
                match kind {
                    AdtKind::Struct if path.contains("::iter::") => agg(variants[0].fields.iter().map(|f| self.give(st, f.1, n, given)).collect()),
                    AdtKind::Enum if path.ends_with("option::Option") => {
                        let i = variants.iter().position(|v| !v.fields.is_empty()).unwrap() as u32;
                        let v = self.give(st, variants[i as usize].fields[0].1, n, given);
                        let mut m = BTreeMap::new();
                        m.insert(i, Rc::new(vec![v]));
                        Val::Enum(Rc::new(m))
                    }
                    _ => self.it.unknown(st, t),
                }
            }
            _ => self.it.unknown(st, t),
        }
    }
    /// The sequence made from these lengths, each of them a number or any of 0 to 15.
    fn follow(&mut self, rule: &Header, f: FnId, given: Vec<Lin>) {
        let fu = self.it.func(f);
        let mut st = State::new();
        st.set_gi("covered", Lin::k(0));
        let n = Lin::k(given.len() as i128);
        self.exact = Some(given.clone());
        *rule.exact.borrow_mut() = Some(given);
        let mut done = false;
        let args = fu.args.clone().iter().map(|t| self.give(&mut st, *t, &n, &mut done)).collect();
        let rets = self.it.inline(f, args, st);
        self.exact = None;
        *rule.exact.borrow_mut() = None;
        let bad = rets.is_empty() || rets.iter().any(|r| !r.0.eq(&r.0.gi("covered"), &n));
        let g = std::mem::replace(&mut self.f, f);
        self.tell("sequence with runs", if bad { Some("the sequence of code lengths does not describe all of them".into()) } else { None });
        self.f = g;
    }
    /// All sequences of lengths.
    fn sequence(&mut self, f: FnId) {
        let fu = self.it.func(f);
        let mut st = State::new();
        let n = Lin::s(fresh(258, 316, "n"));
        let mut given = false;
        let mut args = vec![];
        for t in fu.args.clone() {
            let v = self.give(&mut st, t, &n, &mut given);
            args.push(v);
        }
        if !given {
            self.it.lost("the code lengths a sequence is made from were not found");
            return;
        }
        // Repeat counts may grow up to what the symbols can express.
        let bounds = [16, 17, 18].iter().flat_map(|k| [range(*k).0, range(*k).1]).flat_map(|b| [b - 1, b, b + 1]).chain([0, 1]).collect();
        crate::join::BOUNDS.with(|b| *b.borrow_mut() = bounds);
        let rets = self.it.inline(f, args, st);
        crate::join::BOUNDS.with(|b| b.borrow_mut().clear());
        let bad = if rets.is_empty() { Some("no sequence of code lengths is made".to_string()) } else { None };
        let g = std::mem::replace(&mut self.f, f);
        self.tell("whole sequence", bad);
        self.f = g;
    }
}

fn seq(elem: TyId, v: &[Val]) -> Val {
    let n = Lin::k(v.len() as i128);
    let segs = if v.is_empty() { vec![] } else { vec![Seg { end: n.clone(), kind: Kind::Elems(Rc::new(v.to_vec())) }] };
    Val::Arr(Rc::new(Arr { elem, len: n, segs }))
}

fn load_at(it: &mut Interp, st: &mut State, name: &str, i: &Lin, bits: u32) -> Lin {
    // Read from an array of this name.
    let elem = (0..it.pr.p.types.len() as TyId).find(|t| matches!(it.pr.ty(*t).kind, TyKind::Int { bits: b, signed: false } if b == bits)).unwrap();
    let n = Lin::k(19);
    let t = (0..it.pr.p.types.len() as TyId).find(|t| matches!(it.pr.ty(*t).kind, TyKind::Array { elem: e, .. } if e == elem)).unwrap_or(elem);
    let a = Arr { elem, len: n.clone(), segs: vec![Seg { end: n, kind: Kind::Src(src(name), Lin::k(0)) }] };
    let p = it.alloc(st, t, Val::Arr(Rc::new(a)));
    st.get(it.pr, &p.push(PE::E(i.clone())), None).lin().unwrap_or(Lin::k(-1))
}
fn load(it: &mut Interp, st: &mut State, name: &str, i: i128) -> Lin {
    load_at(it, st, name, &Lin::k(i), 8)
}

/// What the variants stand for, and the values they may carry.
fn range(k: i128) -> (i128, i128) {
    match k {
        16 => (3, 6),
        17 => (3, 10),
        18 => (11, 138),
        _ => (0, 15),
    }
}

fn part(pr: &Prog, part: &str, log: &mut Log) {
    let rule = Rc::new(Header { paths: Default::default(), exact: Default::default(), only: Default::default(), limits: RefCell::new(vec![]), fixed: RefCell::new(vec![]), kinds: RefCell::new(vec![]) });
    let mut it = Interp::new(pr, rule.clone());
    it.unroll = 300;
    let fs: Vec<(FnId, TyId)> = (0..pr.p.fns.len())
        .filter_map(|f| {
            let fu = &pr.p.fns[f];
            let w = fu.args.iter().any(|t| matches!(pr.ty(*t).kind, TyKind::Ref { to, mutable: true } if has_bitw(pr, to)));
            let e = fu.args.iter().find_map(|t| elements(pr, *t));
            match e {
                Some(e) if fu.local && fu.body.is_some() && w => Some((f as FnId, e)),
                _ => None,
            }
        })
        .collect();
    // The outermost of them writes the whole header.
    let calls = |f: FnId, g: FnId| {
        pr.p.fns[f as usize].body.as_ref().map_or(false, |b| b.blocks.iter().any(|b| matches!(&b.term, Term::Call { callee: Callee::Fn(h), .. } if *h == g)))
    };
    let top: Vec<_> = fs.iter().filter(|a| !fs.iter().any(|b| b.0 != a.0 && calls(b.0, a.0))).collect();
    let (f, el) = match top[..] {
        [x] => *x,
        _ => {
            it.lost("the function writing the header of a dynamic block was not found");
            *log = it.log;
            return;
        }
    };
    let mut r = Run { it: &mut it, f, el, ok: 0, exact: None };
    match part {
        "limits" => {
            rule.only.set(true);
            r.it.unroll = 0;
            for f in 0..pr.p.fns.len() {
                let fu = &pr.p.fns[f];
                let direct = fu.body.iter().flat_map(|b| b.blocks.iter()).any(|b| matches!(&b.term, Term::Call { callee: Callee::Fn(h), .. } if makes_lengths(pr, &pr.p.fns[*h as usize]).is_some()));
                if !fu.local || !direct || makes_lengths(pr, fu).is_some() {
                    continue;
                }
                let mut st = State::new();
                let args = fu.args.iter().map(|t| r.it.unknown(&mut st, *t)).collect();
                r.it.inline(f as FnId, args, st);
            }
            let seen = rule.limits.borrow().clone();
            for (l, n, (f, _)) in seen {
                let (most, what) = if n <= 19 { (7, "code lengths") } else { (15, "symbols") };
                let m = if l > most || l < 1 { Some(format!("the codes for {} may be up to {} bits long, which cannot be described", what, l)) } else { None };
                let g = std::mem::replace(&mut r.f, f);
                r.tell("longest codes", m);
                r.f = g;
            }
        }
        "fixed" => {
            for f in 0..pr.p.fns.len() {
                let fu = &pr.p.fns[f];
                let table = |t: TyId| match pr.ty(t).kind {
                    TyKind::Ref { to, mutable: true } => match &pr.ty(to).kind {
                        TyKind::Adt { variants, kind: AdtKind::Struct, .. } => {
                            let of = |w: u32| variants[0].fields.iter().filter(|f| matches!(pr.ty(f.1).kind, TyKind::Array { elem, .. } if pr.ity(elem).map_or(false, |t| t.bits() == w))).count();
                            of(8) >= 2 && of(16) >= 2
                        }
                        _ => false,
                    },
                    _ => false,
                };
                if !fu.local || fu.body.is_none() || fu.args.len() != 1 || !table(fu.args[0]) {
                    continue;
                }
                let mut st = State::new();
                let a = r.it.unknown(&mut st, fu.args[0]);
                r.it.inline(f as FnId, vec![a], st);
            }
            let seen = rule.fixed.borrow().clone();
            for (id, (f, line)) in seen {
                let m = if super::blocks::fixed_kind(id) == 0 { Some("codes are made from constant lengths that are not those of the fixed codes".to_string()) } else { None };
                let _ = line;
                let g = std::mem::replace(&mut r.f, f);
                r.tell("fixed code lengths", m);
                r.f = g;
            }
        }
        "counts" => {
            for used in 4..=19 {
                r.counts(&Given { used, lits: 257, dists: 1, elems: vec![] });
            }
            for lits in 258..=286 {
                r.counts(&Given { used: 4, lits, dists: 1, elems: vec![] });
            }
        }
        "distances" => {
            for dists in 1..=30 {
                r.counts(&Given { used: 4, lits: 257, dists, elems: vec![] });
            }
        }
        "lengths" => {
            let mut seen = vec![];
            for v in 0..r.variants() {
                let mut res = vec![];
                for k in [0, 16, 17, 18] {
                    let (a, b) = range(k);
                    match r.kind(v, a, b) {
                        Ok(x) if x == k => res.push(Ok(k)),
                        Ok(_) => {}
                        Err(e) => res.push(Err(e)),
                    }
                }
                let ok: Vec<i128> = res.iter().filter_map(|r| r.clone().ok()).collect();
                let name = match &pr.ty(r.el).kind {
                    TyKind::Adt { variants, .. } => variants[v as usize].name.clone(),
                    _ => String::new(),
                };
                let m = if ok.len() == 1 {
                    seen.push(ok[0]);
                    None
                } else {
                    let e = res.into_iter().find_map(|r| r.err()).unwrap_or("is not written as RFC 1951 has it".into());
                    Some(format!("an element {} of the sequence of code lengths {}", name, e))
                };
                r.tell("elements", m);
            }
            seen.sort();
            let m = if seen == [0, 16, 17, 18] { None } else { Some("the sequence of code lengths is not written with the symbols 0 to 18 of RFC 1951".to_string()) };
            r.tell("symbols", m);
        }
        _ => {
            let mut kinds = vec![];
            for v in 0..r.variants() {
                let k = [0, 16, 17, 18].into_iter().find(|k| {
                    let (a, b) = range(*k);
                    r.kind(v, a, b) == Ok(*k)
                });
                kinds.push(k.unwrap_or(0));
            }
            *rule.kinds.borrow_mut() = kinds;
            r.it.unroll = 1;
            let makers: Vec<FnId> = (0..pr.p.fns.len())
                .filter(|f| {
                    let fu = &pr.p.fns[*f];
                    let out = |t: &TyId| matches!(pr.ty(*t).kind, TyKind::Ref { to, mutable: true } if pr.is_vec(to) && pr.elem_of(to) == el);
                    fu.local && fu.body.is_some() && fu.args.iter().any(out) && !fu.args.contains(&el)
                })
                .map(|f| f as FnId)
                .collect();
            let top: Vec<FnId> = makers.iter().copied().filter(|a| !makers.iter().any(|b| b != a && calls(*b, *a))).collect();
            if top.is_empty() {
                r.it.lost("the function making the sequence of code lengths was not found");
            }
            for f in top {
                if part == "sequence" {
                    r.sequence(f);
                    continue;
                }
                r.it.unroll = 400;
                r.it.paths = 1000;
                let any = || Lin::s(fresh(0, 15, "length"));
                for n in 1..=5 {
                    r.follow(&rule, f, (0..n).map(|_| any()).collect());
                }
                if part == "windows" {
                    // In a sequence of the greatest length.
                    for at in [0, 62, 126, 137, 142, 253, 255, 257, 284, 298, 313] {
                        let g = (0..316).map(|i| if i >= at && i < at + 3 { any() } else { Lin::k(8 + i as i128 % 2) }).collect();
                        r.follow(&rule, f, g);
                    }
                    continue;
                }
                for a in 1..=12 {
                    for b in 1..=9 {
                        let x = Lin::s(fresh(1, 15, "length"));
                        let run = |l: &Lin, n: usize| vec![l.clone(); n];
                        let z = Lin::k(0);
                        r.follow(&rule, f, [run(&z, a), run(&x, b), vec![any()]].concat());
                        r.follow(&rule, f, [run(&x, b), run(&z, a), vec![any()]].concat());
                        r.follow(&rule, f, [run(&z, a), run(&x, b)].concat());
                        r.follow(&rule, f, [run(&x, b), run(&z, a)].concat());
                    }
                }
                for (zero, most) in [(true, 145), (false, 16)] {
                    for n in 2..=most {
                        let x = if zero { Lin::k(0) } else { Lin::s(fresh(1, 15, "length")) };
                        let mut g = vec![any()];
                        g.extend((0..n).map(|_| x.clone()));
                        r.follow(&rule, f, g.clone());
                        g.extend([any(), any()]);
                        r.follow(&rule, f, g);
                    }
                }
            }
        }
    }
    let n = r.ok;
    *log = it.log;
    log.notes.push(format!("{}: {} obligations met", part, n));
}
