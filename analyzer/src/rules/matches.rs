//! C12, C21: the matches that are recorded.
//!
//! The functions that look for matches in a window are interpreted from an
//! arbitrary window, hash table and position; the match kept from one call to
//! the next is anything a call may leave behind.
use super::blocks::is_sink;
use crate::contract::fields;
use crate::interp::*;
use crate::lin::*;
use crate::models::arr_of;
use crate::state::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use vir::*;

#[derive(Clone, Copy, PartialEq)]
enum Sum {
    /// Returns a length of at most this.
    Length(i128),
    /// Returns a length and a distance in these ranges, or (0, 0).
    Pair([i128; 4], bool),
    /// Returns a length and a distance, or (0, 0); only that if it is given
    /// zero as the number of checks.
    Search(bool),
}

struct Matches {
    sums: RefCell<HashMap<FnId, Sum>>,
    /// Distances may be anything, only 1, or there are no matches.
    only: Cell<u32>,
    /// Symbols recorded.
    seen: Cell<u64>,
    /// The type of a symbol.
    elem: TyId,
    /// Option values on the way to the match finder: the finder, and the values.
    given: RefCell<Option<(FnId, Given)>>,
    asked: Cell<u32>,
    /// The match kept for the next call.
    kept: RefCell<Vec<Ptr>>,
}

/// The values of the options that steer the match finder.
#[derive(Clone)]
struct Given {
    /// The 16-bit numbers, in the order of the fields.
    nums: Vec<Lin>,
    kind: Lin,
}

impl Rule for Matches {
    fn interesting(&self, _: &str) -> bool {
        false
    }
    fn wants(&self, _: &Prog, fu: &Func) -> bool {
        fu.local
    }
    fn soft(&self) -> bool {
        false
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if let Some((f, g)) = &*self.given.borrow() {
            if *f == c.f {
                self.asked.set(self.asked.get() + 1);
                it.obligation("call of the match finder");
                let fu = it.func(c.f);
                let mut ok = true;
                let mut nums = vec![];
                for (a, t) in c.args.iter().zip(&fu.args) {
                    match a {
                        Val::Int(l, _) => nums.push(l.clone()),
                        Val::Disc(l) if is_kind(it.pr, *t) => ok &= st.eq(l, &g.kind),
                        _ => {}
                    }
                }
                for n in &g.nums {
                    ok &= nums.iter().any(|l| st.eq(l, n));
                }
                if !ok {
                    it.violation("the match finder is not given the option values of the encoder");
                }
                return Some(it.havoc_call(c.f, c.args, st.clone()));
            }
        }
        let k = *self.sums.borrow().get(&c.f)?;
        match k {
            Sum::Length(n) => Some(vec![(st.clone(), usz(Lin::s(fresh(0, n, "length"))))]),
            Sum::Pair(_, true) if c.args.iter().any(|a| matches!(a, Val::Int(l, t) if t.bits() == 16 && st.konst(l) == Some(0))) => Some(vec![(st.clone(), agg(vec![usz(Lin::k(0)), usz(Lin::k(0))]))]),
            Sum::Pair(r, _) => Some(vec![(st.clone(), agg(vec![usz(Lin::s(fresh(r[0], r[1], "length"))), usz(Lin::s(fresh(r[2], r[3], "distance")))]))]),
            Sum::Search(zero) => {
                let both = |l: Lin, d: Lin| agg(vec![usz(l), usz(d)]);
                let none = (st.clone(), both(Lin::k(0), Lin::k(0)));
                let s = st.clone();
                let checks: Vec<Lin> = c.args.iter().filter_map(|a| if let Val::Int(l, t) = a { if t.bits() == 16 { Some(l.clone()) } else { None } } else { None }).collect();
                if zero && checks.iter().any(|l| s.konst(l) == Some(0)) {
                    return Some(vec![none]);
                }
                let some = both(Lin::s(fresh(1, 258, "length")), Lin::s(fresh(1, 32768, "distance")));
                Some(vec![none, (s, some)])
            }
        }
    }
    fn panic(&self, it: &mut Interp, _st: &State, msg: &str) {
        let pr = it.pr;
        let sink = |t: TyId| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable: true } if is_sink(pr, to));
        let rec = it.stack.iter().any(|(f, _)| {
            let a = &it.func(*f).args;
            a.iter().any(|t| sink(*t)) && a.iter().all(|t| sink(*t) || pr.ity(*t).map_or(false, |t| t.bits() == 16))
        });
        if rec && self.only.get() == 0 && msg.contains("subtract") {
            it.violation("a match may have a length outside 3..=258");
        }
    }
    fn split(&self, it: &mut Interp, mut st: State) -> Vec<State> {
        let f = match st.frames.iter().rev().find(|f| it.func(f.f).local) {
            Some(f) => f.clone(),
            _ => return vec![st],
        };
        let inner = match st.frames.last() {
            Some(f) if !it.func(f.f).local => f.locals.get(0).and_then(|v| v.lin()).map_or(false, |l| l.is_k() == Some(0)),
            _ => false,
        };
        // No match, or one.
        let mut h = inner as i128;
        for (i, v) in f.locals.iter().enumerate() {
            let mut one = |v: &Val, i: usize| {
                if let Val::Int(l, t) = v {
                    if t.bits() >= 16 && l.is_k() == Some(0) {
                        h = (h * 31 + i as i128 * 2) % 1_000_000_007;
                    }
                }
            };
            one(v, i);
            if let Val::Agg(v) = v {
                v.iter().enumerate().for_each(|(k, v)| one(v, 1000 + i * 8 + k));
            }
        }
        for (i, p) in self.kept.borrow().iter().enumerate() {
            if st.get(it.pr, p, None).lin().map_or(false, |l| l.is_k() == Some(0)) {
                h = (h * 31 + 5000 + i as i128) % 1_000_000_007;
            }
        }
        st.set_gd("case", h);
        vec![st]
    }
    fn vec_event(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: VecEv) {
        match arr_of(it, st, p) {
            Some(a) if a.elem == self.elem => {}
            _ => return,
        }
        match ev {
            VecEv::Append(segs, _) => {
                for g in segs {
                    match &g.kind {
                        Kind::Elems(v) => v.iter().for_each(|v| self.recorded(it, st, v)),
                        Kind::Fill(v) => self.recorded(it, st, v),
                        _ => it.violation("symbols are recorded that are not known"),
                    }
                }
            }
            VecEv::Truncate(_) => {}
            VecEv::Other => it.violation("the buffer of symbols is changed in a way that is not understood"),
        }
    }
}

impl Matches {
    fn recorded(&self, it: &mut Interp, st: &mut State, v: &Val) {
        self.seen.set(self.seen.get() + 1);
        it.obligation("symbol recorded");
        let (l, d) = match v {
            Val::Agg(v) if v.len() == 2 => match (v[0].lin(), v[1].lin()) {
                (Some(l), Some(d)) => (l, d),
                _ => return it.violation("a symbol is recorded that is not known"),
            },
            _ => return it.violation("a symbol is recorded that is not known"),
        };
        if st.eq(&d, &Lin::k(0)) {
            let l = st.norm(&l);
            if l.as_sym().is_none() && l.is_k().is_none() {
                it.violation("a match may have distance 0");
            }
            return;
        }
        match self.only.get() {
            1 if !st.eq(&d, &Lin::k(1)) => it.violation("a match is recorded with a distance other than 1"),
            2 => it.violation("a match is recorded"),
            _ => {}
        }
        if self.only.get() != 0 {
            return;
        }
        if !st.ge(&d.addk(-1)) {
            it.violation("a match may have distance 0");
        }
        if !st.ge(&d.neg().addk(32768)) {
            it.violation("a match may have a distance greater than 32768");
        }
        let cut = |l: &Lin| matches!(l.as_sym().and_then(def_of).as_deref(), Some(Def::Mod(..)) | Some(Def::Byte(..)));
        if cut(&st.norm(&l)) {
            it.violation("a match may have a length outside 3..=258");
        }
    }
}

pub const C12: [&str; 2] = ["none", "pending"];
pub const C21: [&str; 5] = ["presets", "given", "passed", "huffman", "rle"];

pub fn run(pr: &Prog, prop: &str) -> i32 {
    let parts: &[&str] = if prop == "C12" { &C12 } else { &C21 };
    super::parallel(pr, prop, parts, &|p, log| match p {
        "presets" => presets(pr, log),
        "given" => given(pr, log),
        _ => part(pr, p, log),
    })
}

fn named(pr: &Prog, t: TyId, n: &str) -> bool {
    pr.adt(t).map_or(false, |p| p.rsplit("::").next() == Some(n))
}

/// The public `MatchingType`.
pub fn is_kind(pr: &Prog, t: TyId) -> bool {
    named(pr, t, "MatchingType")
}

fn is_options(pr: &Prog, t: TyId) -> bool {
    named(pr, t, "CompressionOptions")
}

pub fn variant(pr: &Prog, t: TyId, n: &str) -> Option<i128> {
    match &pr.ty(t).kind {
        TyKind::Adt { variants, .. } => variants.iter().position(|v| v.name == n).map(|i| i as i128),
        _ => None,
    }
}

fn kind_ty(pr: &Prog) -> Option<TyId> {
    (0..pr.p.types.len() as TyId).find(|t| is_kind(pr, *t))
}

/// The named fields of the public options.
fn option_fields(pr: &Prog, t: TyId) -> Option<[usize; 4]> {
    match &pr.ty(t).kind {
        TyKind::Adt { variants, .. } => {
            let f = |n: &str| variants.get(0)?.fields.iter().position(|f| f.0 == n);
            Some([f("max_hash_checks")?, f("lazy_if_less_than")?, f("matching_type")?, f("special")?])
        }
        _ => None,
    }
}

/// The documented option values.
fn presets(pr: &Prog, log: &mut Log) {
    let rule = Rc::new(Matches { sums: Default::default(), only: Cell::new(0), seen: Cell::new(0), elem: 0, given: Default::default(), asked: Cell::new(0), kept: Default::default() });
    let mut it = Interp::new(pr, rule);
    let opts = (0..pr.p.types.len() as TyId).find(|t| is_options(pr, *t));
    let (o, k) = match (opts.and_then(|t| option_fields(pr, t)), kind_ty(pr)) {
        (Some(o), Some(k)) => (o, k),
        _ => {
            it.lost("the public options were not found");
            it.violation("the options do not have the documented fields");
            *log = it.log;
            return;
        }
    };
    let (lazy, greedy) = (variant(pr, k, "Lazy"), variant(pr, k, "Greedy"));
    let high = (1768, 128, lazy, "high");
    let fast = (1, 0, greedy, "fast");
    let default = (128, 32, lazy, "default");
    let mut check = |it: &mut Interp, root: &str, arg: Option<i128>, want: (i128, i128, Option<i128>, &str)| {
        let f = match super::api::root_fn(pr, root) {
            Some(f) => f,
            None => return it.lost(&format!("{} not found", root)),
        };
        let place = (f, it.func(f).line);
        let args = arg.map(|l| Val::Disc(Lin::k(l))).into_iter().collect();
        let rets = it.inline(f, args, State::new());
        it.stack.push(place);
        it.obligation("preset");
        let mut ok = !rets.is_empty();
        for (s, v) in &rets {
            let get = |i: usize| match v {
                Val::Agg(v) => v.get(o[i]).and_then(|v| if let Val::Disc(l) = v { Some(l.clone()) } else { v.lin() }).and_then(|l| s.konst(&l)),
                _ => None,
            };
            ok &= get(0) == Some(want.0) && get(1) == Some(want.1) && get(2) == want.2 && get(2).is_some() && get(3) == Some(0);
        }
        if !ok {
            it.violation(&format!("the preset {} does not have the documented values", want.3));
        }
        it.stack.pop();
    };
    check(&mut it, "opt_high", None, high);
    check(&mut it, "opt_fast", None, fast);
    check(&mut it, "opt_huffman_only", None, (0, 0, greedy, "huffman_only"));
    check(&mut it, "opt_rle", None, (0, 0, lazy, "rle"));
    check(&mut it, "opt_default", None, default);
    let level = super::api::root_fn(pr, "opt_from").and_then(|f| it.func(f).args.get(0).copied());
    for (n, want) in [("Fast", fast), ("Default", default), ("Best", high)] {
        match level.and_then(|t| variant(pr, t, n)) {
            Some(l) => check(&mut it, "opt_from", Some(l), want),
            None => it.lost("a compression level is missing"),
        }
    }
    if let (Some(f), Some(t)) = (super::api::root_fn(pr, "level_default"), level) {
        let place = (f, it.func(f).line);
        let rets = it.inline(f, vec![], State::new());
        it.stack.push(place);
        it.obligation("default level");
        if rets.is_empty() || rets.iter().any(|(s, v)| !matches!(v, Val::Disc(l) if s.konst(l) == variant(pr, t, "Default"))) {
            it.violation("the default compression level is not Default");
        }
        it.stack.pop();
    }
    *log = it.log;
    log.notes.push("the presets and levels are evaluated and compared with the documented values".into());
}

/// The structures that keep option values for the match finder.
fn kept(it: &mut Interp, st: &mut State, v: &Val, t: TyId, depth: u32, out: &mut Vec<Given>) {
    let pr = it.pr;
    if depth > 8 || is_options(pr, t) {
        return;
    }
    match v {
        Val::Ref(p) => {
            let to = match &pr.ty(t).kind {
                TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                _ if pr.is_box(t) => pr.elem_of(t),
                _ => return,
            };
            let v = st.get(pr, p, Some(to));
            let v = deep(pr, st, p, v, to);
            kept(it, st, &v, to, depth + 1, out);
        }
        Val::Agg(vs) => {
            let fs = fields(pr, t);
            if fs.len() != vs.len() {
                return;
            }
            let nums: Vec<Lin> = vs.iter().zip(&fs).filter(|(_, t)| pr.ity(**t).map_or(false, |t| t.bits() == 16)).filter_map(|(v, _)| v.lin()).collect();
            let kind = vs.iter().zip(&fs).find_map(|(v, t)| match v {
                Val::Disc(l) if is_kind(pr, *t) => Some(l.clone()),
                _ => None,
            });
            if let Some(kind) = kind {
                out.push(Given { nums, kind });
            }
            for (v, t) in vs.iter().zip(&fs) {
                kept(it, st, v, *t, depth + 1, out);
            }
        }
        _ => {}
    }
}

/// Name the scalars of a structure in memory.
fn deep(pr: &Prog, st: &mut State, p: &Ptr, v: Val, t: TyId) -> Val {
    if let Val::Agg(_) = &v {
        crate::contract::open(pr, st, p, t, 0);
        return st.get(pr, p, Some(t));
    }
    v
}

/// New encoders keep the option values they are given.
fn given(pr: &Prog, log: &mut Log) {
    let rule = Rc::new(Matches { sums: Default::default(), only: Cell::new(0), seen: Cell::new(0), elem: 0, given: Default::default(), asked: Cell::new(0), kept: Default::default() });
    let mut it = Interp::new(pr, rule);
    crate::join::BOUNDS.with(|b| *b.borrow_mut() = vec![0, 257, 258, 259]);
    // (A limit on the length has no effect from 258 on.)
    for (root, small) in ["raw::new", "zlib::new", "gz::new"].iter().flat_map(|r| [(*r, true), (*r, false)]) {
        let f = match super::api::root_fn(pr, root) {
            Some(f) => f,
            None => {
                it.lost(&format!("{} not found", root));
                continue;
            }
        };
        let fu = it.func(f);
        let mut st = State::new();
        let mut args: Vec<Val> = fu.args.iter().map(|t| it.unknown(&mut st, *t)).collect();
        if let Some(i) = fu.args.iter().position(|t| is_options(pr, *t)) {
            if let (Val::Agg(v), Some(o)) = (args[i].clone(), option_fields(pr, fu.args[i])) {
                let mut v = (*v).clone();
                let l = if small { fresh(0, 257, "lazy") } else { fresh(258, 65535, "lazy") };
                v[o[1]] = Val::Int(Lin::s(l), ITy(16));
                args[i] = Val::Agg(Rc::new(v));
            }
        }
        let o = fu.args.iter().position(|t| is_options(pr, *t)).and_then(|i| match (&args[i], option_fields(pr, fu.args[i])) {
            (Val::Agg(v), Some(o)) => Some((v[o[0]].lin()?, v[o[1]].lin()?, if let Val::Disc(l) = &v[o[2]] { l.clone() } else { return None })),
            _ => None,
        });
        let o = match o {
            Some(o) => o,
            None => {
                it.lost("options of a new encoder not understood");
                continue;
            }
        };
        let rets = it.inline(f, args, st);
        it.stack.push((f, fu.line));
        if rets.is_empty() {
            it.lost("no new encoder");
        }
        for (mut s, v) in rets {
            it.obligation("new encoder");
            let mut out = vec![];
            kept(&mut it, &mut s, &v, fu.ret, 0, &mut out);
            let all = |g: &Given| {
                let same = |l: &Lin| if small { s.eq(l, &o.1) } else { s.ge(&l.addk(-258)) };
                s.eq(&g.kind, &o.2) && g.nums.len() == 2 && g.nums.iter().any(|l| s.eq(l, &o.0)) && (same(&g.nums[1]) && s.eq(&g.nums[0], &o.0) || same(&g.nums[0]) && s.eq(&g.nums[1], &o.0))
            };
            if std::env::var("VDETAIL").is_ok() {
                for g in &out {
                    eprintln!("kept {:?} {}", g.nums.iter().map(|l| show(&s.norm(l))).collect::<Vec<_>>(), show(&s.norm(&g.kind)));
                }
            }
            if out.len() != 1 || !all(&out[0]) {
                it.violation("a new encoder does not keep the option values it was given");
            }
        }
        it.stack.pop();
    }
    *log = it.log;
}

/// The two 16-bit numbers of a structure.
fn pair(pr: &Prog, t: TyId, path: &mut Vec<u32>, out: &mut Vec<Vec<u32>>) {
    if path.len() > 3 || pr.is_vec(t) || pr.is_box(t) {
        return;
    }
    if pr.ity(t).map_or(false, |t| t.bits() == 16) {
        out.push(path.clone());
        return;
    }
    if matches!(&pr.ty(t).kind, TyKind::Adt { kind: AdtKind::Struct, .. } | TyKind::Tuple(_)) {
        for (i, f) in fields(pr, t).into_iter().enumerate() {
            path.push(i as u32);
            pair(pr, f, path, out);
            path.pop();
        }
    }
}

/// Everything a function may return.
fn alone(it: &mut Interp, f: FnId, zero: bool) -> Vec<(State, Val)> {
    let mut st = State::new();
    let mut args = vec![];
    for t in &it.func(f).args {
        args.push(match it.pr.ity(*t) {
            Some(t) if zero && t.bits() == 16 => Val::Int(Lin::k(0), t),
            _ => it.unknown(&mut st, *t),
        });
    }
    it.inline(f, args, st)
}

pub fn looping(fu: &Func) -> bool {
    fu.body.as_ref().map_or(false, super::fresh::has_loop)
}

pub fn range(pr: &Prog, t: TyId) -> bool {
    match pr.ty(t).kind {
        TyKind::Ref { to, .. } => range(pr, to),
        _ => pr.adt(t).map_or(false, |p| p.ends_with("ops::Range") || p.ends_with("range::Range")),
    }
}

fn part(pr: &Prog, part: &str, log: &mut Log) {
    let sink = (0..pr.p.types.len() as TyId).find(|t| is_sink(pr, *t));
    let elem = sink.and_then(|s| fields(pr, s).into_iter().find(|t| pr.is_vec(*t))).map(|t| pr.elem_of(t));
    let rule = Rc::new(Matches { sums: Default::default(), only: Cell::new(0), seen: Cell::new(0), elem: elem.unwrap_or(0), given: Default::default(), asked: Cell::new(0), kept: Default::default() });
    crate::join::BOUNDS.with(|b| *b.borrow_mut() = vec![0, 1, 2, 3, 255, 256, 257, 258, 259, 32767, 32768, 32769]);
    crate::join::PLAIN.with(|p| p.set(true));
    let mut it = Interp::new(pr, rule.clone());
    let (sink, _) = match (sink, elem) {
        (Some(s), Some(e)) => (s, e),
        _ => {
            it.lost("no buffer of symbols");
            it.violation("the buffer of symbols was not found");
            *log = it.log;
            return;
        }
    };
    // What the functions that compare and search return.
    let mut sums = BTreeMap::new();
    for f in 0..pr.p.fns.len() as FnId {
        let fu = it.func(f);
        if shared(pr, fu) && pr.ity(fu.ret).map_or(false, |t| t.bits() > 8) {
            let rets = alone(&mut it, f, false);
            let most = |n: i128| !rets.is_empty() && rets.iter().all(|(s, v)| v.lin().map_or(false, |l| s.ge(&l) && s.ge(&l.neg().addk(n))));
            if most(258) {
                sums.insert(f, Sum::Length(258));
            } else if looping(fu) {
                sums.insert(f, Sum::Length(if most(259) { 259 } else { i64::MAX as i128 }));
            }
        }
    }
    rule.sums.borrow_mut().extend(sums.clone());
    for f in 0..pr.p.fns.len() as FnId {
        let fu = it.func(f);
        if shared(pr, fu) && matches!(&pr.ty(fu.ret).kind, TyKind::Tuple(v) if v.len() == 2 && v.iter().all(|t| pr.ity(*t).is_some())) {
            let rets = alone(&mut it, f, false);
            let ok = |(s, v): &(State, Val)| match v {
                Val::Agg(v) => match (v[0].lin(), v[1].lin()) {
                    (Some(l), Some(d)) => {
                        s.eq(&l, &Lin::k(0)) && s.eq(&d, &Lin::k(0)) || s.ge(&l.addk(-1)) && s.ge(&l.neg().addk(258)) && s.ge(&d.addk(-1)) && s.ge(&d.neg().addk(32768))
                    }
                    _ => false,
                },
                _ => false,
            };
            let none_for_zero = |it: &mut Interp| {
                let zero = alone(it, f, true);
                let none = |(s, v): &(State, Val)| matches!(v, Val::Agg(v) if v.iter().all(|v| v.lin().map_or(false, |l| s.eq(&l, &Lin::k(0)))));
                !zero.is_empty() && zero.iter().all(none)
            };
            if !rets.is_empty() && rets.iter().all(ok) {
                sums.insert(f, Sum::Search(none_for_zero(&mut it)));
            } else if looping(it.func(f)) {
                let hull = |i: usize| {
                    let r = rets.iter().map(|(s, v)| match v {
                        Val::Agg(v) => v[i].lin().map_or((0, i64::MAX as i128), |l| s.cons.interval(&l)),
                        _ => (0, i64::MAX as i128),
                    });
                    r.fold((i64::MAX as i128, 0), |a, b| (a.0.min(b.0), a.1.max(b.1)))
                };
                let (l, d) = (hull(0), hull(1));
                sums.insert(f, Sum::Pair([l.0, l.1, d.0, d.1], none_for_zero(&mut it)));
            }
        }
    }
    rule.sums.borrow_mut().extend(sums.clone());
    for (f, k) in &sums {
        let what = match k {
            Sum::Length(n) => format!("a length of at most {}", n),
            Sum::Search(_) => "no match, or a distance of 1 to 32768".into(),
            Sum::Pair(r, _) => format!("a length of {} to {} and a distance of {} to {}", r[0], r[1], r[2], r[3]),
        };
        it.log.notes.push(format!("{}: {}", it.func(*f).name, what));
    }
    let top = finders(pr);
    if top.is_empty() {
        it.lost("no match finder");
        it.violation("no function records symbols for a range of a window");
    }
    rule.only.set(match part {
        "huffman" => 2,
        "rle" => 1,
        _ => 0,
    });
    if part == "passed" {
        let mut n = 0;
        for f in 0..pr.p.fns.len() as FnId {
            let fu = it.func(f);
            if !super::blocks::compresses(pr, fu) {
                continue;
            }
            let mut st = State::new();
            let args: Vec<Val> = fu.args.iter().map(|t| it.unknown(&mut st, *t)).collect();
            let mut out = vec![];
            for (a, t) in args.iter().zip(&fu.args) {
                kept(&mut it, &mut st, a, *t, 0, &mut out);
            }
            for (k, a) in ["a0", "a1", "a2", "a3", "a4", "a5"].iter().zip(&args) {
                Rc::make_mut(&mut st.ghost).insert(k, a.clone());
            }
            let g = match (out.len(), top.get(0)) {
                (1, Some(t)) => {
                    *rule.given.borrow_mut() = Some((*t, out[0].clone()));
                    out.remove(0)
                }
                _ => {
                    it.lost("option values of the compressor not found");
                    continue;
                }
            };
            n += 1;
            for (mut s, _) in it.inline(f, args.clone(), st) {
                it.stack.push((f, fu.line));
                it.obligation("options at the end of the compressor");
                let mut out = vec![];
                for (k, t) in ["a0", "a1", "a2", "a3", "a4", "a5"].iter().zip(&fu.args) {
                    if let Some(a) = s.ghost.get(k).cloned() {
                        kept(&mut it, &mut s, &a, *t, 0, &mut out);
                    }
                }
                let same = out.len() == 1 && s.eq(&out[0].kind, &g.kind) && out[0].nums.iter().zip(&g.nums).all(|(a, b)| s.eq(a, b));
                if !same {
                    it.violation("the option values of an encoder change while it works");
                }
                it.stack.pop();
            }
        }
        if n == 0 || rule.asked.get() == 0 {
            it.lost("the compressor does not call the match finder");
            it.violation("the compressor does not call the match finder");
        }
        *log = it.log;
        return;
    }
    let kind = kind_ty(pr);
    let run = |swap: bool| -> Log {
        let mut it = Interp::new(pr, rule.clone());
        for f in &top {
            let fu = it.func(*f);
            let mut st = State::new();
            let mut state: Option<(Ptr, [Vec<u32>; 2])> = None;
            let mut args = vec![];
            for t in &fu.args {
                let mut a = it.unknown(&mut st, *t);
                match (part, &pr.ty(*t).kind) {
                    ("huffman" | "rle", _) if pr.ity(*t).map_or(false, |t| t.bits() == 16) => a = Val::Int(Lin::k(0), pr.ity(*t).unwrap()),
                    ("huffman" | "rle", _) if is_kind(pr, *t) => {
                        let n = if part == "rle" { "Lazy" } else { "Greedy" };
                        match kind.and_then(|k| variant(pr, k, n)) {
                            Some(k) => a = Val::Disc(Lin::k(k)),
                            None => it.lost("a matching type is missing"),
                        }
                    }
                    (_, TyKind::Ref { to, mutable: true }) if *to != sink => {
                        let mut out = vec![];
                        pair(pr, *to, &mut vec![], &mut out);
                        if let (2, Some(p)) = (out.len(), crate::contract::target_of(&mut it, &mut st, &a)) {
                            crate::contract::open(pr, &mut st, &p, *to, 0);
                            let second = out.remove(1);
                            let first = out.remove(0);
                            state = Some((p, if swap { [second, first] } else { [first, second] }));
                        }
                    }
                    _ => {}
                }
                args.push(a);
            }
            let at = |p: &Ptr, path: &[u32]| path.iter().fold(p.clone(), |p, i| p.push(PE::F(*i)));
            if let Some((p, [l, d])) = &state {
                // No match is pending, or one that may be recorded.
                let (lo, hi, dlo, dhi) = if part == "none" { (0, 0, 0, 65535) } else { (1, 258, 1, 32768) };
                let i16 = |l: Lin| Val::Int(l, ITy(16));
                st.set(pr, &at(p, l), i16(if hi == 0 { Lin::k(0) } else { Lin::s(fresh(lo, hi, "length")) }));
                st.set(pr, &at(p, d), i16(Lin::s(fresh(dlo, dhi, "distance"))));
            }
            *rule.kept.borrow_mut() = state.iter().flat_map(|(p, v)| v.iter().map(|q| at(p, q)).collect::<Vec<_>>()).collect();
            for (k, a) in ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"].iter().zip(&args) {
                Rc::make_mut(&mut st.ghost).insert(k, a.clone());
            }
            for (mut s, _) in it.inline(*f, args, st) {
                if let (Some((p, [l, d])), "none" | "pending") = (&state, part) {
                    it.stack.push((*f, fu.line));
                    it.obligation("match kept for the next call");
                    let l = s.get(pr, &at(p, l), None).lin();
                    let d = s.get(pr, &at(p, d), None).lin();
                    let ok = match (l, d) {
                        (Some(l), Some(d)) => s.eq(&l, &Lin::k(0)) || s.ge(&l.addk(-1)) && s.ge(&l.neg().addk(258)) && s.ge(&d.addk(-1)) && s.ge(&d.neg().addk(32768)),
                        _ => false,
                    };
                    if !ok {
                        it.violation("a match may be kept for the next call with a length or distance that is not allowed");
                    }
                    it.stack.pop();
                }
            }
        }
        it.log
    };
    let mut l = run(false);
    if !l.violations.is_empty() {
        let m = run(true);
        if m.violations.is_empty() {
            l = m;
        }
    }
    let n = rule.seen.get();
    let notes = std::mem::take(&mut it.log.notes);
    *log = l;
    log.notes.extend(notes);
    log.notes.push(format!("{} symbols recorded", n));
}

/// Compares or searches in a window.
pub fn shared(pr: &Prog, fu: &Func) -> bool {
    let slice = |t: TyId| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable: false } if matches!(pr.ty(to).kind, TyKind::Slice(_)));
    fu.local && fu.body.is_some() && !fu.args.iter().any(|t| matches!(pr.ty(*t).kind, TyKind::Ref { mutable: true, .. })) && fu.args.iter().any(|t| slice(*t))
}

/// The outermost functions that record symbols for a range of a window.
pub fn finders(pr: &Prog) -> Vec<FnId> {
    let sink = match (0..pr.p.types.len() as TyId).find(|t| is_sink(pr, *t)) {
        Some(s) => s,
        None => return vec![],
    };
    let takes = |fu: &Func| {
        let has = |f: &dyn Fn(TyId) -> bool| fu.args.iter().any(|t| f(*t));
        fu.local
            && fu.body.is_some()
            && has(&|t| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable: true } if to == sink))
            && has(&|t| matches!(pr.ty(t).kind, TyKind::Ref { to, .. } if matches!(pr.ty(to).kind, TyKind::Slice(_))))
            && has(&|t| range(pr, t))
    };
    let fs: Vec<FnId> = (0..pr.p.fns.len() as FnId).filter(|f| takes(&pr.p.fns[*f as usize])).collect();
    let calls = |f: FnId, g: FnId| pr.p.fns[f as usize].body.as_ref().map_or(false, |b| b.blocks.iter().any(|b| matches!(&b.term, Term::Call { callee: Callee::Fn(h), .. } if *h == g)));
     fs.iter().copied().filter(|a| !fs.iter().any(|b| b != a && calls(*b, *a))).collect()
}
