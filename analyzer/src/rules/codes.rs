//! C15: literals, lengths and distances are counted and written with the codes
//! and extra bits of RFC 1951.
//!
//! The functions recording and writing symbols are interpreted for every
//! literal, and for every pair of a length class and a distance class, with
//! the length and the distance as intervals.
use super::blocks::is_sink;
use crate::contract::{self, fields, is_bitw};
use crate::interp::*;
use crate::lin::*;
use crate::models::arr_of;
use crate::state::*;
use std::rc::Rc;
use vir::*;

struct Codes;

impl Rule for Codes {
    fn interesting(&self, _: &str) -> bool {
        false
    }
    fn wants(&self, _: &Prog, fu: &Func) -> bool {
        fu.local
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if !group_op(it.pr, it.func(c.f)) {
            return None;
        }
        let mut st = st.clone();
        let mut log = match st.ghost.get("log") {
            Some(Val::Agg(v)) => (**v).clone(),
            _ => vec![],
        };
        log.push(agg(vec![c.args[1].clone(), c.args[2].clone()]));
        Rc::make_mut(&mut st.ghost).insert("log", agg(log));
        Some(vec![(st, unit())])
    }
}

/// Takes a value and a number of bits into a bit writer.
pub fn group_op(pr: &Prog, fu: &Func) -> bool {
    let to = match fu.args.get(0).map(|t| &pr.ty(*t).kind) {
        Some(TyKind::Ref { to, mutable: true }) => *to,
        _ => return false,
    };
    is_bitw(pr, to) && fu.args.len() == 3 && fu.args[1..].iter().all(|t| pr.ity(*t).is_some())
}

/// First value, number of extra bits, and last value of a class.
fn length_class(c: i128) -> (i128, i128, i128) {
    match c {
        0..=7 => (3 + c, 0, 3 + c),
        28 => (258, 0, 258),
        _ => {
            let e = c / 4 - 1;
            let b = 3 + ((4 + c % 4) << e);
            (b, e, (b + (1 << e) - 1).min(257))
        }
    }
}
fn distance_class(c: i128) -> (i128, i128, i128) {
    match c {
        0..=3 => (1 + c, 0, 1 + c),
        _ => {
            let e = c / 2 - 1;
            let b = 1 + ((2 + c % 2) << e);
            (b, e, b + (1 << e) - 1)
        }
    }
}

pub const PARTS: [&str; 8] = ["literals", "pairs0", "pairs1", "pairs2", "pairs3", "pairs4", "pairs5", "runs"];

pub fn run(pr: &Prog, prop: &str) -> i32 {
    super::parallel(pr, prop, &PARTS, &|p, log| part(pr, p, log))
}

/// A symbol, as intervals.
#[derive(Clone, Copy)]
enum What {
    Lit(i128, i128),
    /// Length and distance with their classes.
    Match((i128, i128, i128), (i128, i128, i128)),
}

struct Run<'a, 'b> {
    it: &'b mut Interp<'a>,
    sink: TyId,
    out: FnId,
    ok: u64,
}

fn part(pr: &Prog, part: &str, log: &mut Log) {
    let mut it = Interp::new(pr, Rc::new(Codes));
    it.unroll = 64;
    let sink = match (0..pr.p.types.len() as TyId).find(|t| is_sink(pr, *t)) {
        Some(t) => t,
        None => {
            it.lost("no buffer of symbols");
            it.violation("the buffer of symbols was not found");
            *log = it.log;
            return;
        }
    };
    let lz = match fields(pr, sink).into_iter().find(|t| pr.is_vec(*t)) {
        Some(t) => pr.elem_of(t),
        None => return,
    };
    let own = pr.adt(sink).unwrap_or("").to_string();
    let of = |t: TyId, m: bool| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable } if to == sink && (mutable || !m));
    let recorders: Vec<(FnId, usize)> = (0..pr.p.fns.len())
        .filter(|f| {
            let fu = &pr.p.fns[*f];
            fu.local
                && fu.body.is_some()
                && fu.args.len() > 1
                && of(fu.args[0], true)
                && fu.args[1..].iter().all(|t| pr.ity(*t).is_some())
                && pr.p.fns.iter().any(|g| {
                    !g.name.starts_with(&format!("{}::", own))
                        && g.body.as_ref().map_or(false, |b| {
                            b.blocks.iter().any(|b| matches!(&b.term, Term::Call { callee: Callee::Fn(h), .. } if *h as usize == *f))
                        })
                })
        })
        .map(|f| {
            let a = &pr.p.fns[f].args;
            let w = |t: TyId| pr.ity(t).map_or(0, |t| t.bits());
            (f as FnId, if a.len() == 3 { 2 } else if w(a[1]) == 8 { 0 } else { 1 })
        })
        .collect();
    // Writes symbols with the codes it is given.
    let symbols = |t: TyId| of(t, false) || matches!(pr.ty(t).kind, TyKind::Ref { to, .. } if matches!(pr.ty(to).kind, TyKind::Slice(e) if e == lz));
    let bits = |t: TyId| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable: true } if contract::has_bitw(pr, to)) && !of(t, false);
    let outs: Vec<FnId> = (0..pr.p.fns.len())
        .filter(|f| {
            let fu = &pr.p.fns[*f];
            fu.local
                && fu.body.is_some()
                && fu.args.len() == 2
                && fu.args.iter().filter(|t| symbols(**t)).count() == 1
                && fu.args.iter().filter(|t| bits(**t)).count() == 1
        })
        .map(|f| f as FnId)
        .collect();
    if outs.is_empty() || (0..3).any(|k| k != 1 && !recorders.iter().any(|r| r.1 == k)) {
        it.lost("functions recording or writing symbols not found");
        *log = it.log;
        return;
    }
    let mut r = Run { it: &mut it, sink, out: outs[0], ok: 0 };
    for &(f, k) in &recorders {
        match (part, k) {
            ("literals", 0) => r.check(f, What::Lit(0, 255)),
            ("runs", 1) => {
                for lc in 0..29 {
                    let (a, _, b) = length_class(lc);
                    r.check(f, What::Match((lc, a, b), (0, 1, 1)));
                }
            }
            (_, 2) if part.starts_with("pairs") => {
                let n: i128 = part[5..].parse().unwrap_or(0);
                for lc in (0..29).filter(|c| c % 6 == n) {
                    for dc in 0..30 {
                        let ((a, _, b), (c, _, d)) = (length_class(lc), distance_class(dc));
                        r.check(f, What::Match((lc, a, b), (dc, c, d)));
                    }
                }
            }
            _ => {}
        }
    }
    let n = r.ok;
    *log = it.log;
    log.notes.push(format!("{}: {} classes of symbols", part, n));
}

impl<'a, 'b> Run<'a, 'b> {
    fn check(&mut self, f: FnId, w: What) {
        if self.it.log.violations.len() > 8 {
            return;
        }
        let bad = self.symbol(f, w);
        if bad.is_empty() {
            self.ok += 1;
            return self.tell(f, bad);
        }
        // Too coarse? One by one.
        let mut all = vec![];
        match w {
            What::Lit(a, b) => {
                for i in a..=b {
                    all.extend(self.symbol(f, What::Lit(i, i)));
                }
            }
            What::Match((lc, a, b), (dc, c, d)) => {
                for i in a..=b {
                    all.extend(self.symbol(f, What::Match((lc, i, i), (dc, c, c))));
                }
                for i in c + 1..=d {
                    if !all.is_empty() {
                        break;
                    }
                    all.extend(self.symbol(f, What::Match((lc, a, a), (dc, i, i))));
                }
            }
        }
        self.ok += all.is_empty() as u64;
        self.tell(f, all);
    }
    fn tell(&mut self, f: FnId, bad: Vec<(FnId, String)>) {
        self.it.stack.push((f, self.it.func(f).line));
        self.it.obligation("symbols of a class");
        self.it.stack.pop();
        for (g, m) in bad {
            self.it.stack.push((g, self.it.func(g).line));
            self.it.violation(&m);
            self.it.stack.pop();
        }
    }

    /// Record one symbol, then write it.
    fn symbol(&mut self, f: FnId, w: What) -> Vec<(FnId, String)> {
        let pr = self.it.pr;
        let mut st = State::new();
        let mut bad: Vec<(FnId, String)> = vec![];
        let me = self.it.unknown(&mut st, pr.p.fns[f as usize].args[0]);
        let p = match contract::target_of(self.it, &mut st, &me) {
            Some(p) => p,
            None => return vec![(f, "the buffer of symbols is not known".into())],
        };
        let old = Lin::s(fresh(0, 1024 * 31 - 1, "n"));
        let mut places = (None, None, None);
        for (i, t) in fields(pr, self.sink).into_iter().enumerate() {
            let q = p.push(PE::F(i as u32));
            let (elem, len) = match &pr.ty(t).kind {
                TyKind::Array { elem, len } => (*elem, Lin::k(*len as i128)),
                _ if pr.is_vec(t) => (pr.elem_of(t), old.clone()),
                _ => continue,
            };
            let id = arr_id(ArrId::App("f".into(), vec![i as u32]));
            let a = Arr { elem, len: len.clone(), segs: vec![Seg { end: len.clone(), kind: Kind::Src(id, Lin::k(0)) }] };
            st.set(pr, &q, Val::Arr(Rc::new(a)));
            match len.is_k() {
                Some(286) => places.0 = Some((q, id)),
                Some(30) => places.1 = Some((q, id)),
                None => places.2 = Some((q, id)),
                _ => {}
            }
        }
        let (lf, df, buf) = match places {
            (Some(a), Some(b), Some(c)) => (a, b, c),
            _ => return vec![(f, "the buffer of symbols is not known".into())],
        };
        let sym = |a: i128, b: i128, n: &str| if a == b { Lin::k(a) } else { Lin::s(fresh(a, b, n)) };
        let mut args = vec![me.clone()];
        let ity = |i: usize| pr.ity(pr.p.fns[f as usize].args[i]).unwrap();
        let (lit, dist) = match w {
            What::Lit(a, b) => (sym(a, b, "literal"), None),
            What::Match((_, a, b), (_, c, d)) => (sym(a, b, "length"), Some(sym(c, d, "distance"))),
        };
        args.push(Val::Int(lit.clone(), ity(1)));
        if let (Some(d), true) = (&dist, pr.p.fns[f as usize].args.len() > 2) {
            args.push(Val::Int(d.clone(), ity(2)));
        }
        // What is counted.
        let (li, di) = match w {
            What::Lit(..) => (lit.clone(), None),
            What::Match((lc, _, _), (dc, _, _)) => (Lin::k(257 + lc), Some(Lin::k(dc))),
        };
        let text = match w {
            What::Lit(..) => "a literal".to_string(),
            What::Match((_, a, b), (_, c, d)) => {
                let r = |a: i128, b: i128| if a == b { a.to_string() } else { format!("{} to {}", a, b) };
                format!("a match of length {} and distance {}", r(a, b), r(c, d))
            }
        };
        let want = |st: &mut State, q: &Ptr, i: &Lin| -> Option<Lin> { st.get(pr, &q.push(PE::E(i.clone())), None).lin() };
        let l0 = want(&mut st, &lf.0, &li);
        let d0 = di.as_ref().and_then(|i| want(&mut st, &df.0, i));
        Rc::make_mut(&mut st.ghost).insert("me", me);
        let rets = self.it.inline(f, args, st);
        if rets.is_empty() {
            bad.push((f, format!("{} cannot be recorded", text)));
        }
        for (mut st, _) in rets {
            let me = st.ghost.get("me").cloned().unwrap_or(Val::Uninit);
            let p = match contract::target_of(self.it, &mut st, &me) {
                Some(p) => p,
                None => continue,
            };
            let at = |q: &Ptr| p.push(q.path.last().cloned().unwrap());
            if !self.counted(&mut st, &at(&lf.0), lf.1, Some(&li), l0.as_ref()) {
                bad.push((f, format!("{} is not counted as one use of its literal/length code", text)));
            }
            if !self.counted(&mut st, &at(&df.0), df.1, di.as_ref(), d0.as_ref()) {
                bad.push((f, format!("{} is not counted as one use of its distance code", text)));
            }
            let a = arr_of(self.it, &mut st, &at(&buf.0));
            let kept = a.map_or(false, |a| {
                st.eq(&a.len, &old.addk(1)) && a.segs.len() == 2 && matches!(&a.segs[0].kind, Kind::Src(i, o) if *i == buf.1 && st.eq(o, &Lin::k(0))) && st.eq(&a.segs[0].end, &old)
            });
            if !kept {
                bad.push((f, format!("{} is not kept as one symbol after those before it", text)));
                continue;
            }
            let v = st.get(pr, &at(&buf.0).push(PE::E(old.clone())), None);
            self.written(&mut st, v, w, &lit, dist.as_ref(), &text, &mut bad);
        }
        bad
    }

    /// Is exactly the element at `i` one more than before?
    fn counted(&mut self, st: &mut State, q: &Ptr, id: u32, i: Option<&Lin>, old: Option<&Lin>) -> bool {
        let a = match arr_of(self.it, st, q) {
            Some(a) => a,
            None => return false,
        };
        let mut at = Lin::k(0);
        let mut hits = 0;
        for g in &a.segs {
            let start = at.clone();
            at = g.end.clone();
            let v = match &g.kind {
                Kind::Src(j, o) if *j == id && st.eq(o, &Lin::k(0)) => continue,
                Kind::Fill(v) => v.lin(),
                Kind::Elems(v) if v.len() == 1 => v[0].lin(),
                _ => return false,
            };
            let (i, old, v) = match (i, old, v) {
                (Some(i), Some(o), Some(v)) => (i, o, v),
                _ => return false,
            };
            let more = old.addk(1);
            let same = st.eq(&v, &more)
                || matches!(st.norm(&v).as_sym().and_then(def_of).as_deref(), Some(Def::Mod(x, n)) if *n == 16 && st.eq(x, &more));
            if !same || !st.eq(&start, i) || !st.eq(&g.end, &i.addk(1)) {
                return false;
            }
            hits += 1;
        }
        hits == i.is_some() as u32
    }

    fn written(&mut self, st: &mut State, v: Val, w: What, l: &Lin, d: Option<&Lin>, text: &str, bad: &mut Vec<(FnId, String)>) {
        let pr = self.it.pr;
        let f = self.out;
        let fu = &pr.p.fns[f as usize];
        let mut args = vec![];
        let mut tables = None;
        let lz = fields(pr, self.sink).into_iter().find(|t| pr.is_vec(*t)).map(|t| pr.elem_of(t)).unwrap();
        // Twice, for the loop.
        let arr = Arr { elem: lz, len: Lin::k(2), segs: vec![Seg { end: Lin::k(2), kind: Kind::Elems(Rc::new(vec![v.clone(), v])) }] };
        for t in fu.args.iter() {
            let to = match pr.ty(*t).kind {
                TyKind::Ref { to, .. } => to,
                _ => return,
            };
            if let TyKind::Slice(_) = pr.ty(to).kind {
                let p = self.it.alloc(st, to, Val::Arr(Rc::new(arr.clone())));
                args.push(Val::Slice(p, Lin::k(0), Lin::k(2)));
            } else if to == self.sink {
                let a = self.it.unknown(st, *t);
                if let Some(p) = contract::target_of(self.it, st, &a) {
                    for (i, t) in fields(pr, to).into_iter().enumerate() {
                        if pr.is_vec(t) {
                            st.set(pr, &p.push(PE::F(i as u32)), Val::Arr(Rc::new(arr.clone())));
                        }
                    }
                }
                args.push(a);
            } else {
                let a = self.it.unknown(st, *t);
                if let Some(p) = contract::target_of(self.it, st, &a) {
                    let mut found = [None, None, None, None];
                    self.name(st, &p, to, &mut found);
                    if let [Some(a), Some(b), Some(c), Some(d)] = found {
                        tables = Some([a, b, c, d]);
                    }
                }
                args.push(a);
            }
        }
        let t = match tables {
            Some(t) => t,
            None => {
                bad.push((f, "the tables of codes were not found".into()));
                return;
            }
        };
        let mut at = |st: &mut State, k: usize, i: &Lin| st.get(pr, &t[k].push(PE::E(i.clone())), None).lin().unwrap_or(Lin::k(-1));
        let mut want: Vec<(Lin, Lin)> = vec![];
        match w {
            What::Lit(..) => want.push((at(st, 0, l), at(st, 1, l))),
            What::Match((lc, _, _), (dc, _, _)) => {
                let i = Lin::k(257 + lc);
                want.push((at(st, 0, &i), at(st, 1, &i)));
                let (b, e, _) = length_class(lc);
                want.push((l.addk(-b), Lin::k(e)));
                let i = Lin::k(dc);
                want.push((at(st, 2, &i), at(st, 3, &i)));
                let (b, e, _) = distance_class(dc);
                want.push((d.unwrap().addk(-b), Lin::k(e)));
            }
        }
        want.extend(want.clone());
        let i = Lin::k(256);
        want.push((at(st, 0, &i), at(st, 1, &i)));
        want.retain(|w| w.1.is_k() != Some(0));
        Rc::make_mut(&mut st.ghost).insert("log", agg(vec![]));
        let rets = self.it.inline(f, args, st.clone());
        if rets.is_empty() {
            bad.push((f, format!("{} cannot be written", text)));
        }
        for (s, _) in rets {
            let log = match s.ghost.get("log") {
                Some(Val::Agg(v)) => (**v).clone(),
                _ => vec![],
            };
            let mut got = vec![];
            for e in &log {
                if let Val::Agg(x) = e {
                    match (x[0].lin(), x[1].lin()) {
                        (Some(v), Some(n)) if s.eq(&n, &Lin::k(0)) && s.eq(&v, &Lin::k(0)) => {}
                        (Some(v), Some(n)) => got.push((v, n)),
                        _ => got.push((Lin::k(-2), Lin::k(-2))),
                    }
                }
            }
            if std::env::var("VDETAIL").is_ok() {
                eprintln!("{} got {:?} want {:?}", text, got.iter().map(|x| (show(&s.norm(&x.0)), show(&s.norm(&x.1)))).collect::<Vec<_>>(), want.iter().map(|x| (show(&s.norm(&x.0)), show(&s.norm(&x.1)))).collect::<Vec<_>>());
            }
            if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| !s.eq(&a.0, &b.0) || !s.eq(&a.1, &b.1)) {
                bad.push((f, format!("{} and the end of the block are not written with the codes and extra bits of RFC 1951, in order", text)));
            }
        }
    }

    /// Give names to the tables of codes and of their lengths.
    fn name(&mut self, st: &mut State, p: &Ptr, t: TyId, found: &mut [Option<Ptr>; 4]) {
        let pr = self.it.pr;
        if is_bitw(pr, t) {
            return;
        }
        for (i, ft) in fields(pr, t).into_iter().enumerate() {
            let q = p.push(PE::F(i as u32));
            match pr.ty(ft).kind.clone() {
                TyKind::Array { elem, len } => {
                    let w = pr.ity(elem).map_or(0, |t| t.bits());
                    let k = match (w, len) {
                        (16, 286..=288) => 0,
                        (8, 286..=288) => 1,
                        (16, 30..=32) => 2,
                        (8, 30..=32) => 3,
                        _ => continue,
                    };
                    let id = arr_id(ArrId::App("table".into(), vec![k as u32]));
                    let n = Lin::k(len as i128);
                    let a = Arr { elem, len: n.clone(), segs: vec![Seg { end: n, kind: Kind::Src(id, Lin::k(0)) }] };
                    st.set(pr, &q, Val::Arr(Rc::new(a)));
                    found[k] = Some(q);
                }
                TyKind::Adt { .. } if !pr.is_vec(ft) => {
                    st.get(pr, &q, None);
                    self.name(st, &q, ft, found)
                }
                _ => {}
            }
        }
    }
}
