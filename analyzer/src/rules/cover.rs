//! C13: the symbols recorded for a range of the window stand for its bytes.
//!
//! The match finder is interpreted for any window and range.  The place up to
//! which the symbols stand for the window is followed: a literal has to be the
//! byte there, and a match moves the place by its length.
use super::blocks::is_sink;
use super::matches::{is_kind, looping, range, variant};
use crate::contract::fields;
use crate::interp::*;
use crate::join::{renorm, KEEP, PLAIN};
use crate::lin::*;
use crate::models::arr_of;
use crate::state::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use vir::*;

struct Cover {
    elem: TyId,
    /// The window.
    data: RefCell<Option<Val>>,
    seen: Cell<u64>,
    keys: RefCell<Vec<Ptr>>,
}

fn byte_at(it: &Interp, st: &mut State, data: &Val, i: &Lin) -> Option<Val> {
    match data {
        Val::Slice(p, lo, _) => Some(st.get(it.pr, &p.push(PE::E(lo.add(i))), None)),
        _ => None,
    }
}

fn same(st: &State, a: &Val, b: &Val) -> bool {
    match (a.lin(), b.lin()) {
        (Some(a), Some(b)) => st.eq(&a, &b) || st.eq(&renorm(&st.cons, &a), &renorm(&st.cons, &b)),
        _ => false,
    }
}

impl Cover {
    fn recorded(&self, it: &mut Interp, st: &mut State, v: &Val) {
        self.seen.set(self.seen.get() + 1);
        it.obligation("symbol recorded");
        let (l, d) = match v {
            Val::Agg(v) if v.len() == 2 => match (v[0].lin(), v[1].lin()) {
                (Some(l), Some(d)) => (l, d),
                _ => return it.violation("a symbol is recorded that is not known"),
            },
            _ => return it.violation("a symbol is recorded that is not known"),
        };
        let cov = st.gi("cov");
        if st.eq(&d, &Lin::k(0)) {
            let data = self.data.borrow().clone().unwrap();
            let b = byte_at(it, st, &data, &cov);
            if !b.map_or(false, |b| same(st, &b, &Val::Int(l.clone(), U8))) {
                it.detail(st, &[("cov", &cov), ("value", &l)]);
                it.violation("a literal is recorded that is not the next byte of the input");
            }
            st.set_gi("cov", cov.addk(1));
        } else if st.ge(&d.addk(-1)) {
            st.set_gi("cov", cov.add(&l).addk(3));
        } else {
            it.violation("a symbol is recorded that may be a literal or a match");
        }
    }
}

impl Rule for Cover {
    fn interesting(&self, _: &str) -> bool {
        false
    }
    fn wants(&self, _: &Prog, fu: &Func) -> bool {
        fu.local
    }
    fn soft(&self) -> bool {
        false
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        // What is compared and searched for does not matter here.
        let fu = it.func(c.f);
        let pr = it.pr;
        if !super::matches::shared(pr, fu) || !looping(fu) && fu.name != "" && !matches!(&pr.ty(fu.ret).kind, TyKind::Tuple(v) if v.len() == 2 && v.iter().all(|t| pr.ity(*t).is_some())) {
            return None;
        }
        match &pr.ty(fu.ret).kind {
            TyKind::Tuple(v) if v.len() == 2 && v.iter().all(|t| pr.ity(*t).is_some()) && looping(fu) => {
                let both = |l: Lin, d: Lin| agg(vec![usz(l), usz(d)]);
                let some = both(Lin::s(fresh(1, 258, "length")), Lin::s(fresh(1, 32768, "distance")));
                Some(vec![(st.clone(), both(Lin::k(0), Lin::k(0))), (st.clone(), some)])
            }
            _ if pr.ity(fu.ret).map_or(false, |t| t.bits() > 8) => Some(vec![(st.clone(), usz(Lin::s(fresh(0, 258, "length"))))]),
            _ => None,
        }
    }
    fn split(&self, it: &mut Interp, mut st: State) -> Vec<State> {
        let f = match st.frames.iter().rev().find(|f| it.func(f.f).local) {
            Some(f) => f.clone(),
            _ => return vec![st],
        };
        let inner = match st.frames.last() {
            Some(f) if !it.func(f.f).local => f.locals.get(0).and_then(|v| v.lin()).map_or(false, |l| l.is_k() == Some(0)),
            _ => false,
        };
        let mut h = inner as i128;
        for (i, v) in f.locals.iter().enumerate() {
            let mut one = |v: &Val, i: usize| match v {
                Val::Int(l, t) if t.bits() >= 16 && l.is_k() == Some(0) => h = (h * 31 + i as i128 * 2) % 1_000_000_007,
                _ => {}
            };
            one(v, i);
            if let Val::Agg(v) = v {
                v.iter().enumerate().for_each(|(k, v)| one(v, 1000 + i * 8 + k));
            }
        }
        for (i, p) in self.keys.borrow().iter().enumerate() {
            match st.get(it.pr, p, None) {
                Val::Int(l, _) if l.is_k() == Some(0) => h = (h * 31 + 5000 + i as i128) % 1_000_000_007,
                Val::Disc(l) => h = (h * 31 + 6000 + 10 * i as i128 + l.is_k().unwrap_or(7)) % 1_000_000_007,
                _ => {}
            }
        }
        st.set_gd("case", h);
        vec![st]
    }
    fn vec_event(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: VecEv) {
        match arr_of(it, st, p) {
            Some(a) if a.elem == self.elem => {}
            _ => return,
        }
        match ev {
            VecEv::Append(segs, _) => {
                for g in segs {
                    match &g.kind {
                        Kind::Elems(v) => v.iter().for_each(|v| self.recorded(it, st, v)),
                        _ => it.violation("symbols are recorded that are not known"),
                    }
                }
            }
            VecEv::Truncate(_) => {}
            VecEv::Other => it.violation("the buffer of symbols is changed in a way that is not understood"),
        }
    }
}

pub const PARTS: [&str; 9] = ["new", "lazy-none", "lazy-byte", "lazy-match", "greedy", "rle", "rle-start", "windows-first", "windows-later"];

pub fn run(pr: &Prog, prop: &str) -> i32 {
    super::parallel(pr, prop, &PARTS, &|p, log| match p {
        "new" => new(pr, log),
        "windows-first" => windows(pr, true, log),
        "windows-later" => windows(pr, false, log),
        _ => part(pr, p, log),
    })
}

/// The windows of the stream: each range handed to the match finder starts
/// where the symbols recorded so far end.
///
/// Places are counted from the first byte the input buffer holds at the
/// start.  That the buffer always holds the last bytes of what was there and
/// what was taken is C05 (part core), so its first byte is at
/// old + fed - length.
struct Windows {
    core: super::intake::Core,
    finder: FnId,
    /// The input buffer, its length at the start.
    buf: RefCell<Option<(Ptr, Lin)>>,
    keys: RefCell<Vec<Ptr>>,
    calls: Cell<u64>,
}

impl Windows {
    /// The place of the first byte of the buffer, and its length.
    fn base(&self, it: &mut Interp, st: &mut State) -> Option<(Lin, Lin)> {
        let (p, old) = self.buf.borrow().clone()?;
        let n = arr_of(it, st, &p)?.len.clone();
        Some((old.add(&st.gi("fed")).sub(&n), n))
    }
    fn chunk(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        let mut st = st.clone();
        self.calls.set(self.calls.get() + 1);
        it.obligation("range handed to the match finder");
        let (base, len) = self.base(it, &mut st)?;
        let (mut start, mut end, mut whole, mut add, mut lazy) = (None, None, false, None, None);
        for (a, t) in c.args.iter().zip(&fu.args) {
            match &pr.ty(*t).kind {
                _ if range(pr, *t) => {
                    let v = match a {
                        Val::Ref(p) => st.get(pr, p, None),
                        v => v.clone(),
                    };
                    if let Val::Agg(v) = &v {
                        start = v.get(0).and_then(|v| v.lin());
                        end = v.get(1).and_then(|v| v.lin());
                    }
                }
                TyKind::Ref { to, mutable: false } if matches!(pr.ty(*to).kind, TyKind::Slice(_)) => {
                    if let Some((p, s, e)) = crate::models::parts(it, &mut st, a) {
                        let b = self.buf.borrow().clone();
                        whole = b.map_or(false, |b| b.0 == p) && st.eq(&s, &Lin::k(0)) && st.eq(&e, &len);
                    }
                }
                TyKind::Ref { to, mutable: true } => {
                    if let (Some(k), Some(p)) = (kept(pr, *to, 2), crate::contract::target_of(it, &mut st, a)) {
                        let q = k.add.iter().fold(p, |p, i| p.push(PE::F(*i)));
                        if let Val::Disc(l) = st.get(pr, &q, None) {
                            add = Some(l);
                            lazy = Some(q);
                        }
                    }
                }
                _ => {}
            }
        }
        let (start, end, add, q) = match (start, end, add, lazy) {
            (Some(s), Some(e), Some(a), Some(q)) => (s, e, a, q),
            _ => {
                it.violation("a range is handed to the match finder that is not understood");
                return None;
            }
        };
        if !whole {
            it.violation("the match finder is not given the window");
        }
        let done = st.gi("done");
        if !st.eq(&base.add(&start).sub(&add), &done) {
            it.detail(&st, &[("base", &base), ("start", &start), ("add", &add), ("done", &done)]);
            it.violation("a window does not start where the symbols recorded so far end");
        }
        // (Matches do not go past the end of the window.)
        let mut out = vec![];
        let b = Lin::s(fresh(0, 258, "over"));
        if !it.assume_ge(&mut st, &len.sub(&end)) || !it.assume_ge(&mut st, &end.sub(&start)) {
            return Some(out);
        }
        let (plain, full) = match &pr.ty(fu.ret).kind {
            TyKind::Tuple(v) if v.len() == 2 => match &pr.ty(v[1]).kind {
                TyKind::Adt { kind: AdtKind::Enum, variants, .. } if variants.len() == 2 => {
                    let k = if variants[0].fields.is_empty() { 0u32 } else { 1 };
                    (k, 1 - k)
                }
                _ => return None,
            },
            _ => return None,
        };
        for (s, _) in it.havoc_call(c.f, c.args, st) {
            for k in [0, 1] {
                for filled in [0, 1, 2] {
                    let mut s = s.clone();
                    s.set(pr, &q, Val::Disc(Lin::k(k)));
                    let p = Lin::s(fresh(0, i64::MAX as i128, "place"));
                    // A byte is only kept if there are more.
                    let upto = if filled == 1 { p.clone() } else { end.add(&b) };
                    let mut ok = it.assume_ge(&mut s, &len.sub(&end).sub(&b)) && it.assume_ge(&mut s, &len.sub(&upto).addk(-k)) && it.assume_ge(&mut s, &p.sub(&start)) && it.assume_ge(&mut s, &end.add(&b).sub(&p));
                    let over = match filled {
                        1 => Lin::k(0),
                        2 => {
                            ok = ok && it.assume_eq(&mut s, &p.sub(&end).sub(&b));
                            b.clone()
                        }
                        _ => b.clone(),
                    };
                    if !ok {
                        continue;
                    }
                    s.set_gd("filled", filled);
                    s.set_gi("done", base.add(&upto).addk(-k));
                    let v = if filled == 0 { (plain, vec![]) } else { (full, vec![usz(p)]) };
                    let m = Val::Enum(Rc::new(std::iter::once((v.0, Rc::new(v.1))).collect()));
                    out.push((s, agg(vec![usz(over), m])));
                }
            }
        }
        Some(out)
    }
}

impl Rule for Windows {
    fn interesting(&self, _: &str) -> bool {
        false
    }
    fn wants(&self, pr: &Prog, fu: &Func) -> bool {
        self.core.wants(pr, fu)
    }
    fn contracts(&self) -> bool {
        true
    }
    fn content(&self) -> bool {
        true
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if c.f == self.finder {
            return self.chunk(it, c, st);
        }
        if let Some(r) = super::intake::split_min(it, c, st, true) {
            return Some(r);
        }
        self.core.call(it, c, st)
    }
    fn split(&self, it: &mut Interp, mut st: State) -> Vec<State> {
        let mut h = 0i128;
        for p in self.keys.borrow().iter() {
            h = h * 3 + match st.get(it.pr, p, None) {
                Val::Disc(l) => st.konst(&l).unwrap_or(2),
                _ => 2,
            };
        }
        // Whether the end of a window is that of the buffer.
        if let Some(f) = st.frames.get(0) {
            for (i, v) in f.locals.iter().enumerate() {
                match v {
                    Val::Int(l, t) if t.bits() == 64 && matches!(st.konst(l), Some(32768 | 65536)) => h = (h * 31 + i as i128) % 1_000_000_007,
                    _ => {}
                }
            }
        }
        st.set_gd("case", h);
        vec![st]
    }
}

/// A new encoder has recorded nothing.
fn new(pr: &Prog, log: &mut Log) {
    let top = super::matches::finders(pr);
    let rule = Rc::new(Windows { core: super::intake::Core, finder: top.get(0).copied().unwrap_or(0), buf: Default::default(), keys: Default::default(), calls: Cell::new(0) });
    let mut it = Interp::new(pr, rule);
    let size = top.get(0).and_then(|f| match &pr.ty(pr.p.fns[*f as usize].ret).kind {
        TyKind::Tuple(v) => Some(v[0]),
        _ => None,
    });
    let mut n = 0;
    for f in 0..pr.p.fns.len() as FnId {
        let fu = it.func(f);
        if !fu.local || fu.body.is_none() || size.is_none() || places(pr, fu.ret, size.unwrap(), 0).is_none() {
            continue;
        }
        n += 1;
        let mut st = State::new();
        let args: Vec<Val> = fu.args.iter().map(|t| it.unknown(&mut st, *t)).collect();
        for (mut s, r) in it.inline(f, args, st) {
            it.stack.push((f, fu.line));
            it.obligation("new encoder");
            let p = it.alloc(&mut s, fu.ret, r);
            let ok = (0..12).any(|roles| {
                places(pr, fu.ret, size.unwrap(), roles).map_or(false, |w| {
                    [1, 0, 0, 0].iter().zip(w.iter()).all(|(k, w)| match s.get(pr, &at(&p, w), None) {
                        Val::Disc(l) | Val::Int(l, _) => s.konst(&l) == Some(*k),
                        _ => false,
                    })
                })
            });
            if !ok {
                it.violation("a new encoder does not start with nothing recorded");
            }
            it.stack.pop();
        }
    }
    if n == 0 {
        it.lost("no constructor of what the encoder keeps");
    }
    *log = it.log;
}

fn windows(pr: &Prog, first: bool, log: &mut Log) {
    crate::join::BOUNDS.with(|b| *b.borrow_mut() = vec![0, 1, 2, 258, 32768, 65536, 65794]);
    let top = super::matches::finders(pr);
    let fs: Vec<FnId> = (0..pr.p.fns.len() as FnId).filter(|f| super::blocks::compresses(pr, &pr.p.fns[*f as usize]) && pr.p.fns[*f as usize].local).collect();
    let fail = |what: &str, log: &mut Log| {
        let mut it = Interp::new(pr, Rc::new(Windows { core: super::intake::Core, finder: 0, buf: Default::default(), keys: Default::default(), calls: Cell::new(0) }));
        it.lost(what);
        it.violation(what);
        *log = it.log;
    };
    if top.is_empty() || fs.is_empty() {
        return fail("the match finder or the function that hands it windows was not found", log);
    }
    let mut best: Option<Log> = None;
    for roles in 0..12 {
        let rule = Rc::new(Windows { core: super::intake::Core, finder: top[0], buf: Default::default(), keys: Default::default(), calls: Cell::new(0) });
        let mut it = Interp::new(pr, rule.clone());
        let mut found = true;
        for f in &fs {
            found &= slide(pr, &mut it, &rule, *f, first, roles);
        }
        if !found {
            break;
        }
        if rule.calls.get() == 0 {
            it.violation("the match finder is not called");
        }
        let clean = it.log.violations.is_empty();
        if best.as_ref().map_or(true, |b| it.log.violations.len() < b.violations.len()) {
            best = Some(it.log);
        }
        if clean || std::env::var("VDETAIL").is_ok() {
            break;
        }
    }
    match best {
        Some(b) => *log = b,
        None => fail("what the encoder keeps about its windows was not understood", log),
    }
}

/// Where things are in what is kept between calls: whether it is the first
/// window, how far the window was processed, if a byte is pending, and the
/// number of bytes of the block.
fn places(pr: &Prog, t: TyId, size: TyId, roles: u32) -> Option<[Vec<u32>; 4]> {
    let fs = match &pr.ty(t).kind {
        TyKind::Adt { kind: AdtKind::Struct, variants, .. } => &variants[0].fields,
        _ => return None,
    };
    let inner = fs.iter().enumerate().find_map(|(i, f)| kept(pr, f.1, 2).filter(|_| pr.adt(f.1).is_some() && !pr.is_vec(f.1) && !pr.is_box(f.1)).map(|k| (i, k)))?;
    let by = |p: &dyn Fn(TyId) -> bool, name: &str| -> Vec<u32> {
        let mut v: Vec<u32> = (0..fs.len()).filter(|i| p(fs[*i].1)).map(|i| i as u32).collect();
        v.sort_by_key(|i| fs[*i as usize].0 != name);
        v
    };
    let flags = by(&|t| matches!(pr.ty(t).kind, TyKind::Bool), "is_first_window");
    let wide = |t: TyId| matches!(pr.ty(t).kind, TyKind::Int { bits: 64, signed: false });
    let nums = by(&|t| wide(t) && t == size, "overlap");
    let bytes = by(&|t| wide(t) && t != size, "current_block_input_bytes");
    if flags.is_empty() || nums.is_empty() || bytes.len() != 1 {
        return None;
    }
    let n = (flags.len() * nums.len()) as u32;
    if roles >= n {
        return None;
    }
    let mut add = vec![inner.0 as u32];
    add.extend(&inner.1.add);
    Some([vec![flags[(roles as usize) % flags.len()]], vec![nums[(roles as usize) / flags.len()]], add, vec![bytes[0]]])
}

fn at(p: &Ptr, path: &[u32]) -> Ptr {
    path.iter().fold(p.clone(), |p, i| p.push(PE::F(*i)))
}

/// False if there is nothing (more) to try.
fn slide(pr: &Prog, it: &mut Interp, rule: &Windows, f: FnId, first: bool, roles: u32) -> bool {
    let fu = it.func(f);
    let size = match &pr.ty(it.func(rule.finder).ret).kind {
        TyKind::Tuple(v) => v[0],
        _ => return false,
    };
    let mut st = State::new();
    let (v, len) = super::intake::stream_arg(it, &mut st);
    st.set_gi("fed", Lin::k(0));
    st.set_gd("min", 2);
    st.set_gd("rest", 2);
    let args: Vec<Val> = fu.args.iter().map(|t| if super::intake::is_bytes(pr, *t) { v.clone() } else { it.unknown(&mut st, *t) }).collect();
    let (mut found, mut buffer) = (None, None);
    for (a, t) in args.iter().zip(&fu.args) {
        let to = match pr.ty(*t).kind {
            TyKind::Ref { to, mutable: true } => to,
            _ => continue,
        };
        let p = match crate::contract::target_of(it, &mut st, a) {
            Some(p) => p,
            None => continue,
        };
        if let Some(w) = places(pr, to, size, roles) {
            crate::contract::open(pr, &mut st, &p, to, 0);
            found = Some((p, w));
        } else if fields(pr, to).len() == 1 && pr.is_vec(fields(pr, to)[0]) && pr.ity(pr.elem_of(fields(pr, to)[0])) == Some(ITy::new(8, false)) {
            buffer = Some(p.push(PE::F(0)));
        }
    }
    let ((p, [fp, op, ap, np]), buf) = match (found, buffer) {
        (Some(x), Some(b)) => (x, b),
        _ => return false,
    };
    let old = match arr_of(it, &mut st, &buf) {
        Some(a) => a.len.clone(),
        None => return false,
    };
    *rule.buf.borrow_mut() = Some((buf.clone(), old.clone()));
    let (fp, op, ap, np) = (at(&p, &fp), at(&p, &op), at(&p, &ap), at(&p, &np));
    st.set(pr, &fp, Val::Disc(Lin::k(first as i128)));
    let add = Lin::s(fresh(0, 1, "kept"));
    st.set(pr, &ap, Val::Disc(add.clone()));
    let over = Lin::s(fresh(0, 65794, "overlap"));
    st.set(pr, &op, Val::Int(over.clone(), ITy::new(64, false)));
    let bytes = Lin::s(fresh(0, 1 << 50, "bytes"));
    st.set(pr, &np, Val::Int(bytes.clone(), ITy::new(64, false)));
    *rule.keys.borrow_mut() = vec![fp.clone(), ap.clone()];
    let done = Lin::k(if first { 0 } else { 32768 }).add(&over).sub(&add);
    // No more is done than there is.
    if !it.assume_ge(&mut st, &done) || !it.assume_ge(&mut st, &old.sub(&done).sub(&add)) {
        return true;
    }
    st.set_gi("done", done.clone());
    // (Kept for the relations of other values to them.)
    st.set_gd("filled", 0);
    st.set_gi("old", old.clone());
    st.set_gi("done0", done.clone());
    st.set_gi("bytes0", bytes.clone());
    st.set_gi("len0", len.clone());
    for (k, a) in ["a0", "a1", "a2", "a3", "a4", "a5"].iter().zip(&args) {
        Rc::make_mut(&mut st.ghost).insert(k, a.clone());
    }
    let asked = args.iter().zip(&fu.args).find_map(|(a, t)| match a {
        Val::Disc(l) => super::matches::variant(pr, *t, "Finish").map(|k| (l.clone(), k)),
        _ => None,
    });
    for (mut s, r) in it.inline(f, args, st) {
        it.stack.push((f, fu.line));
        it.obligation("end of the compressor");
        // Nothing follows the end of the stream.
        let over_now = asked.as_ref().map_or(false, |(l, k)| s.konst(l) == Some(*k));
        let now = s.gi("done");
        let disc = |s: &mut State, p: &Ptr| match s.get(pr, p, None) {
            Val::Disc(l) => Some(l),
            _ => None,
        };
        let (w, add) = (disc(&mut s, &fp), disc(&mut s, &ap));
        let over = s.get(pr, &op, None).lin();
        let count = s.get(pr, &np, None).lin();
        let base = rule.base(it, &mut s);
        let (mut status, mut nums) = (None, vec![]);
        if let Val::Agg(v) = &r {
            for x in v.iter() {
                match x {
                    Val::Disc(l) => status = s.konst(l),
                    Val::Int(l, _) => nums.push(l.clone()),
                    _ => {}
                }
            }
        }
        match (w, add, over, count, base, status) {
            (Some(w), Some(add), Some(over), Some(count), Some((base, n)), Some(status)) => {
                let start = match s.konst(&w) {
                    Some(0) => Some(Lin::k(32768)),
                    Some(_) => Some(Lin::k(0)),
                    None => None,
                };
                let next = start.map(|x| base.add(&x).add(&over).sub(&add));
                if std::env::var("VDETAIL").is_ok() {
                    eprintln!("end status {} first {} next {:?} done {} count {} base {} n {} nums {:?}", status, show(&s.norm(&w)), next.as_ref().map(|x| show(&s.norm(x))), show(&s.norm(&now)), show(&s.norm(&count.sub(&bytes))), show(&s.norm(&base)), show(&s.norm(&n)), nums.iter().map(|x| show(&s.norm(x))).collect::<Vec<_>>());
                }
                if !(status == 2 && over_now) && !next.map_or(false, |x| s.eq(&x, &now)) {
                    it.violation("the next window will not start where the symbols recorded so far end");
                }
                if !s.eq(&count.sub(&bytes), &now.sub(&done)) {
                    it.violation("the number of bytes of a block is not the number its symbols stand for");
                }
                // Of what is reported, the last number is the place in the buffer.
                if status != 0 && !nums.last().map_or(false, |x| s.eq(&base.add(x), &now)) {
                    it.violation("the place reported for the end of a block is not where its symbols end");
                }
                if status == 2 && !(s.eq(&now, &old.add(&len)) && s.eq(&base.add(&n), &now)) {
                    it.violation("the compressor reports that it is done before the symbols stand for all of the input");
                }
            }
            _ => it.violation("what the compressor keeps or returns is not known"),
        }
        it.stack.pop();
    }
    true
}

/// Scalars of a structure: (path, bits), 1 for bool.
fn scalars(pr: &Prog, t: TyId, path: &mut Vec<u32>, out: &mut Vec<(Vec<u32>, u32)>) {
    if path.len() > 3 || pr.is_vec(t) || pr.is_box(t) {
        return;
    }
    if let Some(i) = pr.ity(t) {
        out.push((path.clone(), i.bits()));
    } else if matches!(pr.ty(t).kind, TyKind::Bool) {
        out.push((path.clone(), 1));
    } else if matches!(&pr.ty(t).kind, TyKind::Adt { kind: AdtKind::Struct, .. } | TyKind::Tuple(_)) {
        for (i, f) in fields(pr, t).into_iter().enumerate() {
            path.push(i as u32);
            scalars(pr, f, path, out);
            path.pop();
        }
    }
}

struct Kept {
    len: Vec<u32>,
    dist: Vec<u32>,
    byte: Vec<u32>,
    add: Vec<u32>,
}

fn kept(pr: &Prog, t: TyId, roles: u32) -> Option<Kept> {
    let mut out = vec![];
    scalars(pr, t, &mut vec![], &mut out);
    let of = |b: u32| out.iter().filter(|x| x.1 == b).map(|x| x.0.clone()).collect::<Vec<_>>();
    let (n, b, a) = (of(16), of(8), of(1));
    if n.len() != 2 || b.is_empty() || b.len() > 2 || a.len() != 1 {
        return None;
    }
    let i = (roles & 1) as usize;
    Some(Kept { len: n[i].clone(), dist: n[1 - i].clone(), byte: b[((roles >> 1) as usize).min(b.len() - 1)].clone(), add: a[0].clone() })
}

fn part(pr: &Prog, part: &str, log: &mut Log) {
    let sink = (0..pr.p.types.len() as TyId).find(|t| is_sink(pr, *t));
    let elem = sink.and_then(|s| fields(pr, s).into_iter().find(|t| pr.is_vec(*t))).map(|t| pr.elem_of(t));
    let rule = Rc::new(Cover { elem: elem.unwrap_or(0), data: Default::default(), seen: Cell::new(0), keys: Default::default() });
    crate::join::BOUNDS.with(|b| *b.borrow_mut() = vec![0, 1, 2, 3, 258]);
    PLAIN.with(|p| p.set(true));
    let top = super::matches::finders(pr);
    let mut it = Interp::new(pr, rule.clone());
    if sink.is_none() || top.is_empty() {
        it.lost("no match finder");
        it.violation("no function records symbols for a range of a window");
        *log = it.log;
        return;
    }
    let sink = sink.unwrap();
    let mut best: Option<Log> = None;
    for roles in [2, 0, 3, 1] {
        let mut it = Interp::new(pr, rule.clone());
        for f in &top {
            once(pr, &mut it, &rule, *f, sink, part, roles);
        }
        let clean = it.log.violations.is_empty();
        if best.as_ref().map_or(true, |b| it.log.violations.len() < b.violations.len()) {
            best = Some(it.log);
        }
        if clean || !part.starts_with("lazy") || std::env::var("VDETAIL").is_ok() {
            break;
        }
    }
    *log = best.unwrap();
    log.notes.push(format!("{} symbols recorded", rule.seen.get()));
}

fn once(pr: &Prog, it: &mut Interp, rule: &Cover, f: FnId, sink: TyId, part: &str, roles: u32) {
    let fu = it.func(f);
    let mut st = State::new();
    let (data, len) = super::intake::stream_arg(it, &mut st);
    *rule.data.borrow_mut() = Some(data.clone());
    if let Val::Slice(p, ..) = &data {
        if let Val::Arr(a) = st.get(pr, p, None) {
            if let Some(Kind::Src(id, _)) = a.segs.get(0).map(|s| s.kind.clone()) {
                KEEP.with(|k| k.set(Some(id)));
            }
        }
    }
    let (start, end) = match part {
        "rle-start" => (Lin::k(0), Lin::s(fresh(1, i64::MAX as i128, "end"))),
        "rle" => (Lin::s(fresh(1, i64::MAX as i128, "start")), Lin::s(fresh(0, i64::MAX as i128, "end"))),
        _ => (Lin::s(fresh(0, i64::MAX as i128, "start")), Lin::s(fresh(0, i64::MAX as i128, "end"))),
    };
    // The range is in the window.
    if !it.assume_ge(&mut st, &end.sub(&start)) || !it.assume_ge(&mut st, &len.sub(&end)) {
        return;
    }
    let mut cov = start.clone();
    let mut args = vec![];
    let mut state: Option<(Ptr, Kept)> = None;
    for t in &fu.args {
        let mut a = it.unknown(&mut st, *t);
        match &pr.ty(*t).kind {
            TyKind::Ref { to, mutable: false } if matches!(pr.ty(*to).kind, TyKind::Slice(_)) => a = data.clone(),
            _ if pr.ity(*t).map_or(false, |t| t.bits() == 16) => {
                let l = if part.starts_with("rle") {
                    Lin::k(0)
                } else if part.starts_with("lazy") {
                    Lin::s(fresh(1, 65535, "checks"))
                } else {
                    Lin::s(fresh(0, 65535, "checks"))
                };
                a = Val::Int(l, ITy(16));
            }
            _ if is_kind(pr, *t) => match variant(pr, *t, if part == "greedy" { "Greedy" } else { "Lazy" }) {
                Some(k) => a = Val::Disc(Lin::k(k)),
                None => it.lost("a matching type is missing"),
            },
            _ if range(pr, *t) => {
                let v = agg(vec![usz(start.clone()), usz(end.clone())]);
                a = match &a {
                    Val::Ref(p) => {
                        st.set(pr, p, v);
                        a
                    }
                    _ => v,
                };
            }
            TyKind::Ref { to, mutable: true } if *to != sink => {
                if let (Some(k), Some(p)) = (kept(pr, *to, roles), crate::contract::target_of(it, &mut st, &a)) {
                    crate::contract::open(pr, &mut st, &p, *to, 0);
                    state = Some((p, k));
                }
            }
            _ => {}
        }
        args.push(a);
    }
    let at = |p: &Ptr, path: &[u32]| path.iter().fold(p.clone(), |p, i| p.push(PE::F(*i)));
    if let Some((p, k)) = &state {
        let i16 = |l: Lin| Val::Int(l, ITy(16));
        let add = matches!(part, "lazy-byte" | "lazy-match");
        let (l, d) = match part {
            "lazy-match" => (Lin::s(fresh(1, 258, "length")), Lin::s(fresh(1, 32768, "distance"))),
            _ => (Lin::k(0), Lin::s(fresh(0, 65535, "distance"))),
        };
        if part.starts_with("lazy") {
            st.set(pr, &at(p, &k.len), i16(l));
            st.set(pr, &at(p, &k.dist), i16(d));
            st.set(pr, &at(p, &k.add), Val::Disc(Lin::k(add as i128)));
        } else {
            st.set(pr, &at(p, &k.add), Val::Disc(Lin::k(0)));
        }
        if add {
            if !it.assume_ge(&mut st, &start.addk(-1)) {
                return;
            }
            cov = start.addk(-1);
            if let Some(b) = byte_at(it, &mut st, &data, &cov) {
                st.set(pr, &at(p, &k.byte), b);
            }
        }
    } else if part.starts_with("lazy") {
        it.lost("what is kept between calls was not understood");
        it.violation("what is kept between calls was not understood");
        return;
    }
    *rule.keys.borrow_mut() = state.iter().flat_map(|(p, k)| vec![at(p, &k.len), at(p, &k.dist), at(p, &k.add)]).collect();
    st.set_gi("cov", cov);
    for (k, a) in ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"].iter().zip(&args) {
        Rc::make_mut(&mut st.ghost).insert(k, a.clone());
    }
    for (mut s, r) in it.inline(f, args, st) {
        it.stack.push((f, fu.line));
        it.obligation("end of the range");
        let cov = s.gi("cov");
        let mut ok = false;
        // (overlap, status): the status may give the place of the next symbol.
        if let Val::Agg(v) = &r {
            if let (Some(over), Some(Val::Enum(m))) = (v.get(0).and_then(|v| v.lin()), v.get(1)) {
                let mut add = Some(0);
                let mut fine = true;
                if let Some((p, k)) = &state {
                    add = match s.get(pr, &at(p, &k.add), None) {
                        Val::Disc(l) => s.konst(&l),
                        _ => None,
                    };
                    let b = s.get(pr, &at(p, &k.byte), None);
                    if add == Some(1) {
                        fine &= s.ge(&len.sub(&cov).addk(-1));
                        fine &= byte_at(it, &mut s, &data, &cov).map_or(false, |x| same(&s, &x, &b));
                    }
                    let l = s.get(pr, &at(p, &k.len), None).lin();
                    // A match is kept for a byte that is kept.
                    if part.starts_with("lazy") && add == Some(0) {
                        fine &= l.map_or(false, |l| s.ge(&l.neg().addk(2)));
                    }
                }
                if let (Some(add), 1) = (add, m.len()) {
                    let next = cov.addk(add);
                    let (_, x) = m.iter().next().unwrap();
                    ok = fine
                        && match x.get(0).and_then(|v| v.lin()) {
                            None => s.eq(&next, &end.add(&over)),
                            Some(p) => s.eq(&next, &p) && (s.eq(&over, &Lin::k(0)) || s.eq(&p, &end.add(&over))),
                        };
                    if !ok {
                        it.detail(&s, &[("cov", &cov), ("over", &over), ("end", &end), ("add", &Lin::k(add)), ("fine", &Lin::k(fine as i128))]);
                        if std::env::var("VDETAIL").is_ok() {
                            eprintln!("end {} {} cov {} end {} over {} fine {} add {} len {} {:?}", brief(&r, &s.cons), m.len(), show(&s.norm(&cov)), show(&s.norm(&end)), show(&s.norm(&over)), fine, add, show(&s.norm(&len)), s.cons.list().iter().map(|(e, l)| format!("{}{}", show(l), if *e { "=0" } else { ">=0" })).collect::<Vec<_>>());
                        }
                    }
                }
            }
        }
        if !ok {
            it.violation("the symbols recorded for a range do not stand for its bytes");
        }
        it.stack.pop();
    }
}
