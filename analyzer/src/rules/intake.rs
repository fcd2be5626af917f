//! C05: what write() reports as consumed is exactly what the stream took in.
//!
//! Two steps. Along all call histories, the slices handed to the compression
//! function proper start where the last one ended, and what it consumed adds
//! up to what the call reports (parts raw, zlib, gz and the one-shot
//! functions). The compression function itself moves exactly the consumed
//! bytes into the input buffer, in order (part core).
use super::api::*;
use super::blocks::compresses;
use super::delivery::*;
use crate::contract;
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;
use std::rc::Rc;
use vir::*;

fn bytes_arg(pr: &Prog, fu: &Func) -> Option<usize> {
    let v: Vec<usize> = (0..fu.args.len()).filter(|i| is_bytes(pr, fu.args[*i])).collect();
    if v.len() == 1 { Some(v[0]) } else { None }
}
pub fn is_bytes(pr: &Prog, t: TyId) -> bool {
    match &pr.ty(t).kind {
        TyKind::Ref { to, mutable: false } => match &pr.ty(*to).kind {
            TyKind::Slice(e) => pr.ity(*e) == Some(ITy::new(8, false)),
            _ => false,
        },
        _ => false,
    }
}
/// Discriminant of the status, and the number of consumed bytes.
fn outcome(pr: &Prog, fu: &Func, v: &Val) -> (Option<Lin>, Option<Lin>) {
    let (mut s, mut n) = (None, None);
    if let (Val::Agg(f), TyKind::Tuple(t)) = (v, &pr.ty(fu.ret).kind) {
        for (i, x) in f.iter().enumerate() {
            match x {
                Val::Disc(l) => s = Some(l.clone()),
                // The first number is what was consumed.
                Val::Int(l, _) if n.is_none() && pr.ity(t[i]).is_some() => n = Some(l.clone()),
                _ => {}
            }
        }
    }
    (s, n)
}

impl Delivery {
    pub fn intake(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        if !self.on("C05") || !fu.local || !compresses(pr, fu) {
            return None;
        }
        if let Some(r) = super::blocks::by_mode(it, c, st, &mut |it, c, s| self.intake(it, c, s)) {
            return r;
        }
        let mut st = st.clone();
        let i = bytes_arg(pr, fu)?;
        let (p, s, e) = parts(it, &mut st, &c.args[i])?;
        let n = st.norm(&e.sub(&s));
        let t = st.gi("T");
        it.obligation("input handed to the compressor");
        if !st.eq(&n, &Lin::k(0)) {
            let segs = it.segs_of(&mut st, &p, &s, &e);
            let ok = match &segs[..] {
                [Seg { kind: Kind::Src(id, o), .. }] => arr_get(*id) == ArrId::Stream && st.eq(o, &t),
                _ => false,
            };
            if !ok {
                it.detail(&st, &[("T", &t)]);
                if std::env::var("VDETAIL").is_ok() { eprintln!("segs {:?} {} {}", segs, show(&s), show(&e)); }
                it.violation("the compressor is not given the input that follows what it has taken so far");
            }
        }
        let before = st.clone();
        let modes = contract::modes(it, c.f, c.args, &st)?;
        let mut out = vec![];
        for (s, _) in it.havoc_call(c.f, c.args, st) {
            for m in modes.iter() {
                let mut s = s.clone();
                contract::settle(it, &mut s, c.args, m, &before);
                let v = contract::build(it, &mut s, &m.ret);
                let (status, k) = outcome(pr, fu, &v);
                let k = match k {
                    Some(k) => k,
                    None => {
                        it.lost("consumed bytes not found");
                        return None;
                    }
                };
                s.add_ge(&k);
                s.add_ge(&n.sub(&k));
                let mut outs = vec![];
                match status.and_then(|l| s.konst(&l)) {
                    // All of it (see core).
                    Some(0) | Some(2) => {
                        let mut s = s;
                        if it.assume_eq(&mut s, &n.sub(&k)) {
                            outs.push(s);
                        }
                    }
                    _ => outs.push(s),
                }
                for mut s in outs {
                    s.set_gi("T", t.add(&k));
                    out.push((s, v.clone()));
                }
            }
        }
        Some(out)
    }
    /// The compressor proper never takes more than it was given (C05, part
    /// core).
    pub fn bounded(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        if !fu.local || !compresses(pr, fu) || !it.is_opaque(c.f) {
            return None;
        }
        let mut st = st.clone();
        let i = bytes_arg(pr, fu)?;
        let (_, s, e) = parts(it, &mut st, &c.args[i])?;
        let n = st.norm(&e.sub(&s));
        let before = st.clone();
        let modes = contract::modes(it, c.f, c.args, &st)?;
        *it.log.havocs.entry(fu.name.clone()).or_default() += 1;
        let mut out = vec![];
        for (s, _) in it.havoc_call(c.f, c.args, st) {
            for m in modes.iter() {
                let mut s = s.clone();
                contract::settle(it, &mut s, c.args, m, &before);
                let v = contract::build(it, &mut s, &m.ret);
                if let (_, Some(k)) = outcome(pr, fu, &v) {
                    s.add_ge(&k);
                    s.add_ge(&n.sub(&k));
                }
                out.push((s, v));
            }
        }
        Some(out)
    }
    pub fn intake_end(&self, it: &mut Interp, st: &mut State, op: &str, a: &[Val], v: &Val) {
        if !self.on("C05") {
            return;
        }
        let vs = variants_of(v);
        let t = st.gi("T");
        match op {
            "new" | "from_builder" => {
                st.set_gi("T", Lin::k(0));
                st.set_gi("taken", Lin::k(0));
            }
            "reset" | "reset_with_builder" if vs == vec![0] => {
                st.set_gi("T", Lin::k(0));
                st.set_gi("taken", Lin::k(0));
            }
            _ if self.one() => {
                let n = match &a[0] {
                    Val::Slice(_, s, e) => e.sub(s),
                    _ => return,
                };
                let ok = st.eq(&t, &n);
                self.must(it, "C05", "end of a one-shot stream", ok, "a one-shot function does not take in its whole input");
            }
            "write" => {
                // The prefix has been added to what was taken already.
                let ok = st.eq(&t, &st.gi("taken"));
                if !ok && it.mute == 0 {
                    it.detail(st, &[("T", &t), ("taken", &st.gi("taken"))]);
                }
                let what = if vs == vec![0] { "write reports a number of bytes other than what the stream took in" } else { "write fails although the stream took in some of the bytes" };
                self.must(it, "C05", "result of write", ok, what);
                let k = st.gi("taken");
                st.set_gi("T", k);
            }
            _ => {
                let ok = st.eq(&t, &st.gi("taken"));
                self.must(it, "C05", "result of other calls", ok, "something else than write takes in input");
            }
        }
    }
}

/// The compression function by itself.
pub struct Core;
impl Core {
    pub fn takes(pr: &Prog, fu: &Func) -> bool {
        let rem = match &pr.ty(fu.ret).kind {
            TyKind::Adt { kind: AdtKind::Enum, variants, .. } => variants.len() == 2 && variants[0].fields.is_empty() && variants.iter().any(|v| v.fields.len() == 1 && is_bytes(pr, v.fields[0].1)),
            _ => false,
        };
        rem && fu.local && fu.args.len() == 2 && is_bytes(pr, fu.args[1])
            && matches!(&pr.ty(fu.args[0]).kind, TyKind::Ref { to, mutable: true } if contract::fields(pr, *to).len() == 1 && pr.is_vec(contract::fields(pr, *to)[0]))
    }
}
impl Rule for Core {
    fn interesting(&self, _adt: &str) -> bool {
        false
    }
    fn wants(&self, pr: &Prog, fu: &Func) -> bool {
        // Everything done with the input buffer.
        fu.local
            && fu.args.get(0).map_or(false, |t| match &pr.ty(*t).kind {
                TyKind::Ref { to, .. } => contract::fields(pr, *to).len() == 1 && pr.is_vec(contract::fields(pr, *to)[0]),
                _ => false,
            })
    }
    fn contracts(&self) -> bool {
        true
    }
    fn content(&self) -> bool {
        true
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        if let Some(r) = split_min(it, c, st, false) {
            return Some(r);
        }
        if !Core::takes(pr, fu) || fu.body.is_none() {
            return None;
        }
        let mut st = st.clone();
        let (_, s, e) = parts(it, &mut st, &c.args[1])?;
        let fed = st.gi("fed");
        it.obligation("input handed to the input buffer");
        let empty = st.eq(&s, &e);
        if !empty && !st.eq(&s, &fed) {
            it.violation("the input buffer is not given the input that follows what it has taken so far");
        }
        let mut out = vec![];
        st.set_gd("min", 2);
        for (mut s2, v) in it.inline(c.f, c.args.to_vec(), st) {
            let mut cases = vec![];
            match &v {
                Val::Enum(m) => {
                    for (k, f) in m.iter() {
                        cases.push((*k, f.get(0).cloned()));
                    }
                }
                _ => cases.push((9, None)),
            }
            if cases.len() != 1 {
                it.lost("result of the input buffer not known");
            }
            let to = match &cases[0] {
                (0, _) => e.clone(),
                (_, Some(Val::Slice(_, a, b))) => {
                    if !s2.eq(b, &e) {
                        it.violation("the rest of the input loses its end");
                    }
                    a.clone()
                }
                _ => Lin::s(fresh(0, BIG, "rest")),
            };
            if !empty {
                s2.set_gi("fed", to);
            }
            s2.set_gd("min", 2);
            s2.set_gd("rest", if cases[0].0 == 0 { 0 } else { 1 });
            out.push((s2, v));
        }
        Some(out)
    }
}

/// Keep apart what a minimum is inside of the functions of the buffer.
pub fn split_min(it: &mut Interp, c: &CallCtx, st: &State, always: bool) -> Option<Vec<(State, Val)>> {
    let fu = it.func(c.f);
    if fu.args.len() != 2 || !(fu.name.contains("cmp::min::") || fu.name.ends_with(">::min")) || !always && st.gd("min") != 2 {
        return None;
    }
    let (a, b) = match (&c.args[0], &c.args[1]) {
        (Val::Int(a, _), Val::Int(b, _)) => (a.clone(), b.clone()),
        _ => return None,
    };
    let mut out = vec![];
    for (k, x, y) in [(0, &a, &b), (1, &b, &a)] {
        let mut s = st.clone();
        if it.assume_ge(&mut s, &y.sub(x).addk(-k)) {
            s.set_gd("min", k);
            out.push((s, if k == 0 { c.args[0].clone() } else { c.args[1].clone() }));
        }
    }
    Some(out)
}

pub fn stream_arg(it: &mut Interp, st: &mut State) -> (Val, Lin) {
    let n = Lin::s(fresh(0, i64::MAX as i128, "N"));
    let u8t = it.pr.p.types.iter().position(|t| matches!(t.kind, TyKind::Int { bits: 8, signed: false })).unwrap();
    Rc::make_mut(&mut st.heap).insert(
        INPUT,
        Val::Arr(Rc::new(Arr {
            elem: u8t as u32,
            len: n.clone(),
            segs: vec![Seg { end: n.clone(), kind: Kind::Src(arr_id(ArrId::Stream), Lin::k(0)) }],
        })),
    );
    (Val::Slice(Ptr::root(Root::Heap(INPUT)), Lin::k(0), n.clone()), n)
}

pub fn core(pr: &Prog, log: &mut Log) {
    let mut it = Interp::new(pr, Rc::new(Core));
    let mut n = 0;
    for f in 0..pr.p.fns.len() as FnId {
        let fu = &pr.p.fns[f as usize];
        if !fu.local || fu.body.is_none() {
            continue;
        }
        let place = (f, fu.line);
        if Core::takes(pr, fu) {
            n += 1;
            let mut st = State::new();
            let (v, len) = stream_arg(&mut it, &mut st);
            st.set_gi("fed", Lin::k(0));
            st.set_gd("min", 2);
            st.set_gd("rest", 2);
            let b = it.unknown(&mut st, fu.args[0]);
            let p = match contract::target_of(&mut it, &mut st, &b) {
                Some(p) => p.push(PE::F(0)),
                None => continue,
            };
            let old = match arr_of(&mut it, &mut st, &p) {
                Some(a) => a.len.clone(),
                None => continue,
            };
            let id = arr_id(ArrId::App("before".into(), vec![]));
            if let Val::Arr(a) = st.get(pr, &p, None) {
                let mut a = (*a).clone();
                a.segs = vec![Seg { end: old.clone(), kind: Kind::Src(id, Lin::k(0)) }];
                st.set(pr, &p, Val::Arr(Rc::new(a)));
            }
            // (Keeps the buffer alive.)
            Rc::make_mut(&mut st.ghost).insert("arg".into(), b.clone());
            for (mut s, r) in it.inline(f, vec![b.clone(), v.clone()], st) {
                let b = s.ghost.get("arg").cloned().unwrap_or(Val::Uninit);
                let p = match contract::target_of(&mut it, &mut s, &b) {
                    Some(p) => p.push(PE::F(0)),
                    None => continue,
                };
                it.stack.push(place);
                it.obligation("contents of the input buffer");
                let took = match &r {
                    Val::Enum(m) if m.len() == 1 => match m.iter().next().unwrap() {
                        (0, _) => Some(len.clone()),
                        (_, x) => match x.get(0) {
                            Some(Val::Slice(_, a, b)) if s.eq(b, &len) => Some(a.clone()),
                            _ => None,
                        },
                    },
                    _ => None,
                };
                let a = arr_of(&mut it, &mut s, &p);
                let ok = match (took, a) {
                    (Some(k), Some(a)) => holds(&s, &a, id, &old, &k),
                    _ => false,
                };
                if !ok {
                    if std::env::var("VDETAIL").is_ok() {
                        let a = arr_of(&mut it, &mut s, &p);
                        eprintln!("{:?} ret {} old {}", a.map(|a| a.segs.clone()), brief(&r, &s.cons), show(&s.norm(&old)));
                    }
                    it.violation("the input buffer does not end with exactly the input that was taken");
                }
                it.stack.pop();
            }
        }
        if compresses(pr, fu) {
            n += 1;
            let mut st = State::new();
            let (v, len) = stream_arg(&mut it, &mut st);
            st.set_gi("fed", Lin::k(0));
            st.set_gd("min", 2);
            st.set_gd("rest", 2);
            let i = match bytes_arg(pr, fu) {
                Some(i) => i,
                None => continue,
            };
            let mut args = vec![];
            for (j, t) in fu.args.iter().enumerate() {
                args.push(if j == i { v.clone() } else { it.unknown(&mut st, *t) });
            }
            for (k, a) in ["a0", "a1", "a2", "a3", "a4", "a5"].iter().zip(&args) {
                Rc::make_mut(&mut st.ghost).insert(k, a.clone());
            }
            for (s, r) in it.inline(f, args, st) {
                it.stack.push(place);
                it.obligation("result of the compressor");
                let (status, k) = outcome(pr, fu, &r);
                let fed = s.gi("fed");
                if !k.map_or(false, |k| s.eq(&k, &fed)) {
                    it.detail(&s, &[("fed", &fed)]);
                    it.violation("the number of consumed bytes is not what went into the input buffer");
                }
                let sl = status.clone().unwrap_or(Lin::k(99));
                let end = status.map_or(true, |l| s.konst(&l) != Some(1));
                if end && !s.eq(&fed, &len) {
                    it.detail(&s, &[("status", &sl), ("rest", &Lin::k(s.gd("rest"))), ("fed", &fed), ("len", &len)]);
                    it.violation("the compressor asks for more input, or reports that it is done, without having taken all of it");
                }
                it.stack.pop();
            }
        }
    }
    if n < 2 {
        it.lost("input buffer or compressor not found");
    }
    *log = it.log;
    log.notes.push(format!("core: {} functions called directly with arbitrary states", n));
}

/// A part of what was there, up to its end, followed by the first k bytes of the stream.
fn holds(st: &State, a: &Arr, id: u32, old: &Lin, k: &Lin) -> bool {
    // Bytes moved one by one are not known: then only their number counts.
    let known = a.segs.iter().all(|g| matches!(&g.kind, Kind::Src(i, _) if *i == id || arr_get(*i) == ArrId::Stream));
    if !known && st.ge(&old.sub(&a.len).add(k)) && st.ge(&a.len.sub(k)) {
        return true;
    }
    let mut at = Lin::k(0);
    let mut o: Option<Lin> = None;
    let mut taken: Option<Lin> = None;
    for g in &a.segs {
        let n = g.end.sub(&at);
        let from = at.clone();
        at = g.end.clone();
        if st.eq(&n, &Lin::k(0)) {
            continue;
        }
        match &g.kind {
            Kind::Src(i, off) if *i == id && taken.is_none() => {
                let off = &off.add(&from);
                if !o.as_ref().map_or(true, |o| st.eq(o, off)) {
                    return false;
                }
                o = Some(off.add(&n));
            }
            Kind::Src(i, off) if arr_get(*i) == ArrId::Stream => {
                let off = &off.add(&from);
                if !taken.as_ref().map_or(st.eq(off, &Lin::k(0)), |t| st.eq(t, off)) {
                    return false;
                }
                taken = Some(off.add(&n));
            }
            _ => return false,
        }
    }
    o.map_or(st.eq(old, &Lin::k(0)), |o| st.eq(&o, old)) && st.eq(&taken.unwrap_or(Lin::k(0)), k)
}
