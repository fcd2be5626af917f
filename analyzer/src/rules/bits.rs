//! C19: the bit writer keeps every bit.
//!
//! A bit-provenance domain: every bit of a value is 0, 1, or a named input bit.
//! Starting from `new`, the set of states the writer can be in is closed under
//! its operations for every group width; each operation must turn (pending
//! bits, given bits) into (appended bytes, pending bits) with no bit lost,
//! invented, or moved.
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vir::*;

struct Bits {}
impl Rule for Bits {
    fn interesting(&self, adt: &str) -> bool {
        adt == WRITER
    }
    fn enter(&self, adt: &str) -> bool {
        adt == WRITER
    }
    fn bv(&self) -> bool {
        true
    }
    fn panic(&self, it: &mut Interp, _st: &State, msg: &str) {
        it.violation(&format!("the bit writer can panic: {msg}"));
    }
}
const WRITER: &str = "deflate::bitstream::LsbWriter";
const ROOT: u32 = 1;

fn bv(bits: Vec<Bit>, t: ITy) -> Val {
    if bits.iter().all(|b| matches!(b, Bit::Zero | Bit::One)) {
        let mut k = 0i128;
        for (i, b) in bits.iter().enumerate() {
            if *b == Bit::One {
                k |= 1 << i;
            }
        }
        return Val::Int(Lin::k(k), t);
    }
    Val::Bv(Rc::new(bits))
}

fn to_bits(st: &State, v: &Val, n: usize) -> Option<Vec<Bit>> {
    match v {
        Val::Bv(b) if b.len() == n => Some((**b).clone()),
        Val::Int(l, _) => {
            let k = st.konst(l)?;
            Some((0..n).map(|i| if (k >> i) & 1 == 1 { Bit::One } else { Bit::Zero }).collect())
        }
        _ => None,
    }
}

/// What one operation appended to the output, as bits; None if unknown.
fn appended(it: &mut Interp, st: &mut State, p: &Ptr, old: &Lin) -> Option<Vec<Bit>> {
    let Val::Arr(a) = st.get(it.pr, p, None) else { return None };
    let n = st.konst(&a.len.sub(old))?;
    if n < 0 || n > 64 {
        return None;
    }
    let mut out = vec![];
    for i in 0..n {
        let mut path = (*p.path).clone();
        path.push(PE::E(old.addk(i)));
        let v = st.get(it.pr, &Ptr { root: p.root, path: Rc::new(path) }, Some(a.elem));
        out.extend(to_bits(st, &v, 8)?);
    }
    Some(out)
}

/// Fields of the writer other than the output vector, as bits.
type Key = Vec<Vec<Bit>>;

enum Op {
    Group(usize),
    Flush,
    Write,
}

pub fn run(pr: &Prog, prop: &str) -> i32 {
    super::parallel(pr, prop, &["writer", "reverse"], &|p, l| match p {
        "writer" => writer(pr, l),
        _ => reverse(pr, l),
    })
}

fn fail(it: &mut Interp, f: FnId, what: &str) {
    let fu = it.func(f);
    it.stack.push((f, fu.line));
    it.violation(what);
    it.stack.pop();
}
fn held(it: &mut Interp, f: FnId, what: &str) {
    let fu = it.func(f);
    it.stack.push((f, fu.line));
    it.obligation(what);
    it.stack.pop();
}

fn writer(pr: &Prog, log: &mut Log) {
    let mut it = Interp::new(pr, Rc::new(Bits {}));
    it.unroll = 64;
    go(&mut it);
    log.add(std::mem::take(&mut it.log));
}

fn go(it: &mut Interp) {
    let pr = it.pr;
    let Some(ty) = pr.p.types.iter().position(|t| matches!(&t.kind, TyKind::Adt { path, .. } if path == WRITER)) else {
        it.lost("no bit writer");
        it.violation("the bit writer was not found");
        return;
    };
    let ty = ty as TyId;
    let fields: Vec<TyId> = match &pr.ty(ty).kind {
        TyKind::Adt { variants, .. } => variants[0].fields.iter().map(|f| f.1).collect(),
        _ => return,
    };
    let Some(wf) = fields.iter().position(|t| pr.is_vec(*t)) else {
        it.violation("the bit writer has no output vector");
        return;
    };
    // Operations: what code outside the type calls.
    let own = |n: &str| n.starts_with(&format!("{WRITER}::")) || n.starts_with(&format!("<{WRITER} as"));
    let mut api: BTreeSet<FnId> = BTreeSet::new();
    for fu in &pr.p.fns {
        if own(&fu.name) {
            continue;
        }
        let Some(b) = &fu.body else { continue };
        for bb in &b.blocks {
            if let Term::Call { callee: Callee::Fn(g), .. } = &bb.term {
                if own(&pr.p.fns[*g as usize].name) {
                    api.insert(*g);
                }
            }
        }
    }
    let is_mut_self = |t: TyId| matches!(pr.ty(t).kind, TyKind::Ref { to, mutable: true } if to == ty);
    let mut ops: Vec<(FnId, char)> = vec![];
    let mut new = None;
    for g in api {
        let fu = &pr.p.fns[g as usize];
        if fu.ret == ty {
            new = Some(g);
            continue;
        }
        if fu.args.is_empty() || !is_mut_self(fu.args[0]) {
            // A read-only query.
            continue;
        }
        let slice = |t: TyId| matches!(pr.ty(t).kind, TyKind::Ref { to, .. } if matches!(pr.ty(to).kind, TyKind::Slice(_)));
        let k = match &fu.args[1..] {
            [] => 'f',
            [a, b] if pr.ity(*a).is_some() && pr.ity(*b).is_some() => 'g',
            [a] if slice(*a) => 'w',
            _ => '?',
        };
        // A default method of Write goes through write.
        if !fu.local {
            continue;
        }
        if k == '?' {
            fail(it, g, "an operation of the bit writer of unknown shape");
            continue;
        }
        ops.push((g, k));
    }
    let Some(new) = new else {
        it.violation("the bit writer is never created");
        return;
    };
    it.log.notes.push(format!(
        "operations: {}",
        ops.iter().map(|o| pr.p.fns[o.0 as usize].name.as_str()).collect::<Vec<_>>().join(", ")
    ));
    // The empty writer.
    let mut st = State::new();
    let arg: Vec<Val> = pr.p.fns[new as usize].args.iter().map(|t| it.unknown(&mut st, *t)).collect();
    let mut work: Vec<(Key, usize)> = vec![];
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    for (s, v) in it.call(new, arg, st) {
        match key(it, &s, &v, wf, &fields, &|_, _| None) {
            Some(k) => work.push((k, 0)),
            None => fail(it, new, "a new bit writer is not empty"),
        }
    }
    while let Some((k, p)) = work.pop() {
        let name = format!("{k:?}");
        match seen.get(&name) {
            Some(&q) if q == p => continue,
            Some(_) => {
                fail(it, new, "the number of pending bits is not kept");
                return;
            }
            None => {}
        }
        if seen.len() > 200 {
            fail(it, new, "the states of the bit writer cannot be enumerated");
            return;
        }
        seen.insert(name, p);
        for &(f, c) in &ops {
            match c {
                'g' => {
                    for n in 0..=16 {
                        step(it, f, Op::Group(n), &k, p, wf, &fields, &mut work);
                    }
                }
                'f' => step(it, f, Op::Flush, &k, p, wf, &fields, &mut work),
                _ if p == 0 => step(it, f, Op::Write, &k, p, wf, &fields, &mut work),
                _ => {}
            }
        }
    }
    it.log.notes.push(format!("{} states of the accumulator, group widths 0..=16", seen.len()));
}

/// The non-vector fields, with pending bits renamed to their positions.
fn key(it: &mut Interp, st: &State, v: &Val, wf: usize, fields: &[TyId], pos: &dyn Fn(u32, u32) -> Option<u32>) -> Option<Key> {
    let Val::Agg(vs) = v else { return None };
    let mut out = vec![];
    for (i, t) in fields.iter().enumerate() {
        if i == wf {
            continue;
        }
        let n = it.pr.ity(*t)?.bits() as usize;
        let mut b = to_bits(st, &vs[i], n)?;
        for x in b.iter_mut() {
            *x = match *x {
                Bit::Src(a, i) => Bit::Src(0, pos(a, i)?),
                Bit::Any => return None,
                y => y,
            };
        }
        out.push(b);
    }
    Some(out)
}

#[allow(clippy::too_many_arguments)]
fn step(it: &mut Interp, f: FnId, op: Op, k: &Key, p: usize, wf: usize, fields: &[TyId], work: &mut Vec<(Key, usize)>) {
    let pr = it.pr;
    let mut st = State::new();
    let len = Lin::s(fresh(0, 1 << 40, "outlen"));
    let elem = pr.elem_of(fields[wf]);
    let old = Arr { elem, len: len.clone(), segs: vec![Seg { end: len.clone(), kind: Kind::Src(arr_id(ArrId::App("out".into(), vec![])), Lin::k(0)) }] };
    let mut vs = vec![];
    let mut j = 0;
    for (i, t) in fields.iter().enumerate() {
        if i == wf {
            vs.push(Val::Arr(Rc::new(old.clone())));
        } else {
            vs.push(bv(k[j].clone(), pr.ity(*t).unwrap()));
            j += 1;
        }
    }
    let heap = Rc::make_mut(&mut st.heap);
    heap.insert(ROOT, agg(vs));
    let mut args = vec![Val::Ref(Ptr::root(Root::Heap(ROOT)))];
    let fu = it.func(f);
    let mut want: Vec<Bit> = (0..p as u32).map(|i| Bit::Src(0, i)).collect();
    match op {
        Op::Group(n) => {
            let t = pr.ity(fu.args[1]).unwrap();
            let mut b: Vec<Bit> = (0..n as u32).map(|i| Bit::Src(1, i)).collect();
            want.extend(b.iter().copied());
            if n > t.bits() as usize {
                return;
            }
            b.resize(t.bits() as usize, Bit::Zero);
            args.push(bv(b, t));
            args.push(Val::Int(Lin::k(n as i128), pr.ity(fu.args[2]).unwrap()));
        }
        Op::Flush => {
            while want.len() % 8 != 0 {
                want.push(Bit::Zero);
            }
        }
        Op::Write => {
            let n = Lin::s(fresh(0, 1 << 40, "buflen"));
            let id = arr_id(ArrId::App("buf".into(), vec![]));
            Rc::make_mut(&mut st.heap).insert(
                2,
                Val::Arr(Rc::new(Arr { elem, len: n.clone(), segs: vec![Seg { end: n.clone(), kind: Kind::Src(id, Lin::k(0)) }] })),
            );
            args.push(Val::Slice(Ptr::root(Root::Heap(2)), Lin::k(0), n.clone()));
            for (mut s, v) in it.call(f, args, st) {
                let all = match &v {
                    Val::Enum(m) if m.len() == 1 => match m.get(&0).and_then(|x| x.first()) {
                        Some(Val::Int(l, _)) => s.eq(l, &n),
                        Some(_) => true,
                        None => false,
                    },
                    _ => false,
                };
                let p = Ptr { root: Root::Heap(ROOT), path: Rc::new(vec![PE::F(wf as u32)]) };
                let Val::Arr(a) = s.get(pr, &p, None) else {
                    fail(it, f, "what is written to the aligned bit writer is unknown");
                    continue;
                };
                let i = Lin::s(fresh(0, BIG, "i"));
                s.add_ge(&n.sub(&i).addk(-1));
                let x = {
                    let mut path = (*p.path).clone();
                    path.push(PE::E(len.add(&i)));
                    s.get(pr, &Ptr { root: p.root, path: Rc::new(path) }, Some(elem)).lin()
                };
                let y = load_src(pr, s.cons_mut(), id, &i, elem, &mut vec![]).lin();
                let same = match (x, y) {
                    (Some(x), Some(y)) => s.eq(&x, &y),
                    _ => false,
                };
                if all && s.eq(&a.len, &len.add(&n)) && same {
                    held(it, f, "bytes written to an aligned bit writer are appended unchanged");
                } else {
                    fail(it, f, "bytes written to an aligned bit writer are not all appended unchanged");
                }
                let root = s.get(pr, &Ptr::root(Root::Heap(ROOT)), None);
                match key(it, &s, &root, wf, fields, &|_, _| None) {
                    Some(k) => work.push((k, 0)),
                    None => fail(it, f, "writing bytes leaves pending bits"),
                }
            }
            return;
        }
    }
    let n = match op {
        Op::Group(n) => format!("group of {n}"),
        _ => "flush".into(),
    };
    let flush = matches!(op, Op::Flush);
    let mut any = false;
    for (mut s, _) in it.call(f, args, st) {
        any = true;
        let p1 = Ptr { root: Root::Heap(ROOT), path: Rc::new(vec![PE::F(wf as u32)]) };
        let Some(out) = appended(it, &mut s, &p1, &len) else {
            fail(it, f, &format!("the bytes appended by a {n} with {p} bits pending are unknown"));
            continue;
        };
        if out.len() > want.len() || out[..] != want[..out.len()] {
            fail(it, f, &format!("a {n} with {p} bits pending appends other bits than the pending ones"));
            continue;
        }
        let rest = &want[out.len()..];
        if flush && !rest.is_empty() {
            fail(it, f, &format!("a flush with {p} bits pending leaves some of them behind"));
            continue;
        }
        let root = s.get(pr, &Ptr::root(Root::Heap(ROOT)), None);
        let pos = |a: u32, i: u32| rest.iter().position(|b| *b == Bit::Src(a, i)).map(|x| x as u32);
        let Some(k2) = key(it, &s, &root, wf, fields, &pos) else {
            fail(it, f, &format!("a {n} with {p} bits pending keeps bits that were already output"));
            continue;
        };
        let kept: BTreeSet<u32> =
            k2.iter().flatten().filter_map(|b| if let Bit::Src(_, i) = b { Some(*i) } else { None }).collect();
        if kept.len() != rest.len() {
            fail(it, f, &format!("a {n} with {p} bits pending loses bits"));
            continue;
        }
        held(it, f, "bits in = bytes out + bits pending");
        work.push((k2, rest.len()));
    }
    if !any {
        fail(it, f, &format!("a {n} with {p} bits pending never returns"));
    }
}

/// The bit reversal used for Huffman codes.
fn reverse(pr: &Prog, log: &mut Log) {
    let mut it = Interp::new(pr, Rc::new(Bits {}));
    it.unroll = 64;
    let f = pr.p.fns.iter().position(|f| f.local && f.path == "deflate::bit_reverse::reverse_bits");
    match f {
        None => it.log.notes.push("no bit reversal function".into()),
        Some(f) => {
            let f = f as FnId;
            let fu = it.func(f);
            let ts: Vec<ITy> = fu.args.iter().filter_map(|t| pr.ity(*t)).collect();
            if ts.len() == 2 {
                let w = ts[0].bits() as usize;
                for n in 1..=16usize {
                    let b: Vec<Bit> = (0..w).map(|i| if i < n { Bit::Src(0, i as u32) } else { Bit::Zero }).collect();
                    let args = vec![bv(b, ts[0]), Val::Int(Lin::k(n as i128), ts[1])];
                    for (s, v) in it.call(f, args, State::new()) {
                        let want: Vec<Bit> =
                            (0..w).map(|i| if i < n { Bit::Src(0, (n - 1 - i) as u32) } else { Bit::Zero }).collect();
                        if to_bits(&s, &v, w) == Some(want) {
                            held(&mut it, f, "the bits of a code are reversed exactly");
                        } else {
                            fail(&mut it, f, &format!("codes of {n} bits are not reversed exactly"));
                        }
                    }
                }
            } else {
                fail(&mut it, f, "bit reversal of unknown shape");
            }
        }
    }
    log.add(std::mem::take(&mut it.log));
}
