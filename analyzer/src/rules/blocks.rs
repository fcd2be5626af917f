//! The structure of the compressed data: an automaton over the bit groups and
//! bytes handed to the bit writer, along all call histories.
//!
//! C08: a successful flush ends with an empty stored block, all delivered.
//! C10: the stream is a sequence of blocks, exactly the last one final.
//! C17: the codes written are those made from the announced lengths.
//! C18: stored blocks are aligned and announce what follows.
//!
//! Ghosts: b: where in a block the stream is, fin: the block is final, done:
//! the final block is complete, last: the last block was an empty stored one
//! that is not final, len/rem: announced length of a stored block and what is
//! left of it, ann: the code lengths that were described.
use super::api::*;
use super::delivery::*;
use crate::contract;
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;
use std::rc::Rc;
use vir::*;

const GH: [&str; 5] = ["b", "fin", "done", "last", "mayfin"];
pub fn init(st: &mut State) {
    for g in GH.iter().chain(&["annl", "annd", "annh", "drained", "lit", "lz", "fid", "did"]) {
        st.set_gd(g, 0);
    }
    for g in ["len", "rem", "low", "pend"] {
        st.set_gi(g, Lin::k(0));
    }
}
pub type Memo = std::collections::HashMap<(FnId, Vec<i128>), Option<Rc<Vec<(Vec<i128>, contract::Shape)>>>>;

pub const BETWEEN: i128 = 0;
const FIXED: i128 = 1;
const DESC: i128 = 2;
const DYN: i128 = 3;
const STORED: i128 = 4;
const LEN0: i128 = 5;
const DATA: i128 = 9;

fn codes_of(id: u32) -> Option<u32> {
    match arr_get(id) {
        ArrId::App(n, a) if &*n == "codes" => a.get(0).copied(),
        _ => None,
    }
}

/// Arrays that l depends on through loads.
fn loads(st: &State, l: &Lin, depth: u32, f: &mut dyn FnMut(u32, &Lin)) {
    let l = st.norm(l);
    for s in l.syms() {
        if let (Some(d), true) = (def_of(s), depth < 6) {
            match &*d {
                Def::Load(id, e, _) => {
                    f(*id, e);
                    loads(st, e, depth + 1, f);
                }
                Def::Mod(x, _) | Def::Byte(x, _) | Def::Div(x, _) | Def::Ge0(x) | Def::Eq0(x) => loads(st, x, depth + 1, f),
                Def::And(x, y) | Def::Or(x, y) => {
                    loads(st, x, depth + 1, f);
                    loads(st, y, depth + 1, f);
                }
                Def::App(_, a) => {
                    for x in a {
                        loads(st, x, depth + 1, f);
                    }
                }
            }
        }
    }
}

/// Is e byte k of l, which is within 16 bits?
fn is_byte(st: &State, e: &Lin, l: &Lin, k: u32) -> bool {
    let e = st.norm(e);
    if let (Some(c), Some(v)) = (e.is_k(), st.konst(l)) {
        return c == (v >> (8 * k)) & 255;
    }
    let strip = |x: &Lin| match st.norm(x).as_sym().and_then(def_of).as_deref() {
        Some(Def::Mod(y, m)) if *m >= 16 => y.clone(),
        _ => x.clone(),
    };
    match e.as_sym().and_then(def_of).as_deref() {
        Some(Def::Byte(x, j)) => *j == k && st.eq(&strip(x), l),
        Some(Def::Mod(x, 8)) => match (k, st.norm(x).as_sym().and_then(def_of).as_deref()) {
            (0, _) if st.eq(&strip(x), l) => true,
            (1, Some(Def::Div(y, 256))) => st.eq(&strip(y), l),
            _ => false,
        },
        Some(Def::Div(x, 256)) => k == 1 && st.eq(&strip(x), l),
        _ => false,
    }
}

/// The 16-bit value whose low byte this is.
fn low_of(st: &State, e: &Lin) -> Option<Lin> {
    let e = st.norm(e);
    if e.is_k().is_some() {
        return Some(e);
    }
    match e.as_sym().and_then(def_of).as_deref() {
        Some(Def::Byte(x, 0)) | Some(Def::Mod(x, 8)) => Some(st.norm(x)),
        _ => None,
    }
}

impl Delivery {
    pub fn blocks(&self) -> bool {
        matches!(self.prop.as_str(), "C08" | "C10" | "C17" | "C18")
    }
    fn bad(&self, it: &mut Interp, p: &str, msg: &str) {
        if p.split(' ').any(|p| self.on(p)) {
            it.violation(msg);
        }
    }
    fn seen(&self, it: &mut Interp, p: &str, what: &str) {
        if p.split(' ').any(|p| self.on(p)) {
            it.obligation(what);
        }
    }
    pub fn block_call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let fu = it.func(c.f);
        if let Some(m) = method(it.pr, fu) {
            let mut st = st.clone();
            let p = match contract::target_of(it, &mut st, &c.args[0]) {
                Some(p) => p,
                None => {
                    it.lost("bit writer not resolved");
                    return None;
                }
            };
            // Nothing pending: already at a byte boundary.
            let empty = fields_of(it, &mut st, &p).iter().any(|(q, l)| matches!(st.get(it.pr, q, None), Val::Int(_, t) if t.bits() == 8) && st.konst(l) == Some(0));
            if empty && st.gd("b") == STORED {
                self.align(it, &mut st);
            }
            return match m {
                "bits" => {
                    let v = c.args[1].lin()?;
                    let n = c.args[2].lin()?;
                    let mut out = vec![];
                    for mut s in self.bits(it, st, &v, &n) {
                        self.smear(it, &mut s, &p, false);
                        out.push((s, unit()));
                    }
                    Some(out)
                }
                "align" | "flush" => {
                    self.align(it, &mut st);
                    self.smear(it, &mut st, &p, true);
                    Some(vec![(st, if m == "align" { unit() } else { ok(unit()) })])
                }
                "pending" => None,
                _ => {
                    let (q, s, e) = parts(it, &mut st, &c.args[1])?;
                    let segs = it.segs_of(&mut st, &q, &s, &e);
                    let n = st.norm(&e.sub(&s));
                    let mut out = vec![];
                    for mut s in self.bytes(it, st, &segs, &n) {
                        // Whatever was pending stays pending.
                        let keep = fields_of(it, &mut s, &p);
                        self.smear(it, &mut s, &p, false);
                        if keep.iter().all(|(_, l)| s.konst(l) == Some(0)) {
                            for (q, l) in keep {
                                if let Val::Int(_, t) = s.get(it.pr, &q, None) {
                                    s.set(it.pr, &q, Val::Int(l, t));
                                }
                            }
                        }
                        let v = if m == "write" { ok(usz(n.clone())) } else { ok(unit()) };
                        out.push((s, v));
                    }
                    Some(out)
                }
            };
        }
        if fu.local && compresses(it.pr, fu) {
            return self.lz77(it, c, st);
        }
        if !self.on("C17") && fu.local && fu.body.is_some() && !fu.name.contains("{closure") {
            if let Some(r) = self.leaf(it, c, st) {
                return Some(r);
            }
        }
        if self.on("C17") && fu.local && fu.body.is_some() && !fu.name.contains("{closure") {
            return self.tables(it, c, st);
        }
        None
    }
    /// Functions below the encoder: what they do to the automaton, whatever
    /// their data.
    fn leaf(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        if st.gd("b") > DYN {
            return None;
        }
        let ws = contract::writers(pr, fu)?;
        if ws.iter().any(|i| flags(pr, contract::peel(pr, fu.args[*i]).0)) {
            return None;
        }
        let mut key = vec![];
        for a in c.args.iter() {
            key.push(match a {
                Val::Disc(l) => st.konst(l).unwrap_or(-1),
                Val::Slice(_, s, e) => st.konst(&e.sub(s)).filter(|k| *k == 0).unwrap_or(-1),
                Val::Enum(m) if m.len() == 1 => *m.keys().next().unwrap() as i128,
                _ => -1,
            });
        }
        for g in GH {
            key.push(st.gd(g));
        }
        let key = (c.f, key);
        let known = self.memo.borrow().get(&key).cloned();
        let outs = match known {
            Some(o) => o?,
            None => {
                self.memo.borrow_mut().insert(key.clone(), None);
                let mut s = State::new();
                let mut args = vec![];
                for (i, t) in fu.args.iter().enumerate() {
                    let mut v = it.unknown(&mut s, *t);
                    match (&c.args[i], &mut v) {
                        (Val::Disc(l), _) if st.konst(l).is_some() => v = c.args[i].clone(),
                        (Val::Slice(_, x, y), Val::Slice(_, u, w)) if st.konst(&y.sub(x)) == Some(0) => *w = u.clone(),
                        (Val::Enum(m), Val::Enum(n)) if m.len() == 1 => {
                            let k = *m.keys().next().unwrap();
                            Rc::make_mut(n).retain(|j, _| *j == k);
                        }
                        _ => {}
                    }
                    args.push(v);
                }
                init(&mut s);
                s.set_gi("pend", Lin::s(fresh(0, 1, "pend")));
                for g in GH {
                    s.set_gd(g, st.gd(g));
                }
                Rc::make_mut(&mut s.ghost).insert("args", agg(args.clone()));
                let mut groups: Vec<(Vec<i128>, Vec<(Val, State)>)> = vec![];
                let mut plain = true;
                for (mut s, v) in it.inline(c.f, args, s) {
                    self.settle(it, &mut s);
                    if s.gd("b") > DYN {
                        plain = false;
                    }
                    let mut g: Vec<i128> = GH.iter().map(|g| s.gd(g)).collect();
                    g.push(s.konst(&s.gi("pend")).unwrap_or(2));
                    match groups.iter_mut().find(|x| x.0 == g) {
                        Some(x) => x.1.push((v, s)),
                        None => groups.push((g, vec![(v, s)])),
                    }
                }
                let r = if plain {
                    let mut o = vec![];
                    for (g, vs) in groups {
                        for m in contract::group(pr, vs, fu.ret, &[], &[]) {
                            o.push((g.clone(), m.ret));
                        }
                    }
                    Some(Rc::new(o))
                } else {
                    None
                };
                it.log.contracts.insert(fu.name.clone());
                self.memo.borrow_mut().insert(key, r.clone());
                r?
            }
        };
        let mut st = st.clone();
        for i in ws {
            let (to, n, _) = contract::peel(pr, fu.args[i]);
            let p = contract::target(it, &mut st, &c.args[i], n)?;
            self.busy.set(true);
            let ok = contract::smear(it, &mut st, &p, to);
            self.busy.set(false);
            if !ok {
                return None;
            }
        }
        let mut out = vec![];
        for (g, r) in outs.iter() {
            let mut s = st.clone();
            for (k, v) in GH.iter().zip(g) {
                if s.gd(k) != *v {
                    s.set_gd(k, *v);
                }
            }
            if let Some(k) = g.last().filter(|k| **k < 2) {
                s.set_gi("pend", Lin::k(*k));
            } else {
                s.set_gi("pend", Lin::s(fresh(0, 1, "pend")));
            }
            let v = contract::build(it, &mut s, r);
            out.push((s, v));
        }
        Some(out)
    }
    fn smear(&self, it: &mut Interp, st: &mut State, p: &Ptr, clean: bool) {
        self.busy.set(true);
        let t = ptr_types(it, st, p, self.enc.get()).map(|x| x.0);
        if let Some(t) = t {
            contract::smear(it, st, p, t);
            if clean {
                for (q, _) in fields_of(it, st, p) {
                    if let Val::Int(_, t) = st.get(it.pr, &q, None) {
                        st.set(it.pr, &q, Val::Int(Lin::k(0), t));
                    }
                }
            } else {
                for (q, l) in fields_of(it, st, p) {
                    if let Val::Int(_, t) = st.get(it.pr, &q, None) {
                        if t.bits() == 8 {
                            // C19.
                            st.add_ge(&l.neg().addk(47));
                        }
                    }
                }
            }
        } else {
            it.lost("bit writer not resolved");
        }
        self.busy.set(false);
    }
    /// A stored block may be complete.
    fn settle(&self, it: &mut Interp, st: &mut State) {
        if st.gd("b") == DATA && st.eq(&st.gi("rem"), &Lin::k(0)) {
            let l = st.gi("len");
            let empty = st.konst(&l) == Some(0) && st.gd("fin") == 0;
            self.complete(it, st);
            if self.on("C08") {
                st.set_gd("last", empty as i128);
            }
        }
    }
    fn complete(&self, _it: &mut Interp, st: &mut State) {
        st.set_gd("b", BETWEEN);
        if st.gd("fin") == 1 {
            st.set_gd("done", 1);
        }
        st.set_gd("fin", 0);
        st.set_gd("last", 0);
        st.set_gd("annl", 0);
        st.set_gd("annd", 0);
        st.set_gd("annh", 0);
        st.set_gd("lit", 0);
        st.set_gd("fid", 0);
        st.set_gd("did", 0);
        st.set_gi("len", Lin::k(0));
        st.set_gi("rem", Lin::k(0));
    }
    /// n bits with value v are written.
    fn bits(&self, it: &mut Interp, mut st: State, v: &Lin, n: &Lin) -> Vec<State> {
        self.settle(it, &mut st);
        st.set_gi("pend", Lin::k(1));
        match st.gd("b") {
            BETWEEN => {
                self.seen(it, "C10", "block header");
                if st.konst(n) != Some(3) {
                    self.bad(it, "C10", "something other than a 3-bit block header follows a block");
                    return vec![st];
                }
                if st.gd("done") == 1 {
                    it.detail(&st, &[]);
                    self.bad(it, "C10", "a block follows the final block");
                }
                let mut out = vec![];
                for k in 0..8 {
                    let mut s = st.clone();
                    if !it.assume_eq(&mut s, &v.addk(-k)) {
                        continue;
                    }
                    if k >= 6 {
                        self.bad(it, "C10", "a block header has the reserved block type");
                    }
                    if k & 1 == 1 && s.gd("mayfin") == 0 {
                        self.bad(it, "C10 C08", "a block is marked final by a call that does not finish the stream");
                    }
                    s.set_gd("fin", k & 1);
                    s.set_gd("last", 0);
                    s.set_gd("b", match k >> 1 {
                        0 => STORED,
                        1 => FIXED,
                        _ => DESC,
                    });
                    out.push(s);
                }
                return out;
            }
            b @ (FIXED | DESC | DYN) => {
                let eob = self.symbol(it, &mut st, v, n, b);
                if eob {
                    self.seen(it, "C10", "end of a block");
                    self.complete(it, &mut st);
                }
            }
            STORED => self.bad(it, "C10 C18", "a stored block header is not padded to a byte boundary"),
            b @ LEN0..=8 => {
                if st.konst(n) == Some(16) && (b == LEN0 || b == LEN0 + 2) {
                    let low = v.clone();
                    self.length(it, &mut st, &low, b);
                } else {
                    self.bad(it, "C10 C18", "the length of a stored block is not written as two bytes");
                }
            }
            _ => self.bad(it, "C10 C18", "a stored block is followed by less than the announced data"),
        }
        vec![st]
    }
    /// LEN (at LEN0) or NLEN of a stored block.
    fn length(&self, it: &mut Interp, st: &mut State, v: &Lin, b: i128) {
        if b == LEN0 {
            self.seen(it, "C18", "length of a stored block");
            let mut v = v.clone();
            if let (true, Some(Def::Mod(x, m))) = (true, st.norm(&v).as_sym().and_then(def_of).as_deref()) {
                if *m >= 16 {
                    v = x.clone();
                }
            }
            if !(st.ge(&v) && st.ge(&v.neg().addk(65535))) {
                self.bad(it, "C10 C18", "the announced length of a stored block may not fit its field");
            }
            st.set_gi("len", v);
            st.set_gd("b", LEN0 + 2);
        } else {
            self.seen(it, "C18", "complement of the length of a stored block");
            let want = st.gi("len").neg().addk(65535);
            let l = st.norm(v);
            let ok = st.eq(&l, &want)
                || matches!(l.as_sym().and_then(def_of).as_deref(), Some(Def::Mod(x, m)) if *m >= 16 && self.congruent(st, x, &want));
            if !ok {
                self.bad(it, "C18", "NLEN is not the complement of LEN");
            }
            let l = st.gi("len");
            st.set_gi("rem", l);
            st.set_gd("b", DATA);
        }
    }
    /// Equal modulo 2^16.
    fn congruent(&self, st: &State, x: &Lin, y: &Lin) -> bool {
        let d = st.norm(&x.sub(y));
        d.is_k().map_or(false, |k| k & 0xffff == 0)
    }
    fn align(&self, it: &mut Interp, st: &mut State) {
        self.settle(it, st);
        st.set_gi("pend", Lin::k(0));
        match st.gd("b") {
            BETWEEN => {}
            STORED => st.set_gd("b", LEN0),
            LEN0..=DATA => {}
            _ => self.bad(it, "C10", "padding is inserted in the middle of a block"),
        }
    }
    /// Bytes are written through the bit writer.
    fn bytes(&self, it: &mut Interp, mut st: State, segs: &[Seg], n: &Lin) -> Vec<State> {
        self.settle(it, &mut st);
        if st.eq(n, &Lin::k(0)) {
            return vec![st];
        }
        match st.gd("b") {
            BETWEEN => {
                self.bad(it, "C10", "bytes are written between blocks");
                return vec![st];
            }
            STORED => {
                self.bad(it, "C10 C18", "the length of a stored block does not start at a byte boundary");
                return vec![st];
            }
            FIXED | DESC | DYN => {
                self.bad(it, "C10", "bytes are written in the middle of a compressed block");
                return vec![st];
            }
            _ => {}
        }
        let mut at = Lin::k(0);
        for g in segs {
            let end = st.norm(&g.end);
            let base = st.konst(&at);
            let m = st.konst(&end.sub(&at));
            let mut used = 0;
            while st.gd("b") >= LEN0 && st.gd("b") < DATA {
                let (base, m) = match (base, m) {
                    (Some(b), Some(m)) => (b, m),
                    _ => {
                        self.bad(it, "C10 C18", "the length of a stored block is missing");
                        st.set_gd("b", BETWEEN);
                        return vec![st];
                    }
                };
                if used >= m {
                    break;
                }
                let e = super::container::elem(&g.kind, base, base + used);
                used += 1;
                let b = st.gd("b");
                let e = match e {
                    Some(e) => e,
                    None => {
                        self.bad(it, "C10 C18", "the length of a stored block is unknown");
                        st.set_gd("b", b + 1);
                        continue;
                    }
                };
                match b {
                    LEN0 | 7 => {
                        st.set_gi("low", e);
                        st.set_gd("b", b + 1);
                    }
                    _ => {
                        let low = st.gi("low");
                        let v = match (low_of(&st, &low), st.konst(&low), st.konst(&e)) {
                            (_, Some(a), Some(b)) => Some(Lin::k(a + 256 * b)),
                            (Some(l), _, _) => {
                                if is_byte(&st, &e, &l, 1) {
                                    Some(l)
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        match v {
                            Some(v) => self.length(it, &mut st, &v, b - 1),
                            None => {
                                if b == 6 {
                                    self.seen(it, "C18", "length of a stored block");
                                    self.bad(it, "C10 C18", "the two bytes of the length of a stored block do not belong together");
                                    st.set_gi("len", Lin::s(fresh(0, 65535, "len")));
                                } else {
                                    self.seen(it, "C18", "complement of the length of a stored block");
                                    self.bad(it, "C18", "NLEN is not the complement of LEN");
                                    let l = st.gi("len");
                                    st.set_gi("rem", l);
                                }
                                st.set_gd("b", b + 1);
                            }
                        }
                        st.set_gi("low", Lin::k(0));
                    }
                }
            }
            let left = end.sub(&at).addk(-used);
            if !st.eq(&left, &Lin::k(0)) {
                self.settle(it, &mut st);
                if st.gd("b") != DATA {
                    self.bad(it, "C10 C18", "a stored block has more data than announced");
                } else {
                    self.seen(it, "C18 C10", "data of a stored block");
                    let rem = st.gi("rem").sub(&left);
                    if !st.ge(&rem) {
                        self.bad(it, "C10 C18", "a stored block has more data than announced");
                    }
                    st.set_gi("rem", rem);
                }
            }
            at = end;
        }
        self.settle(it, &mut st);
        vec![st]
    }
    /// A bit group inside a compressed block. Is it the end-of-block code?
    fn symbol(&self, it: &mut Interp, st: &mut State, v: &Lin, n: &Lin, b: i128) -> bool {
        let d = st.norm(v).as_sym().and_then(def_of);
        let mut eob = false;
        let mut code = None;
        if let Some(Def::Load(id, e, p)) = d.as_deref() {
            if p.is_empty() {
                code = Some((*id, e.clone()));
                let lit = codes_of(*id).map_or(true, |_| true);
                eob = lit && st.konst(e) == Some(256);
            }
        }
        if b != DESC && st.konst(v).is_some() && st.konst(n).map_or(false, |n| n > 0) {
            self.bad(it, "C10", "fixed bits are written in the middle of a compressed block");
        }
        if !self.on("C17") {
            return eob;
        }
        if b == DESC {
            let mut found = None;
            for l in [v, n] {
                loads(st, l, 0, &mut |id, _| {
                    if let ArrId::App(f, a) = arr_get(id) {
                        if &*f == "described" {
                            found = Some(a);
                        }
                    }
                });
            }
            if let Some(a) = found {
                st.set_gd("annl", a[0] as i128 + 1);
                st.set_gd("annd", a[1] as i128 + 1);
                if code.is_none() {
                    return eob;
                }
            }
            if let (Some((h, _)), Some(3)) = (&code, st.konst(n)) {
                st.set_gd("annh", *h as i128 + 1);
                return eob;
            }
        }
        if let Some((id, e)) = code {
            match (codes_of(id), arr_get(id)) {
                (Some(l), _) => {
                    // Made from the lengths l.
                    let known = fixed_kind(l);
                    let nd = st.norm(n);
                    let same = match nd.as_sym().and_then(def_of).as_deref() {
                        Some(Def::Load(j, f, _)) => *j == l && st.eq(f, &e),
                        _ => match (arr_get(l), st.konst(&e)) {
                            (ArrId::Const(t), Some(k)) => nd.is_k().map_or(false, |c| t.get(k as usize) == Some(&c)),
                            (ArrId::Const(t), None) => nd.is_k().map_or(false, |c| t.iter().all(|x| *x == c)),
                            _ => false,
                        },
                    };
                    let ann = b != FIXED && (st.gd("annl") == l as i128 + 1 || st.gd("annd") == l as i128 + 1);
                    if std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                        eprintln!("{:?} code {} l {} n {} annl {} annd {} annh {} b {} def {:?}", it.site().2, id, l, show(&st.norm(n)), st.gd("annl"), st.gd("annd"), st.gd("annh"), b, nd_def(st, n));
                    }
                    let h = st.gd("annh");
                    let desc = b == DESC && !ann && (h == 0 || h == l as i128 + 1);
                    if desc && h == 0 {
                        st.set_gd("annh", l as i128 + 1);
                    }
                    self.seen(it, "C17", if desc { "code of a code length" } else { "code of a symbol" });
                    if !same {
                        self.bad(it, "C17", "a code is written with a length other than its own");
                    }
                    if b == FIXED && known == 0 {
                        self.bad(it, "C17", "a fixed block is written with codes that are not the fixed ones");
                    }
                    if b != FIXED && !ann && !desc {
                        self.bad(it, "C17", "a dynamic block is written with codes made from other lengths than those described");
                    }
                    if ann {
                        let (lit, dist) = (st.gd("annl") == l as i128 + 1, st.gd("annd") == l as i128 + 1);
                        let of = |g: &'static str| matches!(arr_get(l), ArrId::App(n, a) if &*n == "lens" && st.gd(g) == a[0] as i128 + 1);
                        if std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                            eprintln!("made {:?} fid {} did {} {:?}", arr_get(l), st.gd("fid"), st.gd("did"), it.stack.iter().map(|x|it.func(x.0).name.clone()+":"+&x.1.to_string()).collect::<Vec<_>>());
                        }
                        if !(lit && of("fid") || dist && of("did")) {
                            self.bad(it, "C17", "a dynamic block is written with codes that are not made from the statistics of its symbols");
                        }
                    }
                    if !desc {
                        let dist = if b == FIXED { known == 2 } else { st.gd("annd") == l as i128 + 1 };
                        if dist && st.gd("lit") == 0 {
                            self.bad(it, "C17", "a distance is written without a length before it");
                        }
                        st.set_gd("lit", !dist as i128);
                    }
                    if b == DESC && !desc {
                        st.set_gd("b", DYN);
                    }
                }
                (None, ArrId::Tok(_)) if b != DESC => {
                    self.seen(it, "C17", "code of a symbol");
                    self.bad(it, "C17", "a symbol is written with codes that do not come from the lengths of its block");
                }
                _ => {}
            }
        }
        eob
    }
    /// The compression function proper: (consumed, status, position).
    fn lz77(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if !self.on("C08") && !self.on("C17") {
            return None;
        }
        let pr = it.pr;
        if let Some(r) = by_mode(it, c, st, &mut |it, c, s| self.lz77(it, c, s)) {
            return r;
        }
        let mut st = st.clone();
        self.settle(it, &mut st);
        let mut sink = None;
        for (i, t) in it.func(c.f).args.iter().enumerate() {
            if let TyKind::Ref { to, mutable: true } = pr.ty(*t).kind {
                if is_sink(pr, to) {
                    sink = contract::target(it, &mut st, &c.args[i], 1);
                }
            }
        }
        if self.on("C17") {
            match &sink {
                Some(p) => self.clean(it, &mut st, p),
                None => it.lost("symbol buffer not resolved"),
            }
        }
        let mut out = vec![];
        let flush = (0..c.args.len()).find(|i| plain_enum(pr, it.func(c.f).args[*i])).and_then(|i| c.args[i].lin()).and_then(|l| st.konst(&l));
        st.set_gd("drained", 0);
        let before = st.clone();
        let modes = contract::modes(it, c.f, c.args, &st)?;
        for (s, _) in it.havoc_call(c.f, c.args, st) {
            for m in modes.iter() {
                let mut s = s.clone();
                contract::settle(it, &mut s, c.args, m, &before);
                let v = contract::build(it, &mut s, &m.ret);
                let mut block = true;
                if let Val::Agg(f) = &v {
                    for x in f.iter() {
                        if let Val::Disc(l) = x {
                            block = s.konst(l) != Some(0);
                            if s.konst(l) == Some(2) && matches!(flush, Some(1 | 5)) {
                                s.set_gd("drained", 1);
                            }
                        }
                    }
                }
                if self.on("C17") {
                    s.set_gd("lz", block as i128);
                    if let Some(p) = &sink {
                        for (g, n) in [("fid", 286), ("did", 30)] {
                            let id = freqs(it, &mut s, p, n).and_then(|a| ident(&a.segs)).map_or(0, |i| i as i128 + 1);
                            if id == 0 && std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                                eprintln!("noid {:?} {:?} {}", p, freqs(it, &mut s, p, n).map(|a| a.segs.clone()), n);
                            }
                            s.set_gd(g, id);
                        }
                    }
                }
                out.push((s, v));
            }
        }
        Some(out)
    }
    /// After a block, the symbols and statistics start from scratch.
    fn clean(&self, it: &mut Interp, st: &mut State, p: &Ptr) {
        if st.gd("lz") != 1 {
            return;
        }
        it.obligation("start of the statistics of a block");
        if std::env::var("VDETAIL").is_ok() && it.mute == 0 {
            for n in [286, 30] {
                eprintln!("clean {:?}", freqs(it, st, p, n).map(|a| a.segs.clone()));
            }
        }
        if !is_clean(it, st, p) {
            it.violation("the statistics of a block do not start with one end-of-block and nothing else");
        }
        st.set_gd("lz", 0);
    }
    /// Functions that make codes from lengths, or describe lengths.
    fn tables(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let pr = it.pr;
        let fu = it.func(c.f);
        let slice = |t: TyId, bits: u32| match &pr.ty(t).kind {
            TyKind::Ref { to, mutable } => match &pr.ty(*to).kind {
                TyKind::Slice(e) | TyKind::Array { elem: e, .. } if pr.ity(*e) == Some(ITy::new(bits, false)) => Some(*mutable),
                _ => None,
            },
            _ => None,
        };
        if fu.args.len() == 2 && slice(fu.args[0], 16) == Some(true) && slice(fu.args[1], 8) == Some(false) {
            let mut st = st.clone();
            let (p, s, e) = parts(it, &mut st, &c.args[0])?;
            let (q, u, w) = parts(it, &mut st, &c.args[1])?;
            let lens = it.segs_of(&mut st, &q, &u, &w);
            if std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                eprintln!("codes {:?} {} {}", lens, show(&st.norm(&u)), show(&st.norm(&w)));
            }
            let id = ident(&lens)?;
            let n = e.sub(&s);
            let seg = Seg { end: n.clone(), kind: Kind::Src(arr_id(ArrId::App("codes".into(), vec![id])), Lin::k(0)) };
            let a = arr_of(it, &mut st, &p)?;
            let mut a = (*a).clone();
            let cons = st.cons.clone();
            arr_splice(&cons, &mut a, &s, &n, &[seg]);
            st.set(pr, &p, Val::Arr(Rc::new(a)));
            return Some(vec![(st, unit())]);
        }
        // Lengths from statistics.
        let at = |w: &dyn Fn(TyId) -> bool| {
            let v: Vec<usize> = (0..fu.args.len()).filter(|i| w(fu.args[*i])).collect();
            if v.len() == 1 { Some(v[0]) } else { None }
        };
        if let (Some(i), Some(j)) = (at(&|t| slice(t, 16) == Some(false)), at(&|t| slice(t, 8) == Some(true))) {
            let mut st = st.clone();
            let (p, s, e) = parts(it, &mut st, &c.args[i])?;
            let (q, u, w) = parts(it, &mut st, &c.args[j])?;
            let fr = it.segs_of(&mut st, &p, &s, &e);
            let id = match ident(&fr) {
                Some(i) => i,
                None => arr_tok(),
            };
            let n = w.sub(&u);
            let seg = Seg { end: n.clone(), kind: Kind::Src(arr_id(ArrId::App("lens".into(), vec![id])), Lin::k(0)) };
            let mut r = it.havoc_call(c.f, c.args, st);
            for (s, _) in &mut r {
                let a = arr_of(it, s, &q)?;
                let mut a = (*a).clone();
                let cons = s.cons.clone();
                arr_splice(&cons, &mut a, &u, &n, &[seg.clone()]);
                s.set(pr, &q, Val::Arr(Rc::new(a)));
            }
            return Some(r);
        }
        // (lengths, &mut Vec<description>, &mut [u16; 19])
        if fu.args.len() == 3 && fu.path.ends_with("encode_lengths_m") {
            let mut st = st.clone();
            let mut ids = vec![];
            collect(&c.args[0], &mut |p, s, e| {
                let segs = it.segs_of(&mut st, &p, s, e);
                ids.push(ident(&segs));
            });
            let ids: Option<Vec<u32>> = ids.into_iter().collect();
            let p = contract::target_of(it, &mut st, &c.args[1])?;
            let mut r = it.havoc_call(c.f, c.args, st);
            for (s, _) in &mut r {
                if let (Some(ids), Val::Arr(a)) = (&ids, s.get(pr, &p, None)) {
                    if ids.len() == 2 {
                        let mut a = (*a).clone();
                        let n = a.len.clone();
                        s.add_ge(&n.addk(-1));
                        a.segs = vec![Seg { end: n, kind: Kind::Src(arr_id(ArrId::App("described".into(), ids.clone())), Lin::k(0)) }];
                        s.set(pr, &p, Val::Arr(Rc::new(a)));
                    }
                }
            }
            return Some(r);
        }
        None
    }
    /// Raw bytes go straight to the output.
    pub fn raw_bytes(&self, it: &mut Interp, st: &mut State) {
        self.settle(it, st);
        if st.gd("b") != BETWEEN {
            self.bad(it, "C10", "bytes are inserted in the middle of a block");
        }
    }
    pub fn block_start(&self, st: &mut State, op: &str) {
        let f = matches!(op, "finish" | "reset" | "reset_with_builder" | "drop_encoder") || self.one();
        st.set_gd("mayfin", f as i128);
    }
    pub fn block_end(&self, it: &mut Interp, st: &mut State, op: &str, v: &Val) {
        self.settle(it, st);
        let vs = variants_of(v);
        if self.on("C17") {
            self.end_clean(it, st, op, &vs);
        }
        let done = st.gd("done") == 1;
        if st.gd("b") != BETWEEN && !matches!(op, "new" | "from_builder") {
            self.must(it, "C10", "end of a call", false, "a call returns in the middle of a block");
            st.set_gd("b", BETWEEN);
        }
        match op {
            "new" | "from_builder" => {}
            "finish" | "reset" | "reset_with_builder" => {
                if vs.contains(&0) {
                    self.must(it, "C10", "successful finish or reset", done, "a stream ends without a complete final block");
                    let left = st.konst(&st.gi("pend")) != Some(0);
                    self.must(it, "C10", "successful finish or reset", !left, "a stream ends with bits that have not been put out");
                    if op != "finish" {
                        self.fresh(st);
                    }
                }
            }
            "flush" if vs.contains(&0) && !done => {
                let what = "successful flush";
                self.must(it, "C08", what, st.gd("last") == 1, "a flush does not end with an empty stored block that is not final");
                self.must(it, "C08", what, st.gd("drained") == 1, "a flush leaves input that is not in a complete block");
                let ok = st.eq(&st.gi("D"), &st.gi("L"));
                self.must(it, "C08", what, ok, "a flush leaves output that the writer has not accepted");
                self.must(it, "C08", what, st.konst(&st.gi("pend")) == Some(0), "a flush leaves bits behind");
            }
            _ if self.one() => {
                let left = st.konst(&st.gi("pend")) != Some(0);
                self.must(it, "C10", "end of a one-shot stream", !left, "a stream ends with bits that have not been put out");
                self.must(it, "C10", "end of a one-shot stream", done, "a stream ends without a complete final block");
            }
            _ => {}
        }
        if st.gd("mayfin") != 0 {
            st.set_gd("mayfin", 0);
        }
    }
    fn end_clean(&self, it: &mut Interp, st: &mut State, op: &str, vs: &[u32]) {
        if self.one() || matches!(op, "finish" | "drop_encoder" | "drop_panicking") {
            return;
        }
        if op == "new" || op.starts_with("reset") && vs == [0] {
            st.set_gd("lz", 1);
        }
        if st.gd("lz") != 1 {
            return;
        }
        // The symbol buffer of the encoder.
        fn find(it: &mut Interp, st: &mut State, p: Ptr, t: TyId, d: u32) -> Option<Ptr> {
            if is_sink(it.pr, t) {
                return Some(p);
            }
            if d > 3 {
                return None;
            }
            for (i, f) in contract::fields(it.pr, t).into_iter().enumerate() {
                let mut q = p.push(PE::F(i as u32));
                let mut f = f;
                if it.pr.is_box(f) {
                    if let Val::Ref(r) = st.get(it.pr, &q, Some(f)) {
                        q = r;
                        f = it.pr.elem_of(f);
                    }
                }
                if let Some(x) = find(it, st, q, f, d + 1) {
                    return Some(x);
                }
            }
            None
        }
        if let Some(t) = self.enc.get() {
            match find(it, st, enc_ptr(), t, 0) {
                Some(p) => self.clean(it, st, &p),
                None => it.lost("symbol buffer of the encoder not found"),
            }
        }
    }
    fn fresh(&self, st: &mut State) {
        for g in ["b", "fin", "done", "last", "annl", "annd", "annh", "drained", "lit", "lz", "fid", "did"] {
            if st.gd(g) != 0 {
                st.set_gd(g, 0);
            }
        }
        st.set_gi("pend", Lin::k(0));
    }
}

/// Is it an operation of the bit writer?
fn method(pr: &Prog, fu: &Func) -> Option<&'static str> {
    let t = *fu.args.get(0)?;
    let to = match &pr.ty(t).kind {
        TyKind::Ref { to, .. } => *to,
        _ => return None,
    };
    if !contract::is_bitw(pr, to) {
        return None;
    }
    let n = fu.path.rsplit("::").next()?;
    if fu.path.contains("std::io::Write") || fu.name.contains("std::io::Write") {
        return match n {
            "write" => Some("write"),
            "write_all" => Some("write_all"),
            "flush" => Some("flush"),
            _ => None,
        };
    }
    match n {
        "write_bits" => Some("bits"),
        "flush_raw" => Some("align"),
        _ => None,
    }
}

/// The scalars of a bit writer.
fn fields_of(it: &mut Interp, st: &mut State, p: &Ptr) -> Vec<(Ptr, Lin)> {
    let mut o = vec![];
    for i in 0..8 {
        let q = p.push(PE::F(i));
        if let Some(x) = match st.get(it.pr, p, None) {
            Val::Agg(a) => a.get(i as usize).cloned(),
            _ => None,
        } {
            let x = if let Val::Top(_) = x { st.get(it.pr, &q, None) } else { x };
            if let Val::Int(l, _) = x {
                o.push((q, l));
            }
        }
    }
    o
}

/// Does a structure hold anything that decides what to do?
fn flags(pr: &Prog, t: TyId) -> bool {
    match &pr.ty(t).kind {
        TyKind::Int { .. } => false,
        TyKind::Tuple(v) => v.iter().any(|t| flags(pr, *t)),
        TyKind::Array { elem, .. } => flags(pr, *elem),
        _ if pr.is_vec(t) => false,
        TyKind::Adt { kind: AdtKind::Struct, variants, .. } => variants[0].fields.iter().any(|f| flags(pr, f.1)),
        _ => true,
    }
}

/// Only works on the symbol buffer.
pub fn clears(pr: &Prog, fu: &Func) -> bool {
    is_sink(pr, fu.ret) || fu.args.len() == 1 && matches!(pr.ty(fu.args[0]).kind, TyKind::Ref { to, .. } if is_sink(pr, to))
}
fn plain_enum(pr: &Prog, t: TyId) -> bool {
    matches!(&pr.ty(t).kind, TyKind::Adt { kind: AdtKind::Enum, variants, .. } if variants.len() > 2 && variants.iter().all(|v| v.fields.is_empty()))
}
/// Turns input into symbols, as told by a flush mode, and tells its status.
pub fn compresses(pr: &Prog, fu: &Func) -> bool {
    let ret = match &pr.ty(fu.ret).kind {
        TyKind::Tuple(v) => v.iter().any(|t| plain_enum(pr, *t)),
        _ => false,
    };
    ret && fu.args.iter().any(|t| plain_enum(pr, *t))
        && fu.args.iter().any(|t| matches!(pr.ty(*t).kind, TyKind::Ref { to, mutable: true } if is_sink(pr, to)))
}
/// Treat each value of an unknown mode argument separately.
pub fn by_mode(it: &mut Interp, c: &CallCtx, st: &State, f: &mut dyn FnMut(&mut Interp, &CallCtx, &State) -> Option<Vec<(State, Val)>>) -> Option<Option<Vec<(State, Val)>>> {
    let pr = it.pr;
    for (i, t) in it.func(c.f).args.iter().enumerate() {
        if !plain_enum(pr, *t) {
            continue;
        }
        if let (Val::Disc(l), TyKind::Adt { variants, .. }) = (&c.args[i], &pr.ty(*t).kind) {
            if st.konst(l).is_none() {
                let mut out = vec![];
                for v in variants.iter() {
                    let mut s = st.clone();
                    if it.assume_eq(&mut s, &l.addk(-v.discr)) {
                        let mut a = c.args.to_vec();
                        a[i] = Val::Disc(Lin::k(v.discr));
                        let c2 = CallCtx { f: c.f, args: &a, name: c.name, path: c.path };
                        match f(it, &c2, &s) {
                            Some(r) => out.extend(r),
                            None => return Some(None),
                        }
                    }
                }
                return Some(Some(out));
            }
        }
    }
    None
}
/// The buffer of symbols with its statistics.
pub fn is_sink(pr: &Prog, t: TyId) -> bool {
    let f = contract::fields(pr, t);
    let arr = |n: u64| f.iter().any(|t| matches!(pr.ty(*t).kind, TyKind::Array { elem, len } if len as u64 == n && pr.ity(elem) == Some(ITy::new(16, false))));
    arr(286) && arr(30) && f.iter().any(|t| pr.is_vec(*t))
}
/// Statistics with n entries.
fn freqs(it: &mut Interp, st: &mut State, p: &Ptr, n: i128) -> Option<Rc<Arr>> {
    let ty = (0..it.pr.p.types.len() as TyId).find(|t| is_sink(it.pr, *t))?;
    for (i, f) in contract::fields(it.pr, ty).into_iter().enumerate() {
        let q = p.push(PE::F(i as u32));
        if let Val::Arr(a) = st.get(it.pr, &q, Some(f)) {
            if st.konst(&a.len) == Some(n) {
                st.set(it.pr, &q, Val::Arr(a.clone()));
                return Some(a);
            }
        }
    }
    None
}
fn is_clean(it: &mut Interp, st: &mut State, p: &Ptr) -> bool {
    for n in [286, 30] {
        let a = match freqs(it, st, p, n) {
            Some(a) => a,
            None => return false,
        };
        let mut at = 0;
        for g in a.segs.iter() {
            let end = match st.konst(&g.end) {
                Some(e) => e,
                None => return false,
            };
            let start = at;
            while at < end {
                let want = (n == 286 && at == 256) as i128;
                let ok = match &g.kind {
                    Kind::Fill(v) => v.lin().and_then(|l| st.konst(&l)) == Some(want),
                    Kind::Elems(v) => v.get((at - start) as usize).and_then(|v| v.lin()).and_then(|l| st.konst(&l)) == Some(want),
                    Kind::Aff(a, b) => a * at + b == want,
                    _ => false,
                };
                if !ok {
                    return false;
                }
                at += 1;
            }
        }
    }
    // No symbols.
    (0..4).any(|i| match arr_of(it, st, &p.push(PE::F(i))) {
        Some(a) => st.konst(&a.len) == Some(0),
        None => false,
    })
}
fn nd_def(st: &State, n: &Lin) -> Option<Def> {
    st.norm(n).as_sym().and_then(def_of).map(|d| (*d).clone())
}
pub fn ident(segs: &[Seg]) -> Option<u32> {
    match segs {
        [Seg { kind: Kind::Src(id, off), .. }] if off.is_k() == Some(0) => Some(*id),
        [Seg { kind: Kind::Fill(Val::Int(l, _)), end }] => {
            let (k, n) = (l.is_k()?, end.is_k()?);
            Some(arr_id(ArrId::Const(vec![k; n as usize])))
        }
        _ => None,
    }
}

/// Slices and slice iterators inside a value, in order.
fn collect(v: &Val, f: &mut dyn FnMut(&Ptr, &Lin, &Lin)) {
    match v {
        Val::It(p, s, e) | Val::Slice(p, s, e) => f(p, s, e),
        Val::Agg(a) => a.iter().for_each(|x| collect(x, f)),
        Val::Enum(m) => m.values().for_each(|a| a.iter().for_each(|x| collect(x, f))),
        _ => {}
    }
}

/// 1: the fixed literal/length code lengths, 2: the fixed distance ones.
pub fn fixed_kind(id: u32) -> u32 {
    if let ArrId::Const(t) = arr_get(id) {
        let lit: Vec<i128> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
        if t == lit {
            return 1;
        }
        if t.len() >= 30 && t.iter().all(|x| *x == 5) {
            return 2;
        }
    }
    0
}
