//! What surrounds the compressed data: header (C02), trailer (C03) and the
//! checksums that go into it (C04).
//!
//! Ghosts: hq/hp: header done / number of its bytes so far, tp/tq: the same
//! for the trailer, hl: length of the gzip header of the current stream,
//! taken: number of bytes of the stream that calls have reported as consumed.
use super::api::*;
use super::delivery::*;
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;
use std::rc::Rc;
use vir::*;

pub const ONE: [&str; 6] = [
    "one_shot_raw",
    "one_shot_raw_default",
    "one_shot_zlib",
    "one_shot_zlib_default",
    "one_shot_gzip",
    "one_shot_gzip_default",
];

fn hdr(n: &str) -> u32 {
    arr_id(ArrId::App(format!("hdr-{}", n).into(), vec![]))
}

/// Rename abstract arrays everywhere.
fn rename(st: &mut State, m: &[(u32, u32)]) {
    fn kind(k: &Kind, m: &[(u32, u32)]) -> Kind {
        match k {
            Kind::Src(i, o) => {
                let j = m.iter().find(|x| x.0 == *i).map_or(*i, |x| x.1);
                Kind::Src(j, o.clone())
            }
            Kind::Fill(v) => Kind::Fill(val(v, m)),
            Kind::Elems(v) => Kind::Elems(Rc::new(v.iter().map(|x| val(x, m)).collect())),
            k => k.clone(),
        }
    }
    fn val(v: &Val, m: &[(u32, u32)]) -> Val {
        match v {
            Val::Agg(f) => Val::Agg(Rc::new(f.iter().map(|x| val(x, m)).collect())),
            Val::Enum(e) => Val::Enum(Rc::new(
                e.iter().map(|(k, f)| (*k, Rc::new(f.iter().map(|x| val(x, m)).collect()))).collect(),
            )),
            Val::Arr(a) => {
                let mut b = (**a).clone();
                for s in &mut b.segs {
                    s.kind = kind(&s.kind, m);
                }
                Val::Arr(Rc::new(b))
            }
            v => v.clone(),
        }
    }
    let h: Vec<(u32, Val)> = st.heap.iter().map(|(k, v)| (*k, val(v, m))).collect();
    for (k, v) in h {
        Rc::make_mut(&mut st.heap).insert(k, v);
    }
}

enum Fmt {
    Raw,
    Zlib,
    Gz,
}

impl Delivery {
    pub fn one(&self) -> bool {
        self.part.starts_with("one_shot")
    }
    fn fmt(&self) -> Fmt {
        if self.part.contains("zlib") {
            Fmt::Zlib
        } else if self.part.contains("gz") {
            Fmt::Gz
        } else {
            Fmt::Raw
        }
    }
    pub fn container_call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if self.one() && !self.copying.get() && c.path.contains("std::io::Write for std::vec::Vec<u8, A>>::write") {
            // The Vec that stands in for the wrapped writer.
            let mut st = st.clone();
            let to = match deref_ref(it, &mut st, &c.args[0]) {
                Some(p) => p,
                None => return None,
            };
            if is_out(it, &st, &to, self.enc.get()) {
                return None;
            }
            let (p, s, e) = parts(it, &mut st, &c.args[1])?;
            let from = is_out(it, &st, &p, self.enc.get());
            let d = st.gi("D");
            if from {
                let ok = st.eq(&s, &d);
                self.must(it, "C01", "offer to the writer", ok, "the writer is offered output that does not start at the first undelivered byte");
                st.set_gi("D", d.add(&e.sub(&s)));
            } else {
                let segs = it.segs_of(&mut st, &p, &s, &e);
                let n = st.norm(&e.sub(&s));
                self.direct_append(it, &mut st, &segs, &n);
            }
            self.copying.set(true);
            let r = call(it, c, &st);
            self.copying.set(false);
            return r;
        }
        if self.on("C03") && (c.path.contains("std::io::Error") && matches!(c.path.rsplit("::").next(), Some("from" | "new"))) {
            // The encoder gives up; this excuses a missing trailer when dropped.
            if let (Some(Val::Disc(l)), Some(k)) = (c.args.get(0), err_kind(it.pr, "Interrupted")) {
                if st.konst(l) != Some(k) {
                    let mut st = st.clone();
                    st.set_gd("terr", 1);
                    return call(it, c, &st);
                }
            }
        }
        if self.on("C02") {
            match c.path {
                "gzip_header::GzBuilder::new" => return Some(vec![(st.clone(), Val::Tok(Lin::k(-7)))]),
                "gzip_header::GzBuilder::into_header" => {
                    let want = st.gi("want");
                    let good = matches!(&c.args[0], Val::Tok(l) if st.eq(l, &want));
                    let mut st = st.clone();
                    let n = Lin::s(fresh(10, i64::MAX as i128 >> 1, "hdrlen"));
                    if good {
                        st.set_gi(if st.gd("isnew") == 1 { "hl" } else { "hln" }, n.clone());
                    }
                    let next = if st.gd("isnew") == 1 { "cur" } else { "next" };
                    let elem = it.pr.elem_of(it.func(c.f).ret);
                    let kind = Kind::Src(hdr(if good { next } else { "bad" }), Lin::k(0));
                    let v = Val::Arr(Rc::new(Arr { elem, segs: vec![Seg { end: n.clone(), kind }], len: n }));
                    return Some(vec![(st, v)]);
                }
                _ => {}
            }
        }
        None
    }
    /// Append to the Vec that stands in for the writer, not from the buffer.
    pub fn direct(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: &VecEv) {
        let t = ptr_types(it, st, p, None).map(|x| x.0);
        let u8s = t.map_or(false, |t| it.pr.is_vec(t) && it.pr.ity(it.pr.elem_of(t)) == Some(U8));
        if u8s {
            if let VecEv::Append(s, n) = ev {
                self.direct_append(it, st, s, n);
            }
        }
    }
    fn direct_append(&self, it: &mut Interp, st: &mut State, segs: &[Seg], n: &Lin) {
        let ok = st.eq(&st.gi("D"), &st.gi("L"));
        self.must(it, "C01", "direct output", ok, "something is written directly while output is pending");
        self.must(it, "C03", "direct output", ok, "something is written directly while output is pending");
        self.stream(it, st, None, segs, n);
    }
    /// Bits waiting in the bit writer that owns an output buffer.
    fn pending(&self, it: &mut Interp, st: &mut State, p: &Ptr) -> Option<Lin> {
        let par = parent(p);
        let t = ptr_types(it, st, &par, self.enc.get())?.0;
        let i = (0..8).find(|i| it.pr.field_ty(t, 0, *i).and_then(|t| it.pr.ity(t)) == Some(U8))?;
        st.get(it.pr, &par.push(PE::F(i)), None).lin()
    }
    /// Bytes are added to the stream.
    pub fn stream(&self, it: &mut Interp, st: &mut State, out: Option<&Ptr>, segs: &[Seg], n: &Lin) {
        if st.eq(n, &Lin::k(0)) {
            return;
        }
        match self.prop.as_str() {
            "C02" => self.header(it, st, out, segs, n),
            "C03" => self.trailer(it, st, out, segs, n),
            "C10" => self.raw_bytes(it, st),
            _ => {}
        }
    }
    fn header(&self, it: &mut Interp, st: &mut State, out: Option<&Ptr>, segs: &[Seg], n: &Lin) {
        let fmt = self.fmt();
        if let Fmt::Raw = fmt {
            return;
        }
        it.obligation("bytes added to the stream");
        let mut at = Lin::k(0);
        let cur = hdr("cur");
        let mut first = true;
        for g in segs {
            let end = st.norm(&g.end);
            let mut one = 0;
            let k = st.konst(&end.sub(&at));
            loop {
                if st.gd("hq") == 1 {
                    break;
                }
                // Pending bits of something else would come in between.
                if let Some(p) = out {
                    let b = self.pending(it, st, p);
                    if !b.map_or(false, |b| st.eq(&b, &Lin::k(0))) {
                        it.violation("the header is preceded by other bits");
                        st.set_gd("hq", 1);
                        break;
                    }
                }
                let hp = st.gi("hp");
                match fmt {
                    Fmt::Gz => match &g.kind {
                        Kind::Src(i, off) if (*i == cur || self.one() && *i == hdr("next")) && st.eq(&off.add(&at), &hp) => {
                            let e = hp.add(&end.sub(&at));
                            let hl = st.gi(if self.one() { "hln" } else { "hl" });
                            if st.eq(&e, &hl) {
                                st.set_gd("hq", 1);
                                st.set_gi("hp", Lin::k(0));
                            } else if st.ge(&hl.sub(&e)) {
                                st.set_gi("hp", e);
                            } else {
                                it.violation("more than the header is written");
                                st.set_gd("hq", 1);
                            }
                        }
                        _ => {
                            if std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                                eprintln!("header {:?} at {:?} after {:?} id {:?}", g.kind, at, hp, if let Kind::Src(i, _) = g.kind { Some(arr_get(i)) } else { None });
                            }
                            it.violation("something other than the header of the stream comes first");
                            st.set_gd("hq", 1);
                        }
                    },
                    _ => {
                        let base = st.konst(&at).unwrap_or(0);
                        let b = elem(&g.kind, base, base + one);
                        let b = b.and_then(|l| st.konst(&l));
                        let ok = match (st.konst(&hp), b) {
                            (Some(0), Some(b)) => b & 15 == 8 && b >> 4 <= 7,
                            (Some(c), Some(b)) => (c * 256 + b) % 31 == 0 && b & 32 == 0,
                            _ => false,
                        };
                        if !ok {
                            if std::env::var("VDETAIL").is_ok() {
                                eprintln!("header byte {:?} after {:?} in {:?}", b, hp, g.kind);
                            }
                            it.violation("something other than a valid zlib header comes first");
                            st.set_gd("hq", 1);
                        } else if st.konst(&hp) == Some(0) {
                            st.set_gi("hp", Lin::k(b.unwrap()));
                            one += 1;
                            if k.map_or(true, |k| one < k) {
                                first = false;
                                continue;
                            }
                        } else {
                            st.set_gd("hq", 1);
                            st.set_gi("hp", Lin::k(0));
                            one += 1;
                        }
                    }
                }
                first = false;
                break;
            }
            if st.gd("hq") == 1 && first {
                // Compressed data; another header is not.
                let again = match (&g.kind, &fmt) {
                    (Kind::Src(i, _), _) => matches!(arr_get(*i), ArrId::App(n, _) if n.starts_with("hdr-")),
                    (k, Fmt::Zlib) => {
                        let b = st.konst(&at).and_then(|i| elem(k, i, i));
                        b.map_or(false, |b| st.konst(&b) == Some(0x78))
                    }
                    _ => false,
                };
                if again {
                    it.violation("a second header is written");
                }
            }
            at = end;
        }
        let _ = n;
    }
    fn trailer(&self, it: &mut Interp, st: &mut State, out: Option<&Ptr>, segs: &[Seg], n: &Lin) {
        let (fmt, size) = match self.fmt() {
            Fmt::Raw => (0, 0),
            Fmt::Zlib => (1, 4),
            Fmt::Gz => (2, 8),
        };
        it.obligation("bytes added to the stream");
        let mut at = Lin::k(0);
        for g in segs {
            let end = st.norm(&g.end);
            let m = st.konst(&end.sub(&at));
            let base = st.konst(&at);
            // A piece of a trailer has only a few bytes, all of a checksum.
            let mut bytes = vec![];
            if let (Some(m), Some(b)) = (m, base) {
                if m <= 16 {
                    for i in 0..m {
                        bytes.push(elem(&g.kind, b, b + i));
                    }
                }
            }
            let piece = bytes.iter().any(|b| b.as_ref().map_or(false, |l| sum_byte(st, l).is_some()));
            let tp = st.gd("tp");
            if !piece {
                if tp > 0 {
                    it.violation(if tp == size {
                        "something is written after the trailer"
                    } else {
                        "something is written in the middle of the trailer"
                    });
                    if std::env::var("VDETAIL").is_ok() {
                        it.detail(st, &[("n", n)]);
                    }
                }
                at = end;
                continue;
            }
            if let Some(p) = out {
                let b = self.pending(it, st, p);
                if !b.map_or(false, |b| st.eq(&b, &Lin::k(0))) {
                    it.violation("the trailer is written while bits of the data are pending");
                }
            }
            if !self.one() && st.gd("fin") == 0 {
                it.violation("a trailer is written by a call that does not finish the stream");
            }
            let taken = st.gi("total");
            for b in bytes {
                let tp = st.gd("tp");
                if tp >= size {
                    it.violation("more than the trailer is written");
                    break;
                }
                let (f, k) = match (fmt, tp) {
                    (1, i) => ("adler", 3 - i),
                    (_, i) if i < 4 => ("crc", i),
                    (_, i) => ("amt", i - 4),
                };
                let ok = match b.as_ref().and_then(|l| sum_byte(st, l)) {
                    Some((g, of, j)) => &*g == f && j as i128 == k && st.eq(&of, &taken),
                    None => false,
                };
                if !ok {
                    if std::env::var("VDETAIL").is_ok() {
                        eprintln!("trailer byte {} is {:?}, stream {:?}", tp, b, st.norm(&taken));
                    }
                    it.violation("a byte of the trailer is not the byte of the checksum or length that belongs there");
                }
                st.set_gd("tp", tp + 1);
            }
            at = end;
        }
    }
    pub fn container_start(&self, st: &mut State, op: &str, args: &[Val]) {
        if self.on("C03") {
            let fin = matches!(op, "finish" | "reset" | "reset_with_builder" | "drop_encoder");
            st.set_gd("fin", fin as i128);
            let t = match (self.one(), args.get(0)) {
                (true, Some(Val::Slice(_, s, e))) => e.sub(s),
                _ => st.gi("taken"),
            };
            st.set_gi("total", t);
        }
        if self.on("C02") {
            st.set_gd("isnew", matches!(op, "new" | "from_builder") as i128);
            let w = match op {
                "from_builder" => args.get(0),
                "reset_with_builder" => args.get(2),
                "one_shot_gzip" => args.get(2),
                _ => None,
            };
            match w {
                Some(Val::Tok(l)) => st.set_gi("want", l.clone()),
                _ => st.set_gi("want", Lin::k(-7)),
            }
        }
    }
    pub fn container_end(&self, it: &mut Interp, st: &mut State, op: &str, v: &Val) {
        if !matches!(self.prop.as_str(), "C02" | "C03" | "C04") {
            return;
        }
        let raw = matches!(self.fmt(), Fmt::Raw);
        let vs = variants_of(v);
        let is_reset = matches!(op, "reset" | "reset_with_builder");
        let okd = (is_reset || op == "finish") && vs.contains(&0);
        let full = st.gd("tp") == match self.fmt() {
            Fmt::Raw => 0,
            Fmt::Zlib => 4,
            Fmt::Gz => 8,
        };
        if okd || op == "drop_encoder" || self.one() {
            self.must(it, "C02", "end of a stream", raw || st.gd("hq") == 1, "a stream ends without its header");
            if st.gd("hq") != 1 && !raw && self.on("C02") && std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                eprintln!("{} {} {:?} hq {} hp {:?}", self.part, op, vs, st.gd("hq"), st.gi("hp"));
            }
            if st.gd("terr") == 0 {
                if self.on("C03") && !full && std::env::var("VDETAIL").is_ok() && it.mute == 0 {
                    eprintln!("{} {} {:?} tp {}", self.part, op, vs, st.gd("tp"));
                }
                self.must(it, "C03", "end of a stream", full, "a stream ends without its complete trailer");
            }
            if okd || self.one() {
                let ok = st.eq(&st.gi("D"), &st.gi("L"));
                self.must(it, "C03", "end of a stream", ok, "a stream ends with output undelivered");
            }
        }
        if is_reset {
            if vs.contains(&1) && vs.len() > 1 {
                it.lost("result of reset not known");
            }
            if vs.contains(&0) {
                st.set_gd("hq", 0);
                st.set_gi("hp", Lin::k(0));
                st.set_gd("tp", 0);
                st.set_gi("taken", Lin::k(0));
            }
        }
        st.set_gd("isnew", 0);
        if is_reset && vs.contains(&0) {
            rename(st, &[(hdr("cur"), hdr("old")), (hdr("next"), hdr("cur"))]);
            let n = st.gi("hln");
            st.set_gi("hl", n);
        } else if is_reset {
            rename(st, &[(hdr("next"), hdr("bad"))]);
        }
        st.set_gi("hln", Lin::k(0));
        st.set_gi("want", Lin::k(0));
        st.set_gi("total", Lin::k(0));
        st.set_gd("fin", 0);
        st.set_gd("terr", 0);
        if self.on("C04") && !raw {
            let t = st.gi("taken");
            if op == "checksum" {
                it.obligation("checksum of an encoder");
                let f = if self.part == "zlib" { "adler" } else { "crc" };
                let ok = v.lin().map_or(false, |l| match st.norm(&l).as_sym().and_then(def_of).as_deref() {
                    Some(Def::App(g, a)) => &**g == f && st.eq(&a[0], &t),
                    _ => false,
                });
                if !ok {
                    it.violation("the reported checksum is not that of the consumed input");
                }
            }
            if self.one() {
                return;
            }
            if let (Some(e), Some(ty)) = (st.heap.get(&ENC).cloned(), self.enc.get()) {
                let mut n = 0;
                let mut bad = false;
                sums(it.pr, &e, ty, &mut |l| {
                    n += 1;
                    bad |= !l.map_or(false, |l| st.eq(&l, &t));
                });
                it.obligation("checksum state after a call");
                if bad || n == 0 {
                    if std::env::var("VDETAIL").is_ok() {
                        eprintln!("{} taken {:?} {}", op, st.norm(&t), brief(&e, &st.cons).chars().rev().take(200).collect::<String>().chars().rev().collect::<String>());
                    }
                    it.violation(&format!("after {} the checksum does not cover exactly the consumed input", op));
                }
            }
        }
    }
}

/// The checksum objects inside a value.
fn sums(pr: &Prog, v: &Val, t: TyId, f: &mut dyn FnMut(Option<Lin>)) {
    if let Some(a) = pr.adt(t) {
        if a == "gzip_header::Crc" || a == "adler32::RollingAdler32" {
            f(match v {
                Val::Tok(l) => Some(l.clone()),
                _ => None,
            });
            return;
        }
    }
    match v {
        Val::Agg(x) => {
            for (i, w) in x.iter().enumerate() {
                if let Some(ft) = pr.field_ty(t, 0, i as u32) {
                    sums(pr, w, ft, f);
                }
            }
        }
        Val::Enum(m) => {
            for (k, x) in m.iter() {
                for (i, w) in x.iter().enumerate() {
                    if let Some(ft) = pr.field_ty(t, *k, i as u32) {
                        sums(pr, w, ft, f);
                    }
                }
            }
        }
        _ => {}
    }
}

/// Byte j of checksum f of the first l stream bytes.
fn sum_byte(st: &State, l: &Lin) -> Option<(Rc<str>, Lin, u32)> {
    let d = def_of(st.norm(l).as_sym()?)?;
    if let Def::Byte(x, j) = &*d {
        match &*def_of(st.norm(x).as_sym()?)? {
            Def::App(f, a) if matches!(&**f, "adler" | "crc" | "amt") => {
                return Some((f.clone(), a[0].clone(), *j));
            }
            // The length itself, modulo 2^32.
            Def::Mod(t, 32) => return Some(("amt".into(), t.clone(), *j)),
            _ => {}
        }
    }
    None
}

pub fn elem(k: &Kind, at: i128, i: i128) -> Option<Lin> {
    match k {
        Kind::Fill(v) => v.lin(),
        Kind::Elems(v) => v.get((i - at) as usize)?.lin(),
        Kind::Aff(a, b) => Some(Lin::k(a * i + b)),
        Kind::Src(id, off) => match (arr_get(*id), off.is_k()) {
            (ArrId::Const(v), Some(o)) => v.get((o + i) as usize).map(|x| Lin::k(*x)),
            _ => None,
        },
    }
}

fn deref_ref(it: &mut Interp, st: &mut State, v: &Val) -> Option<Ptr> {
    let mut v = v.clone();
    for _ in 0..4 {
        match v {
            Val::Ref(p) => {
                let w = st.get(it.pr, &p, None);
                match w {
                    Val::Ref(_) => v = w,
                    _ => return Some(p),
                }
            }
            _ => return None,
        }
    }
    None
}
