//! Rules about the interplay of calls, output buffer and wrapped writer.
//!
//! C01: what the wrapped writer is offered is always the undelivered rest of
//! the pending output, and pending output is only dropped once delivered.
//! C06: after the writer accepted nothing it is not asked again in that call,
//! and the call does not look as if progress was possible.
//! C07: an error of the writer reaches the caller, and never a panic.
//! C09: everything goes to the writer of the current stream, which is handed
//! back complete; nothing is written when dropped during a panic.
use super::api::*;
use super::container::ONE;
use crate::interp::*;
use crate::lin::*;
use crate::models::*;
use crate::state::*;
use std::cell::Cell;
use std::rc::Rc;
use vir::*;

pub struct Delivery {
    pub enc: Cell<Option<TyId>>,
    pub prop: String,
    /// "raw", "zlib", "gz" or the name of a one-shot function.
    pub part: String,
    /// A copy out of the output buffer is going on.
    pub copying: Cell<bool>,
    /// The bit writer is being changed by one of its own operations.
    pub busy: Cell<bool>,
    pub memo: std::cell::RefCell<super::blocks::Memo>,
    pub fresh: std::cell::RefCell<super::fresh::Fresh>,
}

pub fn is_out(it: &Interp, st: &State, p: &Ptr, enc: Option<TyId>) -> bool {
    match ptr_types(it, st, p, enc) {
        Some((t, Some(par), Some(_))) => {
            it.pr.is_vec(t) && it.pr.adt(par).map_or(false, |a| a.ends_with("::LsbWriter"))
        }
        _ => false,
    }
}

const WRITE: &str = "<vharness::W as std::io::Write>::write";

impl Delivery {
    pub fn on(&self, p: &str) -> bool {
        self.prop == p
    }
    /// An obligation of the given property.
    pub fn must(&self, it: &mut Interp, p: &str, what: &str, ok: bool, msg: &str) {
        if self.on(p) {
            it.obligation(what);
            if !ok {
                it.violation(msg);
            }
        }
    }
    /// The token of a wrapped writer behind a reference.
    fn tok(&self, it: &mut Interp, st: &mut State, v: &Val) -> Option<Lin> {
        let mut v = v.clone();
        for _ in 0..4 {
            match v {
                Val::Tok(l) => return Some(l),
                Val::Ref(p) => v = st.get(it.pr, &p, None),
                _ => return None,
            }
        }
        None
    }
    fn write(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        let mut st = st.clone();
        let (p, s, e) = parts(it, &mut st, &c.args[1])?;
        let len = e.sub(&s);
        let d = st.gi("D");
        let out = is_out(it, &st, &p, self.enc.get());
        if out {
            if self.on("C01") && !st.eq(&s, &d) {
                it.detail(&st, &[("offset", &s), ("D", &d), ("L", &st.gi("L"))]);
            }
            self.must(it, "C01", "offer to the writer", st.eq(&s, &d), "the writer is offered output that does not start at the first undelivered byte");
        } else {
            let ok = st.eq(&st.gi("L"), &d);
            self.must(it, "C01", "offer to the writer", ok, "something else is written to the wrapped writer while output is pending");
        }
        if self.on("C09") {
            let cur = st.gi("cur");
            let t = self.tok(it, &mut st, &c.args[0]);
            self.must(it, "C09", "offer to the writer", t.map_or(false, |t| st.eq(&t, &cur)), "output is offered to a writer that is not the one of the current stream");
        }
        let mut rets = vec![];
        let split = matches!(self.prop.as_str(), "C03" | "C06" | "C09");
        let mut cases = vec![(st.clone(), true)];
        if split {
            cases.clear();
            let mut s0 = st.clone();
            if it.assume_eq(&mut s0, &len) {
                cases.push((s0, false));
            }
            let mut s1 = st.clone();
            if it.assume_ge(&mut s1, &len.addk(-1)) {
                cases.push((s1, true));
            }
        }
        for (mut st, nonempty) in cases {
            if split && nonempty {
                self.must(it, "C06", "offer to the writer", st.gd("zero") == 0, "the writer is offered data again after it accepted nothing");
                self.must(it, "C09", "offer to the writer", st.gd("pan") == 0, "data is written while the thread is panicking");
            }
            if self.on("C09") {
                // An empty offer says nothing new about the writer.
                match (nonempty, st.gd("werr")) {
                    (false, 0) => st.set_gd("werr", 3),
                    (true, 3) => st.set_gd("werr", 0),
                    _ => {}
                }
            }
            let inter = err_kind(it.pr, "Interrupted")?;
            let n = Lin::s(fresh(0, i64::MAX as i128, "accepted"));
            let mut s1 = st.clone();
            s1.add_ge(&len.sub(&n));
            if out {
                s1.set_gi("D", d.add(&n));
            }
            if split && nonempty {
                let mut s2 = s1.clone();
                if it.assume_eq(&mut s2, &n) {
                    s2.set_gd(match self.prop.as_str() { "C06" => "zero", "C09" => "werr", _ => "terr" }, 1);
                    rets.push((s2, ok(Val::Int(Lin::k(0), USIZE))));
                }
                if !it.assume_ge(&mut s1, &n.addk(-1)) {
                    continue;
                }
            }
            rets.push((s1, ok(Val::Int(n, USIZE))));
            if self.on("C09") {
                // Any failure excuses an incomplete stream.
                rets.push((st.clone(), err(Val::Disc(Lin::k(inter)))));
                st.set_gd("werr", 1);
                let k = Lin::s(fresh(0, err_kinds(it.pr) - 1, "errkind"));
                rets.push((st, err(Val::Disc(k))));
            } else if self.on("C07") {
                let mut s2 = st.clone();
                let _ = &mut s2;
                rets.push((s2, err(Val::Disc(Lin::k(inter)))));
                // Kinds below and above Interrupted, kept apart.
                for (g, lo, hi) in [(1, 0, inter - 1), (2, inter + 1, err_kinds(it.pr) - 1)] {
                    let mut s2 = st.clone();
                    s2.set_gd("werr", g);
                    s2.set_gd("wpan", 1);
                    rets.push((s2, err(Val::Disc(Lin::s(fresh(lo, hi, "errkind"))))));
                }
            } else {
                let k = Lin::s(fresh(0, err_kinds(it.pr) - 1, "errkind"));
                rets.push((st, err(Val::Disc(k))));
            }
        }
        if self.on("C03") {
            // A failure excuses a missing trailer.
            for (s, v) in &mut rets {
                if variants_of(v) != vec![0] {
                    s.set_gd("terr", 1);
                }
            }
        }
        Some(rets)
    }
    /// Does an error value stand for something a caller retries after?
    fn retryable(&self, it: &Interp, st: &State, v: &Val) -> bool {
        let k = match v {
            Val::Enum(m) => m.get(&1).and_then(|f| f.get(0)).and_then(|x| x.lin()),
            _ => None,
        };
        match (k, err_kind(it.pr, "Interrupted")) {
            (Some(k), Some(i)) => {
                let mut s = st.clone();
                it.assume_eq(&mut s, &k.addk(-i))
            }
            _ => true,
        }
    }
    fn c01(&self, it: &mut Interp, msg: &str) {
        if self.on("C01") {
            it.violation(msg);
        }
    }
    fn len(&self, it: &mut Interp, st: &mut State, p: &Ptr) -> Option<Lin> {
        arr_of(it, st, p).map(|a| a.len.clone())
    }
}

impl Rule for Delivery {
    fn summarise(&self) -> bool {
        !self.blocks()
    }
    fn interesting(&self, adt: &str) -> bool {
        adt.ends_with("::LsbWriter") || self.on("C17") && adt.ends_with("::BlockType") || self.blocks() && (adt.ends_with("::HuffmanTable") || adt.ends_with("::HuffmanCode")) || adt == "vharness::W"
    }
    fn wants(&self, pr: &Prog, fu: &Func) -> bool {
        self.on("C17") && super::blocks::clears(pr, fu) || self.on("C11") && self.fresh_wants(pr, fu)
    }
    fn contracts(&self) -> bool {
        true
    }
    fn content(&self) -> bool {
        matches!(self.prop.as_str(), "C03" | "C04" | "C05")
    }
    fn enter(&self, adt: &str) -> bool {
        matches!(self.prop.as_str(), "C03" | "C04") && (adt == "gzip_header::Crc" || adt.starts_with("adler32::"))
    }
    fn call(&self, it: &mut Interp, c: &CallCtx, st: &State) -> Option<Vec<(State, Val)>> {
        if let Some(r) = self.container_call(it, c, st) {
            return Some(r);
        }
        if self.blocks() {
            if let Some(r) = self.block_call(it, c, st) {
                return Some(r);
            }
        }
        if self.on("C05") {
            if let Some(r) = self.intake(it, c, st) {
                return Some(r);
            }
        }
        if self.on("C06") || self.on("C07") {
            if let Some(r) = self.bounded(it, c, st) {
                return Some(r);
            }
        }
        if c.name == WRITE {
            return self.write(it, c, st);
        }
        if c.path == "std::thread::panicking" {
            return Some(vec![(st.clone(), Val::Disc(Lin::k(st.gd("pan"))))]);
        }
        if c.name.ends_with(" as std::ops::Drop>::drop") && it.func(c.f).local && it.func(c.f).body.is_some() {
            // Dropping tries once more, and ignores errors.
            let mut st = st.clone();
            for g in ["zero", "wpan"] {
                if st.gd(g) != 0 {
                    st.set_gd(g, 0);
                }
            }
            return Some(it.inline(c.f, c.args.to_vec(), st));
        }
        None
    }
    fn panic(&self, it: &mut Interp, st: &State, msg: &str) {
        if self.on("C07") && st.gd("wpan") == 1 {
            it.obligation("code after a failed write");
            it.violation(&format!("a failure of the wrapped writer leads to a panic ({})", msg));
        }
    }
    fn op_start(&self, _it: &mut Interp, st: &mut State, op: &str, args: &[Val]) {
        self.container_start(st, op, args);
        if self.blocks() {
            self.block_start(st, op);
        }
        for g in ["zero", "wpan", "werr", "zero0"] {
            if st.gd(g) != 0 {
                st.set_gd(g, 0);
            }
        }
        st.set_gd("pan", (op == "drop_panicking") as i128);
        if self.on("C09") {

            if matches!(op, "new" | "from_builder") {
                // The writer is the argument that is a writer.
                let i = if op == "new" { 0 } else { 1 };
                if let Some(Val::Tok(l)) = args.get(i) {
                    st.set_gi("cur", l.clone());
                }
            }
        }
    }
    fn vec_event(&self, it: &mut Interp, st: &mut State, p: &Ptr, ev: VecEv) {
        if !is_out(it, st, p, self.enc.get()) {
            if self.one() && !self.copying.get() && p.path.is_empty() && matches!(p.root, Root::Local(..)) {
                self.direct(it, st, p, &ev);
            }
            return;
        }
        let d = st.gi("D");
        let len = match self.len(it, st, p) {
            Some(l) => l,
            None => return,
        };
        if self.on("C01") {
            it.obligation("change of the output buffer");
        }
        match ev {
            VecEv::Append(_, ref n) => {
                if st.gd("werr") == 3 {
                    st.set_gd("werr", 0);
                }
                st.set_gi("L", len.add(n));
                if let (VecEv::Append(segs, n), false) = (ev, self.busy.get()) {
                    self.stream(it, st, Some(p), segs, n);
                }
            }
            VecEv::Truncate(n) => {
                if st.konst(n) == Some(0) {
                    if !st.eq(&d, &len) && self.on("C01") {
                        it.detail(st, &[("D", &d), ("len", &len)]);
                        self.c01(it, "output is discarded before it was delivered");
                    }
                    st.set_gi("D", Lin::k(0));
                    st.set_gi("L", Lin::k(0));
                } else {
                    if !st.eq(&len, n) {
                        self.c01(it, "output buffer is shortened");
                    }
                    st.set_gi("L", n.clone());
                }
            }
            VecEv::Other => self.c01(it, "output buffer is modified in place"),
        }
    }
    fn store(&self, it: &mut Interp, st: &mut State, p: &Ptr, v: &Val) {
        // Replacing the whole buffer, or a structure that contains it.
        if st.gd("init") == 0 {
            return;
        }
        if is_out(it, st, p, self.enc.get()) {
            let d = st.gi("D");
            if let Some(len) = self.len(it, st, p) {
                if self.on("C01") {
            it.obligation("replacement of the output buffer");
        }
                if !st.eq(&d, &len) {
                    self.c01(it, "output buffer is replaced before its contents were delivered");
                }
                let l = match v {
                    Val::Arr(a) => a.len.clone(),
                    _ => Lin::s(fresh(0, i64::MAX as i128, "len")),
                };
                st.set_gi("D", Lin::k(0));
                st.set_gi("L", l);
            }
        } else if let Some(PE::E(_)) = p.path.last() {
            if is_out(it, st, &parent(p), self.enc.get()) {
                self.c01(it, "output buffer is modified in place");
            }
        } else if let Some((t, _, _)) = ptr_types(it, st, p, self.enc.get()) {
            if p.root == Root::Heap(ENC) && it.pr.adt(t).map_or(false, |a| a.ends_with("::LsbWriter")) {
                if self.on("C01") {
            it.obligation("replacement of the bit writer");
        }
                let d = st.gi("D");
                if !st.eq(&d, &st.gi("L")) {
                    self.c01(it, "bit writer is replaced before its output was delivered");
                }
                let l = match v {
                    Val::Agg(f) => f.iter().find_map(|x| if let Val::Arr(a) = x { Some(a.len.clone()) } else { None }),
                    _ => None,
                };
                st.set_gi("D", Lin::k(0));
                st.set_gi("L", l.unwrap_or_else(|| Lin::s(fresh(0, i64::MAX as i128, "len"))));
            }
        }
    }
    fn op_end(&self, it: &mut Interp, st: &mut State, op: &str, a: &[Val], v: &Val) {
        if std::env::var("VOP").is_ok() && it.mute == 0 {
            let e = st.heap.get(&1).map(|v| brief(v, &st.cons)).unwrap_or_default();
            let t: String = e.chars().rev().take(160).collect::<Vec<_>>().into_iter().rev().collect();
            eprintln!("OP {} -> {} D={} L={} {}", op, brief(v, &st.cons), brief(&Val::Disc(st.gi("D")), &st.cons), brief(&Val::Disc(st.gi("L")), &st.cons), t);
        }
        self.result(it, st, op, a, v);
        self.container_end(it, st, op, v);
        self.intake_end(it, st, op, a, v);
        self.fresh_end(it, st, op, v);
        if self.blocks() {
            self.block_end(it, st, op, v);
        }
        // What happened during the call does not matter any more.
        for g in ["zero", "wpan", "werr", "pan"] {
            if st.gd(g) != 0 {
                st.set_gd(g, 0);
            }
        }
    }
}

impl Delivery {
    fn result(&self, it: &mut Interp, st: &mut State, op: &str, a: &[Val], v: &Val) {
        let vs = variants_of(v);
        match op {
            "new" | "from_builder" => {
                st.set_gd("init", 1);
                st.set_gi("D", Lin::k(0));
                st.set_gi("L", Lin::k(0));
            }
            "flush" | "finish" | "reset" | "reset_with_builder" => {
                if vs.contains(&0) {
                    if st.gd("werr") != 0 {
                        self.must(it, "C07", "result after a failed write", false, "the call succeeds although the writer failed");
                    }
                    if st.gd("zero") == 1 {
                        self.must(it, "C06", "result after nothing was accepted", false, "the call succeeds although the writer accepted nothing");
                    }
                } else {
                    if self.on("C07") && st.gd("werr") != 0 {
                        it.obligation("result after a failed write");
                    }
                    if self.on("C06") && st.gd("zero") == 1 {
                        it.obligation("result after nothing was accepted");
                    }
                }
                if op != "flush" && vs == vec![0] {
                    let ok = st.eq(&st.gi("D"), &st.gi("L"));
                    self.must(it, "C01", "successful finish or reset", ok, "a successful finish or reset leaves output undelivered");
                    if self.on("C09") {
                        self.must(it, "C09", "successful finish or reset", ok, "the writer is handed back before everything was delivered to it");
                        let cur = st.gi("cur");
                        let t = match v {
                            Val::Enum(m) => m.get(&0).and_then(|f| f.get(0)).and_then(|x| x.lin()),
                            _ => None,
                        };
                        let ok = t.map_or(false, |t| st.eq(&t, &cur));
                        self.must(it, "C09", "successful finish or reset", ok, "finish or reset hands back another writer than the one of the stream");
                        if let (true, Some(Val::Tok(l))) = (op != "finish", a.get(1)) {
                            st.set_gi("cur", l.clone());
                        }
                    }
                }
            }
            "write" => {
                let n = match v {
                    Val::Enum(m) => m.get(&0).and_then(|f| f.get(0)).and_then(|x| x.lin()),
                    _ => None,
                };
                if st.gd("werr") != 0 {
                    let ok = match (&n, vs.contains(&0)) {
                        (_, false) => true,
                        (Some(n), true) => st.ge(&n.addk(-1)),
                        _ => false,
                    };
                    self.must(it, "C07", "result after a failed write", ok, "write reports success without progress although the writer failed");
                }
                if st.gd("zero") == 1 {
                    let ok = match (&n, vs.contains(&0)) {
                        (_, false) => !self.retryable(it, st, v),
                        (Some(n), true) => st.ge(&n.addk(-1)) && !(vs.contains(&1) && self.retryable(it, st, v)),
                        _ => false,
                    };
                    self.must(it, "C06", "result after nothing was accepted", ok, "write asks to be retried although the writer accepted nothing");
                }
            }
            "drop_encoder" => {
                if self.on("C09") && st.gd("werr") == 0 && st.gd("zero") == 0 {
                    let ok = st.eq(&st.gi("D"), &st.gi("L"));
                    self.must(it, "C09", "drop", ok, "dropping leaves output undelivered although the writer works");
                }
            }
            _ => {}
        }
    }
}

pub fn run(pr: &Prog, prop: &str) -> i32 {
    let mut parts = vec!["raw", "zlib", "gz"];
    if prop == "C05" {
        parts.push("core");
    }
    if matches!(prop, "C05" | "C01" | "C02" | "C03" | "C04" | "C10" | "C17" | "C18") {
        parts.extend(ONE);
    }
    if prop == "C09" {
        // The stream that is handed back, or dropped, is finished.
        parts.extend(["end zlib", "end gz"]);
    }
    super::parallel(pr, prop, &parts, &|part, log| {
        if part == "core" {
            return super::intake::core(pr, log);
        }
        let m = part.trim_start_matches("end ");
        let prop = if m == part { prop } else { "C03" };
        let rule = Rc::new(Delivery {
            enc: Cell::new(enc_type(pr, m)),
            prop: prop.to_string(),
            part: m.to_string(),
            copying: Cell::new(false),
            busy: Cell::new(false),
            memo: Default::default(),
            fresh: Default::default(),
        });
        let blocks = rule.blocks();
        let mut it = Interp::new(pr, rule);
        it.publish = m == part;
        let ghost = |st: &mut State| {
            st.set_gd("init", 0);
            st.set_gi("D", Lin::k(0));
            st.set_gi("L", Lin::k(0));
            st.set_gi("taken", Lin::k(0));
            st.set_gi("T", Lin::k(0));
            if blocks {
                super::blocks::init(st);
            }
        };
        let r = if ONE.contains(&m) {
            one_shot(&mut it, m, &ghost)
        } else if prop == "C17" {
            // Every call starts between blocks (C10).
            anywhere(&mut it, m, &ghost)
        } else { explore(&mut it, m, &ghost) };
        *log = it.log;
        if m != part {
            log.violations.retain(|_, v| v.what.starts_with("a stream ends"));
            log.sites.retain(|k, _| k.starts_with("end of a stream"));
        }
        log.notes.push(format!("{}: {} rounds over the states between calls, {} calls interpreted", part, r.states, r.ops));
    })
}
