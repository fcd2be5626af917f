//! Models of the standard library functions whose bodies work on raw memory,
//! and of the wrapped writer.
use crate::interp::*;
use crate::lin::*;
use crate::state::*;
use std::rc::Rc;
use vir::*;

type R = Option<Vec<(State, Val)>>;

pub fn none() -> Val {
    variant(0, vec![])
}
pub fn some(v: Val) -> Val {
    variant(1, vec![v])
}
pub fn ok(v: Val) -> Val {
    variant(0, vec![v])
}
pub fn err(v: Val) -> Val {
    variant(1, vec![v])
}

fn one(st: State, v: Val) -> R {
    Some(vec![(st, v)])
}

/// Container pointer and bounds of a slice, an array reference or a Vec reference.
pub fn parts(it: &mut Interp, st: &mut State, v: &Val) -> Option<(Ptr, Lin, Lin)> {
    match v {
        Val::Slice(p, s, e) => Some((p.clone(), s.clone(), e.clone())),
        Val::It(p, s, e) => Some((p.clone(), s.clone(), e.clone())),
        Val::Ref(p) => match st.get(it.pr, p, None) {
            Val::Arr(a) => Some((p.clone(), Lin::k(0), a.len.clone())),
            v @ (Val::Ref(_) | Val::Slice(..)) => parts(it, st, &v),
            _ => None,
        },
        _ => None,
    }
}

/// Require `l >= 0`; the failing case panics. False if no state survives.
pub fn check(it: &mut Interp, st: &mut State, l: &Lin, msg: &str) -> bool {
    let mut bad = st.clone();
    let n = l.neg().addk(-1);
    if !st.ge(l) && it.assume_ge(&mut bad, &n) {
        let r = it.rule.clone();
        r.panic(it, &bad, msg);
    }
    it.assume_ge(st, l)
}

pub fn arr_of(it: &mut Interp, st: &mut State, p: &Ptr) -> Option<Rc<Arr>> {
    match st.get(it.pr, p, None) {
        Val::Arr(a) => Some(a),
        _ => None,
    }
}

pub fn empty_arr(elem: TyId) -> Val {
    Val::Arr(Rc::new(Arr { elem, len: Lin::k(0), segs: vec![] }))
}

/// Append segments to a vector.
pub fn append(it: &mut Interp, st: &mut State, p: &Ptr, segs: &[Seg], n: &Lin) -> bool {
    let a = match arr_of(it, st, p) {
        Some(a) => a,
        None => {
            it.lost("append to an unresolved vector");
            return false;
        }
    };
    let r = it.rule.clone();
    r.vec_event(it, st, p, VecEv::Append(segs, n));
    let mut b = (*a).clone();
    let old = b.len.clone();
    b.len = st.norm(&old.add(n));
    for s in segs {
        b.segs.push(Seg { end: s.end.add(&old), kind: shift(&s.kind, &old) });
    }
    let cons = st.cons.clone();
    canon(&cons, &mut b);
    // A vector never holds more than isize::MAX bytes.
    let cap = b.len.neg().addk(i64::MAX as i128);
    st.set(it.pr, p, Val::Arr(Rc::new(b)));
    if !st.ge(&cap) {
        st.add_ge(&cap);
    }
    true
}

pub fn truncate(it: &mut Interp, st: &mut State, p: &Ptr, n: &Lin) {
    let r = it.rule.clone();
    r.vec_event(it, st, p, VecEv::Truncate(n));
    if let Some(a) = arr_of(it, st, p) {
        let mut b = (*a).clone();
        let cons = st.cons.clone();
        b.segs = arr_slice(&cons, &a, &Lin::k(0), n).unwrap_or_else(|| {
            vec![Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }]
        });
        b.len = n.clone();
        canon(&cons, &mut b);
        st.set(it.pr, p, Val::Arr(Rc::new(b)));
    }
}

/// start, end of a range value relative to a slice of length n.
fn range(it: &mut Interp, st: &mut State, v: &Val, ty: TyId, n: &Lin) -> Option<(Lin, Lin)> {
    let path = it.pr.adt(ty)?.to_string();
    let f = |k: usize| match v {
        Val::Agg(a) => a.get(k).and_then(|x| x.lin()),
        _ => None,
    };
    let _ = st;
    Some(match path.rsplit("::").next()? {
        "Range" => (f(0)?, f(1)?),
        "RangeFrom" => (f(0)?, n.clone()),
        "RangeTo" => (Lin::k(0), f(0)?),
        "RangeFull" => (Lin::k(0), n.clone()),
        "RangeInclusive" => (f(0)?, f(1)?.addk(1)),
        "RangeToInclusive" => (Lin::k(0), f(0)?.addk(1)),
        _ => return None,
    })
}

fn index(it: &mut Interp, mut st: State, base: &Val, idx: &Val, idx_ty: TyId) -> R {
    let (p, s, e) = parts(it, &mut st, base)?;
    let n = e.sub(&s);
    if let Val::Int(i, _) = idx {
        if it.pr.ity(idx_ty).is_some() {
            if !check(it, &mut st, &n.sub(i).addk(-1), "index out of bounds") {
                return Some(vec![]);
            }
            let i = st.norm(&s.add(i));
            return one(st, Val::Ref(p.push(PE::E(i))));
        }
    }
    let (a, b) = range(it, &mut st, idx, idx_ty, &n)?;
    if !check(it, &mut st, &b.sub(&a), "slice index starts after its end") {
        return Some(vec![]);
    }
    if !check(it, &mut st, &n.sub(&b), "range end out of bounds") {
        return Some(vec![]);
    }
    let (x, y) = (st.norm(&s.add(&a)), st.norm(&s.add(&b)));
    one(st, Val::Slice(p, x, y))
}

/// A new unknown in [lo, hi].
fn unk(lo: i128, hi: i128, h: &str) -> Lin {
    Lin::s(fresh(lo, hi, h))
}

pub fn err_kind(pr: &Prog, name: &str) -> Option<i128> {
    for t in &pr.p.types {
        if let TyKind::Adt { path, variants, .. } = &t.kind {
            if path.ends_with("io::ErrorKind") {
                return variants.iter().position(|v| v.name == name).map(|x| x as i128);
            }
        }
    }
    None
}
pub fn err_kinds(pr: &Prog) -> i128 {
    for t in &pr.p.types {
        if let TyKind::Adt { path, variants, .. } = &t.kind {
            if path.ends_with("io::ErrorKind") {
                return variants.len() as i128;
            }
        }
    }
    44
}

pub fn ret_elem(it: &Interp, f: FnId) -> TyId {
    it.func(f).ret
}

pub fn call(it: &mut Interp, cx: &CallCtx, st0: &State) -> R {
    let pr = it.pr;
    let fu = it.func(cx.f);
    let a = cx.args;
    let mut st = st0.clone();
    if let Some(i) = &fu.intrinsic {
        return intrinsic(it, cx, i, st);
    }
    if fu.local {
        return None;
    }
    // The wrapped writer.
    if cx.name.starts_with("<vharness::W as std::io::Write>::") {
        if cx.name.ends_with("::write") {
            let (_, s, e) = parts(it, &mut st, &a[1])?;
            let len = e.sub(&s);
            let mut out = vec![];
            let mut s1 = st.clone();
            let n = unk(0, i64::MAX as i128, "accepted");
            s1.add_ge(&len.sub(&n));
            out.push((s1, ok(usz(n))));
            let k = unk(0, err_kinds(pr) - 1, "errkind");
            out.push((st, err(Val::Disc(k))));
            return Some(out);
        }
        if cx.name.ends_with("::flush") {
            let k = unk(0, err_kinds(pr) - 1, "errkind");
            return Some(vec![(st.clone(), ok(unit())), (st, err(Val::Disc(k)))]);
        }
    }
    let path = cx.path;
    let last = path.rsplit("::").next().unwrap_or("");
    if ["adler32::RollingAdler32", "gzip_header::Crc"].iter().any(|t| path.strip_prefix('<').unwrap_or(path).starts_with(t)) {
        if let Some(r) = checksum(it, cx, last, st.clone()) {
            return Some(r);
        }
        return Some(it.havoc_call(cx.f, a, st));
    }
    // Calls through function items and pointers to them.
    if fu.body.is_none() && matches!(last, "call" | "call_mut" | "call_once") {
        let mut v = a[0].clone();
        while let Val::Ref(p) = v.clone() {
            v = st.get(pr, &p, None);
        }
        let mut t = fu.args.first().copied();
        while let Some(TyKind::Ref { to, .. }) = t.map(|t| &pr.ty(t).kind) {
            t = Some(*to);
        }
        let g = match (&v, t.map(|t| &pr.ty(t).kind)) {
            (Val::Fn(g), _) => Some(*g),
            (_, Some(TyKind::FnDef(Some(g)))) => Some(*g),
            _ => None,
        };
        if let Some(g) = g {
            let rest: Vec<Val> = match a.get(1) {
                Some(Val::Agg(t)) if a.len() == 2 && it.func(g).args.len() == t.len() => t.to_vec(),
                _ => a[1..].to_vec(),
            };
            return Some(it.call(g, rest, st));
        }
        return None;
    }
    // Tuple-variant constructors.
    if fu.body.is_none() {
        if let TyKind::Adt { variants, kind: AdtKind::Enum, .. } = &pr.ty(fu.ret).kind {
            if let Some(k) = variants.iter().position(|v| v.name == last) {
                return one(st, variant(k as u32, a.to_vec()));
            }
        }
    }
    if path.starts_with("std::vec::Vec") || path.starts_with("<std::vec::Vec") || path.starts_with("std::vec::from_elem")
    {
        if let Some(r) = vec_call(it, cx, last, st.clone()) {
            return Some(r);
        }
    }
    if path.contains("std::io::Write for std::vec::Vec<u8, A>>::") {
        match last {
            "write" | "write_all" => {
                let p = match &a[0] {
                    Val::Ref(p) => p.clone(),
                    _ => return None,
                };
                let (q, s, e) = parts(it, &mut st, &a[1])?;
                let segs = it.segs_of(&mut st, &q, &s, &e);
                let n = st.norm(&e.sub(&s));
                if !append(it, &mut st, &p, &segs, &n) {
                    return None;
                }
                return one(st, ok(if last == "write" { usz(n) } else { unit() }));
            }
            "flush" => return one(st, ok(unit())),
            _ => {}
        }
    }
    if path.starts_with("core::slice") || path.contains("std::slice::SliceIndex") || path.starts_with("std::slice::") {
        if let Some(r) = slice_call(it, cx, last, st.clone()) {
            return Some(r);
        }
    }
    if path.starts_with("<std::slice::Iter") {
        if let Some(r) = iter_call(it, cx, last, st.clone()) {
            return Some(r);
        }
    }
    if path.starts_with("std::array::") || path.contains("for [T; N]>::") {
        match last {
            "index" | "index_mut" => return index(it, st, &a[0], &a[1], fu.args[1]),
            "as_mut" | "as_ref" | "as_slice" | "borrow" => {
                let (p, s, e) = parts(it, &mut st, &a[0])?;
                return one(st, Val::Slice(p, s, e));
            }
            "eq" | "ne" => return one(st, Val::Disc(unk(0, 1, "eq"))),
            _ => {}
        }
    }
    match path {
        "std::mem::replace" | "core::mem::replace" => {
            if let Val::Ref(p) = &a[0] {
                let old = st.get(pr, p, Some(fu.ret));
                it.write_ptr(&mut st, p, a[1].clone());
                return one(st, old);
            }
        }
        "std::mem::swap" | "core::mem::swap" => {
            if let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) {
                let to = match &pr.ty(fu.args[0]).kind {
                    TyKind::Ref { to, .. } => Some(*to),
                    _ => None,
                };
                let x = st.get(pr, p, to);
                let y = st.get(pr, q, to);
                it.write_ptr(&mut st, p, y);
                it.write_ptr(&mut st, q, x);
                return one(st, unit());
            }
        }
        "std::mem::take" | "core::mem::take" => {
            if let Val::Ref(p) = &a[0] {
                if pr.is_vec(fu.ret) {
                    let old = st.get(pr, p, Some(fu.ret));
                    it.write_ptr(&mut st, p, empty_arr(pr.elem_of(fu.ret)));
                    return one(st, old);
                }
            }
        }
        "std::mem::drop" | "core::mem::drop" => {}
        "std::thread::panicking" => return one(st, Val::Disc(Lin::k(0))),
        "std::io::Error::kind" => {
            let v = deref(it, &mut st, &a[0]);
            if let Val::Disc(l) = v {
                return one(st, Val::Disc(l));
            }
        }
        "std::io::Error::is_interrupted" => {
            if let Val::Disc(l) = deref(it, &mut st, &a[0]) {
                let k = err_kind(pr, "Interrupted")?;
                let v = it.eq0(&st, &l.addk(-k));
                return one(st, Val::Disc(v));
            }
        }
        "<std::io::Error as std::convert::From<std::io::ErrorKind>>::from" => {
            if let Val::Disc(l) = &a[0] {
                return one(st, Val::Disc(l.clone()));
            }
        }
        "std::boxed::Box::<T>::new" => {
            if let Some(t) = fu.args.first() {
                let p = it.alloc(&mut st, *t, a[0].clone());
                return one(st, Val::Ref(p));
            }
        }
        "<std::boxed::Box<T> as std::default::Default>::default" => {
            let t = pr.elem_of(fu.ret);
            let body = fu.body.as_ref()?;
            for bb in &body.blocks {
                if let Term::Call { callee: Callee::Fn(g), args, .. } = &bb.term {
                    if it.func(*g).ret == t && args.is_empty() {
                        let g = *g;
                        let mut out = vec![];
                        for (mut s, v) in it.call(g, vec![], st) {
                            let p = it.alloc(&mut s, t, v);
                            out.push((s, Val::Ref(p)));
                        }
                        return Some(out);
                    }
                }
            }
            let v = it.unknown(&mut st, t);
            let p = it.alloc(&mut st, t, v);
            return one(st, Val::Ref(p));
        }
        "gzip_header::GzBuilder::into_header" => {
            // A header of at least ten bytes.
            let u8t = pr.elem_of(fu.ret);
            let n = unk(10, i64::MAX as i128 >> 1, "hdrlen");
            return one(
                st,
                Val::Arr(Rc::new(Arr {
                    elem: u8t,
                    segs: vec![Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                    len: n,
                })),
            );
        }
        _ => {}
    }
    if path.starts_with("alloc::io::error::<impl std::io::Error>::") || path == "std::io::Error::new" {
        match last {
            "new" => {
                if let Val::Disc(l) = &a[0] {
                    return one(st, Val::Disc(l.clone()));
                }
            }
            "other" => {
                let k = err_kind(pr, "Other")?;
                return one(st, Val::Disc(Lin::k(k)));
            }
            _ => {}
        }
    }
    if path.starts_with("core::num::<impl u") {
        match last {
            "to_be_bytes" | "to_le_bytes" | "to_ne_bytes" => {
                if let Val::Bv(b) = &a[0] {
                    let mut v: Vec<Val> = b.chunks(8).map(|c| Val::Bv(Rc::new(c.to_vec()))).collect();
                    if last == "to_be_bytes" {
                        v.reverse();
                    }
                    let len = Lin::k(v.len() as i128);
                    let elem = pr.elem_of(fu.ret);
                    return one(
                        st,
                        Val::Arr(Rc::new(Arr {
                            elem,
                            len: len.clone(),
                            segs: vec![Seg { end: len, kind: Kind::Elems(Rc::new(v)) }],
                        })),
                    );
                }
                if let Val::Int(l, t) = &a[0] {
                    let n = t.bits() / 8;
                    let mut v = vec![];
                    for i in 0..n {
                        let k = if last == "to_be_bytes" { n - 1 - i } else { i };
                        v.push(Val::Int(byte(&st, l, k), U8));
                    }
                    let len = Lin::k(n as i128);
                    let elem = pr.elem_of(fu.ret);
                    return one(
                        st,
                        Val::Arr(Rc::new(Arr {
                            elem,
                            len: len.clone(),
                            segs: vec![Seg { end: len, kind: Kind::Elems(Rc::new(v)) }],
                        })),
                    );
                }
            }
            _ => {}
        }
    }
    if path.ends_with("TrustedRandomAccessNoCoerce::size") || path.ends_with("TrustedRandomAccessNoCoerce>::size") {
        if let Val::It(_, s, e) = deref(it, &mut st, &a[0]) {
            return one(st, usz(e.sub(&s)));
        }
    }
    None
}

pub fn byte(st: &State, l: &Lin, k: u32) -> Lin {
    let l = st.norm(l);
    if let Some(c) = l.is_k() {
        return Lin::k((c >> (8 * k)) & 255);
    }
    Lin::s(defsym(Def::Byte(l, k), 0, 255))
}

pub fn deref(it: &mut Interp, st: &mut State, v: &Val) -> Val {
    let mut v = v.clone();
    for _ in 0..4 {
        match v.clone() {
            Val::Ref(p) => v = st.get(it.pr, &p, None),
            _ => break,
        }
    }
    v
}

fn intrinsic(it: &mut Interp, cx: &CallCtx, name: &str, mut st: State) -> R {
    let pr = it.pr;
    let a = cx.args;
    let fu = it.func(cx.f);
    match name {
        "saturating_sub" | "saturating_add" => {
            if let (Val::Int(x, t), Val::Int(y, _)) = (&a[0], &a[1]) {
                let (lo, hi) = t.range();
                let r = if name == "saturating_sub" { x.sub(y) } else { x.add(y) };
                let mut out = vec![];
                let mut s = st.clone();
                if it.assume_ge(&mut s, &r.addk(-lo)) && it.assume_ge(&mut s, &r.neg().addk(hi)) {
                    out.push((s, Val::Int(r.clone(), *t)));
                }
                let mut s = st.clone();
                if it.assume_ge(&mut s, &r.neg().addk(lo - 1)) {
                    out.push((s, Val::Int(Lin::k(lo), *t)));
                }
                if it.assume_ge(&mut st, &r.addk(-hi - 1)) {
                    out.push((st, Val::Int(Lin::k(hi), *t)));
                }
                return Some(out);
            }
            None
        }
        "integer_max" | "integer_min" => {
            if let (Val::Int(x, t), Val::Int(y, _)) = (&a[0], &a[1]) {
                let d = if name == "integer_max" { x.sub(y) } else { y.sub(x) };
                let mut out = vec![];
                let mut s = st.clone();
                if it.assume_ge(&mut s, &d) {
                    out.push((s, Val::Int(x.clone(), *t)));
                }
                if it.assume_ge(&mut st, &d.neg().addk(-1)) {
                    out.push((st, Val::Int(y.clone(), *t)));
                }
                return Some(out);
            }
            None
        }
        "likely" | "unlikely" | "black_box" => one(st, a[0].clone()),
        "cold_path" | "assert_inhabited" | "assume" | "forget" | "assert_zero_valid" => {
            if name == "assume" {
                if let Val::Disc(l) = &a[0] {
                    if !it.assume_bool(&mut st, l, true) {
                        return Some(vec![]);
                    }
                }
            }
            one(st, unit())
        }
        "needs_drop" => {
            one(st, Val::Disc(unk(0, 1, "b")))
        }
        "size_of" | "size_of_val" | "min_align_of" | "align_of" => {
            let t = fu.generic_tys.first().copied();
            if name == "size_of" {
                if let Some(sz) = t.and_then(|t| pr.ty(t).size) {
                    return one(st, usz(Lin::k(sz as i128)));
                }
            }
            None
        }
        "ptr_offset_from_unsigned" | "ptr_offset_from" => {
            if let (Val::Ref(p), Val::Ref(q)) = (&a[0], &a[1]) {
                if let (Some(PE::E(i)), Some(PE::E(j))) = (p.path.last(), q.path.last()) {
                    if parent(p) == parent(q) {
                        let d = st.norm(&i.sub(j));
                        return one(st, usz(d));
                    }
                }
            }
            None
        }
        "bitreverse" | "bswap" if matches!(a[0], Val::Bv(_)) => {
            if let Val::Bv(b) = &a[0] {
                let mut o = (**b).clone();
                o.reverse();
                if name == "bswap" {
                    for c in o.chunks_mut(8) {
                        c.reverse();
                    }
                }
                return one(st, Val::Bv(Rc::new(o)));
            }
            None
        }
        "bswap" => {
            if let Val::Int(l, t) = &a[0] {
                if let Some(k) = st.konst(l) {
                    let n = t.bits() / 8;
                    let mut r = 0i128;
                    for i in 0..n {
                        r |= ((k >> (8 * i)) & 255) << (8 * (n - 1 - i));
                    }
                    return one(st, Val::Int(Lin::k(r), *t));
                }
                let l = st.norm(l);
                let (lo, hi) = t.range();
                return one(st, Val::Int(Lin::s(defsym(Def::App("bswap".into(), vec![l]), lo, hi)), *t));
            }
            None
        }
        "ctlz" | "cttz" | "ctpop" => {
            if let Val::Int(l, t) = &a[0] {
                let n = t.bits() as i128;
                let l = st.norm(l);
                let (lo, hi) = st.cons.interval(&l);
                let lz = |k: i128| n - (128 - (k as u128).leading_zeros() as i128);
                let k = match name {
                    "ctlz" if lo >= 0 && lz(lo) == lz(hi) => Some(lz(lo)),
                    "cttz" if lo == hi && lo >= 0 => Some((lo as u128).trailing_zeros().min(n as u32) as i128),
                    "ctpop" if lo == hi && lo >= 0 => Some((lo as u128).count_ones() as i128),
                    _ => None,
                };
                if let Some(k) = k {
                    return one(st, Val::Int(Lin::k(k), ITy::new(32, false)));
                }
                let r = Lin::s(defsym(Def::App(name.into(), vec![l]), 0, n));
                return one(st, Val::Int(r, ITy::new(32, false)));
            }
            None
        }
        "select_unpredictable" => {
            if let Val::Disc(c) = &a[0] {
                let mut out = vec![];
                let mut s = st.clone();
                if it.assume_bool(&mut s, c, true) {
                    out.push((s, a[1].clone()));
                }
                if it.assume_bool(&mut st, c, false) {
                    out.push((st, a[2].clone()));
                }
                return Some(out);
            }
            None
        }
        "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "unchecked_add" | "unchecked_sub" | "unchecked_mul"
        | "exact_div" | "unchecked_div" | "unchecked_rem" | "unchecked_shl" | "unchecked_shr" => {
            let op = match name {
                "wrapping_add" | "unchecked_add" => BinOp::Add,
                "wrapping_sub" | "unchecked_sub" => BinOp::Sub,
                "wrapping_mul" | "unchecked_mul" => BinOp::Mul,
                "exact_div" | "unchecked_div" => BinOp::Div,
                "unchecked_rem" => BinOp::Rem,
                "unchecked_shl" => BinOp::Shl,
                _ => BinOp::Shr,
            };
            let v = it.binop(&mut st, op, &a[0], &a[1])?;
            one(st, v)
        }
        _ => None,
    }
}

fn vec_call(it: &mut Interp, cx: &CallCtx, last: &str, mut st: State) -> R {
    let pr = it.pr;
    let a = cx.args;
    let fu = it.func(cx.f);
    let p = match a.first() {
        Some(Val::Ref(p)) => Some(p.clone()),
        _ => None,
    };
    match last {
        "with_capacity" | "new" | "default" => {
            return one(st, empty_arr(pr.elem_of(fu.ret)));
        }
        "from_elem" => {
            let n = a[1].lin()?;
            return one(
                st,
                Val::Arr(Rc::new(Arr {
                    elem: pr.elem_of(fu.ret),
                    len: n.clone(),
                    segs: vec![Seg { end: n, kind: Kind::Fill(a[0].clone()) }],
                })),
            );
        }
        "into_boxed_slice" | "into_iter" => return None,
        _ => {}
    }
    let p = p?;
    let arr = arr_of(it, &mut st, &p)?;
    match last {
        "len" => one(st, usz(arr.len.clone())),
        "capacity" => {
            let c = unk(0, i64::MAX as i128, "cap");
            st.add_ge(&c.sub(&arr.len));
            one(st, usz(c))
        }
        "is_empty" => {
            let v = it.eq0(&st, &arr.len);
            one(st, Val::Disc(v))
        }
        "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" => {
            one(st, Val::Slice(p, Lin::k(0), arr.len.clone()))
        }
        "index" | "index_mut" => index(it, st, &a[0], &a[1], fu.args[1]),
        "reserve" | "reserve_exact" | "shrink_to_fit" => one(st, unit()),
        "push" => {
            let n = Lin::k(1);
            let elem_of_array = match &a[1] {
                Val::Int(l, _) => st.norm(l).as_sym().and_then(|y| match def_of(y).as_deref() {
                    Some(Def::Load(id, e, path)) if path.is_empty() => Some((*id, e.clone())),
                    _ => None,
                }),
                _ => None,
            };
            let segs = [Seg { end: n.clone(), kind: match &a[1] {
                _ if elem_of_array.is_some() => {
                    let (id, e) = elem_of_array.unwrap();
                    Kind::Src(id, e)
                }
                v @ (Val::Int(..) | Val::Disc(_)) => Kind::Fill(v.clone()),
                v => Kind::Elems(Rc::new(vec![v.clone()])),
            } }];
            append(it, &mut st, &p, &segs, &n);
            one(st, unit())
        }
        "pop" => {
            let mut out = vec![];
            let mut s = st.clone();
            if it.assume_eq(&mut s, &arr.len) {
                out.push((s, none()));
            }
            if it.assume_ge(&mut st, &arr.len.addk(-1)) {
                let i = arr.len.addk(-1);
                let v = st.get(pr, &p.push(PE::E(i.clone())), None);
                truncate(it, &mut st, &p, &i);
                out.push((st, some(v)));
            }
            Some(out)
        }
        "clear" => {
            truncate(it, &mut st, &p, &Lin::k(0));
            one(st, unit())
        }
        "truncate" => {
            let n = a[1].lin()?;
            let mut out = vec![];
            let mut s = st.clone();
            if it.assume_ge(&mut s, &n.sub(&arr.len)) {
                out.push((s, unit()));
            }
            if it.assume_ge(&mut st, &arr.len.sub(&n).addk(-1)) {
                truncate(it, &mut st, &p, &n);
                out.push((st, unit()));
            }
            Some(out)
        }
        "resize" => {
            let n = a[1].lin()?;
            let mut out = vec![];
            let mut s = st.clone();
            if it.assume_ge(&mut s, &arr.len.sub(&n).addk(-1)) {
                truncate(it, &mut s, &p, &n);
                out.push((s, unit()));
            }
            if it.assume_ge(&mut st, &n.sub(&arr.len)) {
                let d = n.sub(&arr.len);
                append(it, &mut st, &p, &[Seg { end: d.clone(), kind: Kind::Fill(a[2].clone()) }], &d);
                out.push((st, unit()));
            }
            Some(out)
        }
        "extend_from_slice" | "append_elements" => {
            let (q, s, e) = parts(it, &mut st, &a[1])?;
            let segs = it.segs_of(&mut st, &q, &s, &e);
            let n = st.norm(&e.sub(&s));
            append(it, &mut st, &p, &segs, &n);
            one(st, unit())
        }
        "extend" | "spec_extend" => {
            match &a[1] {
                Val::Slice(..) | Val::It(..) | Val::Ref(_) => {
                    if let Some((q, s, e)) = parts(it, &mut st, &a[1]) {
                        let segs = it.segs_of(&mut st, &q, &s, &e);
                        let n = st.norm(&e.sub(&s));
                        append(it, &mut st, &p, &segs, &n);
                        return one(st, unit());
                    }
                }
                _ => {}
            }
            // Any number of unknown elements.
            let n = unk(0, i64::MAX as i128 >> 1, "ext");
            append(it, &mut st, &p, &[Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }], &n);
            one(st, unit())
        }
        "append" => {
            if let Val::Ref(q) = &a[1] {
                let b = arr_of(it, &mut st, q)?;
                append(it, &mut st, &p, &b.segs, &b.len);
                truncate(it, &mut st, q, &Lin::k(0));
                return one(st, unit());
            }
            None
        }
        "drain" => None,
        "drop" => one(st, unit()),
        "clone" => one(st, Val::Arr(arr)),
        _ => None,
    }
}

fn slice_call(it: &mut Interp, cx: &CallCtx, last: &str, mut st: State) -> R {
    let pr = it.pr;
    let a = cx.args;
    let fu = it.func(cx.f);
    match last {
        "index" | "index_mut" | "get_unchecked" | "get_unchecked_mut" if cx.path.contains("SliceIndex") => {
            return index(it, st, &a[1], &a[0], fu.args[0]);
        }
        "index" | "index_mut" => return index(it, st, &a[0], &a[1], fu.args[1]),
        _ => {}
    }
    if a.is_empty() {
        return None;
    }
    let (p, s, e) = parts(it, &mut st, &a[0])?;
    let n = st.norm(&e.sub(&s));
    match last {
        "len" => one(st, usz(n)),
        "is_empty" => {
            let v = it.eq0(&st, &n);
            one(st, Val::Disc(v))
        }
        "iter" | "iter_mut" => one(st, Val::It(p, s, e)),
        "into_iter" if cx.path.contains("IntoIterator for &") => one(st, Val::It(p, s, e)),
        "new" if cx.path.starts_with("std::slice::Iter") => one(st, Val::It(p, s, e)),
        "make_slice" | "as_slice" => one(st, Val::Slice(p, s, e)),
        "copy_from_slice" | "clone_from_slice" | "copy_from_slice_impl" => {
            let (q, t, f) = parts(it, &mut st, &a[1])?;
            let m = f.sub(&t);
            if !check(it, &mut st, &n.sub(&m), "copy_from_slice lengths") {
                return Some(vec![]);
            }
            if !check(it, &mut st, &m.sub(&n), "copy_from_slice lengths") {
                return Some(vec![]);
            }
            it.copy_range(&mut st, &q, &t, &p, &s, &n);
            one(st, unit())
        }
        "copy_within" => {
            let (x, y) = range(it, &mut st, &a[1], fu.args[1], &n)?;
            let d = a[2].lin()?;
            if !check(it, &mut st, &y.sub(&x), "copy_within range")
                || !check(it, &mut st, &n.sub(&y), "copy_within range")
                || !check(it, &mut st, &n.sub(&d).sub(&y.sub(&x)), "copy_within dest")
            {
                return Some(vec![]);
            }
            it.copy_range(&mut st, &p, &s.add(&x), &p, &s.add(&d), &y.sub(&x));
            one(st, unit())
        }
        "split_at" | "split_at_mut" | "split_at_unchecked" | "split_at_mut_unchecked" => {
            let m = a[1].lin()?;
            if !check(it, &mut st, &n.sub(&m), "split_at") {
                return Some(vec![]);
            }
            let mid = st.norm(&s.add(&m));
            one(st, agg(vec![Val::Slice(p.clone(), s, mid.clone()), Val::Slice(p, mid, e)]))
        }
        "fill" => {
            let v = a[1].clone();
            if let Some(mut b) = arr_of(it, &mut st, &p) {
                let cons = st.cons.clone();
                arr_splice(&cons, Rc::make_mut(&mut b), &s, &n, &[Seg { end: n.clone(), kind: Kind::Fill(v) }]);
                st.set(pr, &p, Val::Arr(b));
                let r = it.rule.clone();
                r.vec_event(it, &mut st, &p, VecEv::Other);
                return one(st, unit());
            }
            None
        }
        "reverse" | "sort_by" | "sort" | "sort_unstable" | "sort_by_key" | "sort_unstable_by" | "sort_unstable_by_key"
        | "rotate_left" | "rotate_right" | "swap" => {
            if let Some(mut b) = arr_of(it, &mut st, &p) {
                let cons = st.cons.clone();
                arr_splice(
                    &cons,
                    Rc::make_mut(&mut b),
                    &s,
                    &n,
                    &[Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                );
                st.set(pr, &p, Val::Arr(b));
                let r = it.rule.clone();
                r.vec_event(it, &mut st, &p, VecEv::Other);
                return one(st, unit());
            }
            None
        }
        "first" | "last" => {
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_eq(&mut s1, &n) {
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &n.addk(-1)) {
                let i = if last == "first" { s } else { e.addk(-1) };
                out.push((st, some(Val::Ref(p.push(PE::E(i))))));
            }
            Some(out)
        }
        "get" | "get_mut" => {
            if let (Val::Int(i, _), true) = (&a[1], pr.ity(fu.args[1]).is_some()) {
                let mut out = vec![];
                let mut s1 = st.clone();
                if it.assume_ge(&mut s1, &i.sub(&n)) {
                    out.push((s1, none()));
                }
                if it.assume_ge(&mut st, &n.sub(i).addk(-1)) {
                    let i = st.norm(&s.add(i));
                    out.push((st, some(Val::Ref(p.push(PE::E(i))))));
                }
                return Some(out);
            }
            let (x, y) = range(it, &mut st, &a[1], fu.args[1], &n)?;
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_ge(&mut s1, &x.sub(&y).addk(-1)) {
                out.push((s1, none()));
            }
            let mut s1 = st.clone();
            if it.assume_ge(&mut s1, &y.sub(&n).addk(-1)) {
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &y.sub(&x)) && it.assume_ge(&mut st, &n.sub(&y)) {
                let (x, y) = (st.norm(&s.add(&x)), st.norm(&s.add(&y)));
                out.push((st, some(Val::Slice(p, x, y))));
            }
            Some(out)
        }
        "eq" | "ne" | "starts_with" | "ends_with" | "contains" | "equal_same_length" => {
            one(st, Val::Disc(unk(0, 1, "eq")))
        }
        "to_vec" | "to_owned" | "into_vec" => {
            let elem = arr_of(it, &mut st, &p)?.elem;
            let segs = it.segs_of(&mut st, &p, &s, &e);
            one(st, Val::Arr(Rc::new(Arr { elem, len: n, segs })))
        }
        "as_ptr" | "as_mut_ptr" => one(st, Val::Ref(p.push(PE::E(s)))),
        _ => None,
    }
}

fn iter_call(it: &mut Interp, cx: &CallCtx, last: &str, mut st: State) -> R {
    let a = cx.args;
    let fu = it.func(cx.f);
    let slot = match &a[0] {
        Val::Ref(p) => Some(p.clone()),
        _ => None,
    };
    let (p, s, e) = match deref(it, &mut st, &a[0]) {
        Val::It(p, s, e) => (p, s, e),
        _ => return None,
    };
    let n = st.norm(&e.sub(&s));
    match last {
        "next" => {
            let slot = slot?;
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_eq(&mut s1, &n) {
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &n.addk(-1)) {
                st.set(it.pr, &slot, Val::It(p.clone(), s.addk(1), e));
                out.push((st, some(Val::Ref(p.push(PE::E(s))))));
            }
            Some(out)
        }
        "next_back" => {
            let slot = slot?;
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_eq(&mut s1, &n) {
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &n.addk(-1)) {
                st.set(it.pr, &slot, Val::It(p.clone(), s, e.addk(-1)));
                out.push((st, some(Val::Ref(p.push(PE::E(e.addk(-1)))))));
            }
            Some(out)
        }
        "nth" => {
            let slot = slot?;
            let k = a[1].lin()?;
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_ge(&mut s1, &k.sub(&n)) {
                s1.set(it.pr, &slot, Val::It(p.clone(), e.clone(), e.clone()));
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &n.sub(&k).addk(-1)) {
                let i = st.norm(&s.add(&k));
                st.set(it.pr, &slot, Val::It(p.clone(), i.addk(1), e));
                out.push((st, some(Val::Ref(p.push(PE::E(i))))));
            }
            Some(out)
        }
        "size_hint" => one(st, agg(vec![usz(n.clone()), some(usz(n))])),
        "len" | "count" => one(st, usz(n)),
        "clone" => one(st, Val::It(p, s, e)),
        "as_slice" => one(st, Val::Slice(p, s, e)),
        "is_empty" => {
            let v = it.eq0(&st, &n);
            one(st, Val::Disc(v))
        }
        "advance_by" => {
            let slot = slot?;
            let k = a[1].lin()?;
            // Result<(), NonZero<usize>>
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_ge(&mut s1, &n.sub(&k)) {
                let i = s1.norm(&s.add(&k));
                s1.set(it.pr, &slot, Val::It(p.clone(), i, e.clone()));
                out.push((s1, ok(unit())));
            }
            if it.assume_ge(&mut st, &k.sub(&n).addk(-1)) {
                st.set(it.pr, &slot, Val::It(p.clone(), e.clone(), e.clone()));
                let et = match &it.pr.ty(fu.ret).kind {
                    TyKind::Adt { variants, .. } => variants.get(1).and_then(|v| v.fields.first()).map(|f| f.1),
                    _ => None,
                };
                let v = match et {
                    Some(t) => it.unknown(&mut st, t),
                    None => Val::Uninit,
                };
                out.push((st, err(v)));
            }
            Some(out)
        }
        "__iterator_get_unchecked" => {
            let k = a[1].lin()?;
            let i = st.norm(&s.add(&k));
            one(st, Val::Ref(p.push(PE::E(i))))
        }
        "max" | "min" if fu.body.is_some() => {
            let mut out = vec![];
            let mut s1 = st.clone();
            if it.assume_eq(&mut s1, &n) {
                out.push((s1, none()));
            }
            if it.assume_ge(&mut st, &n.addk(-1)) {
                let i = unk(0, i64::MAX as i128, "arg");
                st.add_ge(&i.sub(&s));
                st.add_ge(&e.sub(&i).addk(-1));
                out.push((st, some(Val::Ref(p.push(PE::E(i))))));
            }
            Some(out)
        }
        "fold" | "for_each" => fold(it, cx, st, p, s, e),
        _ => None,
    }
}

/// Iter::fold with a closure: a loop over the elements.
fn fold(it: &mut Interp, cx: &CallCtx, mut st: State, p: Ptr, s: Lin, e: Lin) -> R {
    let fu = it.func(cx.f);
    let body = fu.body.as_ref()?;
    let is_fold = cx.args.len() == 3;
    let clo = cx.args.last()?.clone();
    let clo_ty = *fu.args.last()?;
    let mut target = None;
    for bb in &body.blocks {
        if let Term::Call { callee: Callee::Fn(g), args, .. } = &bb.term {
            if let Some(t) = it.func(*g).args.first() {
                if let TyKind::Ref { to, .. } = &it.pr.ty(*t).kind {
                    if *to == clo_ty && args.len() >= 2 {
                        target = Some(*g);
                    }
                }
            }
        }
    }
    let g = target?;
    let (c1, c2) = (500 + it.cells, 501 + it.cells);
    it.cells += 2;
    let (cell, cclo) = (Ptr::root(Root::Heap(c1)), Ptr::root(Root::Heap(c2)));
    st.set_root(cclo.root, clo);
    let acc0 = if is_fold { cx.args[1].clone() } else { unit() };
    st.set_root(cell.root, agg(vec![Val::It(p, s, e), acc0]));
    let exits = it.fix(vec![st], &mut |it: &mut Interp, mut st: State| {
        let (itv, acc) = match st.get(it.pr, &cell, None) {
            Val::Agg(v) => (v[0].clone(), v.get(1).cloned().unwrap_or(Val::Uninit)),
            _ => return (vec![], vec![]),
        };
        let (p, s, e) = match itv {
            Val::It(p, s, e) => (p, s, e),
            _ => return (vec![], vec![]),
        };
        let n = e.sub(&s);
        let mut ex = vec![];
        let mut s1 = st.clone();
        if it.assume_eq(&mut s1, &n) {
            ex.push((s1, acc.clone()));
        }
        let mut back = vec![];
        if it.assume_ge(&mut st, &n.addk(-1)) {
            let el = Val::Ref(p.push(PE::E(s.clone())));
            let mut args = vec![Val::Ref(cclo.clone())];
            if is_fold {
                args.push(acc);
            }
            args.push(el);
            for (mut s2, v) in it.call(g, args, st) {
                s2.set(it.pr, &cell, agg(vec![Val::It(p.clone(), s.addk(1), e.clone()), v]));
                back.push(s2);
            }
        }
        (back, ex)
    });
    it.cells -= 2;
    let mut out = vec![];
    for (mut s, v) in exits {
        let h = Rc::make_mut(&mut s.heap);
        h.remove(&c1);
        h.remove(&c2);
        out.push((s, if is_fold { v } else { unit() }));
    }
    Some(out)
}

/// A checksum object is identified with the number of stream bytes, from the
/// start, that were fed to it; anything else makes it unknown.
fn checksum(it: &mut Interp, cx: &CallCtx, last: &str, mut st: State) -> R {
    let fu = it.func(cx.f);
    let a = cx.args;
    let token = |l: Lin| Val::Tok(l);
    match last {
        "new" | "default" if a.is_empty() => return one(st, token(Lin::k(0))),
        "from_buffer" => {
            let l = fed(it, &mut st, &Lin::k(0), &a[0]);
            return one(st, token(l));
        }
        "from_value" => {
            let l = a[0].lin()?;
            let z = st.konst(&l) == Some(1);
            return one(st, token(if z { Lin::k(0) } else { unk(-BIG, BIG, "sum") }));
        }
        _ => {}
    }
    let l = match deref(it, &mut st, a.first()?) {
        Val::Tok(l) => l,
        _ => return None,
    };
    let p = match &a[0] {
        Val::Ref(p) => p.clone(),
        _ => return None,
    };
    let app = |st: &State, f: &str| {
        let l = st.norm(&l);
        Lin::s(defsym(Def::App(f.into(), vec![l]), 0, u32::MAX as i128))
    };
    match last {
        "update_buffer" | "update" => {
            let n = match &a[1] {
                Val::Int(b, _) => {
                    let b = st.norm(b);
                    let d = b.as_sym().and_then(def_of);
                    match d.as_deref() {
                        Some(Def::Load(id, i, _)) if arr_get(*id) == ArrId::Stream && st.eq(i, &l) => l.addk(1),
                        _ => unk(-BIG, BIG, "sum"),
                    }
                }
                v => fed(it, &mut st, &l, v),
            };
            let n = st.norm(&n);
            it.write_ptr(&mut st, &p, token(n));
            one(st, unit())
        }
        "reset" => {
            it.write_ptr(&mut st, &p, token(Lin::k(0)));
            one(st, unit())
        }
        "hash" => {
            let l = app(&st, "adler");
            one(st, Val::Int(l, ITy::new(32, false)))
        }
        "sum" => {
            let l = app(&st, "crc");
            one(st, Val::Int(l, ITy::new(32, false)))
        }
        "amt_as_u32" => {
            let l = app(&st, "amt");
            one(st, Val::Int(l, ITy::new(32, false)))
        }
        "clone" => one(st, token(l)),
        _ => {
            let _ = fu;
            None
        }
    }
}

/// Number of stream bytes covered after feeding a slice to a checksum that
/// covers l bytes.
fn fed(it: &mut Interp, st: &mut State, l: &Lin, v: &Val) -> Lin {
    let (p, s, e) = match parts(it, st, v) {
        Some(x) => x,
        None => return unk(-BIG, BIG, "sum"),
    };
    let mut at = Lin::k(0);
    let mut l = l.clone();
    for g in it.segs_of(st, &p, &s, &e) {
        let n = g.end.sub(&at);
        if !st.eq(&n, &Lin::k(0)) {
            match &g.kind {
                Kind::Src(id, off) if arr_get(*id) == ArrId::Stream && st.eq(&off.add(&at), &l) => l = l.add(&n),
                _ => return unk(-BIG, BIG, "sum"),
            }
        }
        at = g.end;
    }
    l
}
