//! All histories of calls on the encoders: a fixpoint over the states an
//! encoder can be in between calls.
use crate::interp::*;
use crate::join;
use crate::lin::*;
use crate::models;
use crate::state::*;
use std::rc::Rc;
use vir::*;

pub const ENC: u32 = 1;
pub const INPUT: u32 = 2;

pub fn enc_ptr() -> Ptr {
    Ptr::root(Root::Heap(ENC))
}

pub fn root_fn(pr: &Prog, name: &str) -> Option<FnId> {
    pr.p.roots.iter().find(|r| r.0 == format!("vharness::{}", name)).map(|r| r.1)
}

pub struct Report {
    pub name: String,
    pub states: usize,
    pub ops: u64,
}

fn token(h: &str) -> Val {
    Val::Tok(Lin::s(fresh(-BIG, BIG, h)))
}

fn clear_frames(st: &mut State) {
    st.frames.clear();
    join::gc(st);
}

fn input(it: &mut Interp, st: &mut State) -> Val {
    let n = Lin::s(fresh(0, i64::MAX as i128, "N"));
    let u8t = it.pr.p.types.iter().position(|t| matches!(t.kind, TyKind::Int { bits: 8, signed: false })).unwrap();
    let (id, off) = if it.rule.content() {
        (arr_id(ArrId::Stream), st.gi("taken"))
    } else {
        (arr_tok(), Lin::k(0))
    };
    Rc::make_mut(&mut st.heap).insert(
        INPUT,
        Val::Arr(Rc::new(Arr {
            elem: u8t as u32,
            len: n.clone(),
            segs: vec![Seg { end: n.clone(), kind: Kind::Src(id, off) }],
        })),
    );
    Val::Slice(Ptr::root(Root::Heap(INPUT)), Lin::k(0), n)
}

/// The function of the library that a root of the harness calls.
fn public(pr: &Prog, f: FnId, m: &str) -> (FnId, u32) {
    let fu = &pr.p.fns[f as usize];
    let mut found = None;
    if let Some(b) = &fu.body {
        for bb in &b.blocks {
            if let Term::Call { callee: Callee::Fn(g), .. } = &bb.term {
                if pr.p.fns[*g as usize].local {
                    found = Some(*g);
                }
            }
        }
    }
    if found.is_none() {
        let t = enc_type(pr, m);
        found = pr.p.fns.iter().position(|g| g.local && g.path.ends_with("Drop>::drop") && g.args.get(0).map_or(false, |a| matches!(pr.ty(*a).kind, TyKind::Ref { to, .. } if Some(to) == t))).map(|i| i as FnId);
    }
    let g = found.unwrap_or(f);
    (g, pr.p.fns[g as usize].line)
}

/// Run one public call and report the resulting states.
pub fn op(it: &mut Interp, st: &State, m: &str, op: &str) -> Vec<(State, Val)> {
    let name = match op {
        "from_builder" => "gz_from_builder".to_string(),
        "reset_with_builder" => "gz_reset_with_builder".to_string(),
        "drop_panicking" => format!("{}::drop_encoder", m),
        "checksum" => format!("{}_checksum", m),
        o => format!("{}::{}", m, o),
    };
    let f = match root_fn(it.pr, &name) {
        Some(f) => f,
        None => return vec![],
    };
    let mut st = st.clone();
    let e = Val::Ref(enc_ptr());
    let args = match op {
        "new" | "from_builder" => {
            let fu = it.func(f);
            let mut a = vec![];
            for t in &fu.args {
                a.push(if it.pr.is_opaque_adt(*t) { token("arg") } else { it.unknown(&mut st, *t) });
            }
            a
        }
        "write" => vec![e, input(it, &mut st)],
        "flush" | "checksum" => vec![e],
        "reset" => vec![e, token("w2")],
        "reset_with_builder" => vec![e, token("w2"), token("builder")],
        "finish" | "drop_encoder" | "drop_panicking" => {
            let v = st.get(it.pr, &enc_ptr(), None);
            Rc::make_mut(&mut st.heap).remove(&ENC);
            vec![v]
        }
        _ => return vec![],
    };
    let r = it.rule.clone();
    let place = public(it.pr, f, m);
    r.op_start(it, &mut st, op, &args);
    let mut out = vec![];
    for (mut s, v) in it.call(f, args.clone(), st) {
        if op == "write" && it.rule.content() {
            if let Val::Enum(m) = &v {
                match (m.len(), m.get(&0).and_then(|x| x.get(0)).and_then(|x| x.lin())) {
                    (1, Some(n)) => {
                        let t = s.gi("taken").add(&n);
                        s.set_gi("taken", t);
                    }
                    (1, None) => {}
                    _ => s.set_gi("taken", Lin::s(fresh(0, BIG, "taken"))),
                }
            }
        }
        it.stack.push(place);
        r.op_end(it, &mut s, op, &args, &v);
        it.stack.pop();
        Rc::make_mut(&mut s.heap).remove(&INPUT);
        out.push((s, v));
    }
    out
}

pub fn variants_of(v: &Val) -> Vec<u32> {
    match v {
        Val::Enum(m) => m.keys().copied().collect(),
        _ => vec![],
    }
}

/// Run a one-shot function.
pub fn one_shot(it: &mut Interp, name: &str, ghost: &dyn Fn(&mut State)) -> Report {
    let mut n = 0;
    if let Some(f) = root_fn(it.pr, name) {
        let mut st = State::new();
        ghost(&mut st);
        let fu = it.func(f);
        let mut args = vec![];
        for (i, t) in fu.args.iter().enumerate() {
            args.push(match i {
                0 => input(it, &mut st),
                _ if it.pr.is_opaque_adt(*t) => token("arg"),
                _ => it.unknown(&mut st, *t),
            });
        }
        let r = it.rule.clone();
        let place = public(it.pr, f, name);
        r.op_start(it, &mut st, name, &args);
        for (mut s, v) in it.call(f, args.clone(), st) {
            n += 1;
            it.stack.push(place);
            r.op_end(it, &mut s, name, &args, &v);
            it.stack.pop();
        }
    }
    Report { name: name.to_string(), states: 1, ops: n }
}

/// Every call from an arbitrary state of the encoder.
pub fn anywhere(it: &mut Interp, m: &str, ghost: &dyn Fn(&mut State)) -> Report {
    let mut n = 0;
    if let Some(t) = enc_type(it.pr, m) {
        let mut st = State::new();
        ghost(&mut st);
        let v = it.unknown(&mut st, t);
        Rc::make_mut(&mut st.heap).insert(ENC, v);
        for o in ["write", "flush", "reset", "finish", "drop_encoder"] {
            n += op(it, &st, m, o).len() as u64;
        }
    }
    Report { name: m.to_string(), states: 1, ops: n }
}

/// Explore all call histories of one encoder type.
pub fn explore(it: &mut Interp, m: &str, ghost: &dyn Fn(&mut State)) -> Report {
    let mut start = State::new();
    ghost(&mut start);
    let mut entry = vec![];
    let news: &[&str] = if m == "gz" { &["new", "from_builder"] } else { &["new"] };
    let mut nops = 0;
    for n in news {
        for (mut s, v) in op(it, &start, m, n) {
            nops += 1;
            Rc::make_mut(&mut s.heap).insert(ENC, v);
            clear_frames(&mut s);
            entry.push(s);
        }
    }
    let mut seen = 0;
    let ops: &[&str] = if m == "gz" {
        &["write", "flush", "reset", "reset_with_builder"]
    } else {
        &["write", "flush", "reset"]
    };
    let mname = m.to_string();
    it.fix::<()>(entry, &mut |it: &mut Interp, s: State| {
        seen += 1;
        let mut back = vec![];
        for o in ops {
            for (mut s2, _) in op(it, &s, &mname, o) {
                nops += 1;
                clear_frames(&mut s2);
                back.push(s2);
            }
        }
        let sums: &[&str] = if it.rule.content() { &["checksum"] } else { &[] };
        for o in ["finish", "drop_encoder", "drop_panicking"].iter().chain(sums) {
            nops += op(it, &s, &mname, o).len() as u64;
        }
        if std::env::var("VPROG").is_ok() {
            eprintln!("{} round {}: {} back states, {} blocks, {} syms", mname, seen, back.len(), it.log.blocks, nsyms());
        }
        (back, vec![])
    });
    let _ = models::none();
    Report { name: m.to_string(), states: seen, ops: nops }
}

/// Type at the end of a pointer's path, and of its parent.
pub fn ptr_types(it: &Interp, st: &State, p: &Ptr, enc_ty: Option<TyId>) -> Option<(TyId, Option<TyId>, Option<u32>)> {
    let mut t = match p.root {
        Root::Local(d, l) => {
            let f = st.frames.get(d as usize)?.f;
            it.func(f).body.as_ref()?.locals[l as usize]
        }
        Root::Heap(ENC) => enc_ty?,
        Root::Heap(h) => match id_ty(h) {
            Some(t) => t,
            None => *it.heap_ty.get(&h)?,
        },
    };
    if t as usize >= it.pr.p.types.len() && !p.path.is_empty() {
        return None;
    }
    let mut parent = None;
    let mut field = None;
    let mut var = 0;
    for e in p.path.iter() {
        match e {
            PE::V(k) => var = *k,
            PE::F(i) => {
                parent = Some(t);
                field = Some(*i);
                if t as usize >= it.pr.p.types.len() {
                    return None;
                }
                t = it.pr.field_ty(t, var, *i)?;
                var = 0;
            }
            PE::E(_) => {
                parent = Some(t);
                field = None;
                t = it.pr.elem_of(t);
                var = 0;
            }
        }
    }
    Some((t, parent, field))
}

/// Type of the encoder explored under module m.
pub fn enc_type(pr: &Prog, m: &str) -> Option<TyId> {
    root_fn(pr, &format!("{}::new", m)).map(|f| pr.p.fns[f as usize].ret)
}
