//! Abstract interpreter for monomorphic MIR.
use crate::join::*;
use crate::lin::*;
use crate::state::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use vir::*;

pub enum W {
    Block(Block),
    Comp(Block, Vec<W>),
}

pub struct FnInfo {
    pub wto: Vec<W>,
    /// Locals live on entry to each block (or whose address is taken).
    pub live: Vec<Vec<bool>>,
    pub nargs: usize,
}

/// Violations found so far, for a run that is stopped early.
pub static FOUND: std::sync::Mutex<std::collections::BTreeMap<String, Violation>> = std::sync::Mutex::new(std::collections::BTreeMap::new());

#[derive(Clone, Debug)]
pub struct Violation {
    pub func: String,
    pub file: String,
    pub line: u32,
    pub what: String,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct Log {
    pub violations: BTreeMap<String, Violation>,
    pub havocs: BTreeMap<String, u64>,
    pub lost: BTreeMap<String, u64>,
    pub fns: BTreeSet<FnId>,
    pub calls: u64,
    pub blocks: u64,
    pub joins: u64,
    pub loops: u64,
    pub obligations: BTreeMap<String, u64>,
    pub sites: BTreeMap<String, u64>,
    pub notes: Vec<String>,
    pub gave_up: BTreeMap<String, u64>,
    pub contracts: BTreeSet<String>,
}

impl Log {
    pub fn add(&mut self, o: Log) {
        fn sum(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
            for (k, v) in b {
                *a.entry(k).or_default() += v;
            }
        }
        for (k, v) in o.violations {
            self.violations.entry(k).or_insert(v);
        }
        sum(&mut self.havocs, o.havocs);
        sum(&mut self.lost, o.lost);
        sum(&mut self.obligations, o.obligations);
        sum(&mut self.sites, o.sites);
        sum(&mut self.gave_up, o.gave_up);
        self.fns.extend(o.fns);
        self.contracts.extend(o.contracts);
        self.notes.extend(o.notes);
        self.calls += o.calls;
        self.blocks += o.blocks;
        self.joins += o.joins;
        self.loops += o.loops;
    }
}

pub struct CallCtx<'b> {
    pub f: FnId,
    pub name: &'b str,
    pub path: &'b str,
    pub args: &'b [Val],
}

pub enum VecEv<'b> {
    /// Elements appended at the end.
    Append(&'b [Seg], &'b Lin),
    /// Shortened to the given length.
    Truncate(&'b Lin),
    /// Anything else.
    Other,
}

pub trait Rule {
    /// A type whose contents the property talks about.
    fn interesting(&self, adt: &str) -> bool;
    /// Functions that are never entered.
    fn force_opaque(&self, _name: &str) -> bool {
        false
    }
    /// Types whose contents matter: functions given one are entered.
    fn enter(&self, _adt: &str) -> bool {
        false
    }
    fn call(&self, _it: &mut Interp, _c: &CallCtx, _st: &State) -> Option<Vec<(State, Val)>> {
        None
    }
    fn ret(&self, _it: &mut Interp, _f: FnId, _args: &[Val], _st: &mut State, _v: &Val) {}
    fn vec_event(&self, _it: &mut Interp, _st: &mut State, _p: &Ptr, _ev: VecEv) {}
    fn panic(&self, _it: &mut Interp, _st: &State, _msg: &str) {}
    fn store(&self, _it: &mut Interp, _st: &mut State, _p: &Ptr, _v: &Val) {}
    fn dropped(&self, _it: &mut Interp, _st: &mut State, _p: &Ptr, _ty: TyId) {}
    /// Cases to be kept apart at the head of a loop.
    fn split(&self, _it: &mut Interp, st: State) -> Vec<State> {
        vec![st]
    }
    fn soft(&self) -> bool {
        false
    }
    fn bv(&self) -> bool {
        false
    }
    fn equiv(&self) -> bool {
        false
    }
    /// A call of the public interface starts or has returned.
    fn op_start(&self, _it: &mut Interp, _st: &mut State, _op: &str, _args: &[Val]) {}
    fn op_end(&self, _it: &mut Interp, _st: &mut State, _op: &str, _args: &[Val], _ret: &Val) {}
    /// Track the input stream position in the ghost "taken".
    fn content(&self) -> bool {
        false
    }
    /// Also for functions that can only append to the output.
    fn summarise(&self) -> bool {
        true
    }
    /// Use summaries of functions.
    fn contracts(&self) -> bool {
        false
    }
    /// Functions to be followed in any case.
    fn wants(&self, _pr: &Prog, _fu: &Func) -> bool {
        false
    }
}

pub struct Loc {
    pub ptr: Ptr,
    pub sl: Option<(Lin, Lin)>,
}

pub struct Interp<'a> {
    /// How many rounds of a loop to follow without merging.
    pub unroll: u32,
    /// How many states at once unrolled loops may have.
    pub paths: usize,
    pub modes: HashMap<(FnId, Vec<Option<i128>>), Option<Rc<Vec<crate::contract::Mode>>>>,
    pub pr: &'a Prog,
    pub rule: Rc<dyn Rule>,
    pub info: HashMap<FnId, Rc<FnInfo>>,
    pub opaque: HashMap<FnId, bool>,
    pub reach_local: HashMap<FnId, bool>,
    pub log: Log,
    pub stack: Vec<(FnId, u32)>,
    pub heap_ty: HashMap<u32, TyId>,
    pub consts: HashMap<usize, u32>,
    /// Fixed cells for loops run by the models.
    pub cells: u32,
    pub contracts: HashMap<FnId, Option<Rc<crate::contract::Contract>>>,
    pub mute: u32,
    pub trace: bool,
    pub publish: bool,
}

pub fn bool_val(l: Lin) -> Val {
    Val::Disc(l)
}
pub fn unit() -> Val {
    Val::Agg(Rc::new(vec![]))
}
pub fn usz(l: Lin) -> Val {
    Val::Int(l, USIZE)
}
pub fn agg(v: Vec<Val>) -> Val {
    Val::Agg(Rc::new(v))
}
pub fn variant(k: u32, v: Vec<Val>) -> Val {
    let mut m = BTreeMap::new();
    m.insert(k, Rc::new(v));
    Val::Enum(Rc::new(m))
}

impl Val {
    pub fn lin(&self) -> Option<Lin> {
        match self {
            Val::Int(l, _) | Val::Disc(l) | Val::Tok(l) => Some(l.clone()),
            _ => None,
        }
    }
}

impl<'a> Interp<'a> {
    pub fn new(pr: &'a Prog, rule: Rc<dyn Rule>) -> Interp<'a> {
        Interp {
            unroll: 0,
            paths: 8,
            modes: Default::default(),
            pr,
            rule,
            info: HashMap::new(),
            opaque: HashMap::new(),
            reach_local: HashMap::new(),
            log: Log::default(),
            stack: vec![],
            heap_ty: HashMap::new(),
            consts: HashMap::new(),
            cells: 0,
            contracts: HashMap::new(),
            mute: 0,
            trace: std::env::var("VTRACE").is_ok(),
            publish: true,
        }
    }

    pub fn site(&self) -> (String, String, u32) {
        for (f, l) in self.stack.iter().rev() {
            let fu = &self.pr.p.fns[*f as usize];
            if fu.local {
                let file = self.pr.p.files.get(fu.file as usize).cloned().unwrap_or_default();
                return (fu.name.clone(), file, *l);
            }
        }
        match self.stack.last() {
            Some((f, l)) => {
                let fu = &self.pr.p.fns[*f as usize];
                (fu.name.clone(), self.pr.p.files.get(fu.file as usize).cloned().unwrap_or_default(), *l)
            }
            None => ("<entry>".into(), "".into(), 0),
        }
    }

    pub fn violation(&mut self, what: &str) {
        if self.mute > 0 {
            return;
        }
        let (func, file, line) = self.site();
        let key = format!("{}|{}|{}", func, line, what);
        let stack = self
            .stack
            .iter()
            .map(|(f, l)| format!("{}:{}", self.pr.p.fns[*f as usize].name, l))
            .collect();
        let v = Violation { func, file, line, what: what.to_string(), stack };
        if self.publish {
            FOUND.lock().unwrap().entry(key.clone()).or_insert_with(|| v.clone());
        }
        self.log.violations.entry(key).or_insert(v);
    }
    pub fn detail(&self, st: &State, vals: &[(&str, &Lin)]) {
        if self.mute == 0 && std::env::var("VDETAIL").is_ok() {
            eprintln!("  at {:?}", self.site());
            for (n, l) in vals {
                eprintln!("     {} = {}", n, brief(&Val::Disc((*l).clone()), &st.cons));
            }
            if let Some(v) = st.heap.get(&1) {
                eprintln!("     enc = {}", brief(v, &st.cons));
            }
            if st.heap.get(&1).is_none() {
                for (h, v) in st.heap.iter().take(12) {
                    eprintln!("     heap {} = {}", h, brief(v, &st.cons).chars().take(900).collect::<String>());
                }
            }
            for (eq, l) in st.cons.list() {
                eprintln!("        {} {}", show(&l), if eq { "= 0" } else { ">= 0" });
            }
        }
    }
    pub fn obligation(&mut self, what: &str) {
        if self.mute == 0 {
            *self.log.obligations.entry(what.to_string()).or_default() += 1;
            let (f, file, l) = self.site();
            let file = file.rsplit("/repo/").next().unwrap_or("").to_string();
            *self.log.sites.entry(format!("{} @ {}:{} {}", what, file, l, f)).or_default() += 1;
        }
    }
    pub fn lost(&mut self, what: &str) {
        let (f, _, l) = self.site();
        *self.log.lost.entry(format!("{} at {}:{}", what, f, l)).or_default() += 1;
    }

    pub fn func(&self, f: FnId) -> &'a Func {
        &self.pr.p.fns[f as usize]
    }

    // ---------------------------------------------------------------- places

    pub fn place_ty(&self, body: &Body, p: &Place) -> Option<TyId> {
        let mut t = body.locals[p.local as usize];
        for e in &p.proj {
            t = match e {
                Proj::Field(_, ty) => *ty,
                Proj::Downcast(_) => t,
                Proj::Deref => match &self.pr.ty(t).kind {
                    TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                    TyKind::Adt { args, .. } if self.pr.is_box(t) => args[0],
                    _ => return None,
                },
                Proj::Index(_) | Proj::ConstIndex { .. } => match &self.pr.ty(t).kind {
                    TyKind::Array { elem, .. } | TyKind::Slice(elem) => *elem,
                    _ => return None,
                },
                Proj::Subslice { .. } => t,
            };
        }
        Some(t)
    }

    pub fn body(&self, st: &State) -> &'a Body {
        let f = st.frames.last().unwrap().f;
        self.func(f).body.as_ref().unwrap()
    }

    /// Resolve a place to a location. None: unknown memory.
    pub fn place(&mut self, st: &mut State, p: &Place) -> Option<Loc> {
        let d = (st.frames.len() - 1) as u32;
        let body = self.body(st);
        let mut ptr = Ptr::root(Root::Local(d, p.local));
        let mut sl: Option<(Lin, Lin)> = None;
        let mut ty = Some(body.locals[p.local as usize]);
        for (pi, e) in p.proj.iter().enumerate() {
            match e {
                Proj::Deref => {
                    let v = st.get(self.pr, &ptr, ty);
                    match v {
                        Val::Ref(q) => {
                            ptr = q;
                            sl = None;
                        }
                        Val::Slice(q, s, e) => {
                            ptr = q;
                            sl = Some((s, e));
                        }
                        _ => return None,
                    }
                }
                Proj::Field(i, _) => {
                    ptr = ptr.push(PE::F(*i));
                }
                Proj::Downcast(k) => {
                    ptr = ptr.push(PE::V(*k));
                }
                Proj::Index(l) => {
                    let i = match st.get(self.pr, &Ptr::root(Root::Local(d, *l)), Some(body.locals[*l as usize])) {
                        Val::Int(i, _) => i,
                        _ => return None,
                    };
                    let i = match &sl {
                        Some((s, _)) => i.add(s),
                        None => i,
                    };
                    ptr = ptr.push(PE::E(st.norm(&i)));
                    sl = None;
                }
                Proj::ConstIndex { offset, from_end } => {
                    let (s, e) = match &sl {
                        Some(x) => x.clone(),
                        None => {
                            let n = match &self.pr.ty(ty?).kind {
                                TyKind::Array { len, .. } => *len as i128,
                                _ => return None,
                            };
                            (Lin::k(0), Lin::k(n))
                        }
                    };
                    let i = if *from_end { e.addk(-(*offset as i128)) } else { s.addk(*offset as i128) };
                    ptr = ptr.push(PE::E(i));
                    sl = None;
                }
                Proj::Subslice { from, to, from_end } => {
                    let (s, e) = match &sl {
                        Some(x) => x.clone(),
                        None => return None,
                    };
                    let ne = if *from_end { e.addk(-(*to as i128)) } else { s.addk(*to as i128) };
                    sl = Some((s.addk(*from as i128), ne));
                }
            }
            let sub = Place { local: p.local, proj: p.proj[..=pi].to_vec() };
            ty = self.place_ty(body, &sub);
        }
        Some(Loc { ptr, sl })
    }

    pub fn read(&mut self, st: &mut State, p: &Place) -> Val {
        let body = self.body(st);
        let ty = self.place_ty(body, p);
        match self.place(st, p) {
            Some(l) => {
                if l.sl.is_some() {
                    // A whole unsized slice by value cannot be read.
                    return Val::Uninit;
                }
                st.get(self.pr, &l.ptr, ty)
            }
            None => match ty {
                Some(t) => self.unknown(st, t),
                None => Val::Uninit,
            },
        }
    }

    pub fn write(&mut self, st: &mut State, p: &Place, v: Val) {
        match self.place(st, p) {
            Some(l) => self.write_ptr(st, &l.ptr, v),
            None => self.lost("write through an unresolved pointer"),
        }
    }
    pub fn write_ptr(&mut self, st: &mut State, p: &Ptr, v: Val) {
        let r = self.rule.clone();
        r.store(self, st, p, &v);
        st.set(self.pr, p, v);
    }

    pub fn unknown(&mut self, st: &mut State, t: TyId) -> Val {
        let mut heap = std::mem::take(Rc::make_mut(&mut st.heap));
        let before: Vec<u32> = heap.keys().copied().collect();
        let v = expand_full(self.pr, &mut heap, t, 0);
        let _ = before;
        st.heap = Rc::new(heap);
        v
    }

    pub fn alloc(&mut self, st: &mut State, ty: TyId, v: Val) -> Ptr {
        let heap = Rc::make_mut(&mut st.heap);
        let h = new_id(heap, ty);
        heap.insert(h, v);
        Ptr::root(Root::Heap(h))
    }

    // -------------------------------------------------------------- operands

    pub fn operand(&mut self, st: &mut State, o: &Operand) -> Val {
        match o {
            Operand::Copy(p) => self.read(st, p),
            Operand::Move(p) => {
                let v = self.read(st, p);
                if p.proj.is_empty() {
                    let d = (st.frames.len() - 1) as u32;
                    st.set_root(Root::Local(d, p.local), Val::Uninit);
                }
                v
            }
            Operand::Const(t, c) => self.konst(st, *t, c),
            Operand::Checks(k) => Val::Disc(Lin::k(if *k == 2 { 1 } else { 0 })),
        }
    }
    pub fn operand_ty(&self, st: &State, o: &Operand) -> Option<TyId> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place_ty(self.body(st), p),
            Operand::Const(t, _) => Some(*t),
            _ => None,
        }
    }

    fn ints(&self, c: &Const, t: TyId) -> Option<i128> {
        let it = self.pr.ity(t)?;
        match c {
            Const::Int(n) => Some(to_signed(*n, it)),
            _ => None,
        }
    }

    pub fn konst(&mut self, st: &mut State, t: TyId, c: &Const) -> Val {
        let pr = self.pr;
        if pr.is_ioerr(t) {
            let k = self.const_err_kind(c);
            return match k {
                Some(k) => Val::Disc(Lin::k(k as i128)),
                None => Val::Disc(Lin::s(fresh(0, 43, "errkind"))),
            };
        }
        if pr.is_vec(t) {
            if !matches!(c, Const::Unknown) {
                return Val::Arr(Rc::new(Arr { elem: pr.elem_of(t), len: Lin::k(0), segs: vec![] }));
            }
            return self.unknown(st, t);
        }
        match c {
            Const::Int(n) => {
                if matches!(pr.ty(t).kind, TyKind::Bool) {
                    return Val::Disc(Lin::k(*n as i128));
                }
                match pr.ity(t) {
                    Some(it) => Val::Int(Lin::k(to_signed(*n, it)), it),
                    None => match &pr.ty(t).kind {
                        // transparent wrappers, pattern types
                        TyKind::Adt { .. } => self.unknown(st, t),
                        _ => self.unknown(st, t),
                    },
                }
            }
            Const::Agg(v) => match &pr.ty(t).kind {
                TyKind::Array { elem, .. } => self.const_arr(st, *elem, v),
                TyKind::Slice(elem) => self.const_arr(st, *elem, v),
                _ => {
                    let mut o = vec![];
                    for (i, x) in v.iter().enumerate() {
                        match pr.field_ty(t, 0, i as u32) {
                            Some(ft) => o.push(self.konst(st, ft, x)),
                            None => o.push(Val::Uninit),
                        }
                    }
                    agg(o)
                }
            },
            Const::Enum(k, v) => {
                if pr.cenum[t as usize] {
                    return Val::Disc(Lin::k(*k as i128));
                }
                let mut o = vec![];
                for (i, x) in v.iter().enumerate() {
                    match pr.field_ty(t, *k, i as u32) {
                        Some(ft) => o.push(self.konst(st, ft, x)),
                        None => o.push(Val::Uninit),
                    }
                }
                variant(*k, o)
            }
            Const::Bytes(b) => {
                let elem = pr.elem_of(t);
                let v: Vec<Const> = b.iter().map(|x| Const::Int(*x as u128)).collect();
                self.const_arr(st, elem, &v)
            }
            Const::Ref(inner) | Const::StaticRef(_, inner) => {
                let to = match &pr.ty(t).kind {
                    TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => *to,
                    _ => return self.unknown(st, t),
                };
                if let Const::Str(_) = **inner {
                    return Val::Str;
                }
                let empty = matches!(&**inner, Const::Slice(v) | Const::Agg(v) if v.is_empty())
                    || matches!(&**inner, Const::Bytes(v) if v.is_empty());
                // All empty constants share one place per type.
                let key = if empty { to as usize } else { &**inner as *const Const as usize };
                let n = CONSTS + self.consts.len() as u32;
                let h = *self.consts.entry(key).or_insert(n);
                if !st.heap.contains_key(&h) {
                    let v = self.konst(st, to, inner);
                    Rc::make_mut(&mut st.heap).insert(h, v);
                    self.heap_ty.insert(h, to);
                }
                let p = Ptr::root(Root::Heap(h));
                match (&**inner, &pr.ty(to).kind) {
                    (_, TyKind::Slice(_)) => {
                        let n = match &**inner {
                            Const::Slice(v) | Const::Agg(v) => v.len(),
                            Const::Bytes(b) => b.len(),
                            _ => 0,
                        };
                        Val::Slice(p, Lin::k(0), Lin::k(n as i128))
                    }
                    _ => Val::Ref(p),
                }
            }
            Const::Slice(v) => {
                let elem = match &pr.ty(t).kind {
                    TyKind::Slice(e) => *e,
                    TyKind::Ref { to, .. } => pr.elem_of(*to),
                    _ => return self.unknown(st, t),
                };
                self.const_arr(st, elem, v)
            }
            Const::Str(_) => Val::Str,
            Const::Fn(f) => Val::Fn(*f),
            Const::Zst => match &pr.ty(t).kind {
                TyKind::FnDef(Some(f)) => Val::Fn(*f),
                _ => agg(vec![]),
            },
            Const::Unknown => match &pr.ty(t).kind {
                TyKind::FnDef(Some(f)) => Val::Fn(*f),
                _ => self.unknown(st, t),
            },
        }
    }
    fn const_err_kind(&self, c: &Const) -> Option<u32> {
        // Repr is a tagged pointer; a "simple message" constant points to
        // { message, kind }.  Find the kind by shape.
        fn find(pr: &Prog, c: &Const, out: &mut Vec<u32>) {
            match c {
                Const::Enum(k, v) if v.is_empty() => out.push(*k),
                Const::Agg(v) | Const::Enum(_, v) | Const::Slice(v) => v.iter().for_each(|x| find(pr, x, out)),
                Const::Ref(x) | Const::StaticRef(_, x) => find(pr, x, out),
                _ => {}
            }
        }
        let mut o = vec![];
        find(self.pr, c, &mut o);
        if o.len() == 1 {
            Some(o[0])
        } else {
            None
        }
    }
    fn const_arr(&mut self, st: &mut State, elem: TyId, v: &[Const]) -> Val {
        let n = Lin::k(v.len() as i128);
        if v.is_empty() {
            return Val::Arr(Rc::new(Arr { elem, len: n, segs: vec![] }));
        }
        if let Some(ints) = v.iter().map(|c| self.ints(c, elem)).collect::<Option<Vec<i128>>>() {
            let kind = if ints.iter().all(|x| *x == ints[0]) {
                Kind::Fill(Val::Int(Lin::k(ints[0]), self.pr.ity(elem).unwrap()))
            } else if ints.len() <= 2 {
                let it = self.pr.ity(elem).unwrap();
                Kind::Elems(Rc::new(ints.iter().map(|x| Val::Int(Lin::k(*x), it)).collect()))
            } else {
                Kind::Src(arr_id(ArrId::Const(ints)), Lin::k(0))
            };
            return Val::Arr(Rc::new(Arr { elem, len: n.clone(), segs: vec![Seg { end: n, kind }] }));
        }
        let mut o = vec![];
        for c in v {
            o.push(self.konst(st, elem, c));
        }
        Val::Arr(Rc::new(Arr { elem, len: n.clone(), segs: vec![Seg { end: n, kind: Kind::Elems(Rc::new(o)) }] }))
    }

    // ------------------------------------------------------------ conditions

    /// Restrict the state; false if it became empty.
    pub fn assume_ge(&self, st: &mut State, l: &Lin) -> bool {
        let l = st.norm(l);
        if st.cons.entails_ge(&l.neg().addk(-1)) {
            return false;
        }
        if !st.cons.entails_ge(&l) {
            st.add_ge(&l);
        }
        !st.cons.bot
    }
    pub fn assume_eq(&self, st: &mut State, l: &Lin) -> bool {
        let l = st.norm(l);
        if let Some(c) = l.is_k() {
            return c == 0;
        }
        if st.cons.entails_ge(&l.addk(-1)) || st.cons.entails_ge(&l.neg().addk(-1)) {
            return false;
        }
        // A defined boolean that becomes constant also fixes its meaning.
        if l.t.len() == 1 {
            let (s, a) = l.t[0];
            if l.c % a == 0 {
                let v = -l.c / a;
                if let Some(d) = def_of(s) {
                    if matches!(*d, Def::Ge0(_) | Def::Eq0(_) | Def::And(..) | Def::Or(..)) {
                        return self.assume_bool(st, &Lin::s(s), v == 1);
                    }
                }
            }
        }
        st.add_eq(&l);
        !st.cons.bot
    }
    pub fn assume_ne(&self, st: &mut State, l: &Lin) -> bool {
        let l = st.norm(l);
        if let Some(c) = l.is_k() {
            return c != 0;
        }
        if st.cons.entails_ge(&l) {
            st.add_ge(&l.addk(-1));
        } else if st.cons.entails_ge(&l.neg()) {
            st.add_ge(&l.neg().addk(-1));
        }
        !st.cons.bot
    }
    pub fn assume_bool(&self, st: &mut State, l: &Lin, v: bool) -> bool {
        let l = st.norm(l);
        if let Some(c) = l.is_k() {
            return (c != 0) == v;
        }
        if l.t.len() == 1 {
            let (s, a) = l.t[0];
            // 1 - s
            let (s, v) = if a == 1 && l.c == 0 {
                (s, v)
            } else if a == -1 && l.c == 1 {
                (s, !v)
            } else {
                return if v { self.assume_eq(st, &l.addk(-1)) } else { self.assume_eq(st, &l) };
            };
            if let Some(d) = def_of(s) {
                let ok = match (&*d, v) {
                    (Def::Ge0(x), true) => self.assume_ge(st, x),
                    (Def::Ge0(x), false) => self.assume_ge(st, &x.neg().addk(-1)),
                    (Def::Eq0(x), true) => self.assume_eq(st, x),
                    (Def::Eq0(x), false) => self.assume_ne(st, x),
                    (Def::And(a, b), true) => self.assume_bool(st, a, true) && self.assume_bool(st, b, true),
                    (Def::Or(a, b), false) => self.assume_bool(st, a, false) && self.assume_bool(st, b, false),
                    (Def::And(a, b), false) => {
                        if st.konst(a) == Some(1) {
                            self.assume_bool(st, b, false)
                        } else if st.konst(b) == Some(1) {
                            self.assume_bool(st, a, false)
                        } else {
                            true
                        }
                    }
                    (Def::Or(a, b), true) => {
                        if st.konst(a) == Some(0) {
                            self.assume_bool(st, b, true)
                        } else if st.konst(b) == Some(0) {
                            self.assume_bool(st, a, true)
                        } else {
                            true
                        }
                    }
                    _ => true,
                };
                if !ok {
                    return false;
                }
            }
            let cur = st.norm(&Lin::s(s));
            if let Some(c) = cur.is_k() {
                return c == v as i128;
            }
            st.add_eq(&cur.addk(-(v as i128)));
            return !st.cons.bot;
        }
        st.add_eq(&l.addk(-(v as i128)));
        !st.cons.bot
    }

    pub fn ge0(&self, st: &State, l: &Lin) -> Lin {
        let l = st.norm(l);
        if st.ge(&l) {
            return Lin::k(1);
        }
        if st.ge(&l.neg().addk(-1)) {
            return Lin::k(0);
        }
        Lin::s(defsym(Def::Ge0(l), 0, 1))
    }
    pub fn eq0(&self, st: &State, l: &Lin) -> Lin {
        let l = st.norm(l);
        if let Some(c) = l.is_k() {
            return Lin::k((c == 0) as i128);
        }
        let (p, n) = (st.ge(&l), st.ge(&l.neg()));
        if p && n {
            return Lin::k(1);
        }
        if st.ge(&l.addk(-1)) || st.ge(&l.neg().addk(-1)) {
            return Lin::k(0);
        }
        let l = if l.t[0].1 < 0 { l.neg() } else { l };
        Lin::s(defsym(Def::Eq0(l), 0, 1))
    }

    // ------------------------------------------------------------ arithmetic

    /// Bring an exact result into the range of the type.
    pub fn wrap(&self, st: &mut State, l: Lin, t: ITy) -> Lin {
        let (lo, hi) = t.range();
        let l = st.norm(&l);
        if st.ge(&l.addk(-lo)) && st.ge(&l.neg().addk(hi)) {
            return l;
        }
        if t.signed() || t.bits() >= 100 {
            return Lin::s(defsym(Def::App(format!("wrap{:?}", t).into(), vec![l]), lo, hi));
        }
        let n = t.bits();
        // One wrap, if the interval is small enough to decide.
        let m = 1i128 << n;
        if st.ge(&l.addk(m)) && st.ge(&l.neg().addk(-1)) {
            return l.addk(m);
        }
        if st.ge(&l.addk(-m)) && st.ge(&l.neg().addk(2 * m - 1)) {
            return l.addk(-m);
        }
        self.modulo(st, &l, n)
    }
    pub fn modulo(&self, st: &mut State, l: &Lin, n: u32) -> Lin {
        let m = 1i128 << n;
        // (x mod 2^k) with k >= n is transparent; multiples of 2^n vanish.
        let mut e = Lin::k(l.c);
        for &(s, a) in &l.t {
            let mut done = false;
            if let Some(d) = def_of(s) {
                if let Def::Mod(i, k) = &*d {
                    if *k >= n {
                        e = e.add(&i.scale(a));
                        done = true;
                    }
                }
            }
            if !done {
                e = e.add(&Lin::s(s).scale(a));
            }
        }
        let e = st.norm(&e);
        let mut r = Lin::k(e.c.rem_euclid(m));
        for &(s, a) in &e.t {
            let b = a.rem_euclid(m);
            if b != 0 {
                // keep small negative coefficients readable
                let b = if b > m / 2 { b - m } else { b };
                r = r.add(&Lin::s(s).scale(b));
            }
        }
        // Shift by a multiple of m when that makes it fit.
        let (lo, hi) = st.cons.interval(&r);
        if lo > -BIG && hi < BIG {
            let k = lo.div_euclid(m);
            if hi.div_euclid(m) == k {
                return r.addk(-k * m);
            }
        }
        if st.ge(&r) && st.ge(&r.neg().addk(m - 1)) {
            return r;
        }
        Lin::s(defsym(Def::Mod(r, n), 0, m - 1))
    }
    pub fn div_const(&self, st: &mut State, l: &Lin, k: i128) -> Lin {
        let l = st.norm(l);
        if k == 1 {
            return l;
        }
        if l.c.rem_euclid(k) == 0 && l.t.iter().all(|x| x.1 % k == 0) {
            return Lin { c: l.c / k, t: l.t.iter().map(|x| (x.0, x.1 / k)).collect() };
        }
        let (lo, hi) = st.cons.interval(&l);
        let f = |v: i128| if v.abs() >= BIG { v } else { v.div_euclid(k) };
        if lo > -BIG && hi < BIG && f(lo) == f(hi) {
            return Lin::k(f(lo));
        }
        let q = Lin::s(defsym(Def::Div(l.clone(), k), f(lo).max(-BIG), f(hi).min(BIG)));
        // k q <= l <= k q + k - 1
        st.add_ge(&l.sub(&q.scale(k)));
        st.add_ge(&q.scale(k).sub(&l).addk(k - 1));
        q
    }
    fn appl(&self, st: &State, name: &str, args: Vec<Lin>, lo: i128, hi: i128) -> Lin {
        let args = args.iter().map(|a| st.norm(a)).collect();
        Lin::s(defsym(Def::App(name.into(), args), lo, hi))
    }

    /// Exact (unwrapped) result where representable, and the type.
    pub fn arith(&mut self, st: &mut State, op: BinOp, a: &Lin, b: &Lin, t: ITy) -> (Lin, bool) {
        use BinOp::*;
        let (tlo, thi) = t.range();
        let a = st.norm(a);
        let b = st.norm(b);
        let (al, ah) = st.cons.interval(&a);
        let (bl, bh) = st.cons.interval(&b);
        let sat = |x: i128| x.clamp(-BIG, BIG);
        match op {
            Add | AddUnchecked => (a.add(&b), true),
            Sub | SubUnchecked => (a.sub(&b), true),
            Mul | MulUnchecked => {
                if let Some(k) = b.is_k() {
                    return (a.scale(k), true);
                }
                if let Some(k) = a.is_k() {
                    return (b.scale(k), true);
                }
                let c = [
                    al.saturating_mul(bl),
                    al.saturating_mul(bh),
                    ah.saturating_mul(bl),
                    ah.saturating_mul(bh),
                ];
                let (x, y) = if a <= b { (a, b) } else { (b, a) };
                (
                    self.appl(st, "mul", vec![x, y], sat(*c.iter().min().unwrap()), sat(*c.iter().max().unwrap())),
                    true,
                )
            }
            Div => match b.is_k() {
                Some(k) if k > 0 && al >= 0 => (self.div_const(st, &a, k), true),
                _ => (self.appl(st, "div", vec![a, b], if al >= 0 { 0 } else { tlo }, if al >= 0 { ah } else { thi }), true),
            },
            Rem => match b.is_k() {
                Some(k) if k > 0 && al >= 0 => {
                    let q = self.div_const(st, &a, k);
                    (a.sub(&q.scale(k)), true)
                }
                _ => {
                    let hi = if al >= 0 && bl >= 0 { ah.min(bh) } else { thi };
                    (self.appl(st, "rem", vec![a, b], if al >= 0 { 0 } else { tlo }, hi), true)
                }
            },
            BitAnd => {
                let (a, b) = if a.is_k().is_some() { (b, a) } else { (a, b) };
                if let Some(k) = b.is_k() {
                    if let Some(x) = a.is_k() {
                        return (Lin::k(x & k), true);
                    }
                    if k == 0 {
                        return (Lin::k(0), true);
                    }
                    if st.cons.interval(&a).0 >= 0 || !t.signed() {
                        if k > 0 && (k + 1) & k == 0 {
                            let m = k + 1;
                            let q = self.div_const(st, &a, m);
                            return (a.sub(&q.scale(m)), true);
                        }
                        // clear the low bits
                        let full = thi;
                        let inv = full - k;
                        if k >= 0 && inv >= 0 && (inv + 1) & inv == 0 {
                            let q = self.div_const(st, &a, inv + 1);
                            return (q.scale(inv + 1), true);
                        }
                    }
                    return (self.appl(st, "and", vec![a, b], if t.signed() { tlo } else { 0 }, if k >= 0 { k } else { thi }), true);
                }
                let hi = if al >= 0 && bl >= 0 { ah.min(bh) } else { thi };
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                (self.appl(st, "and", vec![a, b], if al >= 0 || bl >= 0 { 0 } else { tlo }, hi), true)
            }
            BitOr | BitXor => {
                if b.is_k() == Some(0) {
                    return (a, true);
                }
                if a.is_k() == Some(0) {
                    return (b, true);
                }
                if let (Some(x), Some(y)) = (a.is_k(), b.is_k()) {
                    return (Lin::k(if op == BitOr { x | y } else { x ^ y }), true);
                }
                if op == BitXor && a == b {
                    return (Lin::k(0), true);
                }
                let hi = if al >= 0 && bl >= 0 && ah < BIG && bh < BIG {
                    let m = ah.max(bh);
                    let mut p = 1i128;
                    while p <= m {
                        p <<= 1;
                    }
                    p - 1
                } else {
                    thi
                };
                let (a, b) = if a <= b { (a, b) } else { (b, a) };
                let lo = if op == BitOr && al >= 0 && bl >= 0 { al.max(bl) } else if al >= 0 && bl >= 0 { 0 } else { tlo };
                (self.appl(st, if op == BitOr { "or" } else { "xor" }, vec![a, b], lo, hi), true)
            }
            Shl | ShlUnchecked => match b.is_k() {
                Some(k) if (0..100).contains(&k) => (a.scale(1 << k), true),
                _ => {
                    if let Some(x) = a.is_k() {
                        // constant base: monotone in the shift
                        if x >= 0 && bl >= 0 && bh < 90 && x.checked_shl(bh as u32).map_or(false, |v| v < BIG) {
                            let l = self.appl(st, "shl", vec![a, b], x << bl, x << bh);
                            return (l, true);
                        }
                    }
                    (self.appl(st, "shl", vec![a, b], tlo, thi), true)
                }
            },
            Shr | ShrUnchecked => match b.is_k() {
                Some(k) if (0..100).contains(&k) => (self.div_const(st, &a, 1 << k), true),
                _ => {
                    let (lo, hi) = if al >= 0 { (0, ah) } else { (tlo, thi) };
                    (self.appl(st, "shr", vec![a, b], lo, hi), true)
                }
            },
            _ => (a, false),
        }
    }

    fn in_range_flag(&self, st: &State, l: &Lin, t: ITy) -> Lin {
        // 1 if out of range
        let (lo, hi) = t.range();
        let low = self.ge0(st, &l.addk(-lo));
        let high = self.ge0(st, &l.neg().addk(hi));
        match (low.is_k(), high.is_k()) {
            (Some(1), Some(1)) => Lin::k(0),
            (Some(0), _) | (_, Some(0)) => Lin::k(1),
            (Some(1), None) => Lin::k(1).sub(&high),
            (None, Some(1)) => Lin::k(1).sub(&low),
            _ => Lin::k(1).sub(&Lin::s(defsym(Def::And(low, high), 0, 1))),
        }
    }

    pub fn binop(&mut self, st: &mut State, op: BinOp, a: &Val, b: &Val) -> Option<Val> {
        use BinOp::*;
        if self.rule.bv() {
            if let Some(v) = crate::bv::binop(self, st, op, a, b) {
                return Some(v);
            }
        }
        match (a, b) {
            (Val::Int(x, t), Val::Int(y, _)) => {
                let r = match op {
                    Eq => bool_val(self.eq0(st, &x.sub(y))),
                    Ne => bool_val(Lin::k(1).sub(&self.eq0(st, &x.sub(y)))),
                    Ge => bool_val(self.ge0(st, &x.sub(y))),
                    Le => bool_val(self.ge0(st, &y.sub(x))),
                    Gt => bool_val(self.ge0(st, &x.sub(y).addk(-1))),
                    Lt => bool_val(self.ge0(st, &y.sub(x).addk(-1))),
                    Cmp => {
                        // Ordering: variant index 0,1,2 for Less, Equal, Greater
                        if st.lt(x, y) {
                            Val::Disc(Lin::k(0))
                        } else if st.lt(y, x) {
                            Val::Disc(Lin::k(2))
                        } else {
                            let g = self.ge0(st, &x.sub(y).addk(-1));
                            let e = self.ge0(st, &x.sub(y));
                            Val::Disc(g.add(&e))
                        }
                    }
                    _ => {
                        let (l, _) = self.arith(st, op, x, y, *t);
                        let l = self.wrap(st, l, *t);
                        Val::Int(l, *t)
                    }
                };
                Some(r)
            }
            (Val::Disc(x), Val::Disc(y)) => {
                let r = match op {
                    Eq => bool_val(self.eq_disc(st, x, y)),
                    Ne => bool_val(Lin::k(1).sub(&self.eq_disc(st, x, y))),
                    BitAnd => bool_val(self.band(st, x, y)),
                    BitOr => bool_val(self.bor(st, x, y)),
                    BitXor => bool_val(Lin::k(1).sub(&self.eq_disc(st, x, y))),
                    Ge => bool_val(self.ge0(st, &x.sub(y))),
                    Le => bool_val(self.ge0(st, &y.sub(x))),
                    Gt => bool_val(self.ge0(st, &x.sub(y).addk(-1))),
                    Lt => bool_val(self.ge0(st, &y.sub(x).addk(-1))),
                    _ => return None,
                };
                Some(r)
            }
            (Val::Ref(p), Val::Int(n, _)) if op == Offset => {
                let mut path = (*p.path).clone();
                match path.pop() {
                    Some(PE::E(i)) => {
                        path.push(PE::E(st.norm(&i.add(n))));
                        Some(Val::Ref(Ptr { root: p.root, path: Rc::new(path) }))
                    }
                    _ => None,
                }
            }
            (Val::Ref(p), Val::Ref(q)) if matches!(op, Eq | Ne) => {
                let e = if p == q {
                    Lin::k(1)
                } else if let (Some(PE::E(i)), Some(PE::E(j))) = (p.path.last(), q.path.last()) {
                    let n = p.path.len();
                    if p.root == q.root && n == q.path.len() && p.path[..n - 1] == q.path[..n - 1] {
                        self.eq0(st, &i.sub(j))
                    } else {
                        return None;
                    }
                } else {
                    return None;
                };
                Some(bool_val(if op == Eq { e } else { Lin::k(1).sub(&e) }))
            }
            _ => None,
        }
    }
    pub fn eq_disc(&self, st: &State, x: &Lin, y: &Lin) -> Lin {
        let x = st.norm(x);
        let y = st.norm(y);
        // bool == const keeps the structure
        let is_bool = |l: &Lin| {
            let (a, b) = st.cons.interval(l);
            a >= 0 && b <= 1
        };
        if is_bool(&x) {
            match y.is_k() {
                Some(1) => return x,
                Some(0) => return Lin::k(1).sub(&x),
                _ => {}
            }
        }
        self.eq0(st, &x.sub(&y))
    }
    pub fn band(&self, st: &State, x: &Lin, y: &Lin) -> Lin {
        let (x, y) = (st.norm(x), st.norm(y));
        match (x.is_k(), y.is_k()) {
            (Some(0), _) | (_, Some(0)) => Lin::k(0),
            (Some(_), _) => y,
            (_, Some(_)) => x,
            _ => Lin::s(defsym(Def::And(x, y), 0, 1)),
        }
    }
    pub fn bor(&self, st: &State, x: &Lin, y: &Lin) -> Lin {
        let (x, y) = (st.norm(x), st.norm(y));
        match (x.is_k(), y.is_k()) {
            (Some(1), _) | (_, Some(1)) => Lin::k(1),
            (Some(_), _) => y,
            (_, Some(_)) => x,
            _ => Lin::s(defsym(Def::Or(x, y), 0, 1)),
        }
    }

    fn cast(&mut self, st: &mut State, kind: CastKind, v: Val, from: Option<TyId>, to: TyId) -> Val {
        let pr = self.pr;
        match kind {
            CastKind::IntToInt => {
                let it = match pr.ity(to) {
                    Some(t) => t,
                    None => return self.unknown(st, to),
                };
                if self.rule.bv() {
                    if let Some(v) = crate::bv::cast(self, st, &v, it) {
                        return v;
                    }
                }
                match v {
                    Val::Int(l, _) => {
                        let l = self.wrap(st, l, it);
                        Val::Int(l, it)
                    }
                    Val::Disc(l) => Val::Int(l, it),
                    _ => self.unknown(st, to),
                }
            }
            CastKind::PtrToPtr | CastKind::Unsize | CastKind::Transmute | CastKind::Other => {
                let tk = &pr.ty(to).kind;
                // pointee
                if let TyKind::Ref { to: tt, .. } | TyKind::Ptr { to: tt, .. } = tk {
                    match (&pr.ty(*tt).kind, &v) {
                        (TyKind::Slice(_), Val::Slice(..)) => return v,
                        (TyKind::Slice(_), Val::Ref(p)) => {
                            // &[T; N] -> &[T]
                            if let Some(f) = from {
                                if let TyKind::Ref { to: ft, .. } | TyKind::Ptr { to: ft, .. } = &pr.ty(f).kind {
                                    if let TyKind::Array { len, .. } = &pr.ty(*ft).kind {
                                        return Val::Slice(p.clone(), Lin::k(0), Lin::k(*len as i128));
                                    }
                                }
                            }
                            return v;
                        }
                        (TyKind::Dyn, _) | (TyKind::Str, _) => return Val::Str,
                        (TyKind::Array { .. }, Val::Slice(p, s, _)) => {
                            if st.konst(s) == Some(0) {
                                return Val::Ref(p.clone());
                            }
                            return self.unknown(st, to);
                        }
                        (_, Val::Slice(p, s, _)) => {
                            return Val::Ref(p.push(PE::E(s.clone())));
                        }
                        (k, Val::Ref(p)) => {
                            // *const [T; N] -> *const T
                            if let Some(f) = from {
                                if let TyKind::Ref { to: ft, .. } | TyKind::Ptr { to: ft, .. } = &pr.ty(f).kind {
                                    if let TyKind::Array { elem, .. } = &pr.ty(*ft).kind {
                                        if elem == tt {
                                            return Val::Ref(p.push(PE::E(Lin::k(0))));
                                        }
                                    }
                                    // *const T -> *const [T; N]
                                    if let TyKind::Array { elem, .. } = k {
                                        if elem == ft {
                                            let mut path = (*p.path).clone();
                                            if let Some(PE::E(i)) = path.last() {
                                                if st.konst(i) == Some(0) {
                                                    path.pop();
                                                    return Val::Ref(Ptr { root: p.root, path: Rc::new(path) });
                                                }
                                            }
                                            return self.unknown(st, to);
                                        }
                                    }
                                }
                            }
                            return v;
                        }
                        _ => {}
                    }
                }
                if kind == CastKind::Transmute {
                    if let (Some(f), Val::Int(l, ft)) = (from, &v) {
                        let _ = f;
                        if let Some(it) = pr.ity(to) {
                            if it.bits() == ft.bits() {
                                let l = self.wrap(st, l.clone(), it);
                                return Val::Int(l, it);
                            }
                        }
                        return self.unknown(st, to);
                    }
                    // newtype wrappers around pointers
                    if matches!(v, Val::Ref(_) | Val::Slice(..)) {
                        return v;
                    }
                    if from == Some(to) {
                        return v;
                    }
                    if let (Some(f), Val::Arr(_)) = (from, &v) {
                        let fk = &pr.ty(f).kind;
                        if let (TyKind::Array { elem: a, .. }, TyKind::Array { elem: b, .. }) = (fk, tk) {
                            if a == b {
                                return v;
                            }
                        }
                    }
                    return self.unknown(st, to);
                }
                match (&v, tk) {
                    (Val::Fn(_), _) => v,
                    _ if matches!(v, Val::Ref(_) | Val::Slice(..) | Val::Str) => v,
                    _ => self.unknown(st, to),
                }
            }
            CastKind::ReifyFn => match from {
                Some(f) => match &pr.ty(f).kind {
                    TyKind::FnDef(Some(id)) => Val::Fn(*id),
                    _ => self.unknown(st, to),
                },
                None => self.unknown(st, to),
            },
            _ => self.unknown(st, to),
        }
    }

    /// Evaluate an rvalue (everything except discriminant reads).
    fn rvalue(&mut self, st: &mut State, rv: &Rvalue, dty: Option<TyId>) -> Val {
        let pr = self.pr;
        match rv {
            Rvalue::Use(o) => self.operand(st, o),
            Rvalue::Repeat(o, n) => {
                let v = self.operand(st, o);
                let len = Lin::k(*n as i128);
                let elem = dty.map(|t| pr.elem_of(t)).unwrap_or(0);
                Val::Arr(Rc::new(Arr {
                    elem,
                    segs: if *n == 0 { vec![] } else { vec![Seg { end: len.clone(), kind: Kind::Fill(v) }] },
                    len,
                }))
            }
            Rvalue::Ref(_, p) | Rvalue::AddrOf(_, p) => match self.place(st, p) {
                Some(Loc { ptr, sl: None }) => {
                    // a reference to a str/dyn place
                    if let Some(t) = dty {
                        if let TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } = &pr.ty(t).kind {
                            if matches!(pr.ty(*to).kind, TyKind::Str | TyKind::Dyn) {
                                return Val::Str;
                            }
                        }
                    }
                    Val::Ref(ptr)
                }
                Some(Loc { ptr, sl: Some((s, e)) }) => Val::Slice(ptr, s, e),
                None => match dty {
                    Some(t) => self.unknown(st, t),
                    None => Val::Uninit,
                },
            },
            Rvalue::Len(p) => match self.place(st, p) {
                Some(Loc { sl: Some((s, e)), .. }) => usz(e.sub(&s)),
                Some(Loc { ptr, sl: None }) => match st.get(pr, &ptr, None) {
                    Val::Arr(a) => usz(a.len.clone()),
                    _ => self.unknown(st, dty.unwrap()),
                },
                None => self.unknown(st, dty.unwrap()),
            },
            Rvalue::Cast(k, o, t) => {
                let from = self.operand_ty(st, o);
                let v = self.operand(st, o);
                self.cast(st, *k, v, from, *t)
            }
            Rvalue::Bin(op, a, b) => {
                let (a, b) = (self.operand(st, a), self.operand(st, b));
                match self.binop(st, *op, &a, &b) {
                    Some(v) => v,
                    None => self.unknown(st, dty.unwrap()),
                }
            }
            Rvalue::CheckedBin(op, a, b) => {
                let (a, b) = (self.operand(st, a), self.operand(st, b));
                if self.rule.bv() {
                    if let Some(v) = crate::bv::binop(self, st, *op, &a, &b) {
                        return agg(vec![v, Val::Disc(Lin::k(0))]);
                    }
                }
                match (&a, &b) {
                    (Val::Int(x, t), Val::Int(y, t2)) => {
                        if matches!(op, BinOp::Shl | BinOp::Shr) {
                            let v = self.binop(st, *op, &a, &b).unwrap();
                            let f = self.ge0(st, &y.addk(-(t.bits() as i128)));
                            let _ = t2;
                            return agg(vec![v, bool_val(f)]);
                        }
                        let (l, _) = self.arith(st, *op, x, y, *t);
                        let f = self.in_range_flag(st, &l, *t);
                        agg(vec![Val::Int(l, *t), bool_val(f)])
                    }
                    _ => self.unknown(st, dty.unwrap()),
                }
            }
            Rvalue::Un(op, o) => {
                let v = self.operand(st, o);
                match (op, v) {
                    (UnOp::Not, Val::Disc(l)) => bool_val(Lin::k(1).sub(&l)),
                    (UnOp::Not, Val::Int(l, t)) => {
                        if t.signed() {
                            Val::Int(l.neg().addk(-1), t)
                        } else {
                            Val::Int(l.neg().addk(t.range().1), t)
                        }
                    }
                    (UnOp::Not, Val::Bv(b)) => crate::bv::not(&b),
                    (UnOp::Neg, Val::Int(l, t)) => {
                        let l = self.wrap(st, l.neg(), t);
                        Val::Int(l, t)
                    }
                    (UnOp::PtrMetadata, Val::Slice(_, s, e)) => usz(e.sub(&s)),
                    (UnOp::PtrMetadata, Val::Ref(_)) => unit(),
                    _ => self.unknown(st, dty.unwrap()),
                }
            }
            Rvalue::Agg(t, k, ops) => {
                let vs: Vec<Val> = ops.iter().map(|o| self.operand(st, o)).collect();
                match &pr.ty(*t).kind {
                    TyKind::Array { elem, len } => {
                        let len = Lin::k(*len as i128);
                        Val::Arr(Rc::new(Arr {
                            elem: *elem,
                            segs: if vs.is_empty() {
                                vec![]
                            } else {
                                vec![Seg { end: len.clone(), kind: Kind::Elems(Rc::new(vs)) }]
                            },
                            len,
                        }))
                    }
                    TyKind::Adt { kind: AdtKind::Enum, .. } => {
                        if pr.cenum[*t as usize] {
                            Val::Disc(Lin::k(*k as i128))
                        } else {
                            variant(*k, vs)
                        }
                    }
                    TyKind::Adt { kind: AdtKind::Union, .. } => Val::Uninit,
                    _ => agg(vs),
                }
            }
            Rvalue::RawPtrAgg(t, ops) => {
                let vs: Vec<Val> = ops.iter().map(|o| self.operand(st, o)).collect();
                match (vs.get(0), vs.get(1)) {
                    (Some(Val::Ref(p)), Some(Val::Int(n, _))) => {
                        let mut path = (*p.path).clone();
                        if let Some(PE::E(i)) = path.last().cloned() {
                            path.pop();
                            return Val::Slice(Ptr { root: p.root, path: Rc::new(path) }, i.clone(), i.add(n));
                        }
                        self.unknown(st, *t)
                    }
                    (Some(v @ Val::Ref(_)), _) => v.clone(),
                    _ => self.unknown(st, *t),
                }
            }
            Rvalue::Discr(_) => unreachable!(),
            Rvalue::ThreadLocal => self.unknown(st, dty.unwrap()),
        }
    }

    fn discr_of(&self, t: TyId, k: u32) -> i128 {
        match &self.pr.ty(t).kind {
            TyKind::Adt { variants, .. } => variants.get(k as usize).map_or(k as i128, |v| v.discr),
            _ => k as i128,
        }
    }

    fn stmt(&mut self, mut st: State, s: &Stmt) -> Vec<State> {
        if let Some(x) = self.stack.last_mut() {
            x.1 = s.line;
        }
        match &s.kind {
            StmtKind::Assign(p, Rvalue::Discr(q)) => {
                let body = self.body(&st);
                let qty = self.place_ty(body, q);
                let dty = self.place_ty(body, p).unwrap();
                let it = self.pr.ity(dty).unwrap_or(ITy::new(64, true));
                let v = self.read(&mut st, q);
                match v {
                    Val::Enum(m) if m.len() == 1 => {
                        let k = *m.keys().next().unwrap();
                        let d = self.discr_of(qty.unwrap(), k);
                        self.write(&mut st, p, Val::Int(Lin::k(d), it));
                        vec![st]
                    }
                    Val::Enum(m) => {
                        let mut out = vec![];
                        for (k, fs) in m.iter() {
                            let mut s2 = st.clone();
                            let mut mm = BTreeMap::new();
                            mm.insert(*k, fs.clone());
                            if let Some(Loc { ptr, sl: None }) = self.place(&mut s2, q) {
                                s2.set(self.pr, &ptr, Val::Enum(Rc::new(mm)));
                            }
                            let d = self.discr_of(qty.unwrap(), *k);
                            self.write(&mut s2, p, Val::Int(Lin::k(d), it));
                            out.push(s2);
                        }
                        out
                    }
                    Val::Disc(l) => {
                        let t = qty.unwrap();
                        let same = match &self.pr.ty(t).kind {
                            TyKind::Adt { variants, .. } => {
                                variants.iter().enumerate().all(|(i, v)| v.discr == i as i128)
                            }
                            _ => true,
                        };
                        let shift = match &self.pr.ty(t).kind {
                            TyKind::Adt { variants, .. } if !variants.is_empty() => {
                                let d0 = variants[0].discr;
                                if variants.iter().enumerate().all(|(i, v)| v.discr == d0 + i as i128) {
                                    Some(d0)
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        let l = if same {
                            l
                        } else if let Some(d0) = shift {
                            l.addk(d0)
                        } else if let Some(k) = st.konst(&l) {
                            Lin::k(self.discr_of(t, k as u32))
                        } else {
                            let (lo, hi) = it.range();
                            Lin::s(defsym(Def::App(format!("discr{}", t).into(), vec![l]), lo, hi))
                        };
                        self.write(&mut st, p, Val::Int(l, it));
                        vec![st]
                    }
                    _ => {
                        let v = self.unknown(&mut st, dty);
                        self.write(&mut st, p, v);
                        vec![st]
                    }
                }
            }
            StmtKind::Assign(p, rv) => {
                let body = self.body(&st);
                let dty = self.place_ty(body, p);
                let v = self.rvalue(&mut st, rv, dty);
                self.write(&mut st, p, v);
                vec![st]
            }
            StmtKind::SetDiscr(p, k) => {
                let v = self.read(&mut st, p);
                let n = match v {
                    Val::Enum(m) => m.get(k).cloned().unwrap_or_default(),
                    _ => Default::default(),
                };
                let mut m = BTreeMap::new();
                m.insert(*k, n);
                self.write(&mut st, p, Val::Enum(Rc::new(m)));
                vec![st]
            }
            StmtKind::Live(l) | StmtKind::Dead(l) => {
                let d = (st.frames.len() - 1) as u32;
                st.set_root(Root::Local(d, *l), Val::Uninit);
                vec![st]
            }
            StmtKind::Assume(o) => {
                let v = self.operand(&mut st, o);
                if let Val::Disc(l) = v {
                    if !self.assume_bool(&mut st, &l, true) {
                        return vec![];
                    }
                }
                vec![st]
            }
            StmtKind::CopyNonOverlapping { src, dst, count } => {
                let (s, d, n) =
                    (self.operand(&mut st, src), self.operand(&mut st, dst), self.operand(&mut st, count));
                self.copy_elems(&mut st, &s, &d, &n);
                vec![st]
            }
        }
    }

    pub fn copy_elems(&mut self, st: &mut State, s: &Val, d: &Val, n: &Val) {
        if let (Val::Ref(p), Val::Ref(q), Val::Int(n, _)) = (s, d, n) {
            if let (Some(PE::E(i)), Some(PE::E(j))) = (p.path.last().cloned(), q.path.last().cloned()) {
                let cp = parent(p);
                let cq = parent(q);
                self.copy_range(st, &cp, &i, &cq, &j, n);
                return;
            }
            if st.konst(n) == Some(1) {
                let v = st.get(self.pr, p, None);
                self.write_ptr(st, q, v);
                return;
            }
        }
        self.lost("raw copy");
    }

    /// container p[i..i+n] -> container q[j..j+n]
    pub fn copy_range(&mut self, st: &mut State, p: &Ptr, i: &Lin, q: &Ptr, j: &Lin, n: &Lin) {
        let segs = self.segs_of(st, p, i, &i.add(n));
        if let Val::Arr(mut b) = st.get(self.pr, q, None) {
            let cons = st.cons.clone();
            arr_splice(&cons, Rc::make_mut(&mut b), j, n, &segs);
            st.set(self.pr, q, Val::Arr(b));
            let r = self.rule.clone();
            r.vec_event(self, st, q, VecEv::Other);
        } else {
            self.lost("copy into unknown memory");
        }
    }

    /// Contents of container[s..e], rebased; unknown contents if unresolved.
    pub fn segs_of(&mut self, st: &mut State, p: &Ptr, s: &Lin, e: &Lin) -> Vec<Seg> {
        let v = st.get(self.pr, p, None);
        if let Val::Arr(a) = v {
            if let Some(x) = arr_slice(&st.cons, &a, s, e) {
                return x;
            }
        }
        vec![Seg { end: e.sub(s), kind: Kind::Src(arr_tok(), Lin::k(0)) }]
    }

    // ------------------------------------------------------------- functions

    pub fn fninfo(&mut self, f: FnId) -> Rc<FnInfo> {
        if let Some(i) = self.info.get(&f) {
            return i.clone();
        }
        let i = Rc::new(analyse(self.func(f)));
        self.info.insert(f, i.clone());
        i
    }

    /// Does this function (transitively) enter the analysed crate?
    pub fn reaches_local(&mut self, f: FnId) -> bool {
        if let Some(b) = self.reach_local.get(&f) {
            return *b;
        }
        self.reach_local.insert(f, false);
        let fu = self.func(f);
        let mut r = fu.local && !fu.path.contains("drop_glue");
        if !r {
            if let Some(b) = &fu.body {
                for bb in &b.blocks {
                    let c = match &bb.term {
                        Term::Call { callee: Callee::Fn(g), .. } => Some(*g),
                        Term::Drop { glue: Some(g), .. } => Some(*g),
                        _ => None,
                    };
                    if let Some(g) = c {
                        if self.reaches_local(g) {
                            r = true;
                            break;
                        }
                    }
                }
            }
        }
        self.reach_local.insert(f, r);
        r
    }

    pub fn is_opaque(&mut self, f: FnId) -> bool {
        if let Some(b) = self.opaque.get(&f) {
            return *b;
        }
        let fu = self.func(f);
        let r = self.rule.force_opaque(&fu.name) || (!self.rule.wants(self.pr, fu) && fu.local && fu.body.is_some() && {
            let ret_ref = has_ref(self.pr, fu.ret, &mut BTreeSet::new());
            let mut m = false;
            for a in &fu.args {
                // Something that may be the output buffer.
                if let TyKind::Ref { mutable: true, to } = self.pr.ty(*a).kind {
                    if self.pr.is_vec(to) && self.pr.ity(self.pr.elem_of(to)) == Some(ITy::new(8, false)) {
                        m = true;
                    }
                }
                if reaches(self.pr, *a, &*self.rule, true, &mut BTreeSet::new()) {
                    m = true;
                }
            }
            if self.pr.is_vec(fu.ret) && self.pr.ity(self.pr.elem_of(fu.ret)) == Some(ITy::new(8, false)) {
                m = true;
            }
            let ret_int = reaches(self.pr, fu.ret, &*self.rule, true, &mut BTreeSet::new());
            // Functions of plain scalars are cheap and decide branches.
            let scalar = fu.args.iter().all(|a| {
                let mut t = *a;
                while let TyKind::Ref { to, .. } = self.pr.ty(t).kind {
                    t = to;
                }
                match &self.pr.ty(t).kind {
                    TyKind::Int { .. } | TyKind::Bool => true,
                    TyKind::Adt { kind: AdtKind::Enum, variants, .. } => variants.iter().all(|v| v.fields.is_empty()),
                    _ => false,
                }
            });
            // So are accessors.
            let tiny = fu.body.as_ref().map_or(false, |b| {
                b.blocks.len() <= 4 && b.blocks.iter().all(|b| !matches!(b.term, Term::Call { .. }))
            });
            // And helpers that take errors apart or make them, or compute
            // something without loops.
            let tame = !fu.args.iter().any(|a| mentions_mut(self.pr, *a, &mut BTreeSet::new()))
                && fu.body.as_ref().map_or(false, |b| b.blocks.len() <= 24 && loop_free(b));
            let rule = self.rule.clone();
            let enter = fu.args.iter().any(|a| mentions(self.pr, *a, &|p| rule.enter(p), &mut BTreeSet::new()));
            !tiny && !tame && !scalar && !enter && !ret_ref && !m && !ret_int && fu.name.find("{closure").is_none()
        });
        self.opaque.insert(f, r);
        r
    }

    /// Unknown effect on everything mutably reachable from the arguments.
    pub fn havoc_call(&mut self, f: FnId, args: &[Val], mut st: State) -> Vec<(State, Val)> {
        let fu = self.func(f);
        for (i, a) in args.iter().enumerate() {
            if let Some(t) = fu.args.get(i) {
                self.havoc_val(&mut st, a, *t, 0);
            }
        }
        let v = self.unknown(&mut st, fu.ret);
        vec![(st, v)]
    }
    pub fn havoc_val(&mut self, st: &mut State, v: &Val, t: TyId, depth: u32) {
        if depth > 6 {
            return;
        }
        let pr = self.pr;
        match &pr.ty(t).kind {
            TyKind::Ref { to, mutable } | TyKind::Ptr { to, mutable } => match v {
                Val::Ref(p) => {
                    if *mutable {
                        let old = st.get(pr, p, Some(*to));
                        self.havoc_val(st, &old, *to, depth + 1);
                        let n = if matches!(pr.ty(*to).kind, TyKind::Dyn | TyKind::Opaque) {
                            Val::Tok(Lin::s(fresh(-BIG, BIG, "h")))
                        } else {
                            self.unknown(st, *to)
                        };
                        // fixed-size arrays keep their length
                        self.write_ptr(st, p, n);
                        let r = self.rule.clone();
                        if matches!(pr.ty(*to).kind, TyKind::Adt { .. }) && pr.is_vec(*to) {
                            r.vec_event(self, st, p, VecEv::Other);
                        }
                    } else {
                        let old = st.get(pr, p, Some(*to));
                        self.havoc_val(st, &old, *to, depth + 1);
                    }
                }
                Val::Slice(p, s, e) if *mutable => {
                    let n = e.sub(s);
                    if let Val::Arr(mut a) = st.get(pr, p, None) {
                        let cons = st.cons.clone();
                        arr_splice(
                            &cons,
                            Rc::make_mut(&mut a),
                            s,
                            &n,
                            &[Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                        );
                        st.set(pr, p, Val::Arr(a));
                        let r = self.rule.clone();
                        r.vec_event(self, st, p, VecEv::Other);
                    }
                }
                _ => {}
            },
            TyKind::Adt { variants, .. } if !pr.is_vec(t) => {
                if has_mut(pr, t, &mut BTreeSet::new()) {
                    match v {
                        Val::Agg(fs) => {
                            for (i, x) in fs.iter().enumerate() {
                                if let Some(ft) = pr.field_ty(t, 0, i as u32) {
                                    self.havoc_val(st, x, ft, depth + 1);
                                }
                            }
                        }
                        Val::Enum(m) => {
                            for (k, fs) in m.iter() {
                                for (i, x) in fs.iter().enumerate() {
                                    if let Some(ft) = pr.field_ty(t, *k, i as u32) {
                                        self.havoc_val(st, x, ft, depth + 1);
                                    }
                                }
                            }
                        }
                        Val::It(p, s, e) => {
                            let _ = variants;
                            let n = e.sub(s);
                            if let Val::Arr(mut a) = st.get(pr, p, None) {
                                let cons = st.cons.clone();
                                arr_splice(
                                    &cons,
                                    Rc::make_mut(&mut a),
                                    s,
                                    &n,
                                    &[Seg { end: n.clone(), kind: Kind::Src(arr_tok(), Lin::k(0)) }],
                                );
                                st.set(pr, p, Val::Arr(a));
                            }
                        }
                        _ => {}
                    }
                }
            }
            TyKind::Tuple(ts) | TyKind::Closure { fields: ts } => {
                if let Val::Agg(fs) = v {
                    for (x, ft) in fs.iter().zip(ts.iter()) {
                        self.havoc_val(st, x, *ft, depth + 1);
                    }
                }
            }
            _ => {}
        }
    }

    pub fn call(&mut self, f: FnId, mut args: Vec<Val>, st: State) -> Vec<(State, Val)> {
        let fu = self.func(f);
        self.log.calls += 1;
        if args.len() != fu.args.len() && !args.is_empty() {
            // rust-call ABI
            if let Some(Val::Agg(t)) = args.last().cloned() {
                if args.len() - 1 + t.len() == fu.args.len() {
                    args.pop();
                    args.extend(t.iter().cloned());
                }
            }
        }
        let rule = self.rule.clone();
        let cx = CallCtx { f, name: &fu.name, path: &fu.path, args: &args };
        if let Some(r) = rule.call(self, &cx, &st) {
            return r;
        }
        if let Some(r) = crate::models::call(self, &cx, &st) {
            return r;
        }
        if rule.contracts() && rule.summarise() {
            if let Some(r) = crate::contract::apply(self, f, &args, &st) {
                return r;
            }
        }
        if fu.body.is_none() || self.stack.len() > 70 || self.stack.iter().filter(|x| x.0 == f).count() > 1 {
            *self.log.havocs.entry(fu.name.clone()).or_default() += 1;
            return self.havoc_call(f, &args, st);
        }
        if self.is_opaque(f) {
            *self.log.havocs.entry(fu.name.clone()).or_default() += 1;
            let modes = if rule.contracts() { crate::contract::modes(self, f, &args, &st) } else { None };
            let before = st.clone();
            let r = self.havoc_call(f, &args, st);
            return match modes {
                None => r,
                Some(m) => {
                    let mut out = vec![];
                    for (s, _) in r {
                        for x in m.iter() {
                            let mut s = s.clone();
                            crate::contract::settle(self, &mut s, &args, x, &before);
                            let v = crate::contract::build(self, &mut s, &x.ret);
                            out.push((s, v));
                        }
                    }
                    out
                }
            };
        }
        self.inline(f, args, st)
    }

    pub fn inline(&mut self, f: FnId, args: Vec<Val>, mut st: State) -> Vec<(State, Val)> {
        let fu = self.func(f);
        let body = fu.body.as_ref().unwrap();
        self.log.fns.insert(f);
        let mut locals = vec![Val::Uninit; body.locals.len()];
        for (i, a) in args.iter().enumerate() {
            if i + 1 < locals.len() {
                locals[i + 1] = a.clone();
            }
        }
        let depth = st.frames.len();
        st.frames.push(Rc::new(Frame { f, locals }));
        self.stack.push((f, fu.line));
        if self.trace {
            eprintln!("{}> {}", " ".repeat(depth), fu.name);
        }
        let rets = self.exec_body(f, st);
        let mut out = vec![];
        for mut s in rets {
            let v = s.frames[depth].locals[0].clone();
            s.frames.truncate(depth);
            if fu.local {
                let rule = self.rule.clone();
                rule.ret(self, f, &args, &mut s, &v);
            }
            out.push((s, v));
        }
        self.stack.pop();
        if self.trace {
            eprintln!("{}< {} ({} states)", " ".repeat(depth), fu.name, out.len());
            for (s, v) in &out {
                let mut s = s.clone();
                if s.ghost.contains_key("D") {
                    let x = s.gi("L").sub(&s.gi("D"));
                    let o = s.ge(&x);
                    s.set_gd("d<=l", o as i128);
                }
                let g: Vec<String> = s.ghost.iter().map(|(k, v)| format!("{}={}", k, brief(v, &s.cons))).collect();
                eprintln!("{}  = {}   {}", " ".repeat(depth), brief(v, &s.cons), g.join(" "));
            }
        }
        out
    }

    fn exec_body(&mut self, f: FnId, st: State) -> Vec<State> {
        let info = self.fninfo(f);
        let mut pend: BTreeMap<Block, Vec<State>> = BTreeMap::new();
        pend.insert(0, vec![st]);
        let mut rets = vec![];
        self.run(f, &info, &info.wto, &mut pend, &mut rets);
        // Only the return value is live now.
        for s in rets.iter_mut() {
            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
            for (i, v) in fr.locals.iter_mut().enumerate() {
                if i != 0 {
                    *v = Val::Uninit;
                }
            }
        }
        self.merge(rets)
    }

    /// Join states that have the same shape.
    pub fn merge(&mut self, v: Vec<State>) -> Vec<State> {
        let rule = self.rule.clone();
        let mut v: Vec<State> = v.into_iter().flat_map(|s| rule.split(self, s)).collect();
        if v.len() <= 1 {
            v.iter_mut().for_each(canon_heap);
            return v;
        }
        let soft = self.rule.soft();
        for s in v.iter_mut() {
            s.binders = Default::default();
            canon_heap(s);
        }
        let mut groups: Vec<(u64, State)> = vec![];
        for s in v.drain(..) {
            let k = key(&s, soft);
            match groups.iter().position(|g| g.0 == k) {
                Some(i) => {
                    let a = groups[i].1.clone();
                    self.log.joins += 1;
                    if !included(self.pr, &s, &a) {
                        groups[i].1 = join(self.pr, &a, &s, false);
                    }
                }
                None => groups.push((k, s)),
            }
        }
        if self.trace && groups.len() > 7 {
            eprintln!("  {} merged states in {:?}", groups.len(), self.site());
            for w in groups[1..].iter() {
                eprintln!("      {:?}", shape_diff(&groups[0].1, &w.1));
            }
        }
        groups.into_iter().map(|g| g.1).collect()
    }

    fn prep(&mut self, info: &FnInfo, b: Block, st: &mut State) {
        let live = &info.live[b as usize];
        let fr = st.frames.last_mut().unwrap();
        if fr.locals.iter().enumerate().any(|(i, v)| !live[i] && !matches!(v, Val::Uninit)) {
            let fr = Rc::make_mut(fr);
            for (i, v) in fr.locals.iter_mut().enumerate() {
                if !live[i] {
                    *v = Val::Uninit;
                }
            }
        }
    }

    fn run(
        &mut self,
        f: FnId,
        info: &FnInfo,
        elems: &[W],
        pend: &mut BTreeMap<Block, Vec<State>>,
        rets: &mut Vec<State>,
    ) {
        for e in elems {
            match e {
                W::Block(b) => {
                    let mut v = match pend.remove(b) {
                        Some(v) => v,
                        None => continue,
                    };
                    for s in v.iter_mut() {
                        self.prep(info, *b, s);
                    }
                    for s in self.merge(v) {
                        self.exec_block(f, *b, s, pend, rets);
                    }
                }
                W::Comp(h, body) => {
                    let mut v = match pend.remove(h) {
                        Some(v) => v,
                        None => continue,
                    };
                    for s in v.iter_mut() {
                        self.prep(info, *h, s);
                    }
                    self.log.loops += 1;
                    let h = *h;
                    let exits = self.fix(v, &mut |it: &mut Interp, s: State| {
                        let mut p2: BTreeMap<Block, Vec<State>> = BTreeMap::new();
                        let mut r2 = vec![];
                        it.exec_block(f, h, s, &mut p2, &mut r2);
                        it.run(f, info, body, &mut p2, &mut r2);
                        let mut back = p2.remove(&h).unwrap_or_default();
                        for s in back.iter_mut() {
                            it.prep(info, h, s);
                        }
                        let mut ex: Vec<(Option<Block>, State)> = vec![];
                        for (b, ss) in p2 {
                            for s in ss {
                                ex.push((Some(b), s));
                            }
                        }
                        for s in r2 {
                            ex.push((None, s));
                        }
                        (back, ex)
                    });
                    for (b, s) in exits {
                        match b {
                            Some(b) => pend.entry(b).or_default().push(s),
                            None => rets.push(s),
                        }
                    }
                }
            }
        }
    }

    /// Fixpoint over a loop body.
    pub fn fix<X: Clone>(
        &mut self,
        entry: Vec<State>,
        body: &mut dyn FnMut(&mut Self, State) -> (Vec<State>, Vec<X>),
    ) -> Vec<X> {
        struct Inv<X> {
            key: u64,
            st: State,
            n: u32,
            dirty: bool,
            exits: Vec<X>,
        }
        let soft = self.rule.soft();
        let mut invs: Vec<Inv<X>> = vec![];
        let mut entry = entry;
        let mut done = vec![];
        // Loops of a bounded number of rounds on constants: no merging.
        for _ in 0..self.unroll {
            if entry.is_empty() {
                return done;
            }
            if entry.len() > self.paths {
                break;
            }
            let mut next = vec![];
            for mut s in entry {
                s.binders = Default::default();
                let (back, ex) = body(self, s);
                next.extend(back);
                done.extend(ex);
            }
            entry = next;
        }
        for s in self.merge(entry) {
            invs.push(Inv { key: key(&s, soft), st: s, n: 0, dirty: true, exits: vec![] });
        }
        let mut steps = 0;
        // Violations met on the way to the fixpoint are part of it: every
        // intermediate invariant is contained in the final one.
        while let Some(i) = invs.iter().position(|v| v.dirty) {
            steps += 1;
            if steps > 400 {
                let (f, _, l) = self.site();
                *self.log.gave_up.entry(format!("loop in {}:{}", f, l)).or_default() += 1;
                break;
            }
            invs[i].dirty = false;
            let mut s = invs[i].st.clone();
            s.binders = Default::default();
            let (back, ex) = body(self, s);
            invs[i].exits = ex;
            for s in self.merge(back) {
                let k = key(&s, soft);
                match invs.iter_mut().position(|v| v.key == k) {
                    Some(j) => {
                        if self.trace {
                            WHY.with(|w| w.set(invs[j].n > 5));
                        }
                        let inc = included(self.pr, &s, &invs[j].st);
                        WHY.with(|w| w.set(false));
                        if !inc {
                            self.log.joins += 1;
                            invs[j].n += 1;
                            if invs[j].n > 40 {
                                let (f, _, l) = self.site();
                                *self.log.gave_up.entry(format!("widening in {}:{}", f, l)).or_default() += 1;
                                continue;
                            }
                            let w = invs[j].n > 3;
                            let a = invs[j].st.clone();
                            invs[j].st = join_n(self.pr, &a, &s, w, invs[j].n);
                            if self.trace {
                                eprintln!("  widen#{} {:?}", invs[j].n, self.stack.last().map(|x| (self.func(x.0).name.clone(), x.1)));
                            }
                            invs[j].dirty = true;
                        }
                    }
                    None => {
                        if self.trace && invs.len() > 3 {
                            eprintln!("  new loop state {:?}: {:?}", self.site(), shape_diff(&invs.last().unwrap().st, &s));
                        }
                        invs.push(Inv { key: k, st: s, n: 0, dirty: true, exits: vec![] })
                    }
                }
            }
        }
        if self.trace && invs.len() > 3 {
            eprintln!("  {} loop states in {:?}", invs.len(), self.site());
            for w in invs[1..].iter() {
                eprintln!("      {:?}", shape_diff(&invs[0].st, &w.st));
            }
        }
        done.extend(invs.into_iter().flat_map(|v| v.exits));
        done
    }

    fn exec_block(
        &mut self,
        f: FnId,
        b: Block,
        st: State,
        pend: &mut BTreeMap<Block, Vec<State>>,
        rets: &mut Vec<State>,
    ) {
        self.log.blocks += 1;
        let body = self.func(f).body.as_ref().unwrap();
        let bb = &body.blocks[b as usize];
        let mut states = vec![st];
        for s in &bb.stmts {
            let mut next = Vec::with_capacity(states.len());
            for st in states {
                next.extend(self.stmt(st, s));
            }
            states = next;
        }
        if let Some(x) = self.stack.last_mut() {
            x.1 = bb.line;
        }
        for st in states {
            self.term(f, &bb.term, bb.line, st, pend, rets);
        }
    }

    fn term(
        &mut self,
        _f: FnId,
        t: &Term,
        line: u32,
        mut st: State,
        pend: &mut BTreeMap<Block, Vec<State>>,
        rets: &mut Vec<State>,
    ) {
        if let Some(x) = self.stack.last_mut() {
            x.1 = line;
        }
        match t {
            Term::Goto(b) => pend.entry(*b).or_default().push(st),
            Term::Return => rets.push(st),
            Term::Unreachable | Term::Resume => {}
            Term::Switch { discr, ty, targets, otherwise } => {
                let v = self.operand(&mut st, discr);
                let l = match &v {
                    Val::Int(l, _) | Val::Disc(l) => st.norm(l),
                    _ => {
                        let mut seen = BTreeSet::new();
                        for b in targets.iter().map(|x| x.1).chain([*otherwise]) {
                            if seen.insert(b) {
                                pend.entry(b).or_default().push(st.clone());
                            }
                        }
                        return;
                    }
                };
                let is_bool = matches!(v, Val::Disc(_)) && matches!(self.pr.ty(*ty).kind, TyKind::Bool);
                let it = self.pr.ity(*ty);
                let val = |n: u128| match it {
                    Some(t) => to_signed(n, t),
                    None => n as i128,
                };
                if let Some(k) = l.is_k() {
                    let b = targets.iter().find(|x| val(x.0) == k).map_or(*otherwise, |x| x.1);
                    pend.entry(b).or_default().push(st);
                    return;
                }
                let mut rest = st.clone();
                let mut alive = true;
                for (n, b) in targets {
                    let mut s = rest.clone();
                    let ok = if is_bool {
                        self.assume_bool(&mut s, &l, *n != 0)
                    } else {
                        self.assume_eq(&mut s, &l.addk(-val(*n)))
                    };
                    if ok {
                        pend.entry(*b).or_default().push(s);
                    }
                    alive = if is_bool {
                        self.assume_bool(&mut rest, &l, *n == 0)
                    } else {
                        self.assume_ne(&mut rest, &l.addk(-val(*n)))
                    };
                    if !alive {
                        break;
                    }
                }
                if alive {
                    pend.entry(*otherwise).or_default().push(rest);
                }
            }
            Term::Drop { place, ty, glue, target } => {
                if let Some(Loc { ptr, sl: None }) = self.place(&mut st, place) {
                    let rule = self.rule.clone();
                    rule.dropped(self, &mut st, &ptr, *ty);
                    if let Some(g) = glue {
                        if self.reaches_local(*g) {
                            for (s, _) in self.call(*g, vec![Val::Ref(ptr.clone())], st) {
                                pend.entry(*target).or_default().push(s);
                            }
                            return;
                        }
                    }
                }
                pend.entry(*target).or_default().push(st);
            }
            Term::Assert { cond, expected, msg, target } => {
                let v = self.operand(&mut st, cond);
                if let Val::Disc(l) = v {
                    let rule = self.rule.clone();
                    let mut bad = st.clone();
                    if self.assume_bool(&mut bad, &l, !*expected) {
                        rule.panic(self, &bad, msg);
                    }
                    if !self.assume_bool(&mut st, &l, *expected) {
                        if self.trace {
                            eprintln!("  assert never holds: {} in {}:{}", msg, self.site().0, line);
                        }
                        return;
                    }
                }
                pend.entry(*target).or_default().push(st);
            }
            Term::Call { callee, args, dest, target } => {
                let mut vs: Vec<Val> = args.iter().map(|a| self.operand(&mut st, a)).collect();
                if let Callee::Fn(g) = callee {
                    // A closure of one argument, given as a tuple.
                    let want = &self.func(*g).args;
                    if args.len() == 2 && want.len() == 2 {
                        if let Some(TyKind::Tuple(ts)) = self.operand_ty(&st, &args[1]).map(|t| &self.pr.ty(t).kind) {
                            if ts.len() == 1 && ts[0] == want[1] {
                                if let Val::Agg(x) = vs[1].clone() {
                                    vs[1] = x[0].clone();
                                }
                            }
                        }
                    }
                }
                let rets2 = match callee {
                    Callee::Fn(g) => {
                        if target.is_none() {
                            if self.trace {
                                eprintln!("  panic {}:{}", self.site().0, line);
                            }
                            let rule = self.rule.clone();
                            let n = self.func(*g).name.clone();
                            rule.panic(self, &st, &n);
                            return;
                        }
                        self.call(*g, vs, st)
                    }
                    Callee::Dynamic(o) => {
                        let fv = self.operand(&mut st, o);
                        match fv {
                            Val::Fn(g) => self.call(g, vs, st),
                            _ => {
                                self.lost("dynamic call");
                                let body = self.body(&st);
                                let t = self.place_ty(body, dest).unwrap();
                                let v = self.unknown(&mut st, t);
                                vec![(st, v)]
                            }
                        }
                    }
                };
                if let Some(t) = target {
                    for (mut s, v) in rets2 {
                        if let Some(x) = self.stack.last_mut() {
                            x.1 = line;
                        }
                        self.write(&mut s, dest, v);
                        pend.entry(*t).or_default().push(s);
                    }
                }
            }
        }
    }
}

pub fn brief(v: &Val, c: &Cons) -> String {
    let f = |l: &Lin| {
        let n = c.norm(l);
        if n.is_k().is_some() {
            show(&n)
        } else {
            let (a, b) = c.interval(&n);
            format!("{}[{}..{}]", show(&n), a, b)
        }
    };
    match v {
        Val::Int(l, _) | Val::Disc(l) | Val::Tok(l) => f(l),
        Val::Agg(a) => format!("({})", a.iter().take(24).map(|x| brief(x, c)).collect::<Vec<_>>().join(", ")),
        Val::Enum(m) => m
            .iter()
            .map(|(k, a)| format!("@{}({})", k, a.iter().take(24).map(|x| brief(x, c)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join("|"),
        Val::Slice(p, a, b) => format!("&{:?}{}[{}..{}]", p.root, p.path.len(), f(a), f(b)),
        Val::It(p, a, b) => format!("it {:?}{}[{}..{}]", p.root, p.path.len(), f(a), f(b)),
        Val::Ref(p) => format!("&{:?}{}", p.root, p.path.len()),
        Val::Arr(a) => format!("arr len {}", f(&a.len)),
        _ => format!("{:?}", v).chars().take(30).collect(),
    }
}

pub fn parent(p: &Ptr) -> Ptr {
    let mut v = (*p.path).clone();
    v.pop();
    Ptr { root: p.root, path: Rc::new(v) }
}

pub fn to_signed(n: u128, t: ITy) -> i128 {
    let b = t.bits();
    if t.signed() && b < 128 && (n >> (b - 1)) & 1 == 1 {
        n as i128 - (1i128 << b)
    } else {
        n as i128
    }
}

pub fn has_mut(pr: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match &pr.ty(t).kind {
        TyKind::Ref { mutable: true, .. } | TyKind::Ptr { mutable: true, .. } => true,
        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => has_mut(pr, *to, seen),
        TyKind::Adt { variants, path, .. } => {
            path.ends_with("IterMut")
                || variants.iter().any(|v| v.fields.iter().any(|f| has_mut(pr, f.1, seen)))
        }
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.iter().any(|f| has_mut(pr, *f, seen)),
        TyKind::Array { elem, .. } | TyKind::Slice(elem) => has_mut(pr, *elem, seen),
        _ => false,
    }
}
pub fn has_ref(pr: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    if pr.is_vec(t) || pr.is_box(t) || pr.is_ioerr(t) || pr.is_opaque_adt(t) {
        return pr.is_vec(t) && has_ref(pr, pr.elem_of(t), seen);
    }
    match &pr.ty(t).kind {
        TyKind::Ref { .. } | TyKind::Ptr { .. } => true,
        TyKind::Adt { variants, .. } => variants.iter().any(|v| v.fields.iter().any(|f| has_ref(pr, f.1, seen))),
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.iter().any(|f| has_ref(pr, *f, seen)),
        TyKind::Array { elem, .. } | TyKind::Slice(elem) => has_ref(pr, *elem, seen),
        _ => false,
    }
}
/// Is an interesting type owned or mutably reachable?
pub fn reaches(pr: &Prog, t: TyId, r: &dyn Rule, owned: bool, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match &pr.ty(t).kind {
        TyKind::Ref { to, mutable } | TyKind::Ptr { to, mutable } => *mutable && reaches(pr, *to, r, true, seen),
        TyKind::Adt { variants, args, path, .. } => {
            if owned && r.interesting(path) {
                return true;
            }
            variants.iter().any(|v| v.fields.iter().any(|f| reaches(pr, f.1, r, owned, seen)))
                || ((pr.is_vec(t) || pr.is_box(t)) && args.iter().any(|a| reaches(pr, *a, r, owned, seen)))
        }
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.iter().any(|f| reaches(pr, *f, r, owned, seen)),
        TyKind::Array { elem, .. } | TyKind::Slice(elem) => reaches(pr, *elem, r, owned, seen),
        _ => false,
    }
}

/// Does a type mention an ADT satisfying p, behind any references?
pub fn mentions(pr: &Prog, t: TyId, p: &dyn Fn(&str) -> bool, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match &pr.ty(t).kind {
        TyKind::Ref { to, .. } | TyKind::Ptr { to, .. } => mentions(pr, *to, p, seen),
        TyKind::Adt { variants, args, path, .. } => {
            p(path)
                || variants.iter().any(|v| v.fields.iter().any(|f| mentions(pr, f.1, p, seen)))
                || args.iter().any(|a| mentions(pr, *a, p, seen))
        }
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.iter().any(|f| mentions(pr, *f, p, seen)),
        TyKind::Array { elem, .. } | TyKind::Slice(elem) => mentions(pr, *elem, p, seen),
        _ => false,
    }
}

// ------------------------------------------------------------------ CFG facts

fn mentions_mut(pr: &Prog, t: TyId, seen: &mut BTreeSet<TyId>) -> bool {
    if !seen.insert(t) {
        return false;
    }
    match &pr.ty(t).kind {
        TyKind::Ref { to, mutable } | TyKind::Ptr { to, mutable } => *mutable || mentions_mut(pr, *to, seen),
        TyKind::Adt { variants, .. } if !pr.is_vec(t) && !pr.is_box(t) && !pr.is_ioerr(t) && !pr.is_opaque_adt(t) => {
            variants.iter().any(|v| v.fields.iter().any(|f| mentions_mut(pr, f.1, seen)))
        }
        TyKind::Tuple(v) | TyKind::Closure { fields: v } => v.iter().any(|f| mentions_mut(pr, *f, seen)),
        _ => false,
    }
}

fn loop_free(b: &Body) -> bool {
    // 1: being visited, 2: done
    fn go(b: &Body, i: usize, m: &mut Vec<u8>) -> bool {
        match m[i] {
            1 => return false,
            2 => return true,
            _ => {}
        }
        m[i] = 1;
        let ok = succs(&b.blocks[i].term).into_iter().all(|s| go(b, s as usize, m));
        m[i] = 2;
        ok
    }
    go(b, 0, &mut vec![0; b.blocks.len()])
}

fn succs(t: &Term) -> Vec<Block> {
    match t {
        Term::Goto(b) => vec![*b],
        Term::Switch { targets, otherwise, .. } => {
            let mut v: Vec<Block> = targets.iter().map(|x| x.1).collect();
            v.push(*otherwise);
            v
        }
        Term::Drop { target, .. } | Term::Assert { target, .. } => vec![*target],
        Term::Call { target: Some(t), .. } => vec![*t],
        _ => vec![],
    }
}

fn analyse(f: &Func) -> FnInfo {
    let body = f.body.as_ref().unwrap();
    let n = body.blocks.len();
    let su: Vec<Vec<Block>> = body.blocks.iter().map(|b| succs(&b.term)).collect();
    let wto = wto(&su);
    // liveness
    let nl = body.locals.len();
    let mut taken = vec![false; nl];
    let mut gen = vec![vec![false; nl]; n];
    let mut kill = vec![vec![false; nl]; n];
    for (i, b) in body.blocks.iter().enumerate() {
        let mut acts: Vec<(bool, Local)> = vec![]; // (is_use, local) in order
        let mut use_place = |p: &Place, acts: &mut Vec<(bool, Local)>| {
            acts.push((true, p.local));
            for e in &p.proj {
                if let Proj::Index(l) = e {
                    acts.push((true, *l));
                }
            }
        };
        let mut use_op = |o: &Operand, acts: &mut Vec<(bool, Local)>| match o {
            Operand::Copy(p) | Operand::Move(p) => {
                acts.push((true, p.local));
                for e in &p.proj {
                    if let Proj::Index(l) = e {
                        acts.push((true, *l));
                    }
                }
            }
            _ => {}
        };
        for s in &b.stmts {
            match &s.kind {
                StmtKind::Assign(p, rv) => {
                    match rv {
                        Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast(_, o, _) | Rvalue::Un(_, o) => {
                            use_op(o, &mut acts)
                        }
                        Rvalue::Bin(_, a, b) | Rvalue::CheckedBin(_, a, b) => {
                            use_op(a, &mut acts);
                            use_op(b, &mut acts);
                        }
                        Rvalue::Ref(_, q) | Rvalue::AddrOf(_, q) => {
                            use_place(q, &mut acts);
                            if !q.proj.iter().any(|e| matches!(e, Proj::Deref)) {
                                taken[q.local as usize] = true;
                            }
                        }
                        Rvalue::Len(q) | Rvalue::Discr(q) => use_place(q, &mut acts),
                        Rvalue::Agg(_, _, os) | Rvalue::RawPtrAgg(_, os) => {
                            os.iter().for_each(|o| use_op(o, &mut acts))
                        }
                        Rvalue::ThreadLocal => {}
                    }
                    if p.proj.is_empty() {
                        acts.push((false, p.local));
                    } else {
                        use_place(p, &mut acts);
                    }
                }
                StmtKind::SetDiscr(p, _) => use_place(p, &mut acts),
                StmtKind::Live(l) | StmtKind::Dead(l) => acts.push((false, *l)),
                StmtKind::Assume(o) => use_op(o, &mut acts),
                StmtKind::CopyNonOverlapping { src, dst, count } => {
                    use_op(src, &mut acts);
                    use_op(dst, &mut acts);
                    use_op(count, &mut acts);
                }
            }
        }
        match &b.term {
            Term::Switch { discr, .. } => use_op(discr, &mut acts),
            Term::Drop { place, .. } => {
                use_place(place, &mut acts);
            }
            Term::Call { callee, args, dest, .. } => {
                if let Callee::Dynamic(o) = callee {
                    use_op(o, &mut acts);
                }
                args.iter().for_each(|o| use_op(o, &mut acts));
                if dest.proj.is_empty() {
                    acts.push((false, dest.local));
                } else {
                    use_place(dest, &mut acts);
                }
            }
            Term::Assert { cond, .. } => use_op(cond, &mut acts),
            Term::Return => acts.push((true, 0)),
            _ => {}
        }
        for (u, l) in acts {
            let l = l as usize;
            if u {
                if !kill[i][l] {
                    gen[i][l] = true;
                }
            } else if !gen[i][l] {
                kill[i][l] = true;
            }
        }
    }
    let mut live = gen.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..n).rev() {
            for s in &su[i] {
                for l in 0..nl {
                    if live[*s as usize][l] && !kill[i][l] && !live[i][l] {
                        live[i][l] = true;
                        changed = true;
                    }
                }
            }
        }
    }
    for v in live.iter_mut() {
        for l in 0..nl {
            if taken[l] {
                v[l] = true;
            }
        }
    }
    FnInfo { wto, live, nargs: f.args.len() }
}

/// Bourdoncle's weak topological order.
fn wto(su: &[Vec<Block>]) -> Vec<W> {
    struct S<'a> {
        su: &'a [Vec<Block>],
        dfn: Vec<u32>,
        num: u32,
        stack: Vec<Block>,
    }
    const INF: u32 = u32::MAX;
    fn visit(s: &mut S, v: Block, out: &mut Vec<W>) -> u32 {
        s.stack.push(v);
        s.num += 1;
        s.dfn[v as usize] = s.num;
        let mut head = s.num;
        let mut is_loop = false;
        for k in 0..s.su[v as usize].len() {
            let w = s.su[v as usize][k];
            let min = if s.dfn[w as usize] == 0 { visit(s, w, out) } else { s.dfn[w as usize] };
            if min <= head {
                head = min;
                is_loop = true;
            }
        }
        if head == s.dfn[v as usize] {
            s.dfn[v as usize] = INF;
            let mut e = s.stack.pop().unwrap();
            if is_loop {
                while e != v {
                    s.dfn[e as usize] = 0;
                    e = s.stack.pop().unwrap();
                }
                let mut inner = vec![];
                for k in 0..s.su[v as usize].len() {
                    let w = s.su[v as usize][k];
                    if s.dfn[w as usize] == 0 {
                        visit(s, w, &mut inner);
                    }
                }
                inner.reverse();
                out.push(W::Comp(v, inner));
            } else {
                out.push(W::Block(v));
            }
        }
        head
    }
    let mut s = S { su, dfn: vec![0; su.len()], num: 0, stack: vec![] };
    let mut out = vec![];
    visit(&mut s, 0, &mut out);
    out.reverse();
    out
}
