//! The intermediate representation passed from the exporter (which runs inside
//! rustc) to the analyzer: monomorphic MIR with resolved callees, evaluated
//! constants and structural types.
use serde::{Deserialize, Serialize};

pub type TyId = u32;
pub type FnId = u32;
pub type Local = u32;
pub type Block = u32;

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Program {
    pub types: Vec<Type>,
    pub fns: Vec<Func>,
    /// Harness entry points: (name, function).
    pub roots: Vec<(String, FnId)>,
    pub files: Vec<String>,
    /// Source facts about the analysed crate itself.
    pub facts: Facts,
}

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Facts {
    pub statics: Vec<(String, bool)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Type {
    pub name: String,
    pub kind: TyKind,
    pub size: Option<u64>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyKind {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float,
    Str,
    Never,
    Adt { path: String, kind: AdtKind, variants: Vec<Variant>, args: Vec<TyId> },
    Ref { to: TyId, mutable: bool },
    Ptr { to: TyId, mutable: bool },
    Array { elem: TyId, len: u64 },
    Slice(TyId),
    Tuple(Vec<TyId>),
    Closure { fields: Vec<TyId> },
    FnDef(Option<FnId>),
    FnPtr,
    Dyn,
    Opaque,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum AdtKind {
    Struct,
    Enum,
    Union,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<(String, TyId)>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Func {
    /// Full monomorphic name, with generic arguments.
    pub name: String,
    /// Def path without generic arguments of the innermost item.
    pub path: String,
    pub krate: String,
    /// Belongs to the crate under analysis.
    pub local: bool,
    pub intrinsic: Option<String>,
    pub generic_tys: Vec<TyId>,
    pub args: Vec<TyId>,
    pub ret: TyId,
    pub spread_arg: Option<Local>,
    /// First operand of the function is a `self` that is a closure environment etc.
    pub body: Option<Body>,
    pub file: u32,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Body {
    pub locals: Vec<TyId>,
    pub names: Vec<Option<String>>,
    pub blocks: Vec<BasicBlock>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct BasicBlock {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub line: u32,
    pub file: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Stmt {
    pub kind: StmtKind,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum StmtKind {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    Live(Local),
    Dead(Local),
    Assume(Operand),
    CopyNonOverlapping { src: Operand, dst: Operand, count: Operand },
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Place {
    pub local: Local,
    pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Index(Local),
    ConstIndex { offset: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(TyId, Const),
    /// UbChecks / OverflowChecks switches.
    Checks(u8),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Const {
    Int(u128),
    /// Struct, tuple, array: all fields.
    Agg(Vec<Const>),
    Enum(u32, Vec<Const>),
    Bytes(Vec<u8>),
    /// Reference to constant memory; `Str`/slices carry their length implicitly.
    Ref(Box<Const>),
    Str(String),
    Slice(Vec<Const>),
    StaticRef(String, Box<Const>),
    Fn(FnId),
    Zst,
    Unknown,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum BinOp {
    Add,
    AddUnchecked,
    Sub,
    SubUnchecked,
    Mul,
    MulUnchecked,
    Div,
    Rem,
    BitXor,
    BitAnd,
    BitOr,
    Shl,
    ShlUnchecked,
    Shr,
    ShrUnchecked,
    Eq,
    Lt,
    Le,
    Ne,
    Ge,
    Gt,
    Cmp,
    Offset,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum UnOp {
    Not,
    Neg,
    PtrMetadata,
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum CastKind {
    IntToInt,
    PtrToPtr,
    Transmute,
    Unsize,
    ReifyFn,
    PtrToInt,
    IntToPtr,
    Other,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref(bool, Place),
    AddrOf(bool, Place),
    Len(Place),
    Cast(CastKind, Operand, TyId),
    Bin(BinOp, Operand, Operand),
    CheckedBin(BinOp, Operand, Operand),
    Un(UnOp, Operand),
    Discr(Place),
    /// Type, variant, fields.
    Agg(TyId, u32, Vec<Operand>),
    RawPtrAgg(TyId, Vec<Operand>),
    ThreadLocal,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(Block),
    Switch { discr: Operand, ty: TyId, targets: Vec<(u128, Block)>, otherwise: Block },
    Return,
    Unreachable,
    /// End of an unwinding path.
    Resume,
    Drop { place: Place, ty: TyId, glue: Option<FnId>, target: Block },
    Call { callee: Callee, args: Vec<Operand>, dest: Place, target: Option<Block> },
    Assert { cond: Operand, expected: bool, msg: String, target: Block },
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee {
    Fn(FnId),
    Dynamic(Operand),
}
