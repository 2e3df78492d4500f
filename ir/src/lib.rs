//! The program representation handed from the compiler driver to the analyser.
//! It is a resolved, monomorphic, JSON-serialisable image of rustc's MIR.
use serde::{Deserialize, Serialize};

pub type TyId = usize;
pub type FnId = usize;

#[derive(Serialize, Deserialize, Debug, Default)]
pub struct Program {
    pub types: Vec<Ty>,
    pub fns: Vec<Func>,
    pub roots: Vec<Root>,
    /// names of public functions that could not be instantiated
    pub skipped: Vec<String>,
    pub pointer_bits: u32,
    /// statics mentioned by any lowered body
    #[serde(default)]
    pub statics: Vec<String>,
    /// all crates the program is linked from
    #[serde(default)]
    pub crates: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Root {
    pub f: FnId,
    pub path: String,
    pub trait_path: Option<String>,
    pub inputs: Vec<TyId>,
    pub output: TyId,
    pub derived: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Ty {
    Bool,
    Char,
    Int { bits: u16, signed: bool, ptr: bool },
    Float,
    Never,
    Str,
    Adt { path: String, krate: String, kind: AdtKind, args: Vec<TyId>, variants: Vec<Variant>, public: bool, size: Option<u64> },
    Tuple(Vec<TyId>),
    Ref { m: bool, to: TyId },
    Ptr { m: bool, to: TyId },
    Array { elem: TyId, len: u64 },
    Slice(TyId),
    FnDef { f: Option<FnId>, name: String },
    FnPtr,
    Closure { name: String, upvars: Vec<TyId> },
    Dyn,
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum AdtKind { Struct, Enum, Union }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct Variant { pub name: String, pub discr: i128, pub fields: Vec<(String, TyId)>, #[serde(default)] pub offs: Vec<u64> }

#[derive(Serialize, Deserialize, Debug)]
pub struct Func {
    /// full name including generic arguments
    pub name: String,
    /// path without generic arguments
    pub path: String,
    pub krate: String,
    /// item | intrinsic | virtual | shim:<kind>
    pub kind: String,
    /// trait path when this is a trait (impl) method
    pub trait_method: Option<String>,
    pub self_ty: Option<TyId>,
    pub targs: Vec<TyId>,
    pub inputs: Vec<TyId>,
    pub output: TyId,
    pub body: Option<Body>,
    pub file: String,
    pub line: u32,
    pub is_unsafe: bool,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Body {
    pub arg_count: usize,
    pub spread_arg: Option<usize>,
    pub locals: Vec<TyId>,
    pub names: Vec<(String, usize)>,
    pub blocks: Vec<Block>,
}

#[derive(Serialize, Deserialize, Debug)]
pub struct Block { pub stmts: Vec<(Stmt, u32)>, pub term: Term, pub line: u32, pub cleanup: bool }

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, usize),
    Live(usize),
    Dead(usize),
    Assume(Operand),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(usize),
    Switch { discr: Operand, ty: TyId, targets: Vec<(u128, usize)>, otherwise: usize },
    Return,
    Unreachable,
    Drop { place: Place, target: usize },
    Call { callee: Callee, args: Vec<Operand>, dest: Place, target: Option<usize> },
    Assert { cond: Operand, expected: bool, msg: AssertMsg, target: usize },
    Resume,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee { Fn(FnId), Indirect(Operand) }

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AssertMsg { Bounds { len: Operand, index: Operand }, Overflow(String, Operand, Operand), OverflowNeg(Operand), DivZero, RemZero, Other(String) }

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Place { pub local: usize, pub proj: Vec<Proj> }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Proj { Deref, Field(usize, TyId), Index(usize), ConstIndex { offset: u64, min: u64, from_end: bool }, Subslice { from: u64, to: u64, from_end: bool }, Downcast(usize), Other }

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand { Copy(Place), Move(Place), Const(TyId, Const), RtCheck(String) }

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum Const {
    Int(i128),
    Zst,
    Str(Vec<u8>),
    /// reference to constant data: pointee
    RefTo(TyId, Box<Const>),
    /// slice reference to constant elements
    SliceOf(TyId, Vec<Const>),
    Bytes(Vec<u8>),
    Agg { variant: usize, fields: Vec<Const> },
    Fn(FnId),
    Unknown,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref { m: bool, place: Place },
    RawPtr { place: Place },
    Cast { kind: String, op: Operand, from: TyId, to: TyId },
    Bin { op: String, a: Operand, b: Operand, ty: TyId },
    Un { op: String, a: Operand, ty: TyId },
    Discr(Place, TyId),
    Agg { ty: TyId, variant: usize, field: Option<usize>, ops: Vec<Operand> },
    Other(String),
}
