//! A plan is everything that decides one simulated run of library calls: which
//! tasks make which calls on which build, what happens at every callback, where
//! calls are preempted, and which task continues each time.

use crate::ops::Op;
use crate::val::{Ty, W};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Build {
    /// native intrinsics, release
    Nr,
    /// native intrinsics, debug assertions
    Nd,
    /// LLVM intrinsics, release
    Lr,
    /// LLVM intrinsics, debug assertions
    Ld,
}
pub const BUILDS: [Build; 4] = [Build::Nr, Build::Nd, Build::Lr, Build::Ld];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Tr {
    Display,
    Debug,
    Binary,
    Octal,
    LowerHex,
    UpperHex,
    LowerExp,
    UpperExp,
    /// Debug of a structure holding the value twice
    DebugTree,
}
pub const TRS: [Tr; 9] = [
    Tr::Display,
    Tr::Debug,
    Tr::Binary,
    Tr::Octal,
    Tr::LowerHex,
    Tr::UpperHex,
    Tr::LowerExp,
    Tr::UpperExp,
    Tr::DebugTree,
];

/// Everything a format string can say.
#[derive(Clone, PartialEq, Eq, Debug, Default, Serialize, Deserialize)]
pub struct Spec {
    /// 0 none, 1 '+', 2 '-'
    pub sign: u8,
    pub alt: bool,
    pub zero: bool,
    /// 0 none, 1 '<', 2 '^', 3 '>'
    pub align: u8,
    pub fill: Option<char>,
    pub width: Option<u16>,
    pub prec: Option<u16>,
    /// 0 none, 1 'x?', 2 'X?'
    pub hex: u8,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Sink {
    /// the caller's fmt::Write
    Fmt,
    /// the caller's io::Write, through write!
    Io,
}

/// The serde forms a value can be stored in.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Form {
    Hex,
    Dec,
    Prefixed,
    Permissive,
    BytesLe,
    BytesBe,
    BytesNe,
    CompLe,
    CompBe,
    CompNe,
}
pub const TEXT_FORMS: [Form; 4] = [Form::Hex, Form::Dec, Form::Prefixed, Form::Permissive];
pub const BYTE_FORMS: [Form; 6] = [Form::BytesLe, Form::BytesBe, Form::BytesNe, Form::CompLe, Form::CompBe, Form::CompNe];
impl Form {
    pub fn text(self) -> bool {
        TEXT_FORMS.contains(&self)
    }
    pub fn big_endian(self) -> bool {
        matches!(self, Form::BytesBe | Form::CompBe)
    }
    pub fn comp(self) -> bool {
        matches!(self, Form::CompLe | Form::CompBe | Form::CompNe)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Mode {
    Borrowed,
    Transient,
    Owned,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Elem {
    U8(u8),
    U64(u64),
    I64(i64),
    F64(u64),
    Str(String),
    Bool(bool),
    Unit,
}

/// In a size hint that is wrong: how many elements are left of so many.
pub const COUNTS_DOWN: u32 = 0x4000_0000;

/// What the data format holds where a value is expected.
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum In {
    Str(Mode, String),
    Bytes(Mode, Vec<u8>),
    /// elements, size hint (None: exact, Some(None): missing, Some(Some(n)):
    /// says n), and whether the source goes on for ever after the elements
    Seq(Vec<Elem>, Option<Option<u32>>, bool),
    U8(u8),
    U64(u64),
    I8(i8),
    I64(i64),
    U128(W),
    I128(W),
    F32(u32),
    F64(u64),
    /// a bare number in a text format: what is too long for its integers, or has
    /// a point or an exponent, it reads as a float (of single precision?)
    Num(String, bool),
    Bool(bool),
    Char(char),
    Unit,
    None,
    Some(Box<In>),
    Newtype(Box<In>),
    Map,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum AOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Xor,
    Shl,
    Shr,
}
pub const AOPS: [AOp; 10] = [AOp::Add, AOp::Sub, AOp::Mul, AOp::Div, AOp::Rem, AOp::And, AOp::Or, AOp::Xor, AOp::Shl, AOp::Shr];

/// The operand's type, for in-place operators.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum Rt {
    /// the same 256-bit type
    Same,
    /// the 128-bit primitive of the same signedness
    Prim,
    // shift amounts
    U256,
    I256,
    I8,
    I16,
    I32,
    I64,
    I128,
    Isize,
    U8,
    U16,
    U32,
    U64,
    U128,
    Usize,
}
pub const SHIFT_RTS: [Rt; 14] = [
    Rt::U256, Rt::I256, Rt::I8, Rt::I16, Rt::I32, Rt::I64, Rt::I128, Rt::Isize, Rt::U8, Rt::U16, Rt::U32, Rt::U64, Rt::U128, Rt::Usize,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
pub enum How {
    Dec,
    Radix,
    Hex,
    Prefixed,
    /// the parser behind the literal macros
    Literal,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Act {
    Fmt { ty: Ty, v: W, tr: Tr, spec: Spec, sink: Sink, cap: Option<u32> },
    Ser { ty: Ty, v: W, form: Form, hr: bool },
    De { ty: Ty, form: Form, input: In, hr: bool, post: Option<u32> },
    Fold { ty: Ty, prod: bool, by_ref: bool, items: Vec<W>, hint: u8 },
    /// `regs[reg] op= rhs`, with the operand by value or by reference
    Assign { ty: Ty, op: AOp, rt: Rt, by_ref: bool, reg: u8, rhs: W },
    /// `regs[dst] = a op b` with the binary operators' reference variants;
    /// `rev` puts the 128-bit primitive on the left
    Binary { ty: Ty, op: AOp, rt: Rt, var: u8, rev: bool, a: W, rhs: W },
    Call { ty: Ty, op: Op, a: W, b: W, n: u32 },
    Parse { ty: Ty, how: How, s: String, radix: u32 },
    Hash { ty: Ty, a: W, b: W },
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum EvK {
    /// another task may run while the callback is in progress
    Yield,
    /// the callback calls the library itself
    Nest(Box<Step>),
    /// the callback fails with this code
    Fail(u32),
    /// the callback panics with this payload
    Panic(u32),
    /// a writer takes this many bytes, then fails
    Part(u32),
    /// an io writer takes at most this many bytes
    Short(u32),
    /// an io writer is interrupted
    Intr,
    /// an io writer takes nothing
    Zero,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Ev {
    /// the index of the callback within its step
    pub at: u32,
    pub k: EvK,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Step {
    pub build: Build,
    pub act: Act,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ev: Vec<Ev>,
    /// preempt after this many instructions, then after so many more, ...
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub pre: Vec<u32>,
    /// the same, counted in accesses to the library's statics
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub shared: Vec<u32>,
    /// every allocation the call makes fails
    #[serde(default)]
    pub oom: bool,
    /// stale stack content under the call
    #[serde(default)]
    pub stale: u8,
    /// how many times the same call has been made before
    #[serde(default, skip_serializing_if = "none")]
    pub age: u32,
}

fn none(n: &u32) -> bool {
    *n == 0
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Plan {
    pub regs: Vec<W>,
    pub tasks: Vec<Vec<Step>>,
    /// at the i-th scheduling point, run the task this many places further on
    pub sched: Vec<u32>,
    pub scribble: u64,
}
