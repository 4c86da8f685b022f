//! The library operations a replica's log can contain, and their exact meaning
//! on mathematical integers (the reference model).

use crate::rng::Rng;
use crate::val::{self, fits, tmax, tmin, Ty, W};
use num_bigint::{BigInt, Sign};
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive, Zero};
use serde::{Deserialize, Serialize};

/// What an operation returned, flattened: up to two 256-bit patterns and flags.
#[derive(Clone, Copy, PartialEq, Eq, Default)]
pub struct Out {
    pub v: [Option<W>; 2],
    pub flags: u64,
}

impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for v in self.v.iter().flatten() {
            write!(f, "{:?} ", v)?;
        }
        write!(f, "flags={:#x}", self.flags)
    }
}

impl Out {
    pub fn val(&mut self, w: W) {
        if self.v[0].is_none() {
            self.v[0] = Some(w)
        } else {
            self.v[1] = Some(w)
        }
    }
    pub fn flag(&mut self, bits: u32, x: u64) {
        self.flags = (self.flags << bits) | x;
    }
}

/// Flattens any return type the operations have.
pub trait Put {
    fn put(self, o: &mut Out);
}
impl Put for W {
    fn put(self, o: &mut Out) {
        o.val(self)
    }
}
impl Put for bool {
    fn put(self, o: &mut Out) {
        o.flag(1, self as u64)
    }
}
impl Put for u32 {
    fn put(self, o: &mut Out) {
        o.flag(32, self as u64)
    }
}
impl Put for std::cmp::Ordering {
    fn put(self, o: &mut Out) {
        o.flag(2, (self as i8 + 1) as u64)
    }
}
impl<T: Put> Put for Option<T> {
    fn put(self, o: &mut Out) {
        match self {
            None => o.flag(2, 2),
            Some(x) => {
                o.flag(2, 3);
                x.put(o)
            }
        }
    }
}
impl<T: Put, E> Put for Result<T, E> {
    fn put(self, o: &mut Out) {
        self.ok().put(o)
    }
}
impl<A: Put, B: Put> Put for (A, B) {
    fn put(self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o)
    }
}
impl<A: Put, B: Put, C: Put> Put for (A, B, C) {
    fn put(self, o: &mut Out) {
        self.0.put(o);
        self.1.put(o);
        self.2.put(o)
    }
}
impl Put for f32 {
    fn put(self, o: &mut Out) {
        o.flag(32, self.to_bits() as u64)
    }
}
impl Put for f64 {
    fn put(self, o: &mut Out) {
        o.flags = self.to_bits()
    }
}
impl Put for i128 {
    fn put(self, o: &mut Out) {
        o.val(W([self as u128, if self < 0 { !0 } else { 0 }]))
    }
}
impl Put for u128 {
    fn put(self, o: &mut Out) {
        o.val(W([self, 0]))
    }
}
macro_rules! put_small {
    ($($t:ty => $w:ty),*) => {$( impl Put for $t { fn put(self, o: &mut Out) { (self as $w).put(o) } } )*};
}
put_small! { i8 => i128, i16 => i128, i32 => i128, i64 => i128, isize => i128, u8 => u128, u16 => u128, u64 => u128, usize => u128 }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    /// two operands of the same type
    Bin,
    /// one operand
    Un,
    /// an operand and a shift amount
    Sh,
    /// an operand and an exponent
    Pow,
    /// an operand and one of the other signedness
    Mix,
    /// an operand and a 128-bit primitive
    Prim,
    /// a primitive, float or array converted into the type
    Into,
}

macro_rules! ops {
    ($($name:ident $cls:ident $which:ident;)*) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash)]
        pub enum Op { $($name,)* }
        pub const OPS: &[(Op, Cls, Which)] = &[$((Op::$name, Cls::$cls, Which::$which),)*];
    };
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    B,
    U,
    I,
}

ops! {
    CheckedAdd Bin B; CheckedSub Bin B; CheckedMul Bin B; CheckedDiv Bin B; CheckedRem Bin B;
    CheckedDivEuclid Bin B; CheckedRemEuclid Bin B;
    WrappingAdd Bin B; WrappingSub Bin B; WrappingMul Bin B; WrappingDiv Bin B; WrappingRem Bin B;
    WrappingDivEuclid Bin B; WrappingRemEuclid Bin B;
    OverflowingAdd Bin B; OverflowingSub Bin B; OverflowingMul Bin B; OverflowingDiv Bin B; OverflowingRem Bin B;
    OverflowingDivEuclid Bin B; OverflowingRemEuclid Bin B;
    SaturatingAdd Bin B; SaturatingSub Bin B; SaturatingMul Bin B; SaturatingDiv Bin B;
    DivEuclid Bin B; RemEuclid Bin B;
    DivRem Bin B; DivRemEuclid Bin B; CheckedDivRem Bin B; CheckedDivRemEuclid Bin B;
    SaturatingDivRem Bin B; SaturatingDivRemEuclid Bin B;
    WrappingDivRem Bin B; WrappingDivRemEuclid Bin B; OverflowingDivRem Bin B; OverflowingDivRemEuclid Bin B;
    AbsDiff Bin B; OpAdd Bin B; OpSub Bin B; OpMul Bin B; OpDiv Bin B; OpRem Bin B;
    OpAnd Bin B; OpOr Bin B; OpXor Bin B; Eq Bin B; Lt Bin B; Le Bin B; Cmp Bin B; PartialCmp Bin B; Min Bin B; Max Bin B;
    CheckedNeg Un B; WrappingNeg Un B; OverflowingNeg Un B; OpNot Un B;
    CountOnes Un B; CountZeros Un B; LeadingZeros Un B; TrailingZeros Un B; LeadingOnes Un B; TrailingOnes Un B;
    SwapBytes Un B; ReverseBits Un B; FromBe Un B; FromLe Un B; ToBe Un B; ToLe Un B;
    ToBeBytes Un B; ToLeBytes Un B; ToNeBytes Un B; FromBeBytes Un B; FromLeBytes Un B; FromNeBytes Un B;
    Words Un B; LowHigh Un B; LowMut Mix B; HighMut Mix B;
    AsI8 Un B; AsI16 Un B; AsI32 Un B; AsI64 Un B; AsI128 Un B; AsIsize Un B; AsU8 Un B; AsU16 Un B; AsU32 Un B; AsU64 Un B; AsU128 Un B; AsUsize Un B;
    AsOther Un B; TraitOther Un B; TraitSelf Un B; TryOther Un B; AsF32 Un B; AsF64 Un B; IntoF32 Un B; IntoF64 Un B;
    TryI8 Un B; TryI16 Un B; TryI32 Un B; TryI64 Un B; TryI128 Un B; TryIsize Un B; TryU8 Un B; TryU16 Un B; TryU32 Un B; TryU64 Un B; TryU128 Un B; TryUsize Un B;
    CheckedShl Sh B; CheckedShr Sh B; WrappingShl Sh B; WrappingShr Sh B; OverflowingShl Sh B; OverflowingShr Sh B;
    RotateLeft Sh B; RotateRight Sh B; OpShl Sh B; OpShr Sh B;
    CheckedPow Pow B; WrappingPow Pow B; OverflowingPow Pow B; SaturatingPow Pow B; PlainPow Pow B;
    CheckedAddMix Mix B; SaturatingAddMix Mix B; WrappingAddMix Mix B; OverflowingAddMix Mix B;
    CheckedSubMix Mix I; SaturatingSubMix Mix I; WrappingSubMix Mix I; OverflowingSubMix Mix I;
    IsPow2 Un U; NextPow2 Un U; CheckedNextPow2 Un U;
    SaturatingNeg Un I; CheckedAbs Un I; WrappingAbs Un I; OverflowingAbs Un I; SaturatingAbs Un I; Abs Un I;
    UnsignedAbs Un I; Signum Un I; Signum128 Un I; IsPositive Un I; IsNegative Un I; OpNeg Un I;
    PrimEq Prim B; PrimCmp Prim B; PrimRevCmp Prim B; PrimAdd Prim B; PrimRevSub Prim B; New Prim B;
    FromBool Into B; FromI8 Into B; FromI16 Into B; FromI32 Into B; FromI64 Into B; FromI128 Into B; FromIsize Into U;
    FromU8 Into B; FromU16 Into B; FromU32 Into B; FromU64 Into B; FromU128 Into B; FromUsize Into U;
    CastBool Into B; CastI8 Into B; CastI16 Into B; CastI32 Into B; CastI64 Into B; CastI128 Into B; CastIsize Into B;
    CastU8 Into B; CastU16 Into B; CastU32 Into B; CastU64 Into B; CastU128 Into B; CastUsize Into B;
    CastF32 Into B; CastF64 Into B;
}

pub fn ops_for(ty: Ty) -> Vec<(Op, Cls)> {
    OPS.iter()
        .filter(|(_, _, w)| match w {
            Which::B => true,
            Which::U => ty == Ty::U,
            Which::I => ty == Ty::I,
        })
        .map(|(o, c, _)| (*o, *c))
        .collect()
}

pub fn other(ty: Ty) -> Ty {
    match ty {
        Ty::U => Ty::I,
        Ty::I => Ty::U,
    }
}

/// Why the primitive would panic.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Trap;
pub type Model = Result<Out, Trap>;

fn out<T: Put>(x: T) -> Model {
    let mut o = Out::default();
    x.put(&mut o);
    Ok(o)
}

struct N {
    ty: Ty,
    debug: bool,
}
impl N {
    fn chk(&self, x: &BigInt) -> Option<W> {
        fits(self.ty, x).then(|| W::wrap(x))
    }
    fn wrp(&self, x: &BigInt) -> W {
        W::wrap(x)
    }
    fn ovf(&self, x: &BigInt) -> (W, bool) {
        (W::wrap(x), !fits(self.ty, x))
    }
    fn sat(&self, x: &BigInt) -> W {
        if *x < tmin(self.ty) {
            W::wrap(&tmin(self.ty))
        } else if *x > tmax(self.ty) {
            W::wrap(&tmax(self.ty))
        } else {
            W::wrap(x)
        }
    }
    /// The operator: panics with debug assertions, wraps without.
    fn opr(&self, x: &BigInt) -> Result<W, Trap> {
        if self.debug && !fits(self.ty, x) {
            Err(Trap)
        } else {
            Ok(W::wrap(x))
        }
    }
    /// The operators that panic on overflow in every build.
    fn strict(&self, x: &BigInt) -> Result<W, Trap> {
        if !fits(self.ty, x) {
            Err(Trap)
        } else {
            Ok(W::wrap(x))
        }
    }
}

fn tdiv(a: &BigInt, b: &BigInt) -> (BigInt, BigInt) {
    let (q, r) = a.magnitude().div_rem(b.magnitude());
    let q = BigInt::from(q);
    let r = BigInt::from(r);
    (
        if a.is_negative() != b.is_negative() { -q } else { q },
        if a.is_negative() { -r } else { r },
    )
}

pub fn ediv(a: &BigInt, b: &BigInt) -> (BigInt, BigInt) {
    let (q, r) = tdiv(a, b);
    if r.is_negative() {
        if b.is_negative() {
            (q + 1, r - b)
        } else {
            (q - 1, r + b)
        }
    } else {
        (q, r)
    }
}

fn upat(w: W) -> BigInt {
    w.big(Ty::U)
}

/// Shifts on the pattern; `n` below 256.
fn shl(a: W, n: u32) -> W {
    W::wrap(&(upat(a) << n))
}
fn shr(ty: Ty, a: W, n: u32) -> W {
    // BigInt's >> rounds towards negative infinity, which is the arithmetic shift
    W::wrap(&(a.big(ty) >> n))
}

/// The nearest value with `mant` significant bits, ties to even, as (integer,
/// power of two); independent of any float arithmetic.
fn round_bits(u: &BigInt, mant: u64) -> (u64, u64) {
    let bits = u.bits();
    if bits <= mant {
        return (u.to_u64().unwrap(), 0);
    }
    let sh = bits - mant;
    let q: BigInt = u >> sh;
    let rem: BigInt = u - (&q << sh);
    let half = BigInt::from(1) << (sh - 1);
    let mut q = q.to_u64().unwrap();
    if rem > half || (rem == half && q & 1 == 1) {
        q += 1;
    }
    (q, sh)
}
pub fn to_f64(v: &BigInt) -> f64 {
    let (m, e) = round_bits(&v.abs(), 53);
    let x = m as f64 * f64::from_bits((1023 + e) << 52);
    if v.is_negative() {
        -x
    } else {
        x
    }
}
pub fn to_f32(v: &BigInt) -> f32 {
    let (m, e) = round_bits(&v.abs(), 24);
    // m * 2^e with m <= 2^24: overflow is decided by the exact magnitude
    let bits = 64 - m.leading_zeros() as u64 + e;
    let x = if bits > 128 {
        f32::INFINITY
    } else if e >= 128 {
        f32::INFINITY
    } else {
        m as f32 * f32::from_bits(((127 + e) as u32) << 23)
    };
    if v.is_negative() {
        -x
    } else {
        x
    }
}

/// A float's exact integer part, saturated to the type; zero for NaN.
pub fn from_f64(ty: Ty, f: f64) -> W {
    if f.is_nan() {
        return W::ZERO;
    }
    if f.is_infinite() {
        return W::wrap(&if f > 0.0 { tmax(ty) } else { tmin(ty) });
    }
    let bits = f.to_bits();
    let e = (bits >> 52 & 0x7ff) as i64;
    let m = if e == 0 { 0 } else { bits & ((1 << 52) - 1) | 1 << 52 };
    let s = e - 1075;
    let v = if s >= 0 {
        BigInt::from(m) << s as u64
    } else if s > -64 {
        BigInt::from(m >> -s)
    } else {
        BigInt::from(0)
    };
    let v = if f < 0.0 { -v } else { v };
    N { ty, debug: false }.sat(&v)
}

fn pow(a: &BigInt, n: u32) -> PowRes {
    // small results exactly; large ones only need the residue and the sign
    if a.is_zero() || *a == BigInt::from(1) || *a == BigInt::from(-1) || n < 300 {
        let n = if n >= 300 { 2 + n % 2 } else { n };
        return PowRes::Exact(num_traits::pow(a.clone(), n as usize));
    }
    let m = BigInt::from(1) << 256u32;
    let r = a.mod_floor(&m).modpow(&BigInt::from(n), &m);
    PowRes::Huge(W::wrap(&r), a.is_negative() && n % 2 == 1)
}
enum PowRes {
    Exact(BigInt),
    Huge(W, bool),
}

fn div_all(n: &N, a: &BigInt, b: &BigInt) -> Option<((BigInt, BigInt), (BigInt, BigInt), bool)> {
    if b.is_zero() {
        return None;
    }
    let t = tdiv(a, b);
    let e = ediv(a, b);
    let o = !fits(n.ty, &t.0);
    Some((t, e, o))
}

pub fn model(op: Op, ty: Ty, aw: W, bw: W, sh: u32, debug: bool) -> Model {
    use Op::*;
    let n = N { ty, debug };
    let a = aw.big(ty);
    let b = bw.big(ty);
    let z = BigInt::from(0);
    macro_rules! dv {
        (|$t:ident, $e:ident, $o:ident| $x:expr) => {{
            let ($t, $e, $o) = div_all(&n, &a, &b).ok_or(Trap)?;
            let _ = (&$t, &$e, &$o);
            $x
        }};
    }
    macro_rules! cdv {
        (|$t:ident, $e:ident| $x:expr) => {{
            match div_all(&n, &a, &b) {
                Some(($t, $e, false)) => {
                    let _ = (&$t, &$e);
                    out(Some($x))
                }
                _ => out(None::<W>),
            }
        }};
    }
    match op {
        CheckedAdd => out(n.chk(&(a + b))),
        CheckedSub => out(n.chk(&(a - b))),
        CheckedMul => out(n.chk(&(a * b))),
        CheckedDiv => cdv!(|t, e| n.wrp(&t.0)),
        CheckedRem => cdv!(|t, e| n.wrp(&t.1)),
        CheckedDivEuclid => cdv!(|t, e| n.wrp(&e.0)),
        CheckedRemEuclid => cdv!(|t, e| n.wrp(&e.1)),
        CheckedDivRem => cdv!(|t, e| (n.wrp(&t.0), n.wrp(&t.1))),
        CheckedDivRemEuclid => cdv!(|t, e| (n.wrp(&e.0), n.wrp(&e.1))),
        WrappingAdd => out(n.wrp(&(a + b))),
        WrappingSub => out(n.wrp(&(a - b))),
        WrappingMul => out(n.wrp(&(a * b))),
        WrappingDiv => dv!(|t, e, o| out(n.wrp(&t.0))),
        WrappingRem => dv!(|t, e, o| out(n.wrp(&t.1))),
        WrappingDivEuclid => dv!(|t, e, o| out(n.wrp(&e.0))),
        WrappingRemEuclid => dv!(|t, e, o| out(n.wrp(&e.1))),
        WrappingDivRem => dv!(|t, e, o| out((n.wrp(&t.0), n.wrp(&t.1)))),
        WrappingDivRemEuclid => dv!(|t, e, o| out((n.wrp(&e.0), n.wrp(&e.1)))),
        OverflowingAdd => out(n.ovf(&(a + b))),
        OverflowingSub => out(n.ovf(&(a - b))),
        OverflowingMul => out(n.ovf(&(a * b))),
        OverflowingDiv => dv!(|t, e, o| out((n.wrp(&t.0), o))),
        OverflowingRem => dv!(|t, e, o| out((n.wrp(&t.1), o))),
        OverflowingDivEuclid => dv!(|t, e, o| out((n.wrp(&e.0), o))),
        OverflowingRemEuclid => dv!(|t, e, o| out((n.wrp(&e.1), o))),
        OverflowingDivRem => dv!(|t, e, o| out((n.wrp(&t.0), n.wrp(&t.1), o))),
        OverflowingDivRemEuclid => dv!(|t, e, o| out((n.wrp(&e.0), n.wrp(&e.1), o))),
        SaturatingAdd => out(n.sat(&(a + b))),
        SaturatingSub => out(n.sat(&(a - b))),
        SaturatingMul => out(n.sat(&(a * b))),
        SaturatingDiv => dv!(|t, e, o| out(n.sat(&t.0))),
        SaturatingDivRem => dv!(|t, e, o| out((n.sat(&t.0), n.wrp(&t.1)))),
        SaturatingDivRemEuclid => dv!(|t, e, o| out((n.sat(&e.0), n.wrp(&e.1)))),
        // overflow of the division family panics in every build
        DivEuclid => dv!(|t, e, o| if o { Err(Trap) } else { out(n.wrp(&e.0)) }),
        RemEuclid => dv!(|t, e, o| if o { Err(Trap) } else { out(n.wrp(&e.1)) }),
        DivRem => dv!(|t, e, o| if o { Err(Trap) } else { out((n.wrp(&t.0), n.wrp(&t.1))) }),
        DivRemEuclid => dv!(|t, e, o| if o { Err(Trap) } else { out((n.wrp(&e.0), n.wrp(&e.1))) }),
        OpDiv => dv!(|t, e, o| if o { Err(Trap) } else { out(n.wrp(&t.0)) }),
        OpRem => dv!(|t, e, o| if o { Err(Trap) } else { out(n.wrp(&t.1)) }),
        AbsDiff => out(W::wrap(&(a - b).abs())),
        OpAdd => out(n.opr(&(a + b))?),
        OpSub => out(n.opr(&(a - b))?),
        OpMul => out(n.opr(&(a * b))?),
        OpAnd => out(W([aw.0[0] & bw.0[0], aw.0[1] & bw.0[1]])),
        OpOr => out(W([aw.0[0] | bw.0[0], aw.0[1] | bw.0[1]])),
        OpXor => out(W([aw.0[0] ^ bw.0[0], aw.0[1] ^ bw.0[1]])),
        Eq => out(a == b),
        Lt => out(a < b),
        Le => out(a <= b),
        Cmp => out(a.cmp(&b)),
        PartialCmp => out(Some(a.cmp(&b))),
        Min => out(W::wrap(&a.min(b))),
        Max => out(W::wrap(&a.max(b))),
        CheckedNeg => out(n.chk(&-a)),
        WrappingNeg => out(n.wrp(&-a)),
        OverflowingNeg => out(n.ovf(&-a)),
        SaturatingNeg => out(n.sat(&-a)),
        OpNeg => out(n.opr(&-a)?),
        OpNot => out(W([!aw.0[0], !aw.0[1]])),
        CountOnes => out(aw.0[0].count_ones() + aw.0[1].count_ones()),
        CountZeros => out(aw.0[0].count_zeros() + aw.0[1].count_zeros()),
        LeadingZeros => out(256 - aw.bits()),
        LeadingOnes => out(256 - W([!aw.0[0], !aw.0[1]]).bits()),
        TrailingZeros => out(upat(aw).trailing_zeros().unwrap_or(256) as u32),
        TrailingOnes => out(upat(W([!aw.0[0], !aw.0[1]])).trailing_zeros().unwrap_or(256) as u32),
        SwapBytes | FromBe | ToBe | ToBeBytes | FromBeBytes => {
            let mut l = aw.bytes();
            l.reverse();
            out(W::from_le(l))
        }
        FromLe | ToLe | ToLeBytes | ToNeBytes | FromLeBytes | FromNeBytes => out(aw),
        ReverseBits => {
            let mut l = aw.bytes();
            l.reverse();
            for x in l.iter_mut() {
                *x = x.reverse_bits();
            }
            out(W::from_le(l))
        }
        Words | LowHigh => out((W([aw.0[0], 0]), W([aw.0[1], 0]))),
        LowMut => out(W([bw.0[0], aw.0[1]])),
        HighMut => out(W([aw.0[0], bw.0[0]])),
        AsI8 => out(aw.0[0] as i8),
        AsI16 => out(aw.0[0] as i16),
        AsI32 => out(aw.0[0] as i32),
        AsI64 => out(aw.0[0] as i64),
        AsI128 => out(aw.0[0] as i128),
        AsIsize => out(aw.0[0] as isize),
        AsU8 => out(aw.0[0] as u8),
        AsU16 => out(aw.0[0] as u16),
        AsU32 => out(aw.0[0] as u32),
        AsU64 => out(aw.0[0] as u64),
        AsU128 => out(aw.0[0]),
        AsUsize => out(aw.0[0] as usize),
        AsOther | TraitOther | TraitSelf => out(aw),
        TryOther => out(fits(other(ty), &a).then_some(aw)),
        AsF32 | IntoF32 => out(to_f32(&a)),
        AsF64 | IntoF64 => out(to_f64(&a)),
        TryI8 => out(a.to_i8()),
        TryI16 => out(a.to_i16()),
        TryI32 => out(a.to_i32()),
        TryI64 => out(a.to_i64()),
        TryI128 => out(a.to_i128()),
        TryIsize => out(a.to_isize()),
        TryU8 => out(a.to_u8()),
        TryU16 => out(a.to_u16()),
        TryU32 => out(a.to_u32()),
        TryU64 => out(a.to_u64()),
        TryU128 => out(a.to_u128()),
        TryUsize => out(a.to_usize()),
        CheckedShl => out((sh < 256).then(|| shl(aw, sh))),
        CheckedShr => out((sh < 256).then(|| shr(ty, aw, sh))),
        WrappingShl => out(shl(aw, sh % 256)),
        WrappingShr => out(shr(ty, aw, sh % 256)),
        OverflowingShl => out((shl(aw, sh % 256), sh > 255)),
        OverflowingShr => out((shr(ty, aw, sh % 256), sh > 255)),
        RotateLeft | RotateRight => {
            let k = if op == RotateLeft { sh % 256 } else { (256 - sh % 256) % 256 };
            let x = upat(aw) << k;
            let hi: BigInt = &x >> 256u32;
            out(W::wrap(&(x + hi)))
        }
        OpShl | OpShr => {
            if debug && sh > 255 {
                return Err(Trap);
            }
            out(if op == OpShl { shl(aw, sh % 256) } else { shr(ty, aw, sh % 256) })
        }
        CheckedPow | WrappingPow | OverflowingPow | SaturatingPow | PlainPow => {
            let (w, ovf, neg) = match pow(&a, sh) {
                PowRes::Exact(x) => (W::wrap(&x), !fits(ty, &x), x.is_negative()),
                PowRes::Huge(w, neg) => (w, true, neg),
            };
            match op {
                CheckedPow => out((!ovf).then_some(w)),
                WrappingPow => out(w),
                OverflowingPow => out((w, ovf)),
                SaturatingPow => out(match (ovf, neg) {
                    (false, _) => w,
                    (true, false) => W::wrap(&tmax(ty)),
                    (true, true) => W::wrap(&tmin(ty)),
                }),
                _ => {
                    if ovf && debug {
                        Err(Trap)
                    } else {
                        out(w)
                    }
                }
            }
        }
        CheckedAddMix => out(n.chk(&(a + bw.big(other(ty))))),
        SaturatingAddMix => out(n.sat(&(a + bw.big(other(ty))))),
        WrappingAddMix => out(n.wrp(&(a + bw.big(other(ty))))),
        OverflowingAddMix => out(n.ovf(&(a + bw.big(other(ty))))),
        CheckedSubMix => out(n.chk(&(a - bw.big(other(ty))))),
        SaturatingSubMix => out(n.sat(&(a - bw.big(other(ty))))),
        WrappingSubMix => out(n.wrp(&(a - bw.big(other(ty))))),
        OverflowingSubMix => out(n.ovf(&(a - bw.big(other(ty))))),
        IsPow2 => out(aw.0[0].count_ones() + aw.0[1].count_ones() == 1),
        NextPow2 | CheckedNextPow2 => {
            let bits = if a <= BigInt::from(1) { 0 } else { (&a - 1u32).bits() };
            let p = BigInt::from(1) << bits;
            if op == CheckedNextPow2 {
                out(n.chk(&p))
            } else {
                out(n.opr(&p)?)
            }
        }
        CheckedAbs => out(n.chk(&a.abs())),
        WrappingAbs => out(n.wrp(&a.abs())),
        OverflowingAbs => out(n.ovf(&a.abs())),
        SaturatingAbs => out(n.sat(&a.abs())),
        Abs => out(n.opr(&a.abs())?),
        UnsignedAbs => out(W::wrap(&a.abs())),
        Signum | Signum128 => out(W::wrap(&match a.sign() {
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => z,
            Sign::Plus => BigInt::from(1),
        })),
        IsPositive => out(a.is_positive()),
        IsNegative => out(a.is_negative()),
        PrimEq | PrimCmp | PrimRevCmp | PrimAdd | PrimRevSub | New => {
            let p = prim(ty, bw);
            match op {
                PrimEq => out((a == p, p == a)),
                PrimCmp => out(Some(a.cmp(&p))),
                PrimRevCmp => out(Some(p.cmp(&a))),
                PrimAdd => out(n.opr(&(a + p))?),
                PrimRevSub => out(n.opr(&(p - a))?),
                _ => out(W::wrap(&p)),
            }
        }
        FromBool | CastBool => out((aw.0[0] & 1 == 1) as u8),
        FromI8 => from(&n, aw.0[0] as i8),
        FromI16 => from(&n, aw.0[0] as i16),
        FromI32 => from(&n, aw.0[0] as i32),
        FromI64 => from(&n, aw.0[0] as i64),
        FromI128 => from(&n, aw.0[0] as i128),
        FromIsize => from(&n, aw.0[0] as isize as i64),
        FromU8 => from(&n, aw.0[0] as u8),
        FromU16 => from(&n, aw.0[0] as u16),
        FromU32 => from(&n, aw.0[0] as u32),
        FromU64 => from(&n, aw.0[0] as u64),
        FromU128 => from(&n, aw.0[0]),
        FromUsize => from(&n, aw.0[0] as usize as u64),
        CastI8 => out(W::wrap(&BigInt::from(aw.0[0] as i8))),
        CastI16 => out(W::wrap(&BigInt::from(aw.0[0] as i16))),
        CastI32 => out(W::wrap(&BigInt::from(aw.0[0] as i32))),
        CastI64 => out(W::wrap(&BigInt::from(aw.0[0] as i64))),
        CastI128 => out(W::wrap(&BigInt::from(aw.0[0] as i128))),
        CastIsize => out(W::wrap(&BigInt::from(aw.0[0] as isize))),
        CastU8 => out(W([aw.0[0] as u8 as u128, 0])),
        CastU16 => out(W([aw.0[0] as u16 as u128, 0])),
        CastU32 => out(W([aw.0[0] as u32 as u128, 0])),
        CastU64 => out(W([aw.0[0] as u64 as u128, 0])),
        CastU128 => out(W([aw.0[0], 0])),
        CastUsize => out(W([aw.0[0] as usize as u128, 0])),
        CastF32 => out(from_f64(ty, f32::from_bits(aw.0[0] as u32) as f64)),
        CastF64 => out(from_f64(ty, f64::from_bits(aw.0[0] as u64))),
    }
}

/// Infallible conversions put the value; fallible ones an option.  Both are
/// normalised to an option here and in the node.
fn from<T: Into<BigInt>>(n: &N, x: T) -> Model {
    out(n.chk(&x.into()))
}

/// The 128-bit primitive operand held in the low word.
pub fn prim(ty: Ty, w: W) -> BigInt {
    match ty {
        Ty::U => BigInt::from(w.0[0]),
        Ty::I => BigInt::from(w.0[0] as i128),
    }
}

impl N {
    #[allow(dead_code)]
    fn _unused(&self) {
        let _ = self.strict(&BigInt::from(0));
    }
}

/// Picks an operation and its arguments.
pub fn gen_call(r: &mut Rng, ty: Ty, ops: &[(Op, Cls)]) -> (Op, W, W, u32) {
    let (op, cls) = *r.pick(ops);
    gen_args(r, ty, op, cls)
}

fn divides(op: Op) -> bool {
    use Op::*;
    matches!(
        op,
        CheckedDiv | CheckedRem | CheckedDivEuclid | CheckedRemEuclid | WrappingDiv | WrappingRem | WrappingDivEuclid
            | WrappingRemEuclid | OverflowingDiv | OverflowingRem | OverflowingDivEuclid | OverflowingRemEuclid | SaturatingDiv
            | DivEuclid | RemEuclid | DivRem | DivRemEuclid | CheckedDivRem | CheckedDivRemEuclid | SaturatingDivRem
            | SaturatingDivRemEuclid | WrappingDivRem | WrappingDivRemEuclid | OverflowingDivRem | OverflowingDivRemEuclid
            | OpDiv | OpRem
    )
}

pub fn gen_args(r: &mut Rng, _ty: Ty, op: Op, cls: Cls) -> (Op, W, W, u32) {
    let (mut a, mut b) = val::gen_pair(r);
    let mut n = 0;
    match cls {
        // where division overflows, does not, or is none
        Cls::Bin if r.chance(1, 24) && divides(op) => {
            b = *r.pick(&[W::ONES, W::ONES, W::ONES, W::ONE, W::ZERO, W::IMIN]);
            if r.chance(2, 3) {
                a = *r.pick(&[W::IMIN, W::IMIN, W::IMIN, W::IMAX, W::ONES, W::ZERO, W::ONE]);
            }
        }
        Cls::Bin | Cls::Un | Cls::Mix => {}
        Cls::Prim => {
            // often the same number, one off, or differing only in the high word
            match r.below(4) {
                0 => {
                    b = W([a.0[0], 0]);
                    if r.chance(1, 2) {
                        a.0[1] = if r.chance(1, 2) { 0 } else { !0 };
                    }
                }
                _ => {}
            }
        }
        Cls::Sh => n = val::gen_shift(r),
        Cls::Pow => {
            n = match r.below(8) {
                0 => r.below(4) as u32,
                1 => r.next() as u32,
                2 => 250 + r.below(10) as u32,
                3 => *r.pick(&[0u32, 1, 2, 3, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1 << 31, u32::MAX]),
                _ => r.below(260) as u32,
            };
            if r.chance(3, 4) {
                // a base whose power lands near the limit
                let bits = (256 / n.max(1)).clamp(1, 250);
                let m = W([r.u128(), r.u128()]).ubig() >> (256 - bits);
                a = W::wrap(&BigInt::from(m));
                if r.chance(1, 4) {
                    a = W([1u128 << r.below(127), 0]);
                }
                if r.chance(1, 3) {
                    a = a.wneg();
                }
            }
        }
        Cls::Into => match op {
            Op::CastF32 => a = W([gen_f32(r).to_bits() as u128, 0]),
            Op::CastF64 => a = W([gen_f64(r).to_bits() as u128, 0]),
            _ => a = W([if r.chance(1, 2) { r.u128() } else { a.0[0] }, 0]),
        },
    }
    (op, a, b, n)
}

pub fn gen_f64(r: &mut Rng) -> f64 {
    let f = match r.below(8) {
        0 => *r.pick(&[0.0, 0.5, 0.999, 1.0, 1.5, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE, f64::MAX, 5e-324]),
        1 => f64::from_bits(r.next()),
        2 => (r.next() >> r.below(64)) as f64,
        3 => (r.next() >> r.below(64)) as f64 + *r.pick(&[0.5, 0.25, 0.75, 0.0]),
        // powers of two and neighbours, around the limits
        _ => {
            let e = if r.chance(1, 2) { r.below(260) } else { *r.pick(&[51u64, 52, 53, 63, 64, 127, 128, 254, 255, 256, 257]) };
            let x = f64::from_bits((1023 + e) << 52);
            let d = *r.pick(&[0i64, 0, 1, -1, 2, -2]);
            let y = f64::from_bits((x.to_bits() as i64 + d) as u64);
            if r.chance(1, 3) {
                f64::from_bits(y.to_bits() | r.next() >> (12 + r.below(52)))
            } else {
                y
            }
        }
    };
    if r.chance(1, 2) {
        -f
    } else {
        f
    }
}

pub fn gen_f32(r: &mut Rng) -> f32 {
    let f = match r.below(8) {
        0 => *r.pick(&[0.0, 0.5, 1.0, 1.5, f32::INFINITY, f32::NAN, f32::MAX, 1e-40]),
        1 => f32::from_bits(r.next() as u32),
        2 => (r.next() >> r.below(64)) as f32,
        _ => {
            let e = if r.chance(1, 2) { r.below(128) } else { *r.pick(&[22u64, 23, 24, 63, 64, 126, 127]) };
            let x = f32::from_bits(((127 + e) as u32) << 23);
            let d = *r.pick(&[0i32, 0, 1, -1, 2, -2]);
            let y = f32::from_bits((x.to_bits() as i32 + d) as u32);
            if r.chance(1, 3) {
                f32::from_bits(y.to_bits() | (r.next() as u32) >> (9 + r.below(23)))
            } else {
                y
            }
        }
    };
    if r.chance(1, 2) {
        -f
    } else {
        f
    }
}
