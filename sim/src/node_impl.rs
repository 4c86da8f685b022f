// Included once per build, with `e` naming that build of the library.

use super::Eth;
use crate::coll::{self, CollObs, CollOp, SimBuild};
use crate::ops::{Op, Out, Put};
use crate::plan::*;
use crate::seam::{SimDe, SimErr, SimIter, SimSer};
use crate::store::{self, ByteVals, Codec, Read, TextVals};
use crate::val::{Ty, W};
use e::{AsI256, AsU256, I256, U256};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt::{self, Debug, Formatter};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Node;

pub trait T256: Sized + Copy {
    fn to(w: W) -> Self;
    fn w(self) -> W;
}
impl T256 for U256 {
    fn to(w: W) -> U256 {
        U256::from_words(w.0[1], w.0[0])
    }
    fn w(self) -> W {
        let (h, l) = self.into_words();
        W([l, h])
    }
}
impl T256 for I256 {
    fn to(w: W) -> I256 {
        I256::from_words(w.0[1] as i128, w.0[0] as i128)
    }
    fn w(self) -> W {
        let (h, l) = self.into_words();
        W([l as u128, h as u128])
    }
}
fn to<T: T256>(w: W) -> T {
    T::to(w)
}
impl Put for U256 {
    fn put(self, o: &mut Out) {
        o.val(self.w())
    }
}
impl Put for I256 {
    fn put(self, o: &mut Out) {
        o.val(self.w())
    }
}

macro_rules! by_ty {
    ($ty:expr, $T:ident => $x:expr) => {
        match $ty {
            Ty::U => {
                type $T = U256;
                $x
            }
            Ty::I => {
                type $T = I256;
                $x
            }
        }
    };
}

fn do_fmt<T>(v: T, tr: Tr, f: &mut Formatter) -> fmt::Result
where
    T: Copy + fmt::Display + Debug + fmt::Binary + fmt::Octal + fmt::LowerHex + fmt::UpperHex + fmt::LowerExp + fmt::UpperExp,
{
    match tr {
        Tr::Display => fmt::Display::fmt(&v, f),
        Tr::Debug => fmt::Debug::fmt(&v, f),
        Tr::Binary => fmt::Binary::fmt(&v, f),
        Tr::Octal => fmt::Octal::fmt(&v, f),
        Tr::LowerHex => fmt::LowerHex::fmt(&v, f),
        Tr::UpperHex => fmt::UpperHex::fmt(&v, f),
        Tr::LowerExp => fmt::LowerExp::fmt(&v, f),
        Tr::UpperExp => fmt::UpperExp::fmt(&v, f),
        Tr::DebugTree => fmt::Debug::fmt(&(v, Some([v])), f),
    }
}

macro_rules! with_form {
    ($form:expr, $f:ident ($($a:expr),*), $default:expr) => {
        match $form {
            Form::Hex => $default,
            Form::Dec => e::serde::decimal::$f($($a),*),
            Form::Prefixed => e::serde::prefixed::$f($($a),*),
            Form::Permissive => e::serde::permissive::$f($($a),*),
            Form::BytesLe => e::serde::bytes::le::$f($($a),*),
            Form::BytesBe => e::serde::bytes::be::$f($($a),*),
            Form::BytesNe => e::serde::bytes::ne::$f($($a),*),
            Form::CompLe => e::serde::compressed_bytes::le::$f($($a),*),
            Form::CompBe => e::serde::compressed_bytes::be::$f($($a),*),
            Form::CompNe => e::serde::compressed_bytes::ne::$f($($a),*),
        }
    };
}

struct Items<'x, 'a, 'b, T> {
    items: &'x [T],
    it: &'x mut SimIter<'a, 'b>,
    hint: u8,
}
impl<T> Items<'_, '_, '_, T> {
    fn hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n - self.it.i.min(n), Some(n - self.it.i.min(n))),
            1 => (0, None),
            2 => (0, Some(0)),
            _ => (usize::MAX, None),
        }
    }
}
struct Owned<'x, 'a, 'b, T>(Items<'x, 'a, 'b, T>);
struct Refs<'x, 'a, 'b, T>(Items<'x, 'a, 'b, T>);
impl<T: Copy> Iterator for Owned<'_, '_, '_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let i = self.0.it.next()?;
        Some(self.0.items[i])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}
impl<'x, T> Iterator for Refs<'x, '_, '_, T> {
    type Item = &'x T;
    fn next(&mut self) -> Option<&'x T> {
        let i = self.0.it.next()?;
        Some(&self.0.items[i])
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.hint()
    }
}

/// A hasher that sees the boundaries of the writes.
struct Split(u64);
impl Hasher for Split {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        self.0 = crate::rng::fnv(crate::rng::mix(self.0, b.len() as u64), b);
    }
}

#[derive(Serialize, Deserialize)]
struct TextRec {
    uh: U256,
    ih: I256,
    #[serde(with = "e::serde::decimal")]
    ud: U256,
    #[serde(with = "e::serde::decimal")]
    id: I256,
    #[serde(with = "e::serde::prefixed")]
    up: U256,
    #[serde(with = "e::serde::prefixed")]
    ip: I256,
    #[serde(with = "e::serde::permissive")]
    um: U256,
    #[serde(with = "e::serde::permissive")]
    im: I256,
    o: Option<U256>,
    v: Vec<I256>,
    m: std::collections::BTreeMap<U256, I256>,
}

/// For formats that are not self-describing, which the permissive form needs.
#[derive(Serialize, Deserialize)]
struct TextRecPlain {
    uh: U256,
    ih: I256,
    #[serde(with = "e::serde::decimal")]
    ud: U256,
    #[serde(with = "e::serde::decimal")]
    id: I256,
    #[serde(with = "e::serde::prefixed")]
    up: U256,
    #[serde(with = "e::serde::prefixed")]
    ip: I256,
    o: Option<U256>,
    v: Vec<I256>,
    m: std::collections::BTreeMap<U256, I256>,
}

#[derive(Serialize, Deserialize)]
struct ByteRec {
    #[serde(with = "e::serde::bytes::le")]
    ul: U256,
    #[serde(with = "e::serde::bytes::le")]
    il: I256,
    #[serde(with = "e::serde::bytes::be")]
    ub: U256,
    #[serde(with = "e::serde::bytes::be")]
    ib: I256,
    #[serde(with = "e::serde::bytes::ne")]
    un: U256,
    #[serde(with = "e::serde::bytes::ne")]
    r#in: I256,
    #[serde(with = "e::serde::compressed_bytes::le")]
    cul: U256,
    #[serde(with = "e::serde::compressed_bytes::le")]
    cil: I256,
    #[serde(with = "e::serde::compressed_bytes::be")]
    cub: U256,
    #[serde(with = "e::serde::compressed_bytes::be")]
    cib: I256,
    #[serde(with = "e::serde::compressed_bytes::ne")]
    cun: U256,
    #[serde(with = "e::serde::compressed_bytes::ne")]
    cin: I256,
}

fn vals(o: Option<W>) -> Option<U256> {
    o.map(to)
}

impl From<&TextVals> for TextRec {
    fn from(t: &TextVals) -> TextRec {
        TextRec {
            uh: to(t.f[0]),
            ih: to(t.f[1]),
            ud: to(t.f[2]),
            id: to(t.f[3]),
            up: to(t.f[4]),
            ip: to(t.f[5]),
            um: to(t.f[6]),
            im: to(t.f[7]),
            o: vals(t.o),
            v: t.v.iter().map(|w| to(*w)).collect(),
            m: t.m.iter().map(|(k, v)| (to(*k), to(*v))).collect(),
        }
    }
}
impl From<TextRec> for TextVals {
    fn from(t: TextRec) -> TextVals {
        TextVals {
            f: vec![t.uh.w(), t.ih.w(), t.ud.w(), t.id.w(), t.up.w(), t.ip.w(), t.um.w(), t.im.w()],
            o: t.o.map(|x| x.w()),
            v: t.v.iter().map(|x| x.w()).collect(),
            m: t.m.iter().map(|(k, v)| (k.w(), v.w())).collect(),
        }
    }
}
impl From<&TextVals> for TextRecPlain {
    fn from(t: &TextVals) -> TextRecPlain {
        TextRecPlain {
            uh: to(t.f[0]),
            ih: to(t.f[1]),
            ud: to(t.f[2]),
            id: to(t.f[3]),
            up: to(t.f[4]),
            ip: to(t.f[5]),
            o: vals(t.o),
            v: t.v.iter().map(|w| to(*w)).collect(),
            m: t.m.iter().map(|(k, v)| (to(*k), to(*v))).collect(),
        }
    }
}
impl From<TextRecPlain> for TextVals {
    fn from(t: TextRecPlain) -> TextVals {
        TextVals {
            f: vec![t.uh.w(), t.ih.w(), t.ud.w(), t.id.w(), t.up.w(), t.ip.w()],
            o: t.o.map(|x| x.w()),
            v: t.v.iter().map(|x| x.w()).collect(),
            m: t.m.iter().map(|(k, v)| (k.w(), v.w())).collect(),
        }
    }
}
impl From<&ByteVals> for ByteRec {
    fn from(t: &ByteVals) -> ByteRec {
        let f = &t.f;
        ByteRec {
            ul: to(f[0]),
            il: to(f[1]),
            ub: to(f[2]),
            ib: to(f[3]),
            un: to(f[4]),
            r#in: to(f[5]),
            cul: to(f[6]),
            cil: to(f[7]),
            cub: to(f[8]),
            cib: to(f[9]),
            cun: to(f[10]),
            cin: to(f[11]),
        }
    }
}
impl From<ByteRec> for ByteVals {
    fn from(t: ByteRec) -> ByteVals {
        ByteVals {
            f: vec![
                t.ul.w(), t.il.w(), t.ub.w(), t.ib.w(), t.un.w(), t.r#in.w(), t.cul.w(), t.cil.w(), t.cub.w(), t.cib.w(), t.cun.w(), t.cin.w(),
            ],
        }
    }
}

macro_rules! common_call {
    ($T:ident, $Other:ident, $P:ident, $op:expr, $a:expr, $b:expr, $n:expr, $o:expr, $aw:expr, $bw:expr, $x:expr, $lo:expr, { $($extra:tt)* }) => {{
        let (a, b, n, o): ($T, $T, u32, &mut Out) = ($a, $b, $n, $o);
        let p = $bw.0[0] as $P;
        #[allow(unused)]
        let (x, lo): ($Other, u128) = ($x, $lo);
        match $op {
            Op::CheckedAdd => a.checked_add(b).put(o),
            Op::CheckedSub => a.checked_sub(b).put(o),
            Op::CheckedMul => a.checked_mul(b).put(o),
            Op::CheckedDiv => a.checked_div(b).put(o),
            Op::CheckedRem => a.checked_rem(b).put(o),
            Op::CheckedDivEuclid => a.checked_div_euclid(b).put(o),
            Op::CheckedRemEuclid => a.checked_rem_euclid(b).put(o),
            Op::WrappingAdd => a.wrapping_add(b).put(o),
            Op::WrappingSub => a.wrapping_sub(b).put(o),
            Op::WrappingMul => a.wrapping_mul(b).put(o),
            Op::WrappingDiv => a.wrapping_div(b).put(o),
            Op::WrappingRem => a.wrapping_rem(b).put(o),
            Op::WrappingDivEuclid => a.wrapping_div_euclid(b).put(o),
            Op::WrappingRemEuclid => a.wrapping_rem_euclid(b).put(o),
            Op::OverflowingAdd => a.overflowing_add(b).put(o),
            Op::OverflowingSub => a.overflowing_sub(b).put(o),
            Op::OverflowingMul => a.overflowing_mul(b).put(o),
            Op::OverflowingDiv => a.overflowing_div(b).put(o),
            Op::OverflowingRem => a.overflowing_rem(b).put(o),
            Op::OverflowingDivEuclid => a.overflowing_div_euclid(b).put(o),
            Op::OverflowingRemEuclid => a.overflowing_rem_euclid(b).put(o),
            Op::SaturatingAdd => a.saturating_add(b).put(o),
            Op::SaturatingSub => a.saturating_sub(b).put(o),
            Op::SaturatingMul => a.saturating_mul(b).put(o),
            Op::SaturatingDiv => a.saturating_div(b).put(o),
            Op::DivEuclid => a.div_euclid(b).put(o),
            Op::RemEuclid => a.rem_euclid(b).put(o),
            Op::DivRem => a.div_rem(b).put(o),
            Op::DivRemEuclid => a.div_rem_euclid(b).put(o),
            Op::SaturatingDivRemEuclid => a.saturating_div_rem_euclid(b).put(o),
            Op::CheckedDivRem => a.checked_div_rem(b).put(o),
            Op::CheckedDivRemEuclid => a.checked_div_rem_euclid(b).put(o),
            Op::SaturatingDivRem => a.saturating_div_rem(b).put(o),
            Op::WrappingDivRem => a.wrapping_div_rem(b).put(o),
            Op::WrappingDivRemEuclid => a.wrapping_div_rem_euclid(b).put(o),
            Op::OverflowingDivRem => a.overflowing_div_rem(b).put(o),
            Op::OverflowingDivRemEuclid => a.overflowing_div_rem_euclid(b).put(o),
            Op::AbsDiff => a.abs_diff(b).put(o),
            Op::OpAdd => (a + b).put(o),
            Op::OpSub => (a - b).put(o),
            Op::OpMul => (a * b).put(o),
            Op::OpDiv => (a / b).put(o),
            Op::OpRem => (a % b).put(o),
            Op::OpAnd => (a & b).put(o),
            Op::OpOr => (a | b).put(o),
            Op::OpXor => (a ^ b).put(o),
            Op::Eq => {
                // != must be the opposite
                let (eq, ne) = (a == b, a != b);
                if eq == ne {
                    o.flag(8, 0xee);
                }
                eq.put(o)
            }
            Op::Lt => {
                let (lt, ge) = (a < b, a >= b);
                if lt == ge {
                    o.flag(8, 0xee);
                }
                lt.put(o)
            }
            Op::Le => {
                let (le, gt) = (a <= b, a > b);
                if le == gt {
                    o.flag(8, 0xee);
                }
                le.put(o)
            }
            Op::Cmp => a.cmp(&b).put(o),
            Op::PartialCmp => a.partial_cmp(&b).put(o),
            Op::Min => Ord::min(a, b).put(o),
            Op::Max => Ord::max(a, b).put(o),
            Op::CheckedNeg => a.checked_neg().put(o),
            Op::WrappingNeg => a.wrapping_neg().put(o),
            Op::OverflowingNeg => a.overflowing_neg().put(o),
            Op::OpNot => (if $bw.0[0] & 1 == 0 { !a } else { !&a }).put(o),
            Op::CountOnes => a.count_ones().put(o),
            Op::CountZeros => a.count_zeros().put(o),
            Op::LeadingZeros => a.leading_zeros().put(o),
            Op::TrailingZeros => a.trailing_zeros().put(o),
            Op::LeadingOnes => a.leading_ones().put(o),
            Op::TrailingOnes => a.trailing_ones().put(o),
            Op::SwapBytes => a.swap_bytes().put(o),
            Op::ReverseBits => a.reverse_bits().put(o),
            Op::FromBe => $T::from_be(a).put(o),
            Op::FromLe => $T::from_le(a).put(o),
            Op::ToBe => a.to_be().put(o),
            Op::ToLe => a.to_le().put(o),
            Op::ToBeBytes => W::from_le(a.to_be_bytes()).put(o),
            Op::ToLeBytes => W::from_le(a.to_le_bytes()).put(o),
            Op::ToNeBytes => W::from_le(a.to_ne_bytes()).put(o),
            Op::FromBeBytes => $T::from_be_bytes($aw.bytes()).put(o),
            Op::FromLeBytes => $T::from_le_bytes($aw.bytes()).put(o),
            Op::FromNeBytes => $T::from_ne_bytes($aw.bytes()).put(o),
            Op::Words => {
                let (h, l) = a.into_words();
                (l as u128, h as u128).put(o)
            }
            Op::LowHigh => (*a.low() as u128, *a.high() as u128).put(o),
            Op::LowMut => {
                let mut a = a;
                *a.low_mut() = p;
                a.put(o)
            }
            Op::HighMut => {
                let mut a = a;
                *a.high_mut() = p;
                a.put(o)
            }
            Op::AsI8 => a.as_i8().put(o),
            Op::AsI16 => a.as_i16().put(o),
            Op::AsI32 => a.as_i32().put(o),
            Op::AsI64 => a.as_i64().put(o),
            Op::AsI128 => a.as_i128().put(o),
            Op::AsIsize => a.as_isize().put(o),
            Op::AsU8 => a.as_u8().put(o),
            Op::AsU16 => a.as_u16().put(o),
            Op::AsU32 => a.as_u32().put(o),
            Op::AsU64 => a.as_u64().put(o),
            Op::AsU128 => a.as_u128().put(o),
            Op::AsUsize => a.as_usize().put(o),
            Op::TryOther => $Other::try_from(a).put(o),
            Op::AsF32 => a.as_f32().put(o),
            Op::AsF64 => a.as_f64().put(o),
            Op::IntoF32 => f32::from(a).put(o),
            Op::IntoF64 => f64::from(a).put(o),
            Op::TryI8 => i8::try_from(a).put(o),
            Op::TryI16 => i16::try_from(a).put(o),
            Op::TryI32 => i32::try_from(a).put(o),
            Op::TryI64 => i64::try_from(a).put(o),
            Op::TryI128 => i128::try_from(a).put(o),
            Op::TryIsize => isize::try_from(a).put(o),
            Op::TryU8 => u8::try_from(a).put(o),
            Op::TryU16 => u16::try_from(a).put(o),
            Op::TryU32 => u32::try_from(a).put(o),
            Op::TryU64 => u64::try_from(a).put(o),
            Op::TryU128 => u128::try_from(a).put(o),
            Op::TryUsize => usize::try_from(a).put(o),
            Op::CheckedShl => a.checked_shl(n).put(o),
            Op::CheckedShr => a.checked_shr(n).put(o),
            Op::WrappingShl => a.wrapping_shl(n).put(o),
            Op::WrappingShr => a.wrapping_shr(n).put(o),
            Op::OverflowingShl => a.overflowing_shl(n).put(o),
            Op::OverflowingShr => a.overflowing_shr(n).put(o),
            Op::RotateLeft => a.rotate_left(n).put(o),
            Op::RotateRight => a.rotate_right(n).put(o),
            Op::OpShl => (a << n).put(o),
            Op::OpShr => (a >> n).put(o),
            Op::CheckedPow => a.checked_pow(n).put(o),
            Op::WrappingPow => a.wrapping_pow(n).put(o),
            Op::OverflowingPow => a.overflowing_pow(n).put(o),
            Op::SaturatingPow => a.saturating_pow(n).put(o),
            Op::PlainPow => a.pow(n).put(o),
            Op::PrimEq => {
                let (x, y) = (a == p, p == a);
                if (a != p) == x || (p != a) == y {
                    o.flag(8, 0xee);
                }
                (x, y).put(o)
            }
            Op::PrimCmp => {
                let c = a.partial_cmp(&p);
                if (a < p) != (c == Some(std::cmp::Ordering::Less)) || (a >= p) == (a < p) || (a > p) == (a <= p) {
                    o.flag(8, 0xee);
                }
                c.put(o)
            }
            Op::PrimRevCmp => {
                let c = p.partial_cmp(&a);
                if (p < a) != (c == Some(std::cmp::Ordering::Less)) || (p >= a) == (p < a) || (p > a) == (p <= a) {
                    o.flag(8, 0xee);
                }
                c.put(o)
            }
            Op::PrimAdd => (a + p).put(o),
            Op::PrimRevSub => (p - a).put(o),
            Op::New => $T::new(p).put(o),
            Op::FromBool => $T::from(lo & 1 == 1).put(o),
            $($extra)*
            #[allow(unreachable_patterns)]
            _ => {
                let _ = (n, x);
                crate::exec::harness("harness: operation not defined for this type")
            }
        }
    }};
}

macro_rules! cast_arm {
    ($op:expr, $lo:expr, $o:expr, $m:ident) => {
        match $op {
            Op::CastBool => ($lo & 1 == 1).$m().put($o),
            Op::CastI8 => ($lo as i8).$m().put($o),
            Op::CastI16 => ($lo as i16).$m().put($o),
            Op::CastI32 => ($lo as i32).$m().put($o),
            Op::CastI64 => ($lo as i64).$m().put($o),
            Op::CastI128 => ($lo as i128).$m().put($o),
            Op::CastIsize => ($lo as isize).$m().put($o),
            Op::CastU8 => ($lo as u8).$m().put($o),
            Op::CastU16 => ($lo as u16).$m().put($o),
            Op::CastU32 => ($lo as u32).$m().put($o),
            Op::CastU64 => ($lo as u64).$m().put($o),
            Op::CastU128 => ($lo as u128).$m().put($o),
            Op::CastUsize => ($lo as usize).$m().put($o),
            Op::CastF32 => f32::from_bits($lo as u32).$m().put($o),
            Op::CastF64 => f64::from_bits($lo as u64).$m().put($o),
            _ => unreachable!(),
        }
    };
}

fn call_u(op: Op, aw: W, bw: W, n: u32, o: &mut Out) {
    if is_cast(op) {
        return cast_arm!(op, aw.0[0], o, as_u256);
    }
    let a: U256 = to(aw);
    let (x, lo): (I256, u128) = (to(bw), aw.0[0]);
    common_call!(U256, I256, u128, op, a, to(bw), n, o, aw, bw, x, lo, {
        Op::AsOther => a.as_i256().put(o),
        Op::TraitOther => AsI256::as_i256(a).put(o),
        Op::TraitSelf => AsU256::as_u256(a).put(o),
        Op::CheckedAddMix => a.checked_add_signed(x).put(o),
        Op::SaturatingAddMix => a.saturating_add_signed(x).put(o),
        Op::WrappingAddMix => a.wrapping_add_signed(x).put(o),
        Op::OverflowingAddMix => a.overflowing_add_signed(x).put(o),
        Op::IsPow2 => a.is_power_of_two().put(o),
        Op::NextPow2 => a.next_power_of_two().put(o),
        Op::CheckedNextPow2 => a.checked_next_power_of_two().put(o),
        Op::FromI8 => U256::try_from(lo as i8).put(o),
        Op::FromI16 => U256::try_from(lo as i16).put(o),
        Op::FromI32 => U256::try_from(lo as i32).put(o),
        Op::FromI64 => U256::try_from(lo as i64).put(o),
        Op::FromI128 => U256::try_from(lo as i128).put(o),
        Op::FromIsize => U256::try_from(lo as isize).put(o),
        Op::FromU8 => Some(U256::from(lo as u8)).put(o),
        Op::FromU16 => Some(U256::from(lo as u16)).put(o),
        Op::FromU32 => Some(U256::from(lo as u32)).put(o),
        Op::FromU64 => Some(U256::from(lo as u64)).put(o),
        Op::FromU128 => Some(U256::from(lo)).put(o),
        Op::FromUsize => U256::try_from(lo as usize).put(o),
    })
}

fn call_i(op: Op, aw: W, bw: W, n: u32, o: &mut Out) {
    if is_cast(op) {
        return cast_arm!(op, aw.0[0], o, as_i256);
    }
    let a: I256 = to(aw);
    let (x, lo): (U256, u128) = (to(bw), aw.0[0]);
    common_call!(I256, U256, i128, op, a, to(bw), n, o, aw, bw, x, lo, {
        Op::AsOther => a.as_u256().put(o),
        Op::TraitOther => AsU256::as_u256(a).put(o),
        Op::TraitSelf => AsI256::as_i256(a).put(o),
        Op::CheckedAddMix => a.checked_add_unsigned(x).put(o),
        Op::SaturatingAddMix => a.saturating_add_unsigned(x).put(o),
        Op::WrappingAddMix => a.wrapping_add_unsigned(x).put(o),
        Op::OverflowingAddMix => a.overflowing_add_unsigned(x).put(o),
        Op::CheckedSubMix => a.checked_sub_unsigned(x).put(o),
        Op::SaturatingSubMix => a.saturating_sub_unsigned(x).put(o),
        Op::WrappingSubMix => a.wrapping_sub_unsigned(x).put(o),
        Op::OverflowingSubMix => a.overflowing_sub_unsigned(x).put(o),
        Op::SaturatingNeg => a.saturating_neg().put(o),
        Op::CheckedAbs => a.checked_abs().put(o),
        Op::WrappingAbs => a.wrapping_abs().put(o),
        Op::OverflowingAbs => a.overflowing_abs().put(o),
        Op::SaturatingAbs => a.saturating_abs().put(o),
        Op::Abs => a.abs().put(o),
        Op::UnsignedAbs => a.unsigned_abs().put(o),
        Op::Signum => a.signum().put(o),
        Op::Signum128 => a.signum128().put(o),
        Op::IsPositive => a.is_positive().put(o),
        Op::IsNegative => a.is_negative().put(o),
        Op::OpNeg => (if bw.0[0] & 1 == 0 { -a } else { -&a }).put(o),
        Op::FromI8 => Some(I256::from(lo as i8)).put(o),
        Op::FromI16 => Some(I256::from(lo as i16)).put(o),
        Op::FromI32 => Some(I256::from(lo as i32)).put(o),
        Op::FromI64 => Some(I256::from(lo as i64)).put(o),
        Op::FromI128 => Some(I256::from(lo as i128)).put(o),
        Op::FromU8 => Some(I256::from(lo as u8)).put(o),
        Op::FromU16 => Some(I256::from(lo as u16)).put(o),
        Op::FromU32 => Some(I256::from(lo as u32)).put(o),
        Op::FromU64 => Some(I256::from(lo as u64)).put(o),
        Op::FromU128 => Some(I256::from(lo)).put(o),
    })
}

fn is_cast(op: Op) -> bool {
    use Op::*;
    matches!(
        op,
        CastBool | CastI8 | CastI16 | CastI32 | CastI64 | CastI128 | CastIsize | CastU8 | CastU16 | CastU32 | CastU64 | CastU128 | CastUsize | CastF32 | CastF64
    )
}

/// `$t op= $r` for the operators that take the type itself or its primitive.
macro_rules! assign_arith {
    ($op:expr, $t:expr, $r:expr) => {
        match $op {
            AOp::Add => $t += $r,
            AOp::Sub => $t -= $r,
            AOp::Mul => $t *= $r,
            AOp::Div => $t /= $r,
            AOp::Rem => $t %= $r,
            AOp::And => $t &= $r,
            AOp::Or => $t |= $r,
            AOp::Xor => $t ^= $r,
            _ => crate::exec::harness("harness: not an arithmetic operator"),
        }
    };
}
macro_rules! assign_shift {
    ($op:expr, $t:expr, $r:expr) => {
        match $op {
            AOp::Shl => $t <<= $r,
            AOp::Shr => $t >>= $r,
            _ => crate::exec::harness("harness: not a shift"),
        }
    };
}
macro_rules! bin_arith {
    ($op:expr, $t:expr, $r:expr) => {
        match $op {
            AOp::Add => $t + $r,
            AOp::Sub => $t - $r,
            AOp::Mul => $t * $r,
            AOp::Div => $t / $r,
            AOp::Rem => $t % $r,
            AOp::And => $t & $r,
            AOp::Or => $t | $r,
            AOp::Xor => $t ^ $r,
            _ => crate::exec::harness("harness: not an arithmetic operator"),
        }
    };
}
macro_rules! bin_shift {
    ($op:expr, $t:expr, $r:expr) => {
        match $op {
            AOp::Shl => $t << $r,
            AOp::Shr => $t >> $r,
            _ => crate::exec::harness("harness: not a shift"),
        }
    };
}

/// Calls `$body` with the operand in the type `$rt` says.
macro_rules! shift_operand {
    ($rt:expr, $w:expr, |$r:ident| $body:expr) => {
        match $rt {
            Rt::U256 => { let $r: U256 = to($w); $body }
            Rt::I256 => { let $r: I256 = to($w); $body }
            Rt::I8 => { let $r = $w.0[0] as i8; $body }
            Rt::I16 => { let $r = $w.0[0] as i16; $body }
            Rt::I32 => { let $r = $w.0[0] as i32; $body }
            Rt::I64 => { let $r = $w.0[0] as i64; $body }
            Rt::I128 => { let $r = $w.0[0] as i128; $body }
            Rt::Isize => { let $r = $w.0[0] as isize; $body }
            Rt::U8 => { let $r = $w.0[0] as u8; $body }
            Rt::U16 => { let $r = $w.0[0] as u16; $body }
            Rt::U32 => { let $r = $w.0[0] as u32; $body }
            Rt::U64 => { let $r = $w.0[0] as u64; $body }
            Rt::U128 => { let $r = $w.0[0]; $body }
            Rt::Usize => { let $r = $w.0[0] as usize; $body }
            _ => crate::exec::harness("harness: not a shift operand"),
        }
    };
}

type Thrown = Result<(), Box<dyn std::any::Any + Send>>;

macro_rules! do_assign {
    ($T:ident, $P:ident, $op:expr, $rt:expr, $by_ref:expr, $target:expr, $rhs:expr) => {{
        let mut t: $T = to(*$target);
        let res: Thrown = match $rt {
            Rt::Same => {
                let mut r: $T = to(*$rhs);
                let res = catch_unwind(AssertUnwindSafe(|| {
                    if $by_ref {
                        assign_arith!($op, t, &r)
                    } else {
                        assign_arith!($op, t, r)
                    }
                }));
                let _ = &mut r;
                *$rhs = std::hint::black_box(r).w();
                res
            }
            Rt::Prim => {
                let r = $rhs.0[0] as $P;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    if $by_ref {
                        assign_arith!($op, t, &r)
                    } else {
                        assign_arith!($op, t, r)
                    }
                }));
                $rhs.0[0] = std::hint::black_box(r) as u128;
                res
            }
            rt => shift_operand!(rt, *$rhs, |r| catch_unwind(AssertUnwindSafe(|| {
                if $by_ref {
                    assign_shift!($op, t, &r)
                } else {
                    assign_shift!($op, t, r)
                }
            }))),
        };
        *$target = std::hint::black_box(t).w();
        res
    }};
}

macro_rules! do_binary {
    ($T:ident, $P:ident, $op:expr, $rt:expr, $var:expr, $rev:expr, $a:expr, $rhs:expr) => {{
        let a: $T = to($a);
        match $rt {
            Rt::Same => {
                let r: $T = to($rhs);
                match $var & 3 {
                    0 => bin_arith!($op, a, r),
                    1 => bin_arith!($op, a, &r),
                    2 => bin_arith!($op, &a, r),
                    _ => bin_arith!($op, &a, &r),
                }
            }
            Rt::Prim => {
                let r = $rhs.0[0] as $P;
                if $rev {
                    match $var & 3 {
                        0 => bin_arith!($op, r, a),
                        1 => bin_arith!($op, r, &a),
                        2 => bin_arith!($op, &r, a),
                        _ => bin_arith!($op, &r, &a),
                    }
                } else {
                    match $var & 3 {
                        0 => bin_arith!($op, a, r),
                        1 => bin_arith!($op, a, &r),
                        2 => bin_arith!($op, &a, r),
                        _ => bin_arith!($op, &a, &r),
                    }
                }
            }
            rt => shift_operand!(rt, $rhs, |r| match $var & 3 {
                0 => bin_shift!($op, a, r),
                1 => bin_shift!($op, a, &r),
                2 => bin_shift!($op, &a, r),
                _ => bin_shift!($op, &a, &r),
            }),
        }
        .w()
    }};
}

impl Eth for Node {
    fn debug(&self) -> bool {
        // as observed, not as configured: does plain addition check?
        catch_unwind(|| std::hint::black_box(U256::MAX) + U256::ONE).is_err()
    }

    fn fmt(&self, ty: Ty, v: W, tr: Tr, f: &mut Formatter) -> fmt::Result {
        by_ty!(ty, T => do_fmt(to::<T>(v), tr, f))
    }

    fn ser(&self, ty: Ty, v: W, form: Form, s: SimSer) -> Result<u64, SimErr> {
        by_ty!(ty, T => {
            let v: T = to(v);
            with_form!(form, serialize(&v, s), v.serialize(s))
        })
    }

    fn de(&self, ty: Ty, form: Form, d: SimDe) -> Result<W, SimErr> {
        by_ty!(ty, T => {
            let r: Result<T, SimErr> = with_form!(form, deserialize(d), T::deserialize(d));
            r.map(|x| x.w())
        })
    }

    fn fold(&self, ty: Ty, prod: bool, by_ref: bool, items: &[W], hint: u8, it: &mut SimIter) -> W {
        by_ty!(ty, T => {
            let v: Vec<T> = crate::seam::aside(|| items.iter().map(|w| to(*w)).collect());
            let x = Items { items: &v, it, hint };
            let r: T = match (prod, by_ref) {
                (false, false) => Owned(x).sum(),
                (false, true) => Refs(x).sum(),
                (true, false) => Owned(x).product(),
                (true, true) => Refs(x).product(),
            };
            r.w()
        })
    }

    fn assign(&self, ty: Ty, op: AOp, rt: Rt, by_ref: bool, target: &mut W, rhs: &mut W) -> Thrown {
        match ty {
            Ty::U => do_assign!(U256, u128, op, rt, by_ref, target, rhs),
            Ty::I => do_assign!(I256, i128, op, rt, by_ref, target, rhs),
        }
    }

    fn binary(&self, ty: Ty, op: AOp, rt: Rt, var: u8, rev: bool, a: W, rhs: W) -> W {
        match ty {
            Ty::U => do_binary!(U256, u128, op, rt, var, rev, a, rhs),
            Ty::I => do_binary!(I256, i128, op, rt, var, rev, a, rhs),
        }
    }

    fn call(&self, ty: Ty, op: Op, a: W, b: W, n: u32) -> Out {
        let mut o = Out::default();
        match ty {
            Ty::U => call_u(op, a, b, n, &mut o),
            Ty::I => call_i(op, a, b, n, &mut o),
        }
        o
    }

    fn parse(&self, ty: Ty, how: How, s: &str, radix: u32) -> Result<W, std::num::IntErrorKind> {
        by_ty!(ty, T => match how {
            How::Dec => s.parse::<T>(),
            How::Radix => T::from_str_radix(s, radix),
            How::Hex => T::from_str_hex(s),
            How::Prefixed => T::from_str_prefixed(s),
            How::Literal => Ok(T::const_from_str_prefixed(s)),
        }.map(|x| x.w()).map_err(|e| e.kind().clone()))
    }

    fn hash(&self, ty: Ty, a: W, b: W) -> (u64, u64, bool) {
        by_ty!(ty, T => {
            let h = |x: &T| {
                let mut h = Split(7);
                x.hash(&mut h);
                h.finish()
            };
            let (a, b): (T, T) = (to(a), to(b));
            (h(&a), h(&b), a == b)
        })
    }

    fn text_out(&self, codec: Codec, v: &TextVals, w: &mut dyn std::io::Write) -> Result<(), String> {
        if codec == Codec::Plain {
            return plain_out(&v.f, w).map_err(|e| e.to_string());
        }
        if codec.self_describing() {
            store::encode(codec, &TextRec::from(v), w)
        } else {
            store::encode(codec, &TextRecPlain::from(v), w)
        }
    }
    fn text_in(&self, codec: Codec, r: Read) -> Result<TextVals, String> {
        if codec == Codec::Plain {
            let b = r.all()?;
            let f = plain_in(&b).ok_or("not a record")?;
            return Ok(TextVals { f, ..Default::default() });
        }
        if codec.self_describing() {
            store::decode::<TextRec>(codec, r).map(TextVals::from)
        } else {
            store::decode::<TextRecPlain>(codec, r).map(TextVals::from)
        }
    }
    fn byte_out(&self, codec: Codec, v: &ByteVals, w: &mut dyn std::io::Write) -> Result<(), String> {
        store::encode(codec, &ByteRec::from(v), w)
    }
    fn byte_in(&self, codec: Codec, r: Read) -> Result<ByteVals, String> {
        store::decode::<ByteRec>(codec, r).map(ByteVals::from)
    }

    fn pack(&self, ty: Ty, v: W, form: Form) -> Result<Vec<u8>, String> {
        by_ty!(ty, T => {
            let v: T = to(v);
            let mut out = Vec::new();
            let mut s = serde_json::Serializer::new(&mut out);
            let r = with_form!(form, serialize(&v, &mut s), v.serialize(&mut s));
            r.map_err(|e| e.to_string())?;
            Ok(out)
        })
    }
    fn unpack(&self, ty: Ty, b: &[u8], form: Form) -> Result<W, String> {
        by_ty!(ty, T => {
            let mut d = serde_json::Deserializer::from_slice(b);
            let r: Result<T, _> = with_form!(form, deserialize(&mut d), T::deserialize(&mut d));
            r.map(|x| x.w()).map_err(|e| e.to_string())
        })
    }

    fn coll(&self, ty: Ty, ops: &[CollOp], hasher: SimBuild, step: &mut dyn FnMut(usize, CollObs)) {
        by_ty!(ty, T => coll::drive::<T>(ops, hasher, to::<T>, |x: &T| x.w(), step))
    }
}

/// The record as lines of text, by Display and the radix formats.
fn plain_out(f: &[W], w: &mut dyn std::io::Write) -> std::io::Result<()> {
    let u = |i: usize| to::<U256>(f[i]);
    let s = |i: usize| to::<I256>(f[i]);
    writeln!(w, "{}", u(0))?;
    writeln!(w, "{:?}", s(1))?;
    writeln!(w, "{:#x}", u(2))?;
    writeln!(w, "{:-#x}", s(3))?;
    writeln!(w, "{:#o}", u(4))?;
    writeln!(w, "{:-#b}", s(5))?;
    writeln!(w, "{:#b}", u(6))?;
    writeln!(w, "{:-#o}", s(7))
}

fn plain_in(b: &[u8]) -> Option<Vec<W>> {
    let t = std::str::from_utf8(b).ok()?.strip_suffix('\n')?;
    let l: Vec<&str> = t.split('\n').collect();
    if l.len() != 8 {
        return None;
    }
    Some(vec![
        l[0].parse::<U256>().ok()?.w(),
        l[1].parse::<I256>().ok()?.w(),
        U256::from_str_hex(l[2]).ok()?.w(),
        I256::from_str_hex(l[3]).ok()?.w(),
        U256::from_str_prefixed(l[4]).ok()?.w(),
        I256::from_str_prefixed(l[5]).ok()?.w(),
        U256::from_str_prefixed(l[6]).ok()?.w(),
        I256::from_str_prefixed(l[7]).ok()?.w(),
    ])
}

#[allow(dead_code)]
fn _unused<'de, D: Deserializer<'de>, S: Serializer>(_: D, _: S) {}
