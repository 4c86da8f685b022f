//! Reference model of the text and byte forms.

use crate::ops::{to_f64};
use crate::plan::*;
use crate::val::{fits, Ty, W};
use num_bigint::{BigInt, Sign};
use num_traits::{Signed, ToPrimitive};
use std::fmt::{self, Formatter};

/// The number as the formatting rules see it; formats through `core` only.
#[derive(Clone)]
pub struct Num {
    pub ty: Ty,
    pub w: W,
}

impl Num {
    fn radix(&self, f: &mut Formatter, base: u32, prefix: &str, upper: bool) -> fmt::Result {
        let v = self.w.big(self.ty);
        let (nonneg, mag) = if v.is_negative() && f.sign_minus() {
            (false, v.magnitude().clone())
        } else {
            (true, self.w.ubig())
        };
        let mut s = mag.to_str_radix(base);
        if upper {
            s = s.to_uppercase();
        }
        f.pad_integral(nonneg, prefix, &s)
    }
    pub fn f64(&self) -> f64 {
        to_f64(&self.w.big(self.ty))
    }
    /// `hex` is the debug-hex flag, which the model cannot read from the
    /// formatter on stable.
    pub fn fmt(&self, tr: Tr, hex: u8, f: &mut Formatter) -> fmt::Result {
        match tr {
            Tr::Debug if hex == 1 => self.radix(f, 16, "0x", false),
            Tr::Debug if hex == 2 => self.radix(f, 16, "0x", true),
            Tr::Display | Tr::Debug => {
                let v = self.w.big(self.ty);
                f.pad_integral(!v.is_negative(), "", &v.magnitude().to_str_radix(10))
            }
            Tr::Binary => self.radix(f, 2, "0b", false),
            Tr::Octal => self.radix(f, 8, "0o", false),
            Tr::LowerHex => self.radix(f, 16, "0x", false),
            Tr::UpperHex => self.radix(f, 16, "0x", true),
            Tr::LowerExp => fmt::LowerExp::fmt(&self.f64(), f),
            Tr::UpperExp => fmt::UpperExp::fmt(&self.f64(), f),
            Tr::DebugTree => {
                let n = NumDebug(self.clone(), hex);
                fmt::Debug::fmt(&(n.clone(), Some([n])), f)
            }
        }
    }
}

#[derive(Clone)]
struct NumDebug(Num, u8);
impl fmt::Debug for NumDebug {
    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
        self.0.fmt(Tr::Debug, self.1, f)
    }
}

/// Runs `body` with a formatter that has the spec's flags, writing to `out`.
pub fn with_spec(
    spec: &Spec,
    out: &mut dyn fmt::Write,
    body: &mut dyn FnMut(&mut Formatter) -> fmt::Result,
) -> fmt::Result {
    use std::fmt::{Alignment, DebugAsHex, FormattingOptions, Sign};
    let mut o = FormattingOptions::new();
    o.sign(match spec.sign {
        1 => Some(Sign::Plus),
        2 => Some(Sign::Minus),
        _ => None,
    });
    o.alternate(spec.alt);
    o.sign_aware_zero_pad(spec.zero);
    o.align(match spec.align {
        1 => Some(Alignment::Left),
        2 => Some(Alignment::Center),
        3 => Some(Alignment::Right),
        _ => None,
    });
    if let Some(c) = spec.fill {
        o.fill(c);
    }
    o.width(spec.width);
    o.precision(spec.prec);
    o.debug_as_hex(match spec.hex {
        1 => Some(DebugAsHex::Lower),
        2 => Some(DebugAsHex::Upper),
        _ => None,
    });
    body(&mut o.create_formatter(out))
}

pub fn expect_fmt(ty: Ty, w: W, tr: Tr, spec: &Spec) -> String {
    let mut s = String::new();
    let n = Num { ty, w };
    with_spec(spec, &mut s, &mut |f| n.fmt(tr, spec.hex, f)).expect("model formatting");
    s
}

/// The grammar of `from_str_radix`: optional sign ('-' only if signed), then the
/// prefix, then at least one digit.
pub fn parse_radix(ty: Ty, s: &[u8], radix: u32, prefix: &[u8]) -> Option<W> {
    let mut s = s;
    let mut neg = false;
    match s.first()? {
        b'+' => s = &s[1..],
        b'-' if ty == Ty::I => {
            neg = true;
            s = &s[1..]
        }
        _ => {}
    }
    let s = s.strip_prefix(prefix)?;
    if s.is_empty() {
        return None;
    }
    let s = &s[s.iter().take_while(|c| **c == b'0').count()..];
    if s.len() > 300 {
        // not a number, or out of range
        return None;
    }
    let mut v = BigInt::from(0);
    // in chunks, so that the arithmetic is on machine words mostly
    let mut acc = 0u64;
    let mut mul = 1u64;
    for c in s {
        let d = (*c as char).to_digit(radix)?;
        acc = acc * radix as u64 + d as u64;
        mul *= radix as u64;
        if mul > 1 << 50 {
            v = v * mul + acc;
            acc = 0;
            mul = 1;
        }
    }
    v = v * mul + acc;
    if neg {
        v = -v;
    }
    fits(ty, &v).then(|| W::wrap(&v))
}

pub fn parse_prefixed(ty: Ty, s: &[u8]) -> Option<W> {
    let body = match s.first() {
        Some(b'+') => &s[1..],
        Some(b'-') if ty == Ty::I => &s[1..],
        _ => s,
    };
    let (radix, prefix): (u32, &[u8]) = if body.starts_with(b"0x") {
        (16, b"0x")
    } else if body.starts_with(b"0o") {
        (8, b"0o")
    } else if body.starts_with(b"0b") {
        (2, b"0b")
    } else {
        (10, b"")
    };
    parse_radix(ty, s, radix, prefix)
}

/// What the literal macros accept: as prefixed, with `_` and white space
/// ignored between digits.  None if the literal is one this model does not
/// judge (no digits at all).
pub fn parse_literal(ty: Ty, s: &[u8]) -> Option<Option<W>> {
    let mut t = s;
    let mut sign: &[u8] = b"";
    if t.first() == Some(&b'+') || ty == Ty::I && t.first() == Some(&b'-') {
        sign = &s[..1];
        t = &s[1..];
    }
    let (radix, body) = if t.len() > 2 && t.starts_with(b"0x") {
        (16, &t[2..])
    } else if t.len() > 2 && t.starts_with(b"0o") {
        (8, &t[2..])
    } else if t.len() > 2 && t.starts_with(b"0b") {
        (2, &t[2..])
    } else {
        (10, t)
    };
    let digits: Vec<u8> = body.iter().copied().filter(|c| *c != b'_' && !c.is_ascii_whitespace()).collect();
    if digits.is_empty() {
        return None;
    }
    if matches!(digits[0], b'+' | b'-') {
        return Some(None);
    }
    let mut out = sign.to_vec();
    out.extend_from_slice(&digits);
    Some(parse_radix(ty, &out, radix, b""))
}

pub fn parse(ty: Ty, how: How, s: &[u8], radix: u32) -> Option<W> {
    match how {
        How::Dec => parse_radix(ty, s, 10, b""),
        How::Radix => parse_radix(ty, s, radix, b""),
        How::Hex => parse_radix(ty, s, 16, b"0x"),
        How::Prefixed => parse_prefixed(ty, s),
        How::Literal => parse_literal(ty, s).flatten(),
    }
}

/// The text a form stores for a value.
pub fn form_text(ty: Ty, form: Form, w: W) -> String {
    let v = w.big(ty);
    match form {
        Form::Dec => v.to_string(),
        _ => {
            let m = BigInt::from_biguint(Sign::Plus, v.magnitude().clone());
            format!("{}0x{}", if v.is_negative() { "-" } else { "" }, m.to_str_radix(16))
        }
    }
}

/// The bytes a form stores for a value.
pub fn form_bytes(ty: Ty, form: Form, w: W) -> Vec<u8> {
    let mut b = w.bytes().to_vec();
    if form.comp() {
        let v = w.big(ty);
        let need = if v == BigInt::from(0) {
            0
        } else if ty == Ty::U {
            (v.bits() as usize).div_ceil(8)
        } else {
            // smallest n with -2^(8n-1) <= v < 2^(8n-1)
            let m = if v.is_negative() { -v - 1 } else { v };
            m.bits() as usize / 8 + 1
        };
        b.truncate(need);
    }
    if form.big_endian() {
        b.reverse();
    }
    b
}

/// What stored bytes denote, if anything.
pub fn bytes_value(ty: Ty, form: Form, b: &[u8]) -> Option<W> {
    if b.len() > 32 || (!form.comp() && b.len() != 32) {
        return None;
    }
    let mut l = b.to_vec();
    if form.big_endian() {
        l.reverse();
    }
    let ext = if ty == Ty::I && l.last().is_some_and(|x| x >> 7 == 1) { 0xff } else { 0 };
    l.resize(32, ext);
    Some(W::from_le(l.try_into().unwrap()))
}

pub fn text_value(ty: Ty, form: Form, s: &[u8]) -> Option<W> {
    match form {
        Form::Hex => parse_radix(ty, s, 16, b"0x"),
        Form::Dec => parse_radix(ty, s, 10, b""),
        _ => parse_prefixed(ty, s),
    }
}

/// What reading a stored value must do.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    /// exactly this value
    Must(W),
    /// an error
    Err,
    /// this value or an error
    May(W),
}

pub fn int_value(ty: Ty, v: BigInt) -> Option<W> {
    fits(ty, &v).then(|| W::wrap(&v))
}

fn permissive_number(ty: Ty, form: Form, v: BigInt) -> Expect {
    match (int_value(ty, v), form) {
        (Some(w), Form::Permissive) => Expect::Must(w),
        (Some(w), _) => Expect::May(w),
        (None, _) => Expect::Err,
    }
}

/// What a bare number denotes, if that is an integer.
fn integral(s: &str) -> Option<BigInt> {
    let (neg, s) = s.strip_prefix('-').map_or((false, s), |s| (true, s));
    let (m, e) = s.split_once('e').unwrap_or((s, "0"));
    let (a, b) = m.split_once('.').unwrap_or((m, ""));
    let e = e.parse::<i64>().ok()?.checked_sub(b.len() as i64)?;
    if a.is_empty() || s.len() > 700 || e.abs() > 700 || !(a.bytes().chain(b.bytes())).all(|c| c.is_ascii_digit()) {
        return None;
    }
    let m: BigInt = format!("{}{}", a, b).parse().ok()?;
    let ten = BigInt::from(10).pow(e.unsigned_abs() as u32);
    let v = if e >= 0 {
        m * ten
    } else if &m % &ten == BigInt::from(0) {
        m / ten
    } else {
        return None;
    };
    Some(if neg { -v } else { v })
}

fn bare(ty: Ty, form: Form, s: &str, single: bool) -> Expect {
    let limit = if single { 1u64 << 24 } else { 1 << 53 };
    let f: f64 = if single { s.parse::<f32>().map(|x| x as f64) } else { s.parse() }.unwrap_or(f64::NAN);
    match integral(s) {
        Some(v) if s.parse::<u64>().is_ok() || s.parse::<i64>().is_ok() => permissive_number(ty, form, v),
        // a float that may stand for more than one integer stands for none
        // but the right one
        Some(v) => match int_value(ty, v) {
            Some(w) if form == Form::Permissive && f.abs() < limit as f64 => Expect::Must(w),
            x => may(x),
        },
        // the format has rounded it already
        None => float(ty, form, f, limit as f64),
    }
}

fn float(ty: Ty, form: Form, f: f64, limit: f64) -> Expect {
    if !f.is_finite() || f.trunc() != f {
        return Expect::Err;
    }
    let w = {
        let m = f.abs();
        let bits = m.to_bits();
        let e = (bits >> 52 & 0x7ff) as i64 - 1075;
        let mant = BigInt::from(if m == 0.0 { 0 } else { bits & ((1 << 52) - 1) | 1 << 52 });
        let v = if e >= 0 { mant << e as u64 } else { mant >> (-e) as u64 };
        int_value(ty, if f < 0.0 { -v } else { v })
    };
    match w {
        None => Expect::Err,
        Some(w) if form == Form::Permissive && f.abs() < limit => Expect::Must(w),
        Some(w) => Expect::May(w),
    }
}

fn may(x: Option<W>) -> Expect {
    x.map_or(Expect::Err, Expect::May)
}
fn must(x: Option<W>) -> Expect {
    x.map_or(Expect::Err, Expect::Must)
}

pub fn elem_u8(e: &Elem) -> Option<u8> {
    match e {
        Elem::U8(x) => Some(*x),
        Elem::U64(x) => x.to_u8(),
        Elem::I64(x) => x.to_u8(),
        _ => None,
    }
}

pub fn expect_de(ty: Ty, form: Form, input: &In) -> Expect {
    match input {
        In::Str(_, s) => {
            if form.text() {
                must(text_value(ty, form, s.as_bytes()))
            } else {
                may(bytes_value(ty, form, s.as_bytes()))
            }
        }
        In::Bytes(_, b) => match form {
            Form::Permissive => may(text_value(ty, form, b)),
            f if f.text() => must(text_value(ty, form, b)),
            _ => must(bytes_value(ty, form, b)),
        },
        In::Seq(e, hint, endless) => {
            if *endless {
                return Expect::Err;
            }
            let b: Option<Vec<u8>> = e.iter().map(elem_u8).collect();
            let Some(b) = b else { return Expect::Err };
            if form.text() {
                return may(text_value(ty, form, &b));
            }
            let v = bytes_value(ty, form, &b);
            let honest = match hint {
                None | Some(None) => true,
                Some(Some(n)) => *n as usize == e.len(),
            };
            if honest {
                must(v)
            } else {
                may(v)
            }
        }
        In::U8(x) => permissive_number(ty, form, BigInt::from(*x)),
        In::U64(x) => permissive_number(ty, form, BigInt::from(*x)),
        In::I8(x) => permissive_number(ty, form, BigInt::from(*x)),
        In::I64(x) => permissive_number(ty, form, BigInt::from(*x)),
        In::U128(x) => permissive_number(ty, form, BigInt::from(x.0[0])),
        In::I128(x) => permissive_number(ty, form, BigInt::from(x.0[0] as i128)),
        In::F32(x) => float(ty, form, f32::from_bits(*x) as f64, (1u32 << 24) as f64),
        In::F64(x) => float(ty, form, f64::from_bits(*x), (1u64 << 53) as f64),
        In::Num(s, single) => bare(ty, form, s, *single),
        In::Char(c) => {
            let s = c.to_string();
            if form.text() {
                may(text_value(ty, form, s.as_bytes()))
            } else {
                may(bytes_value(ty, form, s.as_bytes()))
            }
        }
        // nothing numeric: reading these as a number would invent a value
        In::Bool(_) | In::Unit | In::None | In::Map => Expect::Err,
        In::Some(x) | In::Newtype(x) => match expect_de(ty, form, x) {
            Expect::Must(w) | Expect::May(w) => Expect::May(w),
            Expect::Err => Expect::Err,
        },
    }
}
