//! Draws one run's plan from the seed.  Every run first draws its own mix of
//! work and faults (swarm style), then the details.

use crate::cluster::{Cluster, Cmd, NetF, Outage, Src, REGS};
use crate::coll::{Coll, CollOp, HashKind, HasherPlan};
use crate::ops::{self, Op};
use crate::plan::*;
use crate::rng::Rng;
use crate::store::{ByteVals, Codec, JOp, Journal, Mut, TextVals, Vals, DK};
use crate::text;
use crate::val::{self, Ty, W};
use num_bigint::BigInt;
use serde::{Deserialize, Serialize};

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Case {
    Plan(Plan),
    Journal(Journal),
    Coll(Coll),
    Cluster(Cluster),
    /// several runs in one process, for what one leaves behind for the next
    Runs { prop: String, seed: u64, runs: Vec<u64> },
}

/// Whether the run is the first thing its process does.
pub fn fresh(prop: &str, run: u64) -> bool {
    prop == "C02" && run / 64 % 4 == 1
}

pub fn case(prop: &str, seed: u64, run: u64) -> Case {
    let mut r = Rng::new(seed, prop, run);
    let r = &mut r;
    match prop {
        "C02" => Case::Plan(match run / 64 % 4 {
            1 | 3 => meet(r, fresh(prop, run)),
            _ => plan(r, prop),
        }),
        "C03" | "C04" => {
            if r.chance(1, 2) {
                Case::Journal(journal(r, prop == "C03"))
            } else {
                Case::Plan(plan(r, prop))
            }
        }
        "C08" => Case::Cluster(cluster(r)),
        "C10" => {
            if r.chance(1, 12) {
                Case::Plan(plan(r, prop))
            } else {
                Case::Coll(coll(r))
            }
        }
        _ => Case::Plan(plan(r, prop)),
    }
}

fn ty(r: &mut Rng) -> Ty {
    if r.chance(1, 2) {
        Ty::U
    } else {
        Ty::I
    }
}

fn errno(r: &mut Rng) -> u32 {
    *r.pick(&[libc::EIO, libc::ENOSPC, libc::EPIPE, libc::EAGAIN, libc::ECONNRESET, libc::EBADF]) as u32
}

fn spec(r: &mut Rng) -> Spec {
    let mut s = Spec::default();
    if r.chance(1, 5) {
        return s;
    }
    if r.chance(1, 3) {
        s.sign = 1 + r.below(2) as u8;
    }
    s.alt = r.chance(1, 3);
    s.zero = r.chance(1, 4);
    if r.chance(1, 3) {
        s.align = 1 + r.below(3) as u8;
        if r.chance(1, 2) {
            s.fill = Some(*r.pick(&['*', '0', '-', 'x', 'é', '☃', '😀', ' ']));
        }
    }
    if r.chance(1, 2) {
        s.width = Some(match r.below(6) {
            0 => r.below(4) as u16,
            1 => r.below(300) as u16,
            2 => 60 + r.below(24) as u16,
            3 => 254 + r.below(8) as u16,
            4 if r.chance(1, 20) => *r.pick(&[512u16, 1000, 1023, 4096, 32767, 65535]),
            _ => r.below(100) as u16,
        });
    }
    if r.chance(1, 5) {
        s.prec = Some(if r.chance(1, 20) { r.below(400) as u16 } else { r.below(20) as u16 });
    }
    if r.chance(1, 8) {
        s.hex = 1 + r.below(2) as u8;
    }
    s
}

fn fmt_act(r: &mut Rng) -> Act {
    let ty = ty(r);
    let v = val::gen(r);
    let tr = *r.pick(&TRS);
    let spec = spec(r);
    let sink = if r.chance(1, 2) { Sink::Fmt } else { Sink::Io };
    let cap = if r.chance(1, 6) {
        let n = text::expect_fmt(ty, v, tr, &spec).len() as u64;
        Some(match r.below(3) {
            0 => n.saturating_sub(r.below(3)) as u32,
            _ => r.below(n + 2) as u32,
        })
    } else {
        None
    };
    Act::Fmt { ty, v, tr, spec, sink, cap }
}

fn ser_act(r: &mut Rng, forms: &[Form]) -> Act {
    Act::Ser { ty: ty(r), v: val::gen(r), form: *r.pick(forms), hr: r.chance(1, 2) }
}

/// A number in some notation, and what a channel may make of it.
pub fn number_text(r: &mut Rng, ty: Ty) -> Vec<u8> {
    let w = val::gen(r);
    let mut v = w.big(ty);
    if r.chance(1, 8) {
        // around the limits
        let lim = if r.chance(1, 2) { val::tmax(ty) } else { val::tmin(ty) };
        v = lim + r.range(-2, 2);
    }
    if r.chance(1, 16) {
        // beyond them
        v *= BigInt::from(1 + r.below(40));
    }
    if r.chance(1, 10) {
        v = -v;
    }
    let neg = v < BigInt::from(0);
    let m = BigInt::from(v.magnitude().clone());
    let (p, radix) = *r.pick(&[("0x", 16u32), ("0x", 16), ("", 10), ("", 10), ("0o", 8), ("0b", 2), ("0X", 16), ("", 16)]);
    let mut d = m.to_str_radix(radix);
    if r.chance(1, 6) {
        d = d.to_uppercase();
    }
    if r.chance(1, 6) {
        d = format!("{}{}", "0".repeat(r.us(80)), d);
    }
    if r.chance(1, 40) {
        d = format!("{}{}", "0".repeat(if r.chance(1, 8) { *r.pick(&[128usize, 192, 256, 300, 1000, 5000]) } else { r.us(400) }), d);
    }
    let sign = if neg {
        "-"
    } else if r.chance(1, 6) {
        "+"
    } else {
        ""
    };
    format!("{}{}{}", sign, p, d).into_bytes()
}

const JUNK: [&str; 34] = [
    "", "0x", "0o", "0b", "-", "+", "-0x", "+0x", "0x-1", "0x+1", "+-1", "-+1", "--1", " 1", "1 ", "\n", "0X1f", "1_000", "0x_1", "١", "１２", "0x0", "-0x0",
    "-0", "+0", "0", "00", "0x00", "NaN", "1e5", "1.0", "0xg", "-0x1", "0b2",
];

pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        let m = mutation(r);
        crate::store::mutate(b, &m);
    }
}

pub fn stored_text(r: &mut Rng, ty: Ty, form: Form) -> Vec<u8> {
    let mut b = match r.below(8) {
        0..=2 => text::form_text(ty, form, val::gen(r)).into_bytes(),
        3 => r.pick(&JUNK).as_bytes().to_vec(),
        _ => number_text(r, ty),
    };
    if r.chance(1, 3) {
        damage(r, &mut b);
    }
    b
}

fn mode(r: &mut Rng) -> Mode {
    *r.pick(&[Mode::Borrowed, Mode::Transient, Mode::Owned])
}

fn seq_of(r: &mut Rng, b: Vec<u8>) -> In {
    let mut e: Vec<Elem> = b
        .iter()
        .map(|x| match r.below(6) {
            0 => Elem::U64(*x as u64),
            1 => Elem::I64(*x as i64),
            _ => Elem::U8(*x),
        })
        .collect();
    if r.chance(1, 4) && !e.is_empty() {
        let i = r.us(e.len());
        e[i] = match r.below(8) {
            0 => Elem::U64(256),
            1 => Elem::U64(r.next()),
            2 => Elem::I64(-1 - r.below(300) as i64),
            3 => Elem::F64((r.below(256) as f64).to_bits()),
            4 => Elem::Str("7".into()),
            5 => Elem::Bool(true),
            6 => Elem::Unit,
            _ => Elem::I64(r.below(256) as i64),
        };
    }
    let hint = match r.below(7) {
        0 => Some(None),
        1 => Some(Some(*r.pick(&[0u32, 1, 16, 31, 32, 33, 64, u32::MAX]))),
        // counts down, from the wrong length
        2 => Some(Some(COUNTS_DOWN | *r.pick(&[0u32, 1, 16, 31, 32, 32, 33, 64]))),
        3 => Some(Some(COUNTS_DOWN | r.below(40) as u32)),
        _ => None,
    };
    In::Seq(e, hint, r.chance(1, 10))
}

fn length(r: &mut Rng) -> usize {
    match r.below(4) {
        0 | 1 => r.us(40),
        2 => *r.pick(&[15usize, 16, 17, 31, 32, 33, 34, 48, 63, 64, 65, 96, 128, 255, 256, 257, 288, 512, 1024]),
        _ => r.us(300),
    }
}

fn bytes_of(r: &mut Rng, ty: Ty, form: Form) -> Vec<u8> {
    let mut b = text::form_bytes(ty, form, val::gen(r));
    if r.chance(1, 4) {
        // as a fixed encoding, or re-extended
        let other = *r.pick(&BYTE_FORMS);
        b = text::form_bytes(ty, other, val::gen(r));
    }
    if r.chance(1, 3) {
        match r.below(4) {
            0 => b.truncate(r.us(33)),
            1 => {
                let n = length(r);
                let x = *r.pick(&[0u8, 0xff, 0x80, 0x7f]);
                if r.chance(1, 3) {
                    // at the front
                    let m = b.len().min(n);
                    b.drain(m..);
                    b.splice(0..0, std::iter::repeat_n(x, n - m));
                } else {
                    b.resize(n, x);
                }
            }
            2 => {
                // one record after another
                let more = text::form_bytes(ty, *r.pick(&BYTE_FORMS), val::gen(r));
                b.extend(more);
            }
            _ => damage(r, &mut b),
        }
    }
    b
}

/// What the channel holds: mostly what a writer of this form stored.
fn input(r: &mut Rng, ty: Ty, form: Form, any: bool) -> In {
    if any && r.chance(1, 4) {
        return match r.below(14) {
            0 => In::U8(r.next() as u8),
            1 => In::I8(r.next() as i8),
            2 => In::Bool(r.chance(1, 2)),
            3 => In::Char(*r.pick(&['0', '7', 'x', '-', '☃'])),
            4 => In::Unit,
            5 => In::None,
            6 => In::Map,
            7 => In::Some(Box::new(input(r, ty, form, false))),
            8 => In::Newtype(Box::new(input(r, ty, form, false))),
            _ => number(r),
        };
    }
    if form == Form::Permissive && r.chance(1, 2) {
        return number(r);
    }
    if form.text() && !(any && r.chance(1, 8)) {
        let b = stored_text(r, ty, form);
        if r.chance(3, 4) {
            if let Ok(s) = String::from_utf8(b.clone()) {
                return In::Str(mode(r), s);
            }
        }
        if form == Form::Permissive && !any {
            return In::Str(mode(r), String::from_utf8_lossy(&b).into_owned());
        }
        return In::Bytes(mode(r), b);
    }
    let b = bytes_of(r, ty, form);
    match r.below(if any { 4 } else { 3 }) {
        0 => seq_of(r, b),
        3 => In::Str(mode(r), String::from_utf8_lossy(&b).into_owned()),
        _ => In::Bytes(mode(r), b),
    }
}

/// An integer as a bare number, in some notation.
fn bare(r: &mut Rng) -> In {
    let v = match r.below(4) {
        0 => {
            let f = ops::gen_f64(r).trunc();
            if f.abs() < 1e80 { BigInt::from(f as i128) } else { BigInt::from(0) }
        }
        1 | 2 => BigInt::from(1) << *r.pick(&[23u32, 24, 24, 25, 31, 32, 52, 53, 53, 54, 63, 64, 127, 128, 255, 256]),
        _ => val::gen(r).big(Ty::I),
    } + r.range(-3, 3);
    let v = if r.chance(1, 3) { -v } else { v };
    let (sign, d) = (if v < BigInt::from(0) { "-" } else { "" }, v.magnitude().to_string());
    let s = match r.below(4) {
        0 => d,
        1 => d + ["." , ".0", ".000"][1 + r.us(2)],
        2 => {
            let k = 1 + r.us(d.len());
            let k = k.min(d.len());
            let frac = &d[k..];
            format!("{}{}{}e{}", &d[..k], if frac.is_empty() { "" } else { "." }, frac, frac.len())
        }
        _ => {
            let t = d.trim_end_matches('0');
            if t.is_empty() { "0e3".into() } else { format!("{}e{}", t, d.len() - t.len()) }
        }
    };
    In::Num(format!("{}{}", sign, s), r.chance(1, 3))
}

fn number(r: &mut Rng) -> In {
    if r.chance(1, 3) {
        return bare(r);
    }
    match r.below(8) {
        0 => In::U64(r.next() >> r.below(64)),
        1 => In::I64((r.next() >> r.below(64)) as i64),
        2 => In::I64(-((r.next() >> (1 + r.below(63))) as i64)),
        3 => In::U128(W([val::limbs(r).0[0], 0])),
        4 => In::I128(W([val::limbs(r).0[0], 0])),
        5 => In::F32(ops::gen_f32(r).to_bits()),
        _ => {
            let f = ops::gen_f64(r);
            In::F64(if r.chance(1, 2) { f.trunc() } else { f }.to_bits())
        }
    }
}

fn de_act(r: &mut Rng, forms: &[Form], any: bool, posts: bool) -> Act {
    let (ty, form) = (ty(r), *r.pick(forms));
    let input = input(r, ty, form, any);
    Act::De { ty, form, input, hr: r.chance(1, 2), post: (posts && r.chance(1, 8)).then(|| 500 + r.below(100) as u32) }
}

fn one_digit(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match r.below(4) {
        _ if c.is_empty() => c.push('1'),
        0 => {
            let i = r.us(c.len());
            c.remove(i);
        }
        1 => c.insert(r.us(c.len() + 1), '0'),
        _ => {
            let i = r.us(c.len());
            c[i] = *r.pick(&['0', '1', '5', '9', 'a', 'f', '-', 'x']);
        }
    }
    c.into_iter().collect()
}

/// Almost the same call.
fn kin_act(r: &mut Rng, a: &Act) -> Act {
    let mut a = a.clone();
    let (x, y) = (r.chance(3, 4), r.chance(1, 4));
    match &mut a {
        Act::Fmt { ty, v, tr, spec: s, cap, .. } => {
            *cap = None;
            if x {
                *v = val::kin(r, *v);
            }
            if y {
                *tr = *r.pick(&TRS);
            }
            if r.chance(1, 4) {
                *s = spec(r);
            }
            if r.chance(1, 6) {
                *ty = if *ty == Ty::U { Ty::I } else { Ty::U };
            }
        }
        Act::Ser { v, form, .. } => {
            if x {
                *v = val::kin(r, *v);
            } else {
                *form = *r.pick(&ALL_FORMS);
            }
        }
        Act::De { input, .. } => match input {
            In::Str(_, s) => *s = one_digit(r, s),
            In::Bytes(_, b) => {
                if !b.is_empty() {
                    let i = r.us(b.len());
                    b[i] ^= 1 << r.below(8);
                }
            }
            In::Seq(e, ..) => {
                if !e.is_empty() {
                    let i = r.us(e.len());
                    e[i] = Elem::U8(r.next() as u8);
                }
            }
            In::Num(s, _) => *s = one_digit(r, s),
            In::U64(n) => *n ^= 1 << r.below(64),
            In::I64(n) => *n ^= 1 << r.below(64),
            _ => {}
        },
        Act::Fold { prod, items, .. } => {
            if y || items.is_empty() {
                *prod = !*prod;
            } else {
                let i = r.us(items.len());
                items[i] = val::kin(r, items[i]);
            }
        }
        Act::Assign { rhs, .. } => *rhs = val::kin(r, *rhs),
        Act::Binary { a, rhs, .. } | Act::Call { a, b: rhs, .. } => {
            if y {
                std::mem::swap(a, rhs);
            }
            if x {
                *a = val::kin(r, *a);
            }
            if !x || r.chance(1, 4) {
                *rhs = val::kin(r, *rhs);
            }
        }
        Act::Parse { s, radix, .. } => {
            if x {
                *s = one_digit(r, s);
            } else {
                *radix = *r.pick(&[2u32, 8, 10, 16, 36]);
            }
        }
        Act::Hash { a, b, .. } => {
            *a = val::kin(r, *a);
            if x {
                *b = *a;
            }
        }
    }
    a
}

fn fold_act(r: &mut Rng) -> Act {
    let ty = ty(r);
    let prod = r.chance(1, 2);
    let n = match r.below(6) {
        0 => r.us(3),
        1 => r.us(60),
        _ => r.us(16),
    };
    let style = r.below(5);
    let cross = r.us(n.max(1));
    let items: Vec<W> = (0..n)
        .map(|i| match style {
            0 => val::gen(r),
            1 => {
                // stays in range until one item takes it across, often exactly
                if i == cross {
                    let lim = if r.chance(1, 2) { val::tmax(ty) } else { val::tmin(ty) };
                    W::wrap(&(lim - r.range(-3, 3)))
                } else {
                    W([r.below(4) as u128, 0])
                }
            }
            2 => {
                let w = W([1 + r.below(1 << 20) as u128, 0]);
                if ty == Ty::I && r.chance(1, 2) {
                    w.wneg()
                } else {
                    w
                }
            }
            3 => *r.pick(&[W::ONE, W::ONES, W::IMIN, W::IMAX, W::ZERO, W([2, 0]), W([0, 1]), W([!0, 0])]),
            _ => {
                let w = W([r.u128() >> r.below(128), if r.chance(1, 4) { r.u128() >> (40 + r.below(88)) } else { 0 }]);
                if ty == Ty::I && r.chance(1, 2) {
                    w.wneg()
                } else {
                    w
                }
            }
        })
        .collect();
    Act::Fold { ty, prod, by_ref: r.chance(1, 2), items, hint: if r.chance(1, 2) { 0 } else { r.below(4) as u8 } }
}

/// An operator, its operand's type and both operands.
fn operator(r: &mut Rng, ty: Ty) -> (AOp, Rt, W, W) {
    let op = *r.pick(&AOPS);
    let (mut a, mut b) = val::gen_pair(r);
    let rt = if matches!(op, AOp::Shl | AOp::Shr) {
        let rt = *r.pick(&SHIFT_RTS);
        b = match r.below(8) {
            0 => b,
            1 => W([256 + r.below(600) as u128, 0]),
            2 => W([r.below(300) as u128, 0]).wneg(),
            3 => W([r.below(256) as u128 | 1 << r.below(127), 0]),
            4 => W([r.below(256) as u128, 1 << r.below(127)]),
            _ => W([r.below(256) as u128, 0]),
        };
        rt
    } else if r.chance(1, 3) {
        if ty == Ty::I && r.chance(1, 8) {
            b = W::ONES;
        }
        Rt::Prim
    } else {
        if ty == Ty::I && matches!(op, AOp::Div | AOp::Rem) && r.chance(1, 6) {
            a = W::IMIN;
            b = W::ONES;
        }
        Rt::Same
    };
    if matches!(op, AOp::Div | AOp::Rem) && r.chance(1, 10) {
        b = W::ZERO;
    }
    (op, rt, a, b)
}

fn assign_act(r: &mut Rng, regs: &[u8]) -> Act {
    let ty = ty(r);
    let (op, rt, _, rhs) = operator(r, ty);
    Act::Assign { ty, op, rt, by_ref: r.chance(1, 2), reg: *r.pick(regs), rhs }
}

fn binary_act(r: &mut Rng) -> Act {
    let ty = ty(r);
    let (op, rt, a, rhs) = operator(r, ty);
    Act::Binary { ty, op, rt, var: r.below(4) as u8, rev: r.chance(1, 3), a, rhs }
}

fn call_act(r: &mut Rng) -> Act {
    let ty = ty(r);
    let (op, a, b, n) = ops::gen_call(r, ty, all_ops(ty));
    Act::Call { ty, op, a, b, n }
}

fn all_ops(ty: Ty) -> &'static [(Op, ops::Cls)] {
    static T: std::sync::OnceLock<[Vec<(Op, ops::Cls)>; 2]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| [ops::ops_for(Ty::U), ops::ops_for(Ty::I)]);
    &t[ty as usize]
}

fn parse_args(r: &mut Rng, ty: Ty) -> (How, String, u32) {
    let how = *r.pick(&[How::Dec, How::Radix, How::Radix, How::Hex, How::Prefixed, How::Literal, How::Literal]);
    let radix = match r.below(3) {
        0 => 2 + r.below(35) as u32,
        _ => *r.pick(&[2u32, 8, 10, 16, 36]),
    };
    let s = loop {
        let mut b = match r.below(10) {
            0 => r.pick(&JUNK).as_bytes().to_vec(),
            1..=4 => number_text(r, ty),
            _ => {
                // in the notation this parser reads
                let v = val::gen(r).big(ty);
                let v = if r.chance(1, 10) { (if r.chance(1, 2) { val::tmax(ty) } else { val::tmin(ty) }) + r.range(-2, 2) } else { v };
                let m = BigInt::from(v.magnitude().clone());
                let (p, x) = match how {
                    How::Dec => ("", 10),
                    How::Radix => ("", radix),
                    How::Hex => ("0x", 16),
                    _ => *r.pick(&[("0x", 16u32), ("0o", 8), ("0b", 2), ("", 10)]),
                };
                let sign = if v < BigInt::from(0) { "-" } else { "" };
                let mut d = m.to_str_radix(x);
                if r.chance(1, 4) {
                    d = d.to_uppercase();
                }
                if how == How::Literal && r.chance(1, 2) {
                    let mut s = String::new();
                    for c in d.chars() {
                        s.push(c);
                        if r.chance(1, 6) {
                            s.push(*r.pick(&['_', '_', ' ', '\n', '\t']));
                        }
                    }
                    d = s;
                }
                format!("{}{}{}", sign, p, d).into_bytes()
            }
        };
        if r.chance(1, 6) {
            damage(r, &mut b);
        }
        if let Ok(s) = String::from_utf8(b) {
            break s;
        }
    };
    (how, s, radix)
}

fn parse_act(r: &mut Rng) -> Act {
    let ty = ty(r);
    let (how, s, radix) = parse_args(r, ty);
    Act::Parse { ty, how, s, radix }
}

fn hash_act(r: &mut Rng) -> Act {
    let (a, b) = val::gen_pair(r);
    Act::Hash { ty: ty(r), a, b: if r.chance(1, 3) { a } else { b } }
}

const ALL_FORMS: [Form; 10] = [
    Form::Hex,
    Form::Dec,
    Form::Prefixed,
    Form::Permissive,
    Form::BytesLe,
    Form::BytesBe,
    Form::BytesNe,
    Form::CompLe,
    Form::CompBe,
    Form::CompNe,
];

/// Which faults a run uses, and how often.
struct Mix {
    fail: u64,
    panic: u64,
    part: u64,
    short: u64,
    intr: u64,
    yields: u64,
    nest: u64,
    pre: u64,
    oom: bool,
    one: Option<Build>,
}

fn mixture(r: &mut Rng, prop: &str) -> Mix {
    let on = |r: &mut Rng, n: u64| if r.chance(1, 2) { n } else { 0 };
    let mut m = Mix {
        fail: on(r, 4),
        panic: on(r, 3),
        part: on(r, 3),
        short: on(r, 4),
        intr: on(r, 3),
        yields: 0,
        nest: 0,
        pre: 0,
        oom: false,
        one: r.chance(1, 2).then(|| *r.pick(&BUILDS)),
    };
    match prop {
        "C02" => {
            m.yields = on(r, 6);
            m.nest = on(r, 5);
            m.pre = on(r, 5);
            if m.yields + m.nest + m.pre == 0 {
                m.yields = 4;
                m.pre = 4;
            }
            // often all tasks on the same build, which is where they can meet
            m.one = r.chance(4, 5).then(|| *r.pick(&BUILDS));
        }
        "C09" => {
            m.oom = true;
            m.panic = 0;
        }
        "C07" => {
            m.yields = on(r, 2);
            m.pre = on(r, 1);
        }
        "C03" | "C04" => {
            m.panic = 0;
            m.fail = 0;
        }
        _ => {}
    }
    m
}

fn build(r: &mut Rng, m: &Mix) -> Build {
    m.one.unwrap_or(*r.pick(&BUILDS))
}

fn preempt(r: &mut Rng) -> Vec<u32> {
    let n = 1 + r.below(4);
    (0..n)
        .map(|i| {
            let hi = if i == 0 { 11 } else { 7 };
            let k = 1u64 << r.below(hi);
            (k + r.below(k)) as u32
        })
        .collect()
}

fn preempt_shared(r: &mut Rng) -> Vec<u32> {
    let k = 1u64 << r.below(7);
    (0..1 + r.below(20)).map(|_| 1 + r.below(k) as u32).collect()
}

/// Where the call's callbacks go wrong.
fn events(r: &mut Rng, m: &Mix, act: &Act, depth: u32, prop: &str, regs: &[u8]) -> Vec<Ev> {
    let mut out = Vec::new();
    let span: u64 = match act {
        Act::Fmt { tr: Tr::DebugTree, .. } => 40,
        Act::Fmt { spec, .. } if spec.width.is_some() => *r.pick(&[3, 12, 90]),
        Act::Fmt { .. } => 4,
        Act::De { input: In::Seq(e, ..), .. } => e.len() as u64 + 3,
        Act::Ser { .. } | Act::De { .. } => 2,
        Act::Fold { items, .. } => items.len() as u64 + 1,
        _ => return out,
    };
    let at = |r: &mut Rng| r.below(span) as u32;
    let (fmt, io) = match act {
        Act::Fmt { sink, .. } => (*sink == Sink::Fmt, *sink == Sink::Io),
        _ => (false, false),
    };
    let fold = matches!(act, Act::Fold { .. });
    if r.chance(m.fail, 12) && !fold {
        let c = if io { errno(r) } else { 1 + r.below(400) as u32 };
        out.push(Ev { at: at(r), k: EvK::Fail(c) });
    }
    if r.chance(m.part, 12) && fmt {
        out.push(Ev { at: at(r), k: EvK::Part(r.below(70) as u32) });
    }
    if io {
        if m.short > 0 {
            for _ in 0..r.below(4) {
                out.push(Ev { at: at(r), k: EvK::Short(1 + r.below(20) as u32) });
            }
        }
        if m.intr > 0 {
            for _ in 0..r.below(3) {
                out.push(Ev { at: at(r), k: EvK::Intr });
            }
        }
        if r.chance(m.part, 24) {
            out.push(Ev { at: at(r), k: EvK::Zero });
        }
    }
    if r.chance(m.panic, 8) {
        out.push(Ev { at: at(r), k: EvK::Panic(1000 + r.below(1000) as u32) });
    }
    if m.yields > 0 {
        for _ in 0..r.below(m.yields) {
            out.push(Ev { at: at(r), k: EvK::Yield });
        }
    }
    if depth < 2 && r.chance(m.nest, 8) {
        let s = step(r, m, depth + 1, prop, regs);
        out.push(Ev { at: at(r), k: EvK::Nest(Box::new(s)) });
    }
    // nested work first, then the callback's own answer
    out.sort_by_key(|e| (e.at, !matches!(e.k, EvK::Nest(_) | EvK::Yield)));
    out
}

fn act(r: &mut Rng, prop: &str, regs: &[u8]) -> Act {
    match prop {
        "C01" => fmt_act(r),
        "C03" => match r.below(4) {
            0 => ser_act(r, &TEXT_FORMS),
            1 => parse_act(r),
            _ => de_act(r, &TEXT_FORMS, false, false),
        },
        "C04" => match r.below(3) {
            0 => ser_act(r, &BYTE_FORMS),
            _ => de_act(r, &BYTE_FORMS, false, false),
        },
        "C05" => match r.below(3) {
            0 => ser_act(r, &ALL_FORMS),
            1 => de_act(r, &BYTE_FORMS, true, true),
            _ => de_act(r, &ALL_FORMS, true, true),
        },
        "C06" => match r.below(4) {
            0 => binary_act(r),
            _ => assign_act(r, regs),
        },
        "C07" => fold_act(r),
        "C10" => hash_act(r),
        // C02, C09: everything
        _ => match r.below(20) {
            0..=5 => fmt_act(r),
            6 | 19 => call_act(r),
            7..=8 => ser_act(r, &ALL_FORMS),
            9..=11 => {
                let faulty = r.chance(1, 4);
                de_act(r, &ALL_FORMS, faulty, false)
            }
            12..=13 => fold_act(r),
            14 => assign_act(r, regs),
            15 => binary_act(r),
            16..=17 => parse_act(r),
            18 => hash_act(r),
            _ => call_act(r),
        },
    }
}

fn step(r: &mut Rng, m: &Mix, depth: u32, prop: &str, regs: &[u8]) -> Step {
    // nested calls must not touch registers of an assignment in progress
    let mut a = act(r, prop, regs);
    while depth > 0 && matches!(a, Act::Assign { .. }) {
        a = act(r, prop, regs);
    }
    let b = build(r, m);
    let ev = events(r, m, &a, depth, prop, regs);
    Step {
        build: b,
        ev,
        pre: if r.chance(m.pre, 8) { preempt(r) } else { vec![] },
        shared: if r.chance(m.pre, 12) { preempt_shared(r) } else { vec![] },
        oom: m.oom,
        stale: if prop == "C02" || prop == "C01" { r.below(6) as u8 } else { 0 },
        act: a,
        age: 0,
    }
}

fn plan(r: &mut Rng, prop: &str) -> Plan {
    let m = mixture(r, prop);
    let (tasks, len): (u64, u64) = match prop {
        "C02" => (1 + r.below(4), 4),
        "C07" => (1 + if m.yields + m.pre > 0 { r.below(3) } else { 0 }, 4),
        "C06" => (1, 24),
        "C01" => (1, 5),
        _ => (1, 6),
    };
    let mut tasks: Vec<Vec<Step>> = (0..tasks)
        .map(|t| {
            let regs: Vec<u8> = (0..4).map(|k| t as u8 * 4 + k).collect();
            (0..1 + r.below(len)).map(|_| step(r, &m, 0, prop, &regs)).collect()
        })
        .collect();
    if prop == "C02" {
        for t in 0..tasks.len() {
            for i in 0..tasks[t].len() {
                let st = tasks[t][i].clone();
                if r.chance(if matches!(st.act, Act::Call { .. }) { 3 } else { 1 }, 4) {
                    // almost the same call again, later, elsewhere or inside
                    let a = kin_act(r, &st.act);
                    let regs: Vec<u8> = (0..4).map(|k| t as u8 * 4 + k).collect();
                    let assign = matches!(a, Act::Assign { .. });
                    let mut s = Step { ev: events(r, &m, &a, 1, prop, &regs), act: a, pre: if r.chance(m.pre, 8) { preempt(r) } else { vec![] }, ..st };
                    if r.chance(1, 8) {
                        s.build = build(r, &m);
                    }
                    let inside = tasks[t][i].ev.iter_mut().find_map(|e| match &mut e.k {
                        EvK::Nest(n) => Some(n),
                        _ => None,
                    });
                    match inside {
                        Some(n) if !assign && r.chance(1, 2) => **n = s,
                        _ => {
                            let u = if assign || r.chance(2, 3) { t } else { r.us(tasks.len()) };
                            let at = if u == t { i + 1 } else { r.us(tasks[u].len() + 1) };
                            tasks[u].insert(at, s);
                        }
                    }
                }
            }
        }
        let long = r.chance(1, 600);
        if long || r.chance(1, 40) {
            let t = r.us(tasks.len());
            let i = r.us(tasks[t].len());
            let st = &mut tasks[t][i];
            let light = !matches!(st.act, Act::Fold { .. } | Act::De { input: In::Seq(..), .. } | Act::Fmt { tr: Tr::DebugTree, .. });
            let n = if long && light { 65_500 } else { *r.pick(&[20u64, 60, 120, 250, 250, 1020, 4090]) };
            st.age = (n + r.below(30)) as u32;
        }
    }
    let n = tasks.len() as u64;
    let sched = if n == 1 { vec![] } else { (0..96).map(|_| r.below(n) as u32).collect() };
    let regs = if matches!(prop, "C06" | "C02" | "C09") { (0..4 * n).map(|_| val::gen(r)).collect() } else { vec![] };
    Plan { regs, tasks, sched, scribble: if prop == "C02" { r.next() } else { 0 } }
}

/// A call of the same kind: the same function on other operands.
fn like(r: &mut Rng, a: &Act) -> Act {
    match a {
        Act::Call { ty, op, .. } => {
            let cls = ops::OPS.iter().find(|x| x.0 == *op).unwrap().1;
            let (op, a, b, n) = ops::gen_args(r, *ty, *op, cls);
            Act::Call { ty: *ty, op, a, b, n }
        }
        Act::Fmt { ty, tr, .. } => Act::Fmt { ty: *ty, v: val::gen(r), tr: *tr, spec: spec(r), sink: if r.chance(1, 2) { Sink::Fmt } else { Sink::Io }, cap: None },
        Act::Ser { ty, form, hr, .. } => Act::Ser { ty: *ty, v: val::gen(r), form: *form, hr: *hr },
        Act::Parse { ty, how, .. } => {
            let mut k = 0;
            loop {
                k += 1;
                let (h, s, radix) = parse_args(r, *ty);
                if h == *how || k == 20 {
                    break Act::Parse { ty: *ty, how: h, s, radix };
                }
            }
        }
        a => kin_act(r, a),
    }
}

/// Tasks that make a few calls of one kind over and over, in each other's way.
/// The first calls of a process are of this sort, too: what the library sets up
/// on first use, it sets up while other tasks use it.
fn meet(r: &mut Rng, fresh: bool) -> Plan {
    static HEAVY: std::sync::OnceLock<[Vec<(Op, ops::Cls)>; 2]> = std::sync::OnceLock::new();
    let heavy = HEAVY.get_or_init(|| {
        let f = |t| {
            let long = |o: &Op| ["Div", "Rem", "Pow", "Mul"].iter().any(|s| format!("{:?}", o).contains(s));
            ops::ops_for(t).into_iter().filter(|(o, _)| long(o)).collect()
        };
        [f(Ty::U), f(Ty::I)]
    });
    let mut m = mixture(r, "C02");
    m.one = Some(*r.pick(&BUILDS));
    m.nest = m.nest.min(1);
    let n = 2 + r.below(3).saturating_sub(1);
    let regs = |t: u64| -> Vec<u8> { (0..4).map(|k| t as u8 * 4 + k).collect() };
    let lead = match r.below(5) {
        0 | 1 => {
            let ty = ty(r);
            let (op, a, b, n) = ops::gen_call(r, ty, &heavy[ty as usize]);
            Act::Call { ty, op, a, b, n }
        }
        _ => loop {
            let a = act(r, "C02", &regs(0));
            if !matches!(a, Act::Assign { .. }) {
                break a;
            }
        },
    };
    let mut pool = vec![lead.clone()];
    for _ in 0..1 + r.below(3) {
        let a = if r.chance(1, 2) { kin_act(r, &lead) } else { like(r, &lead) };
        pool.push(a);
    }
    let dense = r.chance(2, 3);
    let deep = r.below(13);
    let tasks = (0..n)
        .map(|t| {
            (0..1 + r.below(6))
                .map(|i| {
                    let a = if r.chance(1, 10) { act(r, "C02", &regs(t)) } else { r.pick(&pool).clone() };
                    let ev = events(r, &m, &a, 1, "C02", &regs(t));
                    let pre = if fresh && i == 0 && (t == 0 || r.chance(1, 3)) {
                        // somewhere in the set-up
                        let k = 1u64 << deep;
                        (0..1 + r.below(3)).map(|j| if j == 0 { k + r.below(k) } else { 1 + r.below(k) } as u32).collect()
                    } else if dense && r.chance(2, 3) {
                        let k = 1u64 << (2 + r.below(6));
                        (0..4 + r.below(20)).map(|_| 1 + r.below(k) as u32).collect()
                    } else if r.chance(1, 3) {
                        preempt(r)
                    } else {
                        vec![]
                    };
                    let shared = if pre.is_empty() || r.chance(1, 2) { preempt_shared(r) } else { vec![] };
                    let pre = if shared.is_empty() { pre } else { vec![] };
                    Step { build: build(r, &m), ev, pre, shared, oom: false, stale: r.below(6) as u8, act: a, age: 0 }
                })
                .collect()
        })
        .collect();
    Plan {
        regs: (0..4 * n).map(|_| val::gen(r)).collect(),
        tasks,
        sched: (0..160).map(|_| r.below(n) as u32).collect(),
        scribble: r.next(),
    }
}

// ---- journal -------------------------------------------------------------------

fn mutation(r: &mut Rng) -> Mut {
    let p = r.next() as u32;
    let c = if r.chance(1, 2) { *r.pick(b"0123456789abcdefxXob+-_ \"\\,:[]{}.eE\n") } else { r.next() as u8 };
    match r.below(18) {
        16 => Mut::Dup(p, *r.pick(&[1u16, 2, 16, 31, 32, 33, 64, 96])),
        17 => Mut::Fill(p, *r.pick(b"000f-+_ x\0"), *r.pick(&[1u16, 2, 4, 16, 32, 64, 192, 256])),
        0..=3 => Mut::Flip(p, r.below(8) as u8),
        4..=7 => Mut::Set(p, c),
        8 | 9 => Mut::Insert(p, c),
        10 | 11 => Mut::Delete(p),
        12 | 13 => match r.below(2) {
            0 => Mut::Cut(p),
            _ => Mut::Zero(p, 1 + r.below(16) as u8),
        },
        _ => Mut::Copy(p, r.next() as u32, 1 + r.below(40) as u8),
    }
}

fn journal(r: &mut Rng, text: bool) -> Journal {
    let codec = loop {
        let c = *r.pick(&crate::store::CODECS);
        if text || c != Codec::Plain {
            break c;
        }
    };
    let vals = |r: &mut Rng| -> Vals {
        if text {
            let same = r.chance(1, 4).then(|| val::gen(r));
            let f = (0..8).map(|_| same.unwrap_or_else(|| val::gen(r))).collect();
            let rich = r.chance(1, 3);
            Vals::T(TextVals {
                f,
                o: if rich { Some(val::gen(r)) } else { None },
                v: if rich { (0..r.us(4)).map(|_| val::gen(r)).collect() } else { vec![] },
                m: if rich { (0..r.us(4)).map(|_| (val::gen(r), val::gen(r))).collect() } else { vec![] },
            })
        } else {
            let same = r.chance(1, 4).then(|| val::gen(r));
            Vals::B(ByteVals { f: (0..12).map(|_| same.unwrap_or_else(|| val::gen(r))).collect() })
        }
    };
    let n = 3 + r.us(8);
    let faulty = r.chance(2, 3);
    let mut appends = 0;
    let ops: Vec<JOp> = (0..n)
        .map(|i| {
            let k = if i == 0 { 0 } else { r.below(12) };
            match k {
                0..=3 => {
                    appends += 1;
                    JOp::Append(vals(r))
                }
                4 => JOp::Sync,
                5 if faulty => JOp::SyncFails,
                6 if faulty => JOp::Crash { keep: r.below(900) as u32, zeros: r.below(40) as u8 },
                7..=9 => JOp::Corrupt { rec: r.below(8) as u32, muts: (0..1 + r.below(2)).map(|_| mutation(r)).collect() },
                _ => JOp::Read {
                    rec: r.below(8) as u32,
                    chunk: if r.chance(1, 3) { 0 } else { 1 + r.below(20) as u32 },
                    intr: r.below(4) as u32,
                    eio: r.chance(1, 4).then(|| r.below(600) as u32),
                },
            }
        })
        .collect();
    let calls = match codec {
        Codec::Json | Codec::JsonValue | Codec::JsonTagged => 120,
        Codec::Bincode => 30,
        _ => 60,
    } * appends.max(1);
    let disk = if faulty {
        let mut d = Vec::new();
        for _ in 0..r.below(6) {
            d.push((
                r.below(calls) as u32,
                match r.below(8) {
                    0 => DK::Eio,
                    1 => DK::Full,
                    2 => DK::Torn(r.below(30) as u16),
                    3 => DK::Intr,
                    _ => DK::Short(1 + r.below(12) as u16),
                },
            ));
        }
        d
    } else {
        vec![]
    };
    Journal { codec, text, writer: *r.pick(&BUILDS), reader: *r.pick(&BUILDS), ops, disk }
}

// ---- collections ---------------------------------------------------------------

fn coll(r: &mut Rng) -> Coll {
    let ty = ty(r);
    // few keys, related to each other
    let base = val::gen(r);
    let n = 3 + r.us(10);
    let mut pool: Vec<W> = vec![base];
    while pool.len() < n {
        let k = *r.pick(&pool);
        let x = if r.chance(3, 4) { val::kin(r, k) } else { val::gen(r) };
        pool.push(x);
    }
    let key = |r: &mut Rng| *r.pick(&pool);
    // mostly in order: std refuses bounds that are not
    let bounds = |r: &mut Rng| {
        let (a, b) = (*r.pick(&pool), *r.pick(&pool));
        if a.big(ty) > b.big(ty) && r.chance(7, 8) {
            (b, a)
        } else {
            (a, b)
        }
    };
    let keys = |r: &mut Rng| (0..r.us(14)).map(|_| if r.chance(5, 6) { *r.pick(&pool) } else { val::gen(r) }).collect::<Vec<W>>();
    let len = 4 + r.us(30);
    let cmp = [Op::PrimEq, Op::PrimCmp, Op::PrimRevCmp, Op::Eq, Op::Lt, Op::Le, Op::Cmp, Op::PartialCmp, Op::Min, Op::Max];
    let mut sent: Vec<CollOp> = (0..len)
        .map(|_| match r.below(30) {
            0..=4 => CollOp::Put(key(r), r.below(1000) as u32),
            5 | 6 => CollOp::Del(key(r)),
            7 | 8 => CollOp::Get(key(r)),
            9 => CollOp::Entry(key(r), r.below(1000) as u32),
            10 | 11 => {
                let (lo, hi) = bounds(r);
                CollOp::Range(lo, hi, r.chance(1, 2), r.chance(1, 2))
            }
            12 => {
                if r.chance(1, 2) {
                    CollOp::PopFirst
                } else {
                    CollOp::PopLast
                }
            }
            13 => CollOp::Iter,
            14 => CollOp::Sort(keys(r), r.chance(1, 2)),
            15 => CollOp::SortPanic(keys(r), r.below(24) as u32),
            16 => CollOp::Search(keys(r), key(r)),
            17 => CollOp::Heap(keys(r), r.below(6) as u32),
            18 => CollOp::MinMax(keys(r)),
            19 => {
                let (lo, hi) = bounds(r);
                CollOp::Clamp(key(r), lo, hi)
            }
            20 => CollOp::Sets(keys(r), keys(r)),
            21 => CollOp::Dedup(keys(r)),
            22 => CollOp::HashPanic(key(r), 1 + r.below(3) as u32, r.chance(1, 2)),
            23 if r.chance(1, 4) => CollOp::SplitOff(key(r)),
            24 => {
                let a = keys(r);
                let b = if r.chance(1, 2) { keys(r) } else { a.iter().map(|x| if r.chance(7, 8) { *x } else { key(r) }).collect() };
                CollOp::Nest(a, b)
            }
            25 => {
                if r.chance(1, 2) {
                    let (lo, hi) = bounds(r);
                    CollOp::Bulk(keys(r), lo, hi)
                } else {
                    CollOp::Select(keys(r), r.below(20) as u32)
                }
            }
            _ => {
                let op = *r.pick(&cmp);
                let a = key(r);
                let prim = matches!(op, Op::PrimEq | Op::PrimCmp | Op::PrimRevCmp);
                let b = if prim && r.chance(1, 2) {
                    // the number itself, as the primitive
                    W([a.0[0], 0])
                } else {
                    key(r)
                };
                let a = if prim && r.chance(1, 2) { W([a.0[0], *r.pick(&[0, !0, 1])]) } else { a };
                CollOp::Compare(op, a, b)
            }
        })
        .collect();
    // at-least-once delivery
    let (dup, late) = (r.below(4), r.below(4));
    let mut ops: Vec<(CollOp, u8)> = Vec::new();
    let mut held: Vec<(CollOp, usize)> = Vec::new();
    for (i, o) in sent.drain(..).enumerate() {
        held.retain(|(h, at)| {
            if *at <= i {
                ops.push((h.clone(), 2));
            }
            *at > i
        });
        if r.chance(late, 16) {
            held.push((o, i + 1 + r.us(6)));
            continue;
        }
        ops.push((o.clone(), 0));
        if r.chance(dup, 16) {
            ops.push((o, 1));
        }
    }
    ops.extend(held.into_iter().map(|(o, _)| (o, 2)));
    Coll {
        ty,
        build: *r.pick(&BUILDS),
        hasher: HasherPlan { kind: *r.pick(&[HashKind::Mixing, HashKind::Constant, HashKind::Weak, HashKind::Writes]), seed: r.next() },
        ops,
    }
}

// ---- replicas --------------------------------------------------------------------

fn cluster(r: &mut Rng) -> Cluster {
    let mut builds = BUILDS.to_vec();
    for i in (1..4).rev() {
        let j = r.us(i + 1);
        builds.swap(i, j);
    }
    match r.below(6) {
        0 => builds.truncate(3),
        1 => builds.push(*r.pick(&BUILDS)),
        _ => {}
    }
    let n = builds.len() as u64;
    let len = 6 + r.us(34);
    let swarm: Option<Vec<(Op, ops::Cls)>> = r.chance(1, 2).then(|| (0..6).map(|_| *r.pick(all_ops(Ty::U))).collect());
    let mut log: Vec<Cmd> = (0..len)
        .map(|_| {
            let dst = r.below(REGS as u64) as u8;
            let ty = crate::cluster::reg_ty(dst as usize);
            let src = |r: &mut Rng, w: W| if r.chance(1, 4) { Src::R(r.below(REGS as u64) as u8) } else { Src::K(w) };
            match r.below(12) {
                0 | 1 => {
                    let (how, s, radix) = parse_args(r, ty);
                    Cmd::Parse { dst, how, s, radix }
                }
                2 | 3 => {
                    let (op, rt, a, b) = operator(r, ty);
                    Cmd::Bin { dst, op, rt, var: r.below(4) as u8, rev: r.chance(1, 3), a: src(r, a), b: src(r, b) }
                }
                _ => {
                    let (op, a, b, n) = match &swarm {
                        Some(s) if ty == Ty::U => ops::gen_call(r, ty, s),
                        _ => ops::gen_call(r, ty, all_ops(ty)),
                    };
                    Cmd::Op { dst, op, a: src(r, a), b: src(r, b), n }
                }
            }
        })
        .collect();
    // almost the same command again
    for i in 0..log.len() {
        if r.chance(1, 8) {
            let mut c = log[i].clone();
            match &mut c {
                Cmd::Parse { s, .. } => *s = one_digit(r, s),
                Cmd::Bin { a, b, .. } | Cmd::Op { a, b, .. } => {
                    let (x, y) = (r.chance(2, 3), r.chance(1, 8));
                    if y {
                        std::mem::swap(a, b);
                    }
                    match if x { a } else { b } {
                        Src::K(w) => *w = val::kin(r, *w),
                        Src::R(k) => *k = r.below(REGS as u64) as u8,
                    }
                }
            }
            log.insert(i + 1, c);
        }
    }
    let calm = r.chance(1, 5);
    let rate = if calm { 0 } else { r.below(8) };
    let mut net = Vec::new();
    for m in 0..160u32 {
        if r.chance(rate, 24) {
            net.push((
                m,
                match r.below(3) {
                    0 => NetF::Drop,
                    1 => NetF::Dup(r.below(900) as u32),
                    _ => NetF::Delay(1 + r.below(700) as u32),
                },
            ));
        }
    }
    let mut outages = Vec::new();
    if !calm {
        for _ in 0..r.below(4) {
            outages.push((
                r.below(1200) as u32,
                r.below(n) as u8,
                1 + r.below(800) as u32,
                *r.pick(&[Outage::Crash, Outage::Crash, Outage::Cut, Outage::Stall]),
            ));
        }
    }
    let snaps = [None, Some(Codec::Json), Some(Codec::Ron), Some(Codec::JsonTagged)];
    Cluster {
        snap: builds.iter().map(|_| *r.pick(&snaps)).collect(),
        regs: (0..REGS).map(|_| val::gen(r)).collect(),
        log,
        wire: *r.pick(&ALL_FORMS),
        batch: 1 + r.below(8) as u32,
        every: 2 + r.below(10) as u32,
        net,
        outages,
        builds,
    }
}
