//! 256-bit patterns as the simulator holds them (never as ethnum types), and
//! where the interesting ones come from.

use crate::rng::Rng;
use num_bigint::{BigInt, BigUint, Sign};
use serde::{de, Deserialize, Deserializer, Serialize, Serializer};

/// `[low, high]` words of a 256-bit pattern.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct W(pub [u128; 2]);

impl std::fmt::Debug for W {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0[1] == 0 {
            write!(f, "0x{:x}", self.0[0])
        } else {
            write!(f, "0x{:x}{:032x}", self.0[1], self.0[0])
        }
    }
}

impl Serialize for W {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self))
    }
}

impl<'de> Deserialize<'de> for W {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<W, D::Error> {
        let s = String::deserialize(d)?;
        W::parse(&s).ok_or_else(|| de::Error::custom("bad word"))
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Ty {
    U,
    I,
}

impl W {
    pub const ZERO: W = W([0, 0]);
    pub const ONE: W = W([1, 0]);
    pub const ONES: W = W([!0, !0]);
    pub const IMIN: W = W([0, 1 << 127]);
    pub const IMAX: W = W([!0, !0 >> 1]);

    pub fn parse(s: &str) -> Option<W> {
        let h = s.strip_prefix("0x")?;
        if h.is_empty() || h.len() > 64 || !h.bytes().all(|b| b.is_ascii_hexdigit()) {
            return None;
        }
        let z = format!("{:0>64}", h);
        Some(W([
            u128::from_str_radix(&z[32..], 16).ok()?,
            u128::from_str_radix(&z[..32], 16).ok()?,
        ]))
    }
    pub fn bytes(self) -> [u8; 32] {
        let mut b = [0; 32];
        b[..16].copy_from_slice(&self.0[0].to_le_bytes());
        b[16..].copy_from_slice(&self.0[1].to_le_bytes());
        b
    }
    pub fn from_le(b: [u8; 32]) -> W {
        W([
            u128::from_le_bytes(b[..16].try_into().unwrap()),
            u128::from_le_bytes(b[16..].try_into().unwrap()),
        ])
    }
    pub fn neg_bit(self) -> bool {
        self.0[1] >> 127 == 1
    }
    pub fn ubig(self) -> BigUint {
        (BigUint::from(self.0[1]) << 128u32) + BigUint::from(self.0[0])
    }
    pub fn big(self, ty: Ty) -> BigInt {
        let u = BigInt::from_biguint(Sign::Plus, self.ubig());
        if ty == Ty::I && self.neg_bit() {
            u - (BigInt::from(1) << 256u32)
        } else {
            u
        }
    }
    /// The pattern of `b` modulo 2^256.
    pub fn wrap(b: &BigInt) -> W {
        let (sign, digits) = b.to_u64_digits();
        let mut d = [0u64; 4];
        for (i, x) in digits.iter().take(4).enumerate() {
            d[i] = *x;
        }
        let w = W([
            d[0] as u128 | (d[1] as u128) << 64,
            d[2] as u128 | (d[3] as u128) << 64,
        ]);
        if sign == Sign::Minus {
            w.wneg()
        } else {
            w
        }
    }
    pub fn wneg(self) -> W {
        let (lo, c) = (!self.0[0]).overflowing_add(1);
        W([lo, (!self.0[1]).wrapping_add(c as u128)])
    }
    pub fn bits(self) -> u32 {
        if self.0[1] != 0 {
            256 - self.0[1].leading_zeros()
        } else {
            128 - self.0[0].leading_zeros()
        }
    }
}

pub fn tmin(ty: Ty) -> BigInt {
    match ty {
        Ty::U => BigInt::from(0),
        Ty::I => -(BigInt::from(1) << 255u32),
    }
}
pub fn tmax(ty: Ty) -> BigInt {
    match ty {
        Ty::U => (BigInt::from(1) << 256u32) - 1,
        Ty::I => (BigInt::from(1) << 255u32) - 1,
    }
}
pub fn fits(ty: Ty, b: &BigInt) -> bool {
    *b >= tmin(ty) && *b <= tmax(ty)
}

const LIMBS: [u64; 14] = [
    0,
    0,
    0,
    1,
    2,
    0x7fff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0x8000_0000_0000_0001,
    0xffff_ffff_ffff_ffff,
    0xffff_ffff_ffff_ffff,
    0xffff_ffff_ffff_fffe,
    0xffff_ffff,
    0x1_0000_0000,
    0xffff_ffff_0000_0000,
];

fn limb(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => r.next(),
        1 => r.next() >> r.below(64),
        _ => *r.pick(&LIMBS),
    }
}

pub fn limbs(r: &mut Rng) -> W {
    let d = [limb(r), limb(r), limb(r), limb(r)];
    W([
        d[0] as u128 | (d[1] as u128) << 64,
        d[2] as u128 | (d[3] as u128) << 64,
    ])
}

fn ushr(w: W, n: u32) -> W {
    match n {
        0 => w,
        1..=127 => W([w.0[0] >> n | w.0[1] << (128 - n), w.0[1] >> n]),
        128 => W([w.0[1], 0]),
        129..=255 => W([w.0[1] >> (n - 128), 0]),
        _ => W::ZERO,
    }
}

fn add(a: W, b: W) -> W {
    let (lo, c) = a.0[0].overflowing_add(b.0[0]);
    W([lo, a.0[1].wrapping_add(b.0[1]).wrapping_add(c as u128)])
}

/// Where the words, the signs and the types end.
const MARKS: [W; 18] = [
    W::ZERO,
    W::ONE,
    W::ONES,
    W::IMIN,
    W::IMIN,
    W::IMAX,
    W([!0, 0]),
    W([0, 1]),
    W([0, !0]),
    W([1 << 127, 0]),
    W([1 << 127, !0]),
    W([!0 >> 1, 0]),
    W([!0 >> 1, !0]),
    W([1 << 63, 0]),
    W([1 << 64, 0]),
    W([u64::MAX as u128, 0]),
    W([0, 1 << 64]),
    W([10, 0]),
];

fn small(r: &mut Rng) -> W {
    let v = W([r.below(12) as u128, 0]);
    if r.chance(1, 2) {
        v.wneg()
    } else {
        v
    }
}

/// One value, drawn from a mixture chosen to sit on the edges that word-wise and
/// digit-wise code has.
pub fn gen(r: &mut Rng) -> W {
    match r.below(16) {
        0..=4 => limbs(r),
        5 => small(r),
        6 => {
            // around a power of two
            let n = r.below(256) as u32;
            let p = if n < 128 {
                W([1 << n, 0])
            } else {
                W([0, 1 << (n - 128)])
            };
            let p = if r.chance(1, 4) { p.wneg() } else { p };
            add(p, small(r))
        }
        7 => {
            // around a power of ten, or a small multiple of one
            let n = r.below(78) as u32;
            let p = BigInt::from(10).pow(n) * BigInt::from(1 + r.below(9));
            let p = if r.chance(1, 3) { -p } else { p };
            add(W::wrap(&p), small(r))
        }
        8 => {
            // decimal digits with runs of zeros and nines
            let n = 1 + r.below(77);
            let mut s = String::new();
            let mut cur = *r.pick(b"0159");
            for _ in 0..n {
                if r.chance(1, 3) {
                    cur = *r.pick(b"0000123456789999");
                }
                s.push(cur as char);
            }
            let b: BigInt = s.parse().unwrap();
            let b = if r.chance(1, 3) { -b } else { b };
            W::wrap(&b)
        }
        9 | 10 => {
            let n = r.below(256) as u32;
            let w = ushr(W([r.u128(), r.u128()]), n);
            if r.chance(1, 3) {
                w.wneg()
            } else {
                w
            }
        }
        11 => {
            let few: &[W] = &[W::ZERO, W::ONE, W::ONES, W::IMIN, W::IMAX];
            let from = if r.chance(1, 2) { &MARKS } else { few };
            *r.pick(from)
        },
        12 => add(
            *r.pick(&[W::ZERO, W::ONES, W::IMIN, W::IMAX, W([0, 1]), W([!0, 0]), W([1 << 127, 0])]),
            small(r),
        ),
        13 => {
            // a run of ones somewhere
            let a = r.below(256) as u32;
            let w = ushr(W::ONES, a);
            let s = BigInt::from_biguint(Sign::Plus, w.ubig()) << r.below(256) as u32;
            W::wrap(&s)
        }
        14 => {
            // around a multiple of 10^4 blocks, and hex digit patterns
            let d = *r.pick(&[0u8, 0x0f, 0xf0, 0x80, 0x7f, 0xff, 0x10, 0x01]);
            let mut b = [0u8; 32];
            let n = r.us(33);
            for x in b.iter_mut().take(n) {
                *x = if r.chance(1, 5) { r.next() as u8 } else { d };
            }
            W::from_le(b)
        }
        _ => {
            let (x, y) = (r.u128(), r.u128());
            match r.below(4) {
                0 => {
                    let w = x >> r.below(128);
                    W([w, if y & 1 == 1 { w } else { !w }])
                }
                _ => W([x, y]),
            }
        }
    }
}

/// A value that is easily taken for `k`: alike in part.
pub fn kin(r: &mut Rng, k: W) -> W {
    match r.below(12) {
        0 => W([k.0[0], r.u128() >> r.below(128)]),
        1 => W([r.u128() >> r.below(128), k.0[1]]),
        2 => W([k.0[1], k.0[0]]),
        3 => k.wneg(),
        4 => W([k.0[0] ^ 1 << r.below(128), k.0[1]]),
        5 => W([k.0[0], k.0[1] ^ 1 << r.below(128)]),
        6 => W([k.0[0] & u64::MAX as u128 | r.u128() >> r.below(64) << 64, if r.chance(1, 2) { k.0[1] } else { r.u128() }]),
        7 => W([k.0[0] & u32::MAX as u128 | r.u128() << 32, if r.chance(1, 2) { k.0[1] } else { 0 }]),
        8 => add(k, if r.chance(1, 2) { W::ONE } else { W::ONES }),
        9 => W([k.0[0] & u64::MAX as u128 | 1 << (64 + r.below(64)), k.0[1]]),
        10 => ushr(k, *r.pick(&[1u32, 8, 64, 128])),
        _ => {
            // the same words in another order
            let (a, b, c, d) = (k.0[0] as u64, (k.0[0] >> 64) as u64, k.0[1] as u64, (k.0[1] >> 64) as u64);
            let w = |h: u64, l: u64| (h as u128) << 64 | l as u128;
            if r.chance(1, 2) {
                W([w(a, b), w(d, c)])
            } else {
                W([w(c, a), w(d, b)])
            }
        }
    }
}

/// A pair of operands with structure between them: factors around overflow,
/// exact and nearly exact quotients, equal or adjacent values.
pub fn gen_pair(r: &mut Rng) -> (W, W) {
    let one = BigInt::from(1);
    match r.below(16) {
        14 => {
            // the sum or the difference ends on a mark
            let a = if r.chance(1, 3) { *r.pick(&MARKS) } else { gen(r) };
            let few: &[W] = &[W::ZERO, W::ONES, W::IMIN, W::IMAX];
            let from = if r.chance(1, 4) { &MARKS } else { few };
            let m = *r.pick(from);
            let mut b = add(m, a.wneg());
            if r.chance(1, 3) {
                b = add(b, *r.pick(&[W::ONE, W::ONES]));
            }
            (a, if r.chance(1, 2) { b.wneg() } else { b })
        }
        15 => match r.below(4) {
            0 => {
                let a = gen(r);
                (a, kin(r, a))
            }
            1 => {
                // powers of two whose product is on an edge
                let k = r.below(257) as u32;
                let l = *r.pick(&[128u32, 254, 255, 255, 256, 256, 257]);
                let p = |n: u32| W::wrap(&(BigInt::from(1) << n.min(255)));
                let (a, b) = (p(k), p(l.saturating_sub(k)));
                (if r.chance(1, 3) { a.wneg() } else { a }, if r.chance(1, 3) { b.wneg() } else { b })
            }
            2 => (gen(r), *r.pick(&MARKS)),
            _ => (*r.pick(&MARKS), gen(r)),
        },
        12 => {
            let (mut a, mut b) = (*r.pick(&MARKS), *r.pick(&MARKS));
            if r.chance(1, 5) {
                a = add(a, small(r));
            }
            if r.chance(1, 5) {
                b = add(b, small(r));
            }
            (a, b)
        }
        13 => {
            // signed multiples, exact or one off
            let b = ushr(gen(r), *r.pick(&[0u32, 1, 64, 128, 129, 192]));
            let q = ushr(gen(r), *r.pick(&[1u32, 64, 128, 192, 250]));
            let a = W::wrap(&(q.big(Ty::U) * b.big(Ty::U)));
            let a = if r.chance(1, 3) { add(a, *r.pick(&[W::ONE, W::ONES])) } else { a };
            (if r.chance(1, 2) { a.wneg() } else { a }, if r.chance(1, 2) { b.wneg() } else { b })
        }
        0 | 1 => {
            // a = q*b + rem, with rem at the edges of its range
            let b = gen(r);
            let b = ushr(b, *r.pick(&[0u32, 0, 1, 63, 64, 65, 127, 128, 129, 192]));
            let q = gen(r);
            let q = ushr(q, *r.pick(&[0u32, 64, 128, 192, 190, 120, 60]));
            let bb = b.big(Ty::U);
            let rem = match r.below(4) {
                0 => BigInt::from(0),
                1 => one.clone(),
                2 => &bb - &one,
                _ => &bb >> 1u32,
            };
            (W::wrap(&(q.big(Ty::U) * &bb + rem)), b)
        }
        2 => {
            // b near floor(2^k / a): the product is on the edge of overflow
            let a = gen(r);
            let a = ushr(a, r.below(250) as u32);
            let k = *r.pick(&[256u32, 255, 128]);
            let ab = a.big(Ty::U);
            let b = if ab.sign() == Sign::NoSign {
                BigInt::from(7)
            } else {
                (one << k) / ab
            };
            let b = add(W::wrap(&b), small(r));
            let (a, b) = if r.chance(1, 2) { (a, b) } else { (b, a) };
            match r.below(4) {
                0 => (a.wneg(), b),
                1 => (a, b.wneg()),
                2 => (a.wneg(), b.wneg()),
                _ => (a, b),
            }
        }
        3 => {
            let a = gen(r);
            (a, add(a, small(r)))
        }
        4 => {
            let a = gen(r);
            (a, add(a.wneg(), small(r)))
        }
        5 => {
            let a = gen(r);
            (a, W([a.0[0], r.u128() >> r.below(128)]))
        }
        6 => {
            let a = gen(r);
            (a, W([r.u128() >> r.below(128), a.0[1]]))
        }
        7 => {
            // same top limbs: quotient digit estimates are off by one or two
            let mut a = limbs(r);
            let mut b = limbs(r);
            match r.below(4) {
                0 => b.0[1] = a.0[1],
                1 => {
                    // divisor digits follow the dividend's, one place lower
                    b = ushr(add(a, small(r)), 64);
                    if r.chance(1, 2) {
                        b.0[0] = limbs(r).0[0];
                    }
                }
                2 => {
                    b = ushr(add(a, small(r)), 128);
                    if r.chance(1, 2) {
                        b.0[0] = b.0[0] >> 64 << 64 | limb(r) as u128;
                    }
                }
                _ => {
                    b.0[1] &= u64::MAX as u128;
                    a.0[1] = a.0[1] & (u64::MAX as u128) | b.0[1] << 64;
                }
            }
            (a, b)
        }
        8 => (gen(r), ushr(limbs(r), *r.pick(&[64u32, 128, 192]))),
        _ => (gen(r), gen(r)),
    }
}

pub fn gen_shift(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => *r.pick(&[0u32, 1, 2, 3, 7, 8, 32, 63, 64, 65, 127, 128, 129, 191, 192, 254, 255]),
        1 => *r.pick(&[256u32, 257, 300, 383, 384, 511, 512, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 127]),
        2 => r.next() as u32,
        _ => r.below(256) as u32,
    }
}
