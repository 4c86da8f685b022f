//! How often each operation met operands of each kind: what a generator misses.
use crate::{
    ops::{self, Cls, Op},
    val::{Ty, W},
};
use num_bigint::BigInt;
use num_integer::Integer;
use std::cell::RefCell;
use std::collections::HashMap;

fn limb(w: W, i: u32) -> u64 {
    (w.0[(i / 2) as usize] >> (64 * (i % 2))) as u64
}
pub fn ones(w: W) -> Vec<(&'static str, bool)> {
    let [lo, hi] = w.0;
    let l: Vec<u64> = (0..4).map(|i| limb(w, i)).collect();
    let b = w.bits();
    let tz = if lo != 0 { lo.trailing_zeros() } else { 128 + hi.trailing_zeros() };
    let co = lo.count_ones() + hi.count_ones();
    vec![
        ("zero", w == W::ZERO),
        ("one", w == W::ONE),
        ("-1", w == W::ONES),
        ("min", w == W::IMIN),
        ("max", w == W::IMAX),
        ("lo0", lo == 0 && hi != 0),
        ("loF", lo == !0 && hi != !0),
        ("hi0", hi == 0 && lo > 1),
        ("hiF", hi == !0 && lo != !0),
        ("lo1", lo == 1 && hi != 0),
        ("hi1", hi == 1),
        ("lomin", lo == 1 << 127),
        ("himin", hi == 1 << 127 && lo != 0),
        ("himax", hi == !0 >> 1 && lo != !0),
        ("lomax", lo == !0 >> 1),
        ("hi1lo0", hi == 1 && lo == 0),
        ("hi0loF", hi == 0 && lo == !0),
        ("hi0lomin", hi == 0 && lo == 1 << 127),
        ("hi0lotop", hi == 0 && lo >> 127 == 1),
        ("hiFlomin", hi == !0 && lo == 1 << 127),
        ("hiFlo0", hi == !0 && lo == 0),
        ("hiFlotop0", hi == !0 && lo >> 127 == 0),
        ("pow2", co == 1),
        ("notpow2", co == 255),
        ("b64", b == 64),
        ("b65", b == 65),
        ("b127", b == 127),
        ("b128", b == 128),
        ("b129", b == 129),
        ("b191", b == 191),
        ("b192", b == 192),
        ("b193", b == 193),
        ("b255", b == 255),
        ("l0=0", l[0] == 0 && b > 64),
        ("l1=0", l[1] == 0 && b > 128),
        ("l2=0", l[2] == 0 && b > 192),
        ("l3=0", l[3] == 0 && b > 0),
        ("l0=F", l[0] == !0),
        ("l1=F", l[1] == !0),
        ("l2=F", l[2] == !0),
        ("l3=F", l[3] == !0),
        ("l1=0,l2=0", l[1] == 0 && l[2] == 0 && l[3] != 0),
        ("l1,2=F", l[1] == !0 && l[2] == !0),
        ("top80", hi >> 120 == 0x80),
        ("bot0", lo as u8 == 0 && w != W::ZERO),
        ("botF", lo as u8 == 0xff),
        ("b32=0", lo as u32 == 0 && w != W::ZERO),
        ("b32=F", lo as u32 == !0),
        ("lo=hi", lo == hi && lo != 0 && lo != !0),
        ("lo=!hi", lo == !hi && lo != 0 && lo != !0),
        ("hi<lo", hi < lo && hi != 0),
        ("small", hi == 0 && lo < 256),
        ("i64", hi == 0 && lo < 1 << 63 && lo > 1 << 32),
        ("neg64", hi == !0 && lo > !(1 << 63)),
        ("neg128", hi == !0 && lo >> 127 == 1),
        ("ubig", hi >> 127 == 1),
        ("big+", hi >> 127 == 0 && hi >> 120 != 0),
        ("tz64", tz == 64),
        ("tz128", tz == 128),
        ("tz192", tz == 192),
        ("mid", hi != 0 && hi < 1 << 64),
        ("f64exact", b <= 53),
        ("f64up", b > 53),
        ("ten", hi == 0 && lo == 10),
        ("odd", lo & 1 == 1),
        ("dec0", w.big(Ty::U).mod_floor(&BigInt::from(100000)) == BigInt::from(0) && w != W::ZERO),
    ]
}
pub fn rels(a: W, b: W) -> Vec<(&'static str, bool)> {
    let (x, y) = (a.big(Ty::U), b.big(Ty::U));
    let (sx, sy) = (a.big(Ty::I), b.big(Ty::I));
    let z = BigInt::from(0);
    let p = &x * &y;
    let sp = &sx * &sy;
    let (q, r) = if y == z { (z.clone(), z.clone()) } else { x.div_rem(&y) };
    let (sq, sr) = if y == z { (z.clone(), z.clone()) } else { sx.div_rem(&sy) };
    let (c0, carry) = a.0[0].overflowing_add(b.0[0]);
    let (h, hc) = a.0[1].overflowing_add(b.0[1]);
    let (_, bor) = a.0[0].overflowing_sub(b.0[0]);
    let s = &x + &y;
    let ss = &sx + &sy;
    let d = &sx - &sy;
    let two255 = BigInt::from(1) << 255u32;
    let two256 = BigInt::from(1) << 256u32;
    let qw = W::wrap(&q);
    let big = y > BigInt::from(1);
    let lz = |w: W| 256 - w.bits();
    vec![
        ("a=b", a == b),
        ("a.lo=b.lo", a.0[0] == b.0[0] && a != b),
        ("a.hi=b.hi", a.0[1] == b.0[1] && a != b && a.0[1] != 0),
        ("a=-b", a == b.wneg() && a != W::ZERO),
        ("a=!b", a.0[0] == !b.0[0] && a.0[1] == !b.0[1]),
        ("a=b+1", x == &y + 1),
        ("b=a+1", y == &x + 1),
        ("a.hi=b.lo", a.0[1] == b.0[0] && a.0[1] != 0),
        ("swap", a.0[1] == b.0[0] && a.0[0] == b.0[1] && a != b),
        ("carry,h=F", carry && h == !0 && !hc),
        ("carry,hc", carry && hc),
        ("carry,lo0", carry && c0 == 0),
        ("bor,hi=", bor && a.0[1] == b.0[1]),
        ("s=2^256", s == two256),
        ("s=2^256-1", s == &two256 - 1),
        ("ss=2^255", ss == two255),
        ("ss=2^255-1", ss == &two255 - 1),
        ("ss=-2^255", ss == -&two255),
        ("ss=-2^255-1", ss == -&two255 - 1),
        ("d=2^255", d == two255),
        ("d=-2^255", d == -&two255),
        ("d=-2^255-1", d == -&two255 - 1),
        ("d=2^255-1", d == &two255 - 1),
        ("p=2^256", p == two256),
        ("p<2^256close", p < two256 && &two256 - &p <= &x + &y),
        ("p>2^256close", p >= two256 && &p - &two256 <= &x + &y),
        ("sp=2^255", sp == two255),
        ("sp=-2^255", sp == -&two255),
        ("sp close+", sp.bits() == 255 && sp > z),
        ("sp over+", sp.bits() == 256 && sp > z),
        ("sp close-", sp.bits() == 255 && sp < z),
        ("sp over-", sp.bits() == 256 && sp < z && sp != -&two255),
        ("ovf hh only", a.0[1] != 0 && b.0[1] != 0),
        ("ovf cross add", {
            let m = (x.clone() >> 128u32) * BigInt::from(b.0[0]);
            let n2 = (y.clone() >> 128u32) * BigInt::from(a.0[0]);
            a.0[1] != 0 && b.0[1] == 0 && m < (BigInt::from(1) << 128u32) && n2 == z && p >= two256
        }),
        ("q=1", big && q == BigInt::from(1) && a != b),
        ("r=0", big && r == z && q > BigInt::from(1)),
        ("r=y-1", big && r == &y - 1 && q > z),
        ("r=1", big && r == BigInt::from(1) && q > z),
        ("q l0=0", q.bits() > 64 && limb(qw, 0) == 0),
        ("q l1=0", q.bits() > 128 && limb(qw, 1) == 0),
        ("q l0=F", limb(qw, 0) == !0 && q.bits() > 64),
        ("q l1=F", limb(qw, 1) == !0),
        ("q=2^k", q.bits() > 1 && q == BigInt::from(1) << (q.bits() - 1)),
        ("q lo0", q.bits() > 128 && qw.0[0] == 0),
        ("q lo=F", qw.0[0] == !0),
        ("q>128,y>64", q.bits() > 128 && y.bits() > 64),
        ("y>128,q>1", y.bits() > 128 && q > BigInt::from(1)),
        ("y128..192,q>64", y.bits() > 128 && q.bits() > 60),
        ("y64..128,q>128", y.bits() > 64 && q.bits() > 127),
        ("lz=", lz(a) == lz(b) && a.0[1] != 0),
        ("lz a=b-1", lz(a) + 1 == lz(b)),
        ("lz diff>=128", x.bits() >= y.bits() + 128 && big),
        ("lz diff=127", x.bits() == y.bits() + 127 && big),
        ("lz diff=64", x.bits() == y.bits() + 64 && big),
        ("a<b u,a>b s", x < y && sx > sy),
        ("+-", sx > z && sy < z),
        ("-+", sx < z && sy > z),
        ("--", sx < z && sy < z),
        ("-+ r0", sx < z && sy > BigInt::from(1) && sr == z && sq < BigInt::from(-1)),
        ("-- r0", sx < z && sy < BigInt::from(-1) && sr == z && sq > BigInt::from(1)),
        ("+- r0", sx > z && sy < BigInt::from(-1) && sr == z && sq < BigInt::from(-1)),
        ("-+ r!0 q!0", sx < z && sy > z && sr != z && sq != z),
        ("-- r!0 q!0", sx < z && sy < z && sr != z && sq != z),
        ("+- r!0 q!0", sx > z && sy < z && sr != z && sq != z),
        ("-+ r!0 q0", sx < z && sy > z && sr != z && sq == z),
        ("-- r!0 q0", sx < z && sy < z && sr != z && sq == z),
        ("+- r!0 q0", sx > z && sy < z && sr != z && sq == z),
        ("-+ big", sx < z && sy > z && sy.bits() == 255 && sr != z),
        ("b=min a neg", b == W::IMIN && sx < z && a != b),
        ("b=min a pos", b == W::IMIN && sx > z),
        ("a=min b pos", a == W::IMIN && sy > BigInt::from(1)),
        ("a=min b neg", a == W::IMIN && sy < BigInt::from(-1)),
    ]
}
pub fn shs(n: u32) -> Vec<(&'static str, bool)> {
    vec![
        ("0", n == 0),
        ("1", n == 1),
        ("2", n == 2),
        ("3", n == 3),
        ("63", n == 63),
        ("64", n == 64),
        ("65", n == 65),
        ("127", n == 127),
        ("128", n == 128),
        ("129", n == 129),
        ("191", n == 191),
        ("192", n == 192),
        ("254", n == 254),
        ("255", n == 255),
        ("256", n == 256),
        ("257", n == 257),
        ("384", n == 384),
        ("x256", n > 256 && n % 256 == 0),
        ("max", n == u32::MAX),
        ("2^31", n == 1 << 31),
        ("odd", n % 2 == 1 && n < 128),
        ("high", n > 128 && n < 256),
        ("low", n > 0 && n < 128),
        ("huge", n > 1 << 16),
    ]
}
thread_local! { pub static ON: std::cell::Cell<bool> = Default::default(); pub static T: RefCell<HashMap<(String, String, String), u32>> = Default::default(); pub static N: RefCell<HashMap<String, u32>> = Default::default(); }
pub fn note(op: Op, cls: Cls, ty: Ty, a: W, b: W, n: u32) {
    if !ON.with(|o| o.get()) {
        return;
    }
    let name = format!("{:?}.{:?}", op, ty);
    N.with(|x| *x.borrow_mut().entry(name.clone()).or_insert(0) += 1);
    T.with(|t| {
        let mut t = t.borrow_mut();
        let mut add = |x: String, hit: bool| *t.entry((name.clone(), x, String::new())).or_insert(0) += hit as u32;
        let pa = ones(a);
        for (k, h) in &pa {
            add(format!("a:{}", k), *h);
        }
        match cls {
            Cls::Bin | Cls::Mix => {
                let pb = ones(b);
                for (k, h) in &pb {
                    add(format!("b:{}", k), *h);
                }
                for (k, h) in rels(a, b) {
                    add(k.to_string(), h);
                }
                for (k, h) in &pa {
                    for (l, g) in &pb {
                        add(format!("{} x {}", k, l), *h && *g);
                    }
                }
            }
            Cls::Sh | Cls::Pow => {
                for (l, g) in shs(n) {
                    add(format!("n:{}", l), g);
                    for (k, h) in &pa {
                        add(format!("{} n {}", k, l), *h && g);
                    }
                }
            }
            _ => {}
        }
    });
}
pub fn main(a: &[String]) {
    let (prop, seed, from, to) = (&a[0], a[1].parse().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap());
    ON.with(|o| o.set(true));
    for run in from..to {
        if let crate::gen::Case::Cluster(c) = crate::gen::case(prop, seed, run) {
            crate::cluster::model_only(&c);
        }
    }
    T.with(|t| {
        for ((o, x, _), n) in t.borrow().iter() {
            println!("{}\t{}\t{}", o, x, n);
        }
    });
    let _ = ops::ops_for(Ty::U);
}
