//! Collections keyed by 256-bit integers, under at-least-once requests, chosen
//! hashers and panics in the middle of operations; checked against collections
//! keyed by mathematical integers.

use crate::exec::{call_wrong, classify, debug, outcome, Outcome, Ret};
use crate::node::ETHS;
use crate::ops::{self, Op};
use crate::plan::Build;
use crate::rng::{fnv, mix};
use crate::seam::{Injected, Viol};
use crate::val::{Ty, W};
use num_bigint::BigInt;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum CollOp {
    Put(W, u32),
    Del(W),
    Get(W),
    /// add to the value if present, insert it otherwise
    Entry(W, u32),
    /// the keys between the two, ends included or not
    Range(W, W, bool, bool),
    PopFirst,
    PopLast,
    /// drop the keys below
    SplitOff(W),
    Iter,
    Sort(Vec<W>, bool),
    /// the comparator panics at its n-th call, then the sort is run again
    SortPanic(Vec<W>, u32),
    Search(Vec<W>, W),
    Heap(Vec<W>, u32),
    MinMax(Vec<W>),
    Clamp(W, W, W),
    Sets(Vec<W>, Vec<W>),
    Dedup(Vec<W>),
    /// keys made of several numbers
    Nest(Vec<W>, Vec<W>),
    /// append the keys, then drop those between the two
    Bulk(Vec<W>, W, W),
    /// the number at the n-th place, and whether the list is in order
    Select(Vec<W>, u32),
    /// the hasher panics in the middle of a lookup or removal
    HashPanic(W, u32, bool),
    /// comparisons, also with the 128-bit primitives
    Compare(Op, W, W),
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct CollObs {
    pub n: Vec<u64>,
    pub w: Vec<W>,
    pub panic: Option<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum HashKind {
    Mixing,
    /// every key in one bucket
    Constant,
    /// depends on only a few bits
    Weak,
    /// sees how the key was written, not only what
    Writes,
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub struct HasherPlan {
    pub kind: HashKind,
    pub seed: u64,
}

#[derive(Clone)]
pub struct SimBuild {
    pub plan: HasherPlan,
    pub panic_in: Rc<Cell<u32>>,
}
pub struct SimHasher {
    plan: HasherPlan,
    h: u64,
    panic_in: Rc<Cell<u32>>,
}
impl BuildHasher for SimBuild {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher { plan: self.plan, h: self.plan.seed, panic_in: self.panic_in.clone() }
    }
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        if self.panic_in.get() > 0 {
            self.panic_in.set(self.panic_in.get() - 1);
            if self.panic_in.get() == 0 {
                resume_unwind(Box::new(Injected(99)));
            }
        }
        match self.plan.kind {
            HashKind::Writes => self.h = fnv(mix(self.h, b.len() as u64), b),
            _ => self.h = fnv(self.h, b),
        }
    }
    fn finish(&self) -> u64 {
        match self.plan.kind {
            HashKind::Constant => 0x1234_5678_9abc_def0,
            HashKind::Weak => self.h & 3,
            _ => mix(self.h, 1),
        }
    }
}

/// Applies the operations to real collections keyed by `T`.
pub fn drive<T: Ord + Hash + Copy>(
    ops: &[CollOp],
    hasher: SimBuild,
    to: fn(W) -> T,
    from: fn(&T) -> W,
    step: &mut dyn FnMut(usize, CollObs),
) {
    let mut bt: BTreeMap<T, u32> = BTreeMap::new();
    let mut hm: HashMap<T, u32, SimBuild> = HashMap::with_capacity_and_hasher(512, hasher.clone());
    let list = |xs: &[W]| xs.iter().map(|x| to(*x)).collect::<Vec<T>>();
    for (i, op) in ops.iter().enumerate() {
        let mut o = CollObs::default();
        let r = catch_unwind(AssertUnwindSafe(|| {
            let opt = |o: &mut CollObs, a: Option<u32>, b: Option<u32>| {
                o.n.push(a.map_or(0, |x| x as u64 + 1));
                o.n.push(b.map_or(0, |x| x as u64 + 1));
            };
            match op {
                CollOp::Put(k, v) => {
                    let (a, b) = (bt.insert(to(*k), *v), hm.insert(to(*k), *v));
                    opt(&mut o, a, b)
                }
                CollOp::Del(k) => {
                    let (a, b) = (bt.remove(&to(*k)), hm.remove(&to(*k)));
                    opt(&mut o, a, b)
                }
                CollOp::Get(k) => opt(&mut o, bt.get(&to(*k)).copied(), hm.get(&to(*k)).copied()),
                CollOp::Entry(k, v) => {
                    let a = *bt.entry(to(*k)).and_modify(|x| *x = x.wrapping_add(*v)).or_insert(*v);
                    let b = *hm.entry(to(*k)).and_modify(|x| *x = x.wrapping_add(*v)).or_insert(*v);
                    opt(&mut o, Some(a), Some(b))
                }
                CollOp::Range(lo, hi, a, b) => {
                    use std::ops::Bound::*;
                    let l = if *a { Included(to(*lo)) } else { Excluded(to(*lo)) };
                    let h = if *b { Included(to(*hi)) } else { Excluded(to(*hi)) };
                    for (k, v) in bt.range((l, h)) {
                        o.w.push(from(k));
                        o.n.push(*v as u64);
                    }
                }
                CollOp::PopFirst | CollOp::PopLast => {
                    let x = if *op == CollOp::PopFirst { bt.pop_first() } else { bt.pop_last() };
                    if let Some((k, v)) = x {
                        o.w.push(from(&k));
                        o.n.push(v as u64);
                        o.n.push(hm.remove(&k).map_or(0, |x| x as u64 + 1));
                    }
                }
                CollOp::SplitOff(k) => {
                    let k = to(*k);
                    bt = bt.split_off(&k);
                    hm.retain(|x, _| *x >= k);
                    o.n.push(bt.len() as u64);
                    o.n.push(hm.len() as u64);
                }
                CollOp::Iter => {
                    o.w.extend(bt.keys().map(from));
                    o.n.extend(bt.values().map(|x| *x as u64));
                    let mut h: Vec<(T, u32)> = hm.iter().map(|(k, v)| (*k, *v)).collect();
                    h.sort();
                    o.w.extend(h.iter().map(|x| from(&x.0)));
                    o.n.extend(h.iter().map(|x| x.1 as u64));
                }
                CollOp::Sort(xs, stable) => {
                    let mut v = list(xs);
                    if *stable {
                        v.sort()
                    } else {
                        v.sort_unstable()
                    }
                    o.w.extend(v.iter().map(from));
                }
                CollOp::SortPanic(xs, n) => {
                    let mut v = list(xs);
                    let mut left = *n;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        v.sort_by(|a, b| {
                            if left == 0 {
                                resume_unwind(Box::new(Injected(77)));
                            }
                            left -= 1;
                            a.cmp(b)
                        })
                    }));
                    if let Err(p) = r {
                        if !p.is::<Injected>() {
                            resume_unwind(p);
                        }
                    }
                    v.sort_by_key(|x| std::cmp::Reverse(*x));
                    o.w.extend(v.iter().map(from));
                }
                CollOp::Search(xs, k) => {
                    let mut v = list(xs);
                    v.sort();
                    v.dedup();
                    o.n.push(match v.binary_search(&to(*k)) {
                        Ok(i) => i as u64 * 2 + 1,
                        Err(i) => i as u64 * 2,
                    });
                    o.n.push(v.partition_point(|x| *x <= to(*k)) as u64);
                    o.n.push(v.contains(&to(*k)) as u64);
                }
                CollOp::Heap(xs, n) => {
                    let mut h: BinaryHeap<T> = list(xs).into();
                    for _ in 0..*n {
                        if let Some(x) = h.pop() {
                            o.w.push(from(&x));
                        }
                    }
                    h.extend(list(xs));
                    o.w.extend(h.into_sorted_vec().iter().map(from));
                }
                CollOp::MinMax(xs) => {
                    let v = list(xs);
                    o.w.extend(v.iter().min().map(from));
                    o.w.extend(v.iter().max().map(from));
                    o.w.extend(v.iter().copied().reduce(T::max).as_ref().map(from));
                    o.w.extend(v.iter().copied().reduce(T::min).as_ref().map(from));
                    o.w.extend(v.iter().copied().reduce(|a, b| if b > a { b } else { a }).as_ref().map(from));
                    o.n.push(v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a <= b).count() as u64);
                }
                CollOp::Clamp(a, lo, hi) => o.w.push(from(&to(*a).clamp(to(*lo), to(*hi)))),
                CollOp::Sets(xs, ys) => {
                    let a: BTreeSet<T> = list(xs).into_iter().collect();
                    let b: BTreeSet<T> = list(ys).into_iter().collect();
                    o.w.extend(a.intersection(&b).map(from));
                    o.w.extend(a.symmetric_difference(&b).map(from));
                    let mut ha: HashSet<T, SimBuild> = HashSet::with_hasher(hasher.clone());
                    ha.extend(list(xs));
                    let mut hb: HashSet<T, SimBuild> = HashSet::with_hasher(hasher.clone());
                    hb.extend(list(ys));
                    let mut both: Vec<T> = ha.intersection(&hb).copied().collect();
                    both.sort();
                    o.w.extend(both.iter().map(from));
                    o.n.push(ha.is_subset(&hb) as u64);
                    o.n.push(a.is_subset(&b) as u64);
                    o.n.push(ha.len() as u64);
                }
                CollOp::Dedup(xs) => {
                    let mut v = list(xs);
                    v.dedup();
                    o.w.extend(v.iter().map(from));
                }
                CollOp::Nest(xs, ys) => {
                    let (a, b) = (list(xs), list(ys));
                    o.n.push(a.cmp(&b) as i8 as u8 as u64);
                    o.n.push(a.partial_cmp(&b).map_or(9, |x| x as i8 as u8 as u64));
                    o.n.push((a == b) as u64 + 2 * (a < b) as u64);
                    let mut m: HashMap<Vec<T>, u32, SimBuild> = HashMap::with_hasher(hasher.clone());
                    m.insert(a.clone(), 1);
                    *m.entry(b.clone()).or_insert(0) += 2;
                    o.n.push(m.get(&a[..]).map_or(0, |x| *x as u64));
                    o.n.push(m.get(&b[..]).map_or(0, |x| *x as u64));
                    let mut p: HashMap<(T, Option<T>), u32, SimBuild> = HashMap::with_hasher(hasher.clone());
                    let mut q: BTreeMap<(T, Option<T>), u32> = BTreeMap::new();
                    for (i, x) in a.iter().enumerate() {
                        *p.entry((*x, b.get(i).copied())).or_insert(0) += 1;
                        *q.entry((*x, b.get(i).copied())).or_insert(0) += 1;
                    }
                    o.n.push(p.len() as u64);
                    for ((x, y), n) in q {
                        o.w.push(from(&x));
                        o.w.extend(y.as_ref().map(from));
                        o.n.extend([n as u64, p.get(&(x, y)).map_or(0, |n| *n as u64)]);
                    }
                }
                CollOp::Bulk(xs, lo, hi) => {
                    let mut t: BTreeMap<T, u32> = list(xs).into_iter().zip(0..).collect();
                    hm.extend(t.iter().map(|(k, v)| (*k, *v)));
                    bt.append(&mut t);
                    let (lo, hi) = (to(*lo), to(*hi));
                    bt.retain(|k, _| !(lo..=hi).contains(k));
                    hm.retain(|k, _| *k < lo || *k > hi);
                    opt(&mut o, Some(bt.len() as u32), Some(hm.len() as u32));
                    o.w.extend(bt.first_key_value().map(|x| from(x.0)));
                    o.w.extend(bt.last_key_value().map(|x| from(x.0)));
                }
                CollOp::Select(xs, n) => {
                    let mut v = list(xs);
                    o.n.push(v.is_sorted() as u64);
                    if !v.is_empty() {
                        let n = *n as usize % v.len();
                        o.w.push(from(v.select_nth_unstable(n).1));
                    }
                    v.sort_by_cached_key(|x| std::cmp::Reverse(*x));
                    o.w.extend(v.iter().map(from));
                    o.n.push(v.iter().rev().is_sorted() as u64);
                }
                CollOp::HashPanic(k, n, del) => {
                    hasher.panic_in.set(*n);
                    let r = catch_unwind(AssertUnwindSafe(|| if *del { hm.remove(&to(*k)) } else { hm.get(&to(*k)).copied() }));
                    hasher.panic_in.set(0);
                    match r {
                        Ok(x) => {
                            // the key was hashed in fewer writes
                            o.n.push(x.map_or(0, |x| x as u64 + 1));
                            if *del {
                                bt.remove(&to(*k));
                            }
                            o.n.push(0);
                        }
                        Err(p) if p.is::<Injected>() => {
                            o.n.push(hm.get(&to(*k)).map_or(0, |x| *x as u64 + 1));
                            o.n.push(1);
                        }
                        Err(p) => resume_unwind(p),
                    }
                    o.n.push(hm.len() as u64);
                }
                CollOp::Compare(..) => {}
            }
        }));
        hasher.panic_in.set(0);
        match classify(r) {
            Ret::Done(()) => {}
            r => o.panic = Some(outcome(&r)),
        }
        step(i, o);
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Coll {
    pub ty: Ty,
    pub build: Build,
    pub hasher: HasherPlan,
    /// the requests as delivered; the number says how: 0 first, 1 again, 2 late
    pub ops: Vec<(CollOp, u8)>,
}

/// The model: the same operations on mathematical integers.
struct Ref {
    ty: Ty,
    m: BTreeMap<BigInt, u32>,
}

impl Ref {
    fn b(&self, w: &W) -> BigInt {
        w.big(self.ty)
    }
    fn list(&self, xs: &[W]) -> Vec<BigInt> {
        xs.iter().map(|x| self.b(x)).collect()
    }
    /// `panicked`: whether the hasher panicked, which depends on how many
    /// writes the key takes.
    fn apply(&mut self, op: &CollOp, panicked: bool) -> CollObs {
        let mut o = CollObs::default();
        let w = |x: &BigInt| W::wrap(x);
        let two = |o: &mut CollObs, x: Option<u32>| {
            let x = x.map_or(0, |x| x as u64 + 1);
            o.n.extend([x, x]);
        };
        match op {
            CollOp::Put(k, v) => {
                let x = self.m.insert(self.b(k), *v);
                two(&mut o, x)
            }
            CollOp::Del(k) => {
                let x = self.m.remove(&self.b(k));
                two(&mut o, x)
            }
            CollOp::Get(k) => two(&mut o, self.m.get(&self.b(k)).copied()),
            CollOp::Entry(k, v) => {
                let k = self.b(k);
                let x = *self.m.entry(k).and_modify(|x| *x = x.wrapping_add(*v)).or_insert(*v);
                two(&mut o, Some(x))
            }
            CollOp::Range(lo, hi, a, b) => {
                let (lo, hi) = (self.b(lo), self.b(hi));
                for (k, v) in &self.m {
                    if (*k > lo || (*a && *k == lo)) && (*k < hi || (*b && *k == hi)) {
                        o.w.push(w(k));
                        o.n.push(*v as u64);
                    }
                }
            }
            CollOp::PopFirst | CollOp::PopLast => {
                let x = if *op == CollOp::PopFirst { self.m.pop_first() } else { self.m.pop_last() };
                if let Some((k, v)) = x {
                    o.w.push(w(&k));
                    o.n.extend([v as u64, v as u64 + 1]);
                }
            }
            CollOp::SplitOff(k) => {
                let k = self.b(k);
                self.m = self.m.split_off(&k);
                o.n.extend([self.m.len() as u64; 2]);
            }
            CollOp::Iter => {
                for _ in 0..2 {
                    o.w.extend(self.m.keys().map(w));
                    o.n.extend(self.m.values().map(|x| *x as u64));
                }
            }
            CollOp::Sort(xs, _) => {
                let mut v = self.list(xs);
                v.sort();
                o.w.extend(v.iter().map(w));
            }
            CollOp::SortPanic(xs, _) => {
                let mut v = self.list(xs);
                v.sort();
                v.reverse();
                o.w.extend(v.iter().map(w));
            }
            CollOp::Search(xs, k) => {
                let mut v = self.list(xs);
                v.sort();
                v.dedup();
                let k = self.b(k);
                let i = v.iter().filter(|x| **x < k).count() as u64;
                let has = v.contains(&k);
                o.n.extend([i * 2 + has as u64, i + has as u64, has as u64]);
            }
            CollOp::Heap(xs, n) => {
                let mut v = self.list(xs);
                v.sort();
                for _ in 0..*n {
                    if let Some(x) = v.pop() {
                        o.w.push(w(&x));
                    }
                }
                v.extend(self.list(xs));
                v.sort();
                o.w.extend(v.iter().map(w));
            }
            CollOp::MinMax(xs) => {
                let v = self.list(xs);
                if let (Some(lo), Some(hi)) = (v.iter().min(), v.iter().max()) {
                    o.w.extend([w(lo), w(hi), w(hi), w(lo), w(hi)]);
                }
                o.n.push(v.iter().zip(v.iter().skip(1)).filter(|(a, b)| a <= b).count() as u64);
            }
            CollOp::Clamp(a, lo, hi) => o.w.push(w(&self.b(a).clamp(self.b(lo), self.b(hi)))),
            CollOp::Sets(xs, ys) => {
                let a: BTreeSet<BigInt> = self.list(xs).into_iter().collect();
                let b: BTreeSet<BigInt> = self.list(ys).into_iter().collect();
                o.w.extend(a.intersection(&b).map(w));
                o.w.extend(a.symmetric_difference(&b).map(w));
                o.w.extend(a.intersection(&b).map(w));
                let s = a.is_subset(&b) as u64;
                o.n.extend([s, s, a.len() as u64]);
            }
            CollOp::Dedup(xs) => {
                let mut v = self.list(xs);
                v.dedup();
                o.w.extend(v.iter().map(w));
            }
            CollOp::Nest(xs, ys) => {
                let (a, b) = (self.list(xs), self.list(ys));
                let c = a.cmp(&b) as i8 as u8 as u64;
                o.n.extend([c, c, (a == b) as u64 + 2 * (a < b) as u64]);
                o.n.extend(if a == b { [3, 3] } else { [1, 2] });
                let mut q: BTreeMap<(BigInt, Option<BigInt>), u64> = BTreeMap::new();
                for (i, x) in a.iter().enumerate() {
                    *q.entry((x.clone(), b.get(i).cloned())).or_insert(0) += 1;
                }
                o.n.push(q.len() as u64);
                for ((x, y), n) in q {
                    o.w.push(w(&x));
                    o.w.extend(y.as_ref().map(w));
                    o.n.extend([n, n]);
                }
            }
            CollOp::Bulk(xs, lo, hi) => {
                self.m.extend(self.list(xs).into_iter().zip(0..));
                let (lo, hi) = (self.b(lo), self.b(hi));
                self.m.retain(|k, _| *k < lo || *k > hi);
                two(&mut o, Some(self.m.len() as u32));
                o.w.extend(self.m.keys().next().map(w));
                o.w.extend(self.m.keys().next_back().map(w));
            }
            CollOp::Select(xs, n) => {
                let mut v = self.list(xs);
                let mut sorted = v.clone();
                sorted.sort();
                o.n.push((v == sorted) as u64);
                if !v.is_empty() {
                    o.w.push(w(&sorted[*n as usize % v.len()]));
                }
                v = sorted;
                v.reverse();
                o.w.extend(v.iter().map(w));
                o.n.push(1);
            }
            CollOp::HashPanic(k, _, del) => {
                let k = self.b(k);
                o.n.push(self.m.get(&k).map_or(0, |x| *x as u64 + 1));
                o.n.push(panicked as u64);
                if !panicked && *del {
                    self.m.remove(&k);
                }
                o.n.push(self.m.len() as u64);
            }
            CollOp::Compare(..) => {}
        }
        o
    }
}

/// Bounds the wrong way round, which std refuses with a panic.
fn crossed(ty: Ty, op: &CollOp) -> bool {
    match op {
        CollOp::Range(lo, hi, a, b) => lo.big(ty) > hi.big(ty) || (lo == hi && !a && !b),
        CollOp::Clamp(_, lo, hi) => lo.big(ty) > hi.big(ty),
        _ => false,
    }
}

pub fn run(c: &Coll, verbose: bool) -> Outcome {
    let eth = ETHS[c.build as usize];
    let ops: Vec<CollOp> = c.ops.iter().map(|(o, _)| o.clone()).collect();
    let mut model = Ref { ty: c.ty, m: BTreeMap::new() };
    let mut viol: Option<Viol> = None;
    let mut log = Vec::new();
    let mut digest = 0x4321u64;
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    for (o, how) in &c.ops {
        match how {
            1 => *stats.entry("duplicated_request").or_insert(0) += 1,
            2 => *stats.entry("reordered_request").or_insert(0) += 1,
            _ => {}
        }
        if matches!(o, CollOp::SortPanic(..)) {
            *stats.entry("comparator_panic").or_insert(0) += 1;
        }
    }
    let hasher = SimBuild { plan: c.hasher, panic_in: Rc::new(Cell::new(0)) };
    let mut sim_us = 0;
    eth.coll(c.ty, &ops, hasher, &mut |i, got| {
        sim_us += 1000;
        if viol.is_some() {
            return;
        }
        let op = &ops[i];
        if let CollOp::Compare(op, a, b) = op {
            let r = classify(catch_unwind(AssertUnwindSafe(|| eth.call(c.ty, *op, *a, *b, 0))));
            let want = ops::model(*op, c.ty, *a, *b, 0, debug(c.build));
            if let Some(m) = call_wrong(&r, &want) {
                viol = Some(Viol { class: "coll/compare".into(), msg: format!("{:?}({:?}, {:?}): {}", op, a, b, m) });
            }
            if let Ret::Done(o) = r {
                digest = mix(digest, o.flags);
            }
            return;
        }
        let panicked = matches!(op, CollOp::HashPanic(..)) && got.n.get(1) == Some(&1);
        if panicked {
            *stats.entry("hasher_panic").or_insert(0) += 1;
        }
        if crossed(c.ty, op) {
            *stats.entry("crossed_bounds").or_insert(0) += 1;
            digest = mix(digest, got.panic.is_some() as u64);
            // std looks for crossed bounds only when there is something in the map
            let may = matches!(op, CollOp::Range(..)) && model.m.is_empty() && got.w.is_empty();
            if got.panic.is_none() && !may {
                viol = Some(Viol { class: "coll/crossed".into(), msg: format!("{:?} gave {:?}, expected a panic", op, got) });
            }
            return;
        }
        let want = model.apply(op, panicked);
        digest = fnv(digest, format!("{:?}", got).as_bytes());
        if verbose {
            log.push(format!("{} -> {:?}", serde_json::to_string(op).unwrap_or_default(), got));
        }
        if got != want {
            let name = format!("{:?}", op);
            let name = name.split('(').next().unwrap_or("");
            viol = Some(Viol { class: format!("coll/{}", name), msg: format!("{:?} gave {:?}, expected {:?}", op, got, want) });
        }
    });
    Outcome { viol, digest, trace: digest, steps: ops.len() as u64, stats, log, sim_us, alone: None }
}
