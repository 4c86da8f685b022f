//! Replicas of a state machine whose registers are 256-bit integers, each on
//! its own build of the library, fed the same log over a faulty network, and
//! recovering from snapshots they encoded themselves.

use crate::exec::{call_wrong, classify, debug, op_model, outcome, parse_wrong, Outcome, Ret};
use crate::node::ETHS;
use crate::ops::{self, Op};
use crate::plan::*;
use crate::rng::{fnv, mix};
use crate::seam::Viol;
use crate::store::{ByteVals, Codec, Read, TextVals};
use crate::val::{Ty, W};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BinaryHeap};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const REGS: usize = 8;

/// An operand: a constant of the log entry, or a register.
#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Src {
    K(W),
    R(u8),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum Cmd {
    Op { dst: u8, op: Op, a: Src, b: Src, n: u32 },
    Bin { dst: u8, op: AOp, rt: Rt, var: u8, rev: bool, a: Src, b: Src },
    Parse { dst: u8, how: How, s: String, radix: u32 },
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum NetF {
    Drop,
    /// delivered again so much later
    Dup(u32),
    /// delivered so much later
    Delay(u32),
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Outage {
    /// volatile state lost, restart after a while from the durable snapshot
    Crash,
    /// no messages to or from it
    Cut,
    /// stalled: handles nothing until later
    Stall,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Cluster {
    pub builds: Vec<Build>,
    pub regs: Vec<W>,
    pub log: Vec<Cmd>,
    /// how snapshots are encoded, per replica; None: as byte forms
    pub snap: Vec<Option<Codec>>,
    pub wire: Form,
    pub batch: u32,
    pub every: u32,
    /// by message number
    pub net: Vec<(u32, NetF)>,
    /// at a time (ms), to a replica, for so long
    pub outages: Vec<(u32, u8, u32, Outage)>,
}

#[derive(Clone, Debug)]
enum Msg {
    /// replica asks for entries from here on
    Fetch(usize),
    /// entries from here on, constants encoded by the sender's build
    Entries(usize, Vec<(Cmd, Vec<Vec<u8>>)>),
    /// a snapshot: position, codec, bytes
    Snap(usize, Option<Codec>, Vec<u8>),
    Tick,
    Restart,
}

#[derive(Clone, Debug)]
struct Ev {
    at: u64,
    seq: u64,
    to: usize,
    from: usize,
    msg: Msg,
    epoch: u32,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Ev) -> bool {
        (self.at, self.seq) == (o.at, o.seq)
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Ev) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Ev) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub fn reg_ty(r: usize) -> Ty {
    if r % 2 == 0 {
        Ty::U
    } else {
        Ty::I
    }
}

struct Replica {
    build: Build,
    up: bool,
    epoch: u32,
    regs: Vec<W>,
    applied: usize,
    /// on its own disk: position and encoded registers
    disk: (usize, Option<Codec>, Vec<u8>),
}

/// What applying an entry does, on any build.
#[derive(Clone)]
struct Effect {
    writes: Vec<(usize, W)>,
}

fn get(regs: &[W], s: Src) -> W {
    match s {
        Src::K(w) => w,
        Src::R(r) => regs[r as usize % REGS],
    }
}

/// Division by zero and the like: the entry changes nothing.  Overflow of the
/// plain operators panics on some builds and wraps on others, so that entry
/// changes nothing either, on any.
fn effect(regs: &[W], c: &Cmd) -> Effect {
    let none = Effect { writes: vec![] };
    let one = |d: usize, w: Option<W>| Effect { writes: w.map(|w| (d, w)).into_iter().collect() };
    match c {
        Cmd::Op { dst, op, a, b, n } => {
            let d = *dst as usize % REGS;
            #[cfg(feature = "cells")]
            crate::cells::note(*op, ops::OPS.iter().find(|x| x.0 == *op).unwrap().1, reg_ty(d), get(regs, *a), get(regs, *b), *n);
            match ops::model(*op, reg_ty(d), get(regs, *a), get(regs, *b), *n, true) {
                Err(_) => none,
                Ok(o) => Effect { writes: writes(d, &o) },
            }
        }
        Cmd::Bin { dst, op, rt, rev, a, b, .. } => {
            let d = *dst as usize % REGS;
            one(d, op_model(reg_ty(d), *op, *rt, get(regs, *a), get(regs, *b), *rev && *rt == Rt::Prim, true))
        }
        Cmd::Parse { dst, how, s, radix } => {
            let d = *dst as usize % REGS;
            one(d, crate::text::parse(reg_ty(d), *how, s.as_bytes(), *radix))
        }
    }
}

fn writes(d: usize, o: &ops::Out) -> Vec<(usize, W)> {
    let mut v = Vec::new();
    if let Some(w) = o.v[0] {
        v.push((d, w));
    }
    if let Some(w) = o.v[1] {
        v.push(((d + 2) % REGS, w));
    }
    if v.is_empty() {
        v.push((d, W([o.flags as u128, 0])));
    }
    v
}

pub fn run(c: &Cluster, verbose: bool) -> Outcome {
    let mut log: Vec<String> = Vec::new();
    let mut stats: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut viol: Option<Viol> = None;
    let mut digest = 0x99u64;
    let mut trace = 0x55u64;
    let mut steps = 0;
    let n = c.builds.len().min(8);
    let mut regs0 = c.regs.clone();
    regs0.resize(REGS, W::ZERO);

    // the exact states, position by position
    let mut states = vec![regs0.clone()];
    for cmd in &c.log {
        let mut r = states.last().unwrap().clone();
        for (d, w) in effect(&r, cmd).writes {
            r[d] = w;
        }
        states.push(r);
    }
    let end = c.log.len();

    macro_rules! say { ($($a:tt)*) => { if verbose { log.push(format!($($a)*)) } }; }
    macro_rules! count { ($k:expr) => { *stats.entry($k).or_insert(0) += 1 }; }
    macro_rules! bad {
        ($c:expr, $($a:tt)*) => { if viol.is_none() { viol = Some(Viol { class: $c.to_string(), msg: format!($($a)*) }) } };
    }
    if n == 0 {
        return Outcome { viol, digest, trace, steps, stats, log, sim_us: 0, alone: None };
    }

    let snap_of = |i: usize| c.snap.get(i).copied().unwrap_or(None);
    let encode = |b: Build, codec: Option<Codec>, regs: &[W]| -> Ret<Result<Vec<u8>, String>> {
        classify(catch_unwind(AssertUnwindSafe(|| {
            let mut v = Vec::new();
            match codec {
                Some(k) => ETHS[b as usize].text_out(k, &TextVals { f: regs.to_vec(), ..Default::default() }, &mut v)?,
                None => {
                    let mut f = regs.to_vec();
                    f.extend_from_within(..4);
                    ETHS[b as usize].byte_out(Codec::Bincode, &ByteVals { f }, &mut v)?
                }
            }
            Ok(v)
        })))
    };
    let decode = |b: Build, codec: Option<Codec>, bytes: &[u8]| -> Ret<Result<Vec<W>, String>> {
        classify(catch_unwind(AssertUnwindSafe(|| {
            Ok(match codec {
                Some(k) => ETHS[b as usize].text_in(k, Read::Slice(bytes))?.f,
                None => {
                    let mut f = ETHS[b as usize].byte_in(Codec::Bincode, Read::Slice(bytes))?.f;
                    f.truncate(REGS);
                    f
                }
            })
        })))
    };

    let mut reps: Vec<Replica> = Vec::new();
    for i in 0..n {
        let b = c.builds[i];
        let bytes = match encode(b, snap_of(i), &regs0) {
            Ret::Done(Ok(x)) => x,
            r => {
                bad!("cluster/snapshot", "encoding {:?} on {:?} ended with {}", regs0, b, outcome(&r));
                Vec::new()
            }
        };
        reps.push(Replica { build: b, up: true, epoch: 0, regs: regs0.clone(), applied: 0, disk: (0, snap_of(i), bytes) });
    }
    // The sequencer holds the log and the newest uploaded snapshot, behind
    // which it forgets the log.
    let server = n;
    let server_build = c.builds[0];
    let mut kept: (usize, Option<Codec>, Vec<u8>) = reps[0].disk.clone();

    let mut q: BinaryHeap<Ev> = BinaryHeap::new();
    let mut seq = 0u64;
    let mut msgno = 0u32;
    let mut now = 0u64;
    let down = |t: u64, i: usize, k: Outage| c.outages.iter().any(|(at, r, d, x)| *x == k && *r as usize % n == i && t >= *at as u64 && t < *at as u64 + *d as u64);
    let stall_end = |t: u64, i: usize| {
        c.outages
            .iter()
            .filter(|(at, r, d, x)| *x == Outage::Stall && *r as usize % n == i && t >= *at as u64 && t < *at as u64 + *d as u64)
            .map(|(at, _, d, _)| *at as u64 + *d as u64)
            .max()
    };
    let mut quiet = 0u64;
    for (at, _, d, _) in &c.outages {
        quiet = quiet.max(*at as u64 + *d as u64);
    }
    macro_rules! push {
        ($at:expr, $from:expr, $to:expr, $epoch:expr, $msg:expr) => {{
            seq += 1;
            q.push(Ev { at: $at, seq, to: $to, from: $from, msg: $msg, epoch: $epoch });
        }};
    }
    macro_rules! send {
        ($from:expr, $to:expr, $msg:expr) => {{
            let m: Msg = $msg;
            let no = msgno;
            msgno += 1;
            let base = now + 3 + (no as u64 * 7919) % 13;
            let mut at = Some(base);
            for (_, f) in c.net.iter().filter(|(k, _)| *k == no) {
                match f {
                    NetF::Drop => {
                        count!("message_lost");
                        at = None;
                        quiet = quiet.max(now);
                    }
                    NetF::Dup(d) => {
                        count!("message_duplicated");
                        quiet = quiet.max(base + *d as u64);
                        push!(base + *d as u64, $from, $to, u32::MAX, m.clone());
                    }
                    NetF::Delay(d) => {
                        count!("message_delayed");
                        at = at.map(|a| a + *d as u64);
                        quiet = quiet.max(base + *d as u64);
                    }
                }
            }
            if let Some(at) = at {
                push!(at, $from, $to, u32::MAX, m);
            }
        }};
    }

    for i in 0..n {
        push!(i as u64, i, i, 0, Msg::Tick);
    }
    for (at, r, _, k) in &c.outages {
        if *k == Outage::Crash {
            // the crash itself is an event for the replica
            push!(*at as u64, server, *r as usize % n, u32::MAX, Msg::Restart);
        }
    }
    let every = c.every.max(1) as usize;
    let bound = 30_000u64;
    let mut budget = 60_000;

    while let Some(ev) = q.pop() {
        now = ev.at;
        budget -= 1;
        if viol.is_some() || budget == 0 {
            break;
        }
        if reps.iter().all(|r| r.up && r.applied == end) && now > quiet {
            break;
        }
        if now > quiet + bound {
            let lag: Vec<_> = reps.iter().map(|r| r.applied).collect();
            bad!("cluster/liveness", "{} ms after the last fault the replicas are at {:?} of {}", bound, lag, end);
            break;
        }
        steps += 1;
        if ev.to == server {
            // the sequencer
            if down(now, ev.from, Outage::Cut) {
                count!("message_cut");
                continue;
            }
            trace = mix(trace, (ev.from as u64) << 8 | 1);
            match ev.msg {
                Msg::Fetch(next) if next < kept.0 => {
                    count!("snapshot_sent");
                    send!(server, ev.from, Msg::Snap(kept.0, kept.1, kept.2.clone()))
                }
                Msg::Fetch(next) => {
                    let to = (next + c.batch.max(1) as usize).min(end);
                    let mut v = Vec::new();
                    for cmd in &c.log[next.min(end)..to] {
                        // constants travel in the library's own encoding
                        let mut k = Vec::new();
                        if let Cmd::Op { dst, a, b, .. } | Cmd::Bin { dst, a, b, .. } = cmd {
                            for s in [a, b] {
                                if let Src::K(w) = s {
                                    let ty = reg_ty(*dst as usize % REGS);
                                    match classify(catch_unwind(AssertUnwindSafe(|| ETHS[server_build as usize].pack(ty, *w, c.wire)))) {
                                        Ret::Done(Ok(x)) => k.push(x),
                                        r => bad!("cluster/wire", "encoding {:?} as {:?} {:?} ended with {}", w, ty, c.wire, outcome(&r)),
                                    }
                                }
                            }
                        }
                        v.push((cmd.clone(), k));
                    }
                    if !v.is_empty() {
                        send!(server, ev.from, Msg::Entries(next, v));
                    }
                }
                Msg::Snap(at, codec, bytes) => {
                    if at > kept.0 {
                        kept = (at, codec, bytes);
                    }
                }
                _ => {}
            }
            continue;
        }
        let i = ev.to;
        if let Msg::Restart = ev.msg {
            if ev.from == server && ev.epoch == u32::MAX && down(now, i, Outage::Crash) {
                // power off
                count!("crash");
                reps[i].up = false;
                reps[i].epoch += 1;
                let e = reps[i].epoch;
                let until = c
                    .outages
                    .iter()
                    .filter(|(at, r, d, x)| *x == Outage::Crash && *r as usize % n == i && now >= *at as u64 && now < *at as u64 + *d as u64)
                    .map(|(at, _, d, _)| *at as u64 + *d as u64)
                    .max()
                    .unwrap_or(now);
                say!("[{} ms] replica {} crashes at {}", now, i, reps[i].applied);
                push!(until, i, i, e, Msg::Restart);
                continue;
            }
            if ev.epoch == reps[i].epoch && !reps[i].up {
                count!("restart");
                let r = &mut reps[i];
                let got = decode(r.build, r.disk.1, &r.disk.2);
                match got {
                    Ret::Done(Ok(x)) if x == states[r.disk.0] => {
                        r.regs = x;
                        r.applied = r.disk.0;
                    }
                    g => bad!(
                        "cluster/recovery",
                        "replica {} ({:?}) wrote {:?} at {} with {:?} as {:?} and read back {}",
                        i,
                        r.build,
                        states[r.disk.0],
                        r.disk.0,
                        r.disk.1,
                        String::from_utf8_lossy(&r.disk.2),
                        outcome(&g)
                    ),
                }
                r.up = true;
                say!("[{} ms] replica {} restarts at {}", now, i, r.applied);
                let e = r.epoch;
                push!(now, i, i, e, Msg::Tick);
            }
            continue;
        }
        if let Some(until) = stall_end(now, i) {
            count!("stalled_event");
            seq += 1;
            q.push(Ev { at: until, seq, ..ev });
            continue;
        }
        if !reps[i].up {
            continue;
        }
        if let Msg::Tick = ev.msg {
            if ev.epoch != reps[i].epoch {
                continue;
            }
            let e = reps[i].epoch;
            if reps[i].applied < end || now < quiet {
                // timers drift apart
                push!(now + 150 + 10 * i as u64, i, i, e, Msg::Tick);
                let next = reps[i].applied;
                send!(i, server, Msg::Fetch(next));
            }
            continue;
        }
        if down(now, i, Outage::Cut) {
            count!("message_cut");
            continue;
        }
        trace = mix(trace, (i as u64) << 8 | 2);
        match ev.msg {
            Msg::Snap(at, codec, bytes) => {
                if at > reps[i].applied {
                    count!("snapshot_installed");
                    match decode(reps[i].build, codec, &bytes) {
                        Ret::Done(Ok(x)) if x == states[at] => {
                            reps[i].regs = x;
                            reps[i].applied = at;
                        }
                        g => bad!(
                            "cluster/snapshot",
                            "replica {} ({:?}) read the snapshot at {} ({:?}, {:?}), {:?}, as {}",
                            i,
                            reps[i].build,
                            at,
                            codec,
                            String::from_utf8_lossy(&bytes),
                            states[at],
                            outcome(&g)
                        ),
                    }
                    let next = reps[i].applied;
                    send!(i, server, Msg::Fetch(next));
                }
            }
            Msg::Entries(start, v) => {
                let mut progress = false;
                for (k, (cmd, consts)) in v.iter().enumerate() {
                    let at = start + k;
                    if at != reps[i].applied {
                        // again, or too early
                        count!("entry_ignored");
                        continue;
                    }
                    let b = reps[i].build;
                    // put the constants back, decoded by this replica
                    let mut cmd = cmd.clone();
                    if let Cmd::Op { dst, a, b: bb, .. } | Cmd::Bin { dst, a, b: bb, .. } = &mut cmd {
                        let ty = reg_ty(*dst as usize % REGS);
                        let mut it = consts.iter();
                        for s in [a, bb] {
                            if let Src::K(w) = s {
                                let Some(x) = it.next() else { continue };
                                match classify(catch_unwind(AssertUnwindSafe(|| ETHS[b as usize].unpack(ty, x, c.wire)))) {
                                    Ret::Done(Ok(y)) if y == *w => *s = Src::K(y),
                                    r => bad!("cluster/wire", "{:?} travelled as {:?} ({:?} {:?}) and arrived as {}", w, String::from_utf8_lossy(x), ty, c.wire, outcome(&r)),
                                }
                            }
                        }
                    }
                    if viol.is_some() {
                        break;
                    }
                    let r = &mut reps[i];
                    if let Some(m) = apply(r, &cmd) {
                        bad!("cluster/apply", "replica {} ({:?}) at {}: {:?}: {}", i, b, at, cmd, m);
                    }
                    r.applied += 1;
                    count!("entry_applied");
                    progress = true;
                    if viol.is_none() && r.regs != states[r.applied] {
                        bad!("cluster/state", "replica {} ({:?}) after {:?}: {:?}, expected {:?}", i, b, cmd, r.regs, states[r.applied]);
                    }
                    if r.applied % every == 0 && viol.is_none() {
                        match encode(b, r.disk.1, &r.regs) {
                            Ret::Done(Ok(x)) => {
                                r.disk = (r.applied, r.disk.1, x);
                                if (r.applied / every) % n == i {
                                    let d = r.disk.clone();
                                    count!("snapshot_uploaded");
                                    send!(i, server, Msg::Snap(d.0, d.1, d.2));
                                }
                            }
                            x => bad!("cluster/snapshot", "encoding {:?} on {:?} ended with {}", r.regs, b, outcome(&x)),
                        }
                    }
                    if viol.is_some() {
                        break;
                    }
                }
                if progress && reps[i].applied < end {
                    let next = reps[i].applied;
                    send!(i, server, Msg::Fetch(next));
                }
            }
            _ => {}
        }
        for w in &reps[i].regs {
            digest = fnv(digest, &w.bytes());
        }
    }
    if viol.is_none() && budget == 0 {
        bad!("cluster/liveness", "no end after 60000 events");
    }
    let applied: u64 = reps.iter().map(|r| r.applied as u64).sum();
    digest = mix(digest, applied);
    Outcome { viol, digest: mix(digest, trace), trace, steps, stats, log, sim_us: now * 1000, alone: None }
}

/// Applies one entry on the replica's own build; what went wrong, if anything.
fn apply(r: &mut Replica, c: &Cmd) -> Option<String> {
    let eth = ETHS[r.build as usize];
    let dbg = debug(r.build);
    match c {
        Cmd::Op { dst, op, a, b, n } => {
            let d = *dst as usize % REGS;
            let ty = reg_ty(d);
            let (a, b) = (get(&r.regs, *a), get(&r.regs, *b));
            let ret = classify(catch_unwind(AssertUnwindSafe(|| eth.call(ty, *op, a, b, *n))));
            let want = ops::model(*op, ty, a, b, *n, dbg);
            if let Some(m) = call_wrong(&ret, &want) {
                return Some(format!("a={:?} b={:?}: {}", a, b, m));
            }
            // Where builds differ by definition, the entry changes nothing.
            if let (Ret::Done(o), Ok(_)) = (ret, ops::model(*op, ty, a, b, *n, true)) {
                for (d, w) in writes(d, &o) {
                    r.regs[d] = w;
                }
            }
        }
        Cmd::Bin { dst, op, rt, var, rev, a, b } => {
            let d = *dst as usize % REGS;
            let ty = reg_ty(d);
            let rev = *rev && *rt == Rt::Prim;
            let (a, b) = (get(&r.regs, *a), get(&r.regs, *b));
            let ret = classify(catch_unwind(AssertUnwindSafe(|| eth.binary(ty, *op, *rt, *var, rev, a, b))));
            let want = op_model(ty, *op, *rt, a, b, rev, dbg);
            match (&ret, want) {
                (Ret::Done(x), Some(y)) if *x == y => {}
                (Ret::Trap(_), None) => {}
                (x, y) => return Some(format!("a={:?} b={:?}: got {}, expected {:?} (None: panic)", a, b, outcome(x), y)),
            }
            if let (Ret::Done(x), Some(_)) = (ret, op_model(ty, *op, *rt, a, b, rev, true)) {
                r.regs[d] = x;
            }
        }
        Cmd::Parse { dst, how, s, radix } => {
            let d = *dst as usize % REGS;
            let ty = reg_ty(d);
            let ret = classify(catch_unwind(AssertUnwindSafe(|| eth.parse(ty, *how, s, *radix))));
            if let Some(m) = parse_wrong(&ret, ty, *how, s, *radix) {
                return Some(m);
            }
            // a literal this model does not judge changes nothing
            if let (Ret::Done(Ok(x)), true) = (ret, crate::text::parse(ty, *how, s.as_bytes(), *radix).is_some()) {
                r.regs[d] = x;
            }
        }
    }
    None
}

#[cfg(feature = "cells")]
pub fn model_only(c: &Cluster) {
    let mut r = c.regs.clone();
    r.resize(REGS, W::ZERO);
    for cmd in &c.log {
        for (d, w) in effect(&r, cmd).writes {
            r[d] = w;
        }
    }
}
