//! Runs a plan's steps against the library and judges each one.

use crate::ops::{self, Out};
use crate::plan::*;
use crate::sched::{self, Sched, Window};
use crate::seam::*;
use crate::text::{self, Expect};
use crate::val::{fits, Ty, W};
use num_bigint::BigInt;
use num_traits::ToPrimitive;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

/// How a library call ended.
pub enum Ret<R> {
    Done(R),
    /// with the panic a callback threw
    Thrown(u32),
    /// with a panic of its own
    Trap(String),
    /// because memory ran out
    NoMem,
}

pub struct AllocFailed;

pub fn classify<R>(r: Result<R, Box<dyn std::any::Any + Send>>) -> Ret<R> {
    match r {
        Ok(x) => Ret::Done(x),
        Err(p) => match p.downcast::<Injected>() {
            Ok(i) => Ret::Thrown(i.0),
            Err(p) => {
                if p.is::<AllocFailed>() {
                    Ret::NoMem
                } else if let Some(s) = p.downcast_ref::<String>() {
                    Ret::Trap(s.clone())
                } else if let Some(s) = p.downcast_ref::<&str>() {
                    Ret::Trap(s.to_string())
                } else {
                    Ret::Trap("?".into())
                }
            }
        },
    }
}

const STALE: [u64; 6] = [0, 0x3030_3030_3030_3030, 0xffff_ffff_ffff_ffff, 0x2d2d_2d2d_2d2d_2d2d, 0x8080_8080_8080_8080, 0x0101_0101_0101_0101];

/// Makes the call with the step's stale stack, preemptions and allocation
/// failures.
fn lib<R>(w: &World, st: &Step, f: impl FnOnce() -> R) -> Ret<R> {
    sched::scribble(if st.stale == 0 { w.scribble } else { STALE[st.stale as usize % STALE.len()] });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let win = Window::open(&st.pre, &st.shared);
        if st.oom {
            sched::ARMED.with(|a| a.set(true));
        }
        let r = f();
        sched::disarm();
        drop(win);
        r
    }));
    sched::disarm();
    classify(r)
}

/// Whether a build checks overflow, as observed.
pub fn debug(b: Build) -> bool {
    static D: OnceLock<[bool; 4]> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = [false; 4];
        for b in BUILDS {
            d[b as usize] = crate::node::ETHS[b as usize].debug();
        }
        d
    })[b as usize]
}

pub struct Outcome {
    pub viol: Option<Viol>,
    pub digest: u64,
    pub trace: u64,
    pub steps: u64,
    pub stats: std::collections::BTreeMap<&'static str, u64>,
    pub log: Vec<String>,
    pub sim_us: u64,
    /// the step that broke, as a case of its own without its surroundings
    pub alone: Option<Plan>,
}

pub fn run_plan(prop: &str, plan: &Plan, verbose: bool) -> Outcome {
    let n = plan.tasks.len().clamp(1, sched::MAX_TASKS);
    let w = World {
        prop: prop.to_string(),
        sched: Sched::new(n, plan.sched.clone()),
        regs: RefCell::new(plan.regs.clone()),
        viol: RefCell::new(None),
        bad: RefCell::new(None),
        digest: Cell::new(0x1234),
        log: RefCell::new(verbose.then(Vec::new)),
        stats: Default::default(),
        steps: Cell::new(0),
        hashes: Default::default(),
        scribble: plan.scribble,
        eths: &crate::node::ETHS,
    };
    w.sched.install();
    let task = |me: usize| {
        w.sched.start(me);
        if let Some(steps) = plan.tasks.get(me) {
            for (i, s) in steps.iter().enumerate() {
                if w.viol.borrow().is_some() {
                    break;
                }
                if i > 0 || n > 1 {
                    w.sched.point(me, 0xfff0);
                }
                run_step(&w, me, 0, s);
            }
        }
        w.sched.finish(me);
    };
    if n == 1 {
        task(0);
    } else {
        let task = |me: usize| {
            if catch_unwind(AssertUnwindSafe(|| task(me))).is_err() {
                // nobody would ever get the baton again
                eprintln!("panic at the top of a task");
                unsafe { libc::_exit(101) };
            }
        };
        // the closure only touches the world while it holds the baton
        struct Shared<T>(T);
        unsafe impl<T> Sync for Shared<T> {}
        impl<T: Fn(usize)> Shared<T> {
            fn run(&self, me: usize) {
                (self.0)(me)
            }
        }
        let task = Shared(task);
        sched::on_threads(n, &|me| task.run(me));
    }
    Sched::uninstall();
    let (trace, sw, pr) = unsafe { (*w.sched.trace.get(), *w.sched.switches.get(), *w.sched.preempts.get()) };
    let mut stats = w.stats.take();
    if sw > 0 {
        *stats.entry("context_switch").or_insert(0) += sw;
    }
    if pr > 0 {
        *stats.entry("preemption_inside_call").or_insert(0) += pr;
    }
    let digest = crate::rng::mix(w.digest.get(), trace);
    let alone = w.bad.take().map(|(s, r)| isolate(prop, s, r, plan.scribble));
    Outcome {
        viol: w.viol.take(),
        digest,
        trace,
        steps: w.steps.get(),
        stats,
        log: w.log.take().unwrap_or_default(),
        sim_us: 0,
        alone,
    }
}

/// The same call without what surrounded it.
fn isolate(prop: &str, mut s: Step, reg: W, scribble: u64) -> Plan {
    let mut scribble = scribble;
    s.age = 0;
    if prop == "C09" {
        s.oom = false;
    } else {
        s.pre.clear();
        s.stale = 0;
        scribble = 0;
        s.ev.retain(|e| !matches!(e.k, EvK::Yield | EvK::Nest(_)));
    }
    if let Act::Assign { reg, .. } = &mut s.act {
        *reg = 0;
    }
    Plan { regs: vec![reg], tasks: vec![vec![s]], sched: vec![], scribble }
}

fn prefix_of(got: &[u8], want: &[u8]) -> bool {
    want.starts_with(got)
}

fn show(b: &[u8]) -> String {
    format!("{:?}", String::from_utf8_lossy(b))
}

/// The operand of an operator as a mathematical integer.
pub fn operand(ty: Ty, rt: Rt, r: W) -> BigInt {
    let lo = r.0[0];
    match rt {
        Rt::Same => r.big(ty),
        Rt::Prim => ops::prim(ty, r),
        Rt::U256 => r.big(Ty::U),
        Rt::I256 => r.big(Ty::I),
        Rt::I8 => (lo as i8).into(),
        Rt::I16 => (lo as i16).into(),
        Rt::I32 => (lo as i32).into(),
        Rt::I64 => (lo as i64).into(),
        Rt::I128 => (lo as i128).into(),
        Rt::Isize => (lo as isize).into(),
        Rt::U8 => (lo as u8).into(),
        Rt::U16 => (lo as u16).into(),
        Rt::U32 => (lo as u32).into(),
        Rt::U64 => (lo as u64).into(),
        Rt::U128 => lo.into(),
        Rt::Usize => (lo as usize).into(),
    }
}

/// `a op r` as the primitive operators define it; None: panics.
pub fn op_model(ty: Ty, op: AOp, rt: Rt, a: W, r: W, rev: bool, dbg: bool) -> Option<W> {
    let x = operand(ty, rt, r);
    let a_ = a.big(ty);
    let (l, r) = if rev { (&x, &a_) } else { (&a_, &x) };
    let chk = |v: BigInt| {
        if fits(ty, &v) || !dbg {
            Some(W::wrap(&v))
        } else {
            None
        }
    };
    let bits = |f: fn(u128, u128) -> u128| {
        let (l, r) = (W::wrap(l), W::wrap(r));
        Some(W([f(l.0[0], r.0[0]), f(l.0[1], r.0[1])]))
    };
    let zero = BigInt::from(0);
    match op {
        AOp::Add => chk(l + r),
        AOp::Sub => chk(l - r),
        AOp::Mul => chk(l * r),
        AOp::Div | AOp::Rem => {
            if *r == zero {
                return None;
            }
            // BigInt truncates, like the primitives
            let q = l / r;
            if !fits(ty, &q) {
                return None;
            }
            Some(W::wrap(&if op == AOp::Div { q } else { l - q * r }))
        }
        AOp::And => bits(|a, b| a & b),
        AOp::Or => bits(|a, b| a | b),
        AOp::Xor => bits(|a, b| a ^ b),
        AOp::Shl | AOp::Shr => {
            let inside = *r >= zero && *r < BigInt::from(256);
            if dbg && !inside {
                return None;
            }
            let m = W::wrap(r).0[0] as u8 as u32;
            Some(if op == AOp::Shl { W::wrap(&(l << m)) } else { W::wrap(&(l >> m)) })
        }
    }
}

/// One step of the fold; None: panics.
fn fold_model(ty: Ty, prod: bool, items: &[W], dbg: bool) -> (usize, Option<W>) {
    let mut acc = BigInt::from(if prod { 1 } else { 0 });
    for (i, x) in items.iter().enumerate() {
        let x = x.big(ty);
        acc = if prod { &acc * x } else { &acc + x };
        if !fits(ty, &acc) {
            if dbg {
                return (i, None);
            }
            acc = W::wrap(&acc).big(ty);
        }
    }
    (items.len(), Some(W::wrap(&acc)))
}

pub fn run_step(w: &World, me: usize, depth: u32, st: &Step) {
    if depth > 3 {
        return;
    }
    if st.age > 0 {
        w.line(|| format!("t{} d{} {} times:", me, depth, st.age));
        w.count("aged_call");
        let log = w.log.take();
        let plain = Step { age: 0, ev: vec![], pre: vec![], shared: vec![], ..st.clone() };
        for _ in 0..st.age {
            run_step(w, me, depth, &plain);
            if w.viol.borrow().is_some() {
                break;
            }
        }
        w.log.replace(log);
    }
    w.steps.set(w.steps.get() + 1);
    w.line(|| format!("t{} d{} {}", me, depth, serde_json::to_string(st).unwrap_or_default()));
    let eth = w.eth(st.build);
    let dbg = debug(st.build);
    let reg0 = match &st.act {
        Act::Assign { reg, .. } => w.regs.borrow().get(*reg as usize).copied().unwrap_or(W::ZERO),
        _ => W::ZERO,
    };
    let mut s = Seam::new(w, me, depth, &st.ev);
    // Whatever goes wrong is this step's.
    let bad = |props: &[&str], class: &str, msg: String| {
        w.fail(props, class, format!("{} in {}", msg, serde_json::to_string(st).unwrap_or_default()), || (st.clone(), reg0));
    };
    if st.oom {
        w.count("allocations_fail");
    }
    match &st.act {
        Act::Fmt { ty, v, tr, spec, sink, cap } => {
            let want = text::expect_fmt(*ty, *v, *tr, spec);
            let mut wr = SimWriter { s: &mut s, got: Vec::with_capacity(want.len() + 64), cap: *cap };
            let ret = match sink {
                Sink::Fmt => lib(w, st, || {
                    text::with_spec(spec, &mut wr, &mut |f| eth.fmt(*ty, *v, *tr, f)).map_err(|_| None)
                }),
                Sink::Io => {
                    struct D<'x>(&'x Spec, &'x dyn Fn(&mut fmt::Formatter) -> fmt::Result);
                    impl fmt::Display for D<'_> {
                        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                            text::with_spec(self.0, f, &mut |f| (self.1)(f))
                        }
                    }
                    let body = |f: &mut fmt::Formatter| eth.fmt(*ty, *v, *tr, f);
                    let d = D(spec, &body);
                    lib(w, st, || io::Write::write_fmt(&mut wr, format_args!("{}", d)).map_err(Some))
                }
            };
            let got = wr.got;
            let want = want.as_bytes();
            w.note(&got);
            const P: &[&str] = &["C01"];
            let after = |s: &Seam| {
                if s.after > 0 {
                    bad(P, "fmt/after", format!("{} writes after the writer failed", s.after));
                }
                if !prefix_of(&got, want) {
                    bad(P, "fmt/prefix", format!("the failed writer got {}, not a prefix of {}", show(&got), show(want)));
                }
            };
            if s.torn {
                bad(&["C02"], "torn", "text changed while the writer held it".into());
            }
            match (s.panicked, s.failed, ret) {
                (Some(c), _, Ret::Thrown(d)) if c == d => after(&s),
                (Some(c), _, _) => bad(P, "fmt/panic-lost", format!("the writer's panic {} did not reach the caller", c)),
                (None, Some(h), Ret::Done(Err(e))) => {
                    after(&s);
                    if let Some(e) = e {
                        let same = match h {
                            Hit::Fail(c) => e.raw_os_error() == Some(c as i32),
                            _ => e.kind() == io::ErrorKind::WriteZero,
                        };
                        if !same {
                            bad(P, "fmt/other-error", format!("the writer failed with {:?}, the caller got {:?}", h, e));
                        }
                    }
                }
                (None, Some(h), r) => bad(
                    P,
                    "fmt/error-lost",
                    format!("the writer failed with {:?} and the caller got {}", h, outcome(&r.map(|r| r.map_err(|_| "an error")))),
                ),
                (None, None, Ret::Done(Ok(()))) => {
                    if got != want {
                        bad(P, "fmt/text", format!("wrote {}, expected {}", show(&got), show(want)));
                    }
                }
                (None, None, r) => bad(
                    P,
                    "fmt/own-failure",
                    format!("formatting failed by itself ({}) after {}", outcome(&r.map(|r| r.map_err(|_| "an error"))), show(&got)),
                ),
            }
        }
        Act::Ser { ty, v, form, hr } => {
            let puts = RefCell::new(Vec::with_capacity(8));
            let token = 0x5eed_0000 + w.steps.get();
            let ret = lib(w, st, || eth.ser(*ty, *v, *form, SimSer { s: &mut s, puts: &puts, hr: *hr, token }));
            let puts = puts.into_inner();
            let want = if form.text() {
                Put::Str(text::form_text(*ty, *form, *v).into_bytes())
            } else {
                Put::Bytes(text::form_bytes(*ty, *form, *v))
            };
            let store = if form.text() { "C03" } else { "C04" };
            for p in &puts {
                w.note(format!("{:?}", p).as_bytes());
            }
            if s.torn {
                bad(&["C02"], "torn", "data changed while the serializer held it".into());
            }
            if s.after > 0 {
                bad(&["C05"], "ser/after", format!("{} calls after the serializer failed", s.after));
            }
            if puts.iter().any(|p| *p != want) {
                bad(&["C05", store], "ser/content", format!("emitted {:?}, expected {:?}", puts, want));
            }
            if puts.len() > 1 {
                bad(&["C05", store], "ser/twice", format!("emitted {:?}", puts));
            }
            match (s.panicked, s.failed, ret) {
                (Some(c), _, Ret::Thrown(d)) if c == d => {}
                (Some(c), _, _) => bad(&["C05"], "ser/panic-lost", format!("the serializer's panic {} did not reach the caller", c)),
                (None, Some(Hit::Fail(c)), Ret::Done(Err(SimErr(d)))) if c == d => {}
                (None, Some(h), r) => bad(&["C05"], "ser/error-lost", format!("the serializer failed with {:?}, the caller got {}", h, outcome(&r))),
                (None, None, Ret::Done(Ok(t))) if t == token && puts.len() == 1 => {}
                (None, None, r) => bad(&["C05", store], "ser/result", format!("nothing failed; emitted {:?}, returned {}", puts, outcome(&r))),
            }
        }
        Act::De { ty, form, input, hr, post } => {
            let (pulls, visited, verr) = (Cell::new(0), Cell::new(false), Cell::new(None));
            let injected = Cell::new(None);
            let ret = lib(w, st, || {
                eth.de(
                    *ty,
                    *form,
                    SimDe { s: &mut s, input, hr: *hr, post: *post, pulls: &pulls, visited: &visited, visitor_err: &verr, injected: &injected },
                )
            });
            let want = text::expect_de(*ty, *form, input);
            w.note(&pulls.get().to_le_bytes());
            let store = if form.text() { "C03" } else { "C04" };
            let seq = matches!(input, In::Seq(..));
            let both: &[&str] = if seq { &["C05", store] } else { &[store] };
            if s.after > 0 {
                bad(&["C05"], "de/after", format!("{} calls after the failure", s.after));
            }
            if !form.text() && pulls.get() > 33 {
                bad(&["C05", "C04"], "de/pulls", format!("{} elements requested", pulls.get()));
            }
            match (s.panicked, ret) {
                (Some(c), Ret::Thrown(d)) if c == d => {}
                (Some(c), _) => bad(&["C05"], "de/panic-lost", format!("the source's panic {} did not reach the caller", c)),
                (None, Ret::Done(r)) => {
                    match &r {
                        Ok(v) => w.note(&v.bytes()),
                        Err(e) => w.note(&e.0.to_le_bytes()),
                    }
                    if let Some(c) = injected.get() {
                        if r != Err(SimErr(c)) {
                            bad(&["C05"], "de/error-lost", format!("the source failed with {}, the caller got {:?}", c, r));
                        }
                        return;
                    }
                    if let Some(c) = verr.get() {
                        if r != Err(SimErr(c)) {
                            bad(&["C05"], "de/own-error-lost", format!("the visitor failed with {}, the caller got {:?}", c, r));
                            return;
                        }
                    } else if let (true, Some(c)) = (visited.get(), post) {
                        if r != Err(SimErr(*c)) {
                            bad(&["C05"], "de/error-lost", format!("the format failed with {}, the caller got {:?}", c, r));
                        }
                        return;
                    }
                    match (want, r) {
                        (Expect::Must(x) | Expect::May(x), Ok(y)) if x == y => {}
                        (Expect::Err | Expect::May(_), Err(_)) => {}
                        (e, r) => bad(both, "de/value", format!("expected {:?}, got {:?}", e, r)),
                    }
                }
                (None, r) => bad(&["C05", store], "de/panic", format!("reading ended with {}", outcome(&r))),
            }
        }
        Act::Fold { ty, prod, by_ref, items, hint } => {
            const P: &[&str] = &["C07"];
            let mut it = SimIter { s: &mut s, i: 0, len: items.len(), ended: false, beyond: 0 };
            let ret = lib(w, st, || eth.fold(*ty, *prod, *by_ref, items, *hint, &mut it));
            let (i, ended, beyond) = (it.i, it.ended, it.beyond);
            w.note(&(i as u32).to_le_bytes());
            let (k, want) = fold_model(*ty, *prod, items, dbg);
            if beyond > 0 || s.after > 0 {
                bad(P, "fold/beyond", "the iterator was asked again after it ended".into());
                return;
            }
            // The n-th request is for item n; an injected panic there comes
            // before the item is handed out.
            match (s.panicked, ret) {
                (Some(c), Ret::Thrown(d)) if c == d => {
                    if i != s.n as usize - 1 || i > k {
                        bad(P, "fold/taken", format!("{} items taken when the iterator panicked at request {}", i, s.n));
                        return;
                    }
                }
                (Some(c), _) => {
                    bad(P, "fold/panic-lost", format!("the iterator's panic {} did not reach the caller", c));
                    return;
                }
                (None, Ret::Done(v)) => {
                    w.note(&v.bytes());
                    if want != Some(v) || i != items.len() || !ended {
                        bad(P, "fold/result", format!("returned {:?} after {} items, expected {:?} after {}", v, i, want, items.len()));
                    }
                    return;
                }
                (None, Ret::Trap(m)) => {
                    if want.is_some() || i != k + 1 {
                        bad(P, "fold/trap", format!("panicked ({}) after {} items, expected {:?} at item {}", m, i, want, k));
                        return;
                    }
                }
                (None, r) => {
                    bad(P, "fold/trap", format!("ended with {}", outcome(&r)));
                    return;
                }
            }
            // what is left of the stream
            w.count("fold_resumed");
            let rest = &items[i..];
            let mut s = Seam::new(w, me, depth, &[]);
            let mut it = SimIter { s: &mut s, i: 0, len: rest.len(), ended: false, beyond: 0 };
            let plain = Step { ev: vec![], pre: vec![], shared: vec![], oom: false, ..st.clone() };
            let ret = lib(w, &plain, || eth.fold(*ty, *prod, *by_ref, rest, *hint, &mut it));
            let (k, want) = fold_model(*ty, *prod, rest, dbg);
            let i = it.i;
            match ret {
                Ret::Done(v) if want == Some(v) && i == rest.len() => {}
                Ret::Trap(_) if want.is_none() && i == k + 1 => {}
                r => bad(P, "fold/rest", format!("the rest gave {} after {} items, expected {:?} after {}", outcome(&r), i, want, k)),
            }
        }
        Act::Assign { ty, op, rt, by_ref, reg, rhs } => {
            const P: &[&str] = &["C06"];
            let mut t = reg0;
            let mut r = *rhs;
            let ret = lib(w, st, || eth.assign(*ty, *op, *rt, *by_ref, &mut t, &mut r));
            let want = op_model(*ty, *op, *rt, reg0, *rhs, false, dbg);
            w.note(&t.bytes());
            let ret = match ret {
                Ret::Done(Ok(())) => Ret::Done(()),
                Ret::Done(Err(p)) => classify(Err(p)),
                Ret::Trap(m) => Ret::Trap(m),
                Ret::Thrown(c) => Ret::Thrown(c),
                Ret::NoMem => Ret::NoMem,
            };
            if r != *rhs {
                bad(P, "assign/operand", format!("the operand became {:?}", r));
            }
            match (&ret, want) {
                (Ret::Done(()), Some(x)) => {
                    if t != x {
                        bad(P, "assign/result", format!("{:?} became {:?}, expected {:?}", reg0, t, x));
                    }
                }
                (Ret::Trap(m), None) => {
                    w.count("trap");
                    w.line(|| format!("  trapped: {}", m));
                    if t != reg0 {
                        bad(P, "assign/half-done", format!("panicked and left {:?} where {:?} was", t, reg0));
                    }
                }
                (x, y) => bad(P, "assign/trap", format!("{:?}: ended with {}, expected {:?} (None: panic)", reg0, outcome(x), y)),
            }
            if let Some(x) = w.regs.borrow_mut().get_mut(*reg as usize) {
                *x = t;
            }
        }
        Act::Binary { ty, op, rt, var, rev, a, rhs } => {
            const P: &[&str] = &["C06", "C08"];
            let rev = *rev && *rt == Rt::Prim;
            let ret = lib(w, st, || eth.binary(*ty, *op, *rt, *var, rev, *a, *rhs));
            let want = op_model(*ty, *op, *rt, *a, *rhs, rev, dbg);
            match (&ret, want) {
                (Ret::Done(x), Some(y)) if *x == y => w.note(&x.bytes()),
                (Ret::Trap(_), None) => w.count("trap"),
                (x, y) => bad(P, "binary", format!("got {}, expected {:?} (None: panic)", outcome(x), y)),
            }
        }
        Act::Call { ty, op, a, b, n } => {
            let ret = lib(w, st, || eth.call(*ty, *op, *a, *b, *n));
            let want = ops::model(*op, *ty, *a, *b, *n, dbg);
            if let Some(m) = call_wrong(&ret, &want) {
                bad(&["C08"], "call", m);
            }
            if let Ret::Done(o) = &ret {
                w.note(&o.flags.to_le_bytes());
                for v in o.v.iter().flatten() {
                    w.note(&v.bytes());
                }
            } else {
                w.count("trap");
            }
        }
        Act::Parse { ty, how, s: t, radix } => {
            let ret = lib(w, st, || eth.parse(*ty, *how, t, *radix));
            if let Some(m) = parse_wrong(&ret, *ty, *how, t, *radix) {
                bad(&["C08", "C03"], "parse", m);
            }
            match &ret {
                Ret::Done(Ok(x)) => w.note(&x.bytes()),
                _ => w.note(b"no"),
            }
        }
        Act::Hash { ty, a, b } => {
            let ret = lib(w, st, || eth.hash(*ty, *a, *b));
            match ret {
                Ret::Done((x, y, eq)) => {
                    w.note(&[eq as u8]);
                    let mut seen = w.hashes.borrow_mut();
                    for (k, h) in [(*a, x), (*b, y)] {
                        let was = *seen.entry((st.build as u8, *ty, k)).or_insert(h);
                        if was != h {
                            bad(&["C10"], "hash/changed", format!("{:?} hashed to {:x} before, now to {:x}", k, was, h));
                        }
                    }
                    if eq != (a == b) || (eq && x != y) {
                        bad(&["C10"], "hash", format!("hashes {:x} and {:x}, equal: {}", x, y, eq));
                    }
                }
                r => bad(&["C10"], "hash/panic", outcome(&r.map(|_| ()))),
            }
        }
    }
}

pub fn call_wrong(ret: &Ret<Out>, want: &ops::Model) -> Option<String> {
    match (ret, want) {
        (Ret::Done(x), Ok(y)) if x == y => None,
        (Ret::Trap(_), Err(_)) => None,
        (x, y) => Some(format!("got {}, expected {:?}", outcome(x), y)),
    }
}

pub fn parse_wrong(ret: &Ret<Result<W, std::num::IntErrorKind>>, ty: Ty, how: How, t: &str, radix: u32) -> Option<String> {
    if how == How::Literal {
        // a bad literal is a panic (an error when compiled)
        let want = text::parse_literal(ty, t.as_bytes())?;
        return match (ret, want) {
            (Ret::Done(Ok(x)), Some(y)) if *x == y => None,
            (Ret::Trap(_), None) => None,
            (x, y) => Some(format!("literal {:?}: got {}, expected {:?}", t, outcome(x), y)),
        };
    }
    let want = text::parse(ty, how, t.as_bytes(), radix);
    match (ret, want) {
        (Ret::Done(Ok(x)), Some(y)) if *x == y => None,
        (Ret::Done(Err(_)), None) => None,
        (x, y) => Some(format!("parsing {:?}: got {}, expected {:?}", t, outcome(x), y)),
    }
}

pub fn outcome<R: fmt::Debug>(r: &Ret<R>) -> String {
    match r {
        Ret::Done(x) => format!("{:?}", x),
        Ret::Thrown(c) => format!("an injected panic {}", c),
        Ret::Trap(m) => format!("a panic: {}", m),
        Ret::NoMem => "a failed allocation".into(),
    }
}

impl<R> Ret<R> {
    pub fn map<S>(self, f: impl FnOnce(R) -> S) -> Ret<S> {
        match self {
            Ret::Done(x) => Ret::Done(f(x)),
            Ret::Thrown(c) => Ret::Thrown(c),
            Ret::Trap(m) => Ret::Trap(m),
            Ret::NoMem => Ret::NoMem,
        }
    }
}

#[allow(dead_code)]
pub fn small(b: &BigInt) -> Option<u32> {
    b.to_u32()
}

/// A mistake of the simulator's, not of the library.
pub fn harness(m: &str) -> ! {
    eprintln!("{}", m);
    unsafe { libc::_exit(3) }
}
