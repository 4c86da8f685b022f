//! The search: workers run seeds, the parent attributes crashes and hangs,
//! confirms violations in a fresh process, minimises them and writes the replay
//! and the evidence.

use crate::exec::{self, Outcome};
use crate::gen::{self, Case};
use crate::min::Shrinker;
use crate::plan::{Act, Ev, EvK, Plan, Step};
use crate::rng::{fnv, mix};
use crate::sched;
use crate::seam::Viol;
use crate::{cluster, coll, store};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const HANG: Duration = Duration::from_secs(30);

pub fn run_case(prop: &str, c: &Case, verbose: bool) -> Outcome {
    match c {
        Case::Plan(p) => exec::run_plan(prop, p, verbose),
        Case::Journal(j) => store::run(j, verbose),
        Case::Coll(c) => coll::run(c, verbose),
        Case::Cluster(c) => cluster::run(c, verbose),
        Case::Runs { prop: p, seed, runs } => {
            let mut last = None;
            for r in runs {
                let mut o = run_case(prop, &gen::case(p, *seed, *r), verbose);
                if verbose {
                    o.log.insert(0, format!("--- run {}", r));
                    if let Some(Outcome { log, .. }) = last.take() {
                        let mut l: Vec<String> = log;
                        l.append(&mut o.log);
                        o.log = l;
                    }
                }
                let bad = o.viol.is_some();
                last = Some(o);
                if bad {
                    break;
                }
            }
            last.unwrap_or_else(|| exec::run_plan(prop, &Plan { regs: vec![], tasks: vec![], sched: vec![], scribble: 0 }, false))
        }
    }
}

/// A violation as found: in a worker, by run.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Found {
    run: u64,
    /// the runs the same process had made before
    since: u64,
    stride: u64,
    viol: Viol,
    alone: Option<Plan>,
}

/// What `one` runs and what it says.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct One {
    prop: String,
    case: Case,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Said {
    viol: Option<Viol>,
    alone: Option<Plan>,
    digest: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Replay {
    property: String,
    class: String,
    message: String,
    seed: u64,
    run: u64,
    minimised: bool,
    reproduced: bool,
    case: Case,
}

#[derive(Default, Serialize, Deserialize)]
struct Tally {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    sim_us: u64,
    stats: BTreeMap<String, u64>,
    fired_runs: BTreeMap<String, u64>,
    kinds: BTreeMap<String, u64>,
    truncated: bool,
    stepping: bool,
    /// over the outcomes of the first runs, in order
    head_digest: u64,
}

const HEAD: u64 = 40;
const CAP: usize = 2_000_000;

pub fn main(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    match a.first().map(|s| s.as_str()) {
        Some("check") => check(
            &get("--prop").expect("--prop"),
            &get("--tier").unwrap_or("quick".into()),
            num("--seed", 1),
            num("--runs", 0),
            num("--workers", 0),
            Path::new(&get("--out").unwrap_or(".".into())),
        ),
        Some("worker") => worker(&a[1], &a[2..]),
        Some("one") => one(Path::new(&a[1])),
        Some("replay") => replay(Path::new(&a[1])),
        Some("show") => {
            let c = gen::case(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
            println!("{}", serde_json::to_string(&c).unwrap());
            0
        }
        Some("run") => {
            sched::init_stepping();
            let o = run_case(&a[1], &gen::case(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap()), true);
            for l in &o.log {
                println!("{}", l);
            }
            println!("{:?} digest {:x} trace {:x} {:?}", o.viol, o.digest, o.trace, o.stats);
            0
        }
        Some("digest") => {
            sched::init_stepping();
            let (s, from, to): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            for r in from..to {
                let o = run_case(&a[1], &gen::case(&a[1], s, r), false);
                println!("{} {:016x} {:016x} {} {:?}", r, o.digest, o.trace, o.steps, o.stats);
            }
            0
        }
        _ => {
            eprintln!("usage: ethsim check|worker|one|replay|show|run|digest");
            2
        }
    }
}

fn kind(c: &Case) -> &'static str {
    match c {
        Case::Plan(p) => match p.tasks.len() {
            0 | 1 => "calls, one task",
            _ => "calls, several tasks",
        },
        Case::Journal(_) => "journal on a disk",
        Case::Coll(_) => "collections",
        Case::Cluster(_) => "replicas on a network",
        Case::Runs { .. } => "several runs",
    }
}

// ---- worker ------------------------------------------------------------------

struct Slot(*mut u64);

impl Slot {
    fn map(path: &Path, i: usize) -> Slot {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).open(path).expect("slots");
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(p != libc::MAP_FAILED);
        Slot(unsafe { (p as *mut u64).add(i * 2) })
    }
    fn set(&self, run: u64) {
        unsafe {
            std::ptr::write_volatile(self.0, run);
            std::ptr::write_volatile(self.0.add(1), std::ptr::read_volatile(self.0.add(1)).wrapping_add(1));
        }
    }
    fn get(&self) -> (u64, u64) {
        unsafe { (std::ptr::read_volatile(self.0), std::ptr::read_volatile(self.0.add(1))) }
    }
}

/// What a worker keeps of a run.
#[derive(Serialize, Deserialize)]
struct Report {
    viol: Option<Viol>,
    alone: Option<Plan>,
    digest: u64,
    trace: u64,
    steps: u64,
    sim_us: u64,
    stats: BTreeMap<String, u64>,
    kind: String,
}

fn report(prop: &str, seed: u64, run: u64) -> Report {
    let c = gen::case(prop, seed, run);
    let o = run_case(prop, &c, false);
    Report {
        viol: o.viol,
        alone: o.alone,
        digest: o.digest,
        trace: o.trace,
        steps: o.steps,
        sim_us: o.sim_us,
        stats: o.stats.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        kind: kind(&c).into(),
    }
}

/// A process that has never called the library and forks for every run that is
/// to be the first of its process.
struct Zygote {
    ask: std::fs::File,
    hear: std::fs::File,
}

impl Zygote {
    /// To be called while the process has one thread.
    fn new(prop: &str, seed: u64) -> Zygote {
        use std::io::Read;
        use std::os::fd::FromRawFd;
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert!(libc::pipe(a.as_mut_ptr()) == 0 && libc::pipe(b.as_mut_ptr()) == 0, "harness: pipe");
            let pid = libc::fork();
            assert!(pid >= 0, "harness: fork");
            if pid > 0 {
                libc::close(a[0]);
                libc::close(b[1]);
                return Zygote { ask: std::fs::File::from_raw_fd(a[1]), hear: std::fs::File::from_raw_fd(b[0]) };
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(a[1]);
            libc::close(b[0]);
            let mut ask = std::fs::File::from_raw_fd(a[0]);
            let mut tell = std::fs::File::from_raw_fd(b[1]);
            let mut buf = [0u8; 8];
            while ask.read_exact(&mut buf).is_ok() {
                let run = u64::from_le_bytes(buf);
                let mut c = [0i32; 2];
                assert!(libc::pipe(c.as_mut_ptr()) == 0, "harness: pipe");
                let pid = libc::fork();
                assert!(pid >= 0, "harness: fork");
                if pid == 0 {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    libc::close(c[0]);
                    let v = serde_json::to_vec(&report(prop, seed, run)).unwrap();
                    let ok = std::fs::File::from_raw_fd(c[1]).write_all(&v).is_ok();
                    libc::_exit(if ok { 0 } else { 3 });
                }
                libc::close(c[1]);
                let mut v = Vec::new();
                let _ = std::fs::File::from_raw_fd(c[0]).read_to_end(&mut v);
                let mut st = 0;
                while libc::waitpid(pid, &mut st, 0) < 0 {}
                let mut w = (st as u32).to_le_bytes().to_vec();
                w.extend((v.len() as u32).to_le_bytes());
                w.append(&mut v);
                if tell.write_all(&w).is_err() {
                    break;
                }
            }
            libc::_exit(0);
        }
    }

    /// The run's report; or this process ends the way the run's process did.
    fn run(&mut self, run: u64) -> Report {
        use std::io::Read;
        self.ask.write_all(&run.to_le_bytes()).expect("harness: zygote");
        let mut h = [0u8; 8];
        self.hear.read_exact(&mut h).expect("harness: zygote");
        let st = i32::from_le_bytes(h[..4].try_into().unwrap());
        let mut v = vec![0; u32::from_le_bytes(h[4..].try_into().unwrap()) as usize];
        self.hear.read_exact(&mut v).expect("harness: zygote");
        if st != 0 {
            unsafe {
                if libc::WIFSIGNALED(st) {
                    libc::signal(libc::WTERMSIG(st), libc::SIG_DFL);
                    libc::raise(libc::WTERMSIG(st));
                }
                libc::_exit(if libc::WIFEXITED(st) { libc::WEXITSTATUS(st) } else { 4 });
            }
        }
        serde_json::from_slice(&v).expect("harness: zygote")
    }
}

/// worker PROP SEED FROM STRIDE END SLOTS I OUT DEADLINE_S
fn worker(prop: &str, a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, from, stride, end) = (n(0), n(1), n(2), n(3));
    let slot = Slot::map(Path::new(&a[4]), n(5) as usize);
    let out = PathBuf::from(&a[6]);
    let until = Instant::now() + Duration::from_secs(n(7));
    let mut t = Tally { stepping: sched::init_stepping(), ..Default::default() };
    let mut seen = HashSet::new();
    let mut cases: HashSet<u64> = HashSet::new();
    let mut found = 0;
    let foreign = prop == "C02" || prop == "C09";
    let mut zygote = (prop == "C02").then(|| Zygote::new(prop, seed));
    let mut run = from;
    while run < end {
        slot.set(run);
        if Instant::now() > until {
            t.truncated = true;
            break;
        }
        let first = gen::fresh(prop, run);
        let o = match &mut zygote {
            Some(z) if first => z.run(run),
            _ => report(prop, seed, run),
        };
        *t.kinds.entry(if first { format!("{}, first of their process", o.kind) } else { o.kind }).or_insert(0) += 1;
        t.runs += 1;
        t.steps += o.steps;
        t.sim_us += o.sim_us;
        if t.runs <= HEAD {
            t.head_digest = mix(t.head_digest, o.digest);
        }
        if !o.stats.is_empty() {
            t.nontrivial += 1;
            // beyond this many, only a lower bound is counted
            if seen.len() < CAP {
                seen.insert(o.digest);
            }
            if cases.len() < CAP {
                cases.insert(o.trace);
            }
        }
        for (k, v) in &o.stats {
            *t.stats.entry(k.clone()).or_insert(0) += v;
            *t.fired_runs.entry(k.clone()).or_insert(0) += 1;
        }
        if let Some(viol) = o.viol {
            let f = Found { run, since: if first { run } else { from }, stride, viol, alone: o.alone };
            let mut w = std::fs::OpenOptions::new().append(true).create(true).open(out.with_extension("viol")).expect("viol");
            let _ = writeln!(w, "{}", serde_json::to_string(&f).unwrap());
            found += 1;
            if found >= if foreign { 60 } else { 6 } {
                break;
            }
        }
        run += stride;
    }
    let bin = |s: &HashSet<u64>| s.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>();
    std::fs::write(out.with_extension("seen"), bin(&seen)).expect("seen");
    std::fs::write(out.with_extension("traces"), bin(&cases)).expect("traces");
    std::fs::write(out.with_extension("tally"), serde_json::to_vec(&t).unwrap()).expect("tally");
    slot.set(run);
    0
}

fn one(p: &Path) -> i32 {
    sched::init_stepping();
    let o: One = serde_json::from_slice(&std::fs::read(p).expect("case")).expect("case");
    let r = run_case(&o.prop, &o.case, false);
    let said = Said { viol: r.viol, alone: r.alone, digest: r.digest };
    println!("{}", serde_json::to_string(&said).unwrap());
    0
}

// ---- parent ------------------------------------------------------------------

fn me() -> Command {
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    unsafe {
        c.pre_exec(|| {
            // the same addresses every time, where that is allowed
            libc::personality(0x0040000);
            let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            // the process goes when the parent does
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    c
}

struct Fresh {
    dir: PathBuf,
    n: u64,
}

enum Verdict {
    Fine,
    Bad(Viol, Option<Plan>),
    Harness(String),
}

impl Fresh {
    /// Runs the case in a process of its own.
    fn judge(&mut self, prop: &str, case: &Case, limit: Duration) -> Verdict {
        self.n += 1;
        let p = self.dir.join("one.json");
        std::fs::write(&p, serde_json::to_vec(&One { prop: prop.into(), case: case.clone() }).unwrap()).expect("one");
        let mut ch = me().arg("one").arg(&p).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
        let mut so = ch.stdout.take().unwrap();
        let mut se = ch.stderr.take().unwrap();
        let rd = std::thread::spawn(move || {
            let mut s = String::new();
            let _ = std::io::Read::read_to_string(&mut so, &mut s);
            s
        });
        let re = std::thread::spawn(move || {
            let mut s = Vec::new();
            let _ = std::io::Read::read_to_end(&mut se, &mut s);
            String::from_utf8_lossy(&s).into_owned()
        });
        let t = Instant::now();
        let st = loop {
            if let Some(st) = ch.try_wait().expect("wait") {
                break Some(st);
            }
            if t.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                break None;
            }
            std::thread::sleep(Duration::from_micros(if t.elapsed() < Duration::from_millis(50) { 300 } else { 3000 }));
        };
        let (so, se) = (rd.join().unwrap_or_default(), re.join().unwrap_or_default());
        match st {
            None => Verdict::Bad(Viol { class: "hang".into(), msg: format!("the run did not end within {} s", limit.as_secs()) }, None),
            Some(st) => match crashed(st) {
                Some(v) => Verdict::Bad(v, None),
                None if st.code() == Some(0) => match serde_json::from_str::<Said>(&so) {
                    Ok(Said { viol: Some(v), alone, .. }) => Verdict::Bad(v, alone),
                    Ok(_) => Verdict::Fine,
                    Err(e) => Verdict::Harness(format!("{}: {:?}", e, so)),
                },
                None => Verdict::Harness(format!("exit {:?}: {}", st.code(), se)),
            },
        }
    }
}

fn crashed(st: std::process::ExitStatus) -> Option<Viol> {
    if let Some(s) = st.signal() {
        return Some(Viol { class: format!("crash/{}", s), msg: format!("the process died of signal {}", s) });
    }
    if st.code() == Some(101) {
        return Some(Viol { class: "crash/panic".into(), msg: "a panic in the library reached the top of a thread".into() });
    }
    None
}

/// Every step of a case, nested ones too, as a plan of its own.
fn singles(c: &Case) -> Vec<Plan> {
    fn walk(s: &Step, out: &mut Vec<Step>) {
        out.push(s.clone());
        for e in &s.ev {
            if let EvK::Nest(n) = &e.k {
                walk(n, out);
            }
        }
    }
    let mut steps = Vec::new();
    let mut regs = vec![];
    if let Case::Plan(p) = c {
        regs = p.regs.clone();
        p.tasks.iter().flatten().for_each(|s| walk(s, &mut steps));
    }
    steps
        .into_iter()
        .map(|s| {
            let s = Step { ev: s.ev.into_iter().filter(|e: &Ev| !matches!(e.k, EvK::Nest(_) | EvK::Yield)).collect(), pre: vec![], shared: vec![], oom: false, stale: 0, age: 0, ..s };
            Plan { regs: regs.clone(), tasks: vec![vec![s]], sched: vec![], scribble: 0 }
        })
        .collect()
}

/// Isolation and independence of the allocator: whether the same calls fail
/// without what surrounded them, too.
fn foreign(f: &mut Fresh, prop: &str, case: &Case, class: &str, alone: Option<Plan>) -> bool {
    if prop != "C02" && prop != "C09" {
        return false;
    }
    if prop == "C02" && class == "torn" {
        return false;
    }
    let limit = Duration::from_secs(10);
    let fails = |f: &mut Fresh, p: Plan| matches!(f.judge(prop, &Case::Plan(p), limit), Verdict::Bad(..));
    match alone {
        Some(p) => {
            if !fails(f, p.clone()) {
                return false;
            }
            if prop == "C02" {
                // it may still depend on what happens to lie in memory
                for stale in 1..6u8 {
                    let mut q = p.clone();
                    q.tasks.iter_mut().flatten().for_each(|s| s.stale = stale);
                    if !fails(f, q) {
                        return false;
                    }
                }
            }
            true
        }
        None => {
            let mut all = match case {
                Case::Runs { .. } => return false,
                c => singles(c),
            };
            all.truncate(60);
            all.into_iter().any(|p| fails(f, p))
        }
    }
}

/// How many runs a tier makes: a number, not a time, so that a seed means the
/// same runs everywhere.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 9_000_000,
        "C02" => 120_000,
        "C03" => 2_400_000,
        "C04" => 2_400_000,
        "C05" => 12_000_000,
        "C06" => 9_000_000,
        "C07" => 400_000,
        "C08" => 700_000,
        "C09" => 9_000_000,
        "C10" => 3_600_000,
        _ => 10_000,
    };
    if tier == "thorough" {
        (quick * 20, 660)
    } else {
        (quick, 200)
    }
}

fn check(prop: &str, tier: &str, seed: u64, runs: u64, workers: u64, out: &Path) -> i32 {
    let t0 = Instant::now();
    println!("seed {}", seed);
    let (b, secs) = budget(prop, tier);
    let total = if runs > 0 { runs } else { b };
    let w = if workers > 0 { workers } else { std::thread::available_parallelism().map_or(4, |n| n.get() as u64).min(8) }.min(128);
    let dir = PathBuf::from(format!("{}/ethsim.{}.{}", std::env::temp_dir().display(), prop, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let r = search(prop, tier, seed, total, w, secs, out, &dir, t0);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Ok(bad) => bad as i32,
        Err(e) => {
            println!("ERROR {}", e);
            2
        }
    }
}

fn search(prop: &str, tier: &str, seed: u64, total: u64, w: u64, secs: u64, out: &Path, dir: &Path, t0: Instant) -> Result<bool, String> {
    let slots = dir.join("slots");
    std::fs::write(&slots, [0u8; 4096]).map_err(|e| e.to_string())?;
    let spawn = |i: u64, from: u64, gen: u64, left: u64| -> Child {
        let errs = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("w{}.err", i))).expect("err");
        me().args(["worker", prop, &seed.to_string(), &from.to_string(), &w.to_string(), &total.to_string()])
            .arg(&slots)
            .arg(i.to_string())
            .arg(dir.join(format!("w{}-{}.x", i, gen)))
            .arg(left.to_string())
            .stdout(Stdio::null())
            .stderr(errs)
            .spawn()
            .expect("spawn")
    };
    struct Work {
        slot: Slot,
        child: Option<Child>,
        from: u64,
        gen: u64,
        last: (u64, u64),
        at: Instant,
        deaths: u32,
    }
    let mut ws: Vec<Work> = (0..w)
        .map(|i| {
            let slot = Slot::map(&slots, i as usize);
            slot.set(i);
            let last = slot.get();
            Work { slot, child: Some(spawn(i, i, 0, secs)), from: i, gen: 0, last, at: Instant::now(), deaths: 0 }
        })
        .collect();
    let mut found: Vec<Found> = Vec::new();
    let mut lost_runs = 0;
    loop {
        let mut busy = false;
        for i in 0..ws.len() {
            let x = &mut ws[i];
            let Some(ch) = x.child.as_mut() else { continue };
            busy = true;
            let cur = x.slot.get();
            if cur != x.last {
                x.last = cur;
                x.at = Instant::now();
            }
            let mut viol = None;
            match ch.try_wait().map_err(|e| e.to_string())? {
                Some(st) => {
                    x.child = None;
                    if st.code() != Some(0) {
                        viol = crashed(st);
                        if viol.is_none() {
                            let e = std::fs::read_to_string(dir.join(format!("w{}.err", i))).unwrap_or_default();
                            return Err(format!("worker {} exit {:?} at run {}: {}", i, st.code(), cur.0, e));
                        }
                    }
                }
                None if x.at.elapsed() > HANG => {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    x.child = None;
                    viol = Some(Viol { class: "hang".into(), msg: format!("a run did not end within {} s", HANG.as_secs()) });
                }
                None => {}
            }
            if let Some(viol) = viol {
                let run = x.slot.get().0;
                found.push(Found { run, since: if gen::fresh(prop, run) { run } else { x.from }, stride: w, viol, alone: None });
                lost_runs += (run - x.from) / w;
                x.deaths += 1;
                x.from = run + w;
                x.gen += 1;
                x.at = Instant::now();
                let left = secs.saturating_sub(t0.elapsed().as_secs());
                if x.deaths < 4 && x.from < total && left > 0 {
                    x.child = Some(spawn(i as u64, x.from, x.gen, left));
                }
            }
        }
        if !busy {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut t = Tally { stepping: true, ..Default::default() };
    let (mut seen, mut traces) = (HashSet::new(), HashSet::new());
    let mut head = None;
    for i in 0..w {
        for g in 0..=ws[i as usize].gen {
            let p = dir.join(format!("w{}-{}.x", i, g));
            if let Ok(f) = std::fs::File::open(p.with_extension("viol")) {
                for l in BufReader::new(f).lines().map_while(Result::ok) {
                    found.push(serde_json::from_str(&l).map_err(|e| e.to_string())?);
                }
            }
            for (e, s) in [("seen", &mut seen), ("traces", &mut traces)] {
                if let Ok(b) = std::fs::read(p.with_extension(e)) {
                    s.extend(b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
                }
            }
            let Ok(b) = std::fs::read(p.with_extension("tally")) else { continue };
            let y: Tally = serde_json::from_slice(&b).map_err(|e| e.to_string())?;
            t.runs += y.runs;
            t.nontrivial += y.nontrivial;
            t.steps += y.steps;
            t.sim_us += y.sim_us;
            t.truncated |= y.truncated;
            t.stepping &= y.stepping;
            for (a, b) in [(&mut t.stats, y.stats), (&mut t.fired_runs, y.fired_runs), (&mut t.kinds, y.kinds)] {
                for (k, v) in b {
                    *a.entry(k).or_insert(0) += v;
                }
            }
            if i == 0 && g == 0 && y.runs >= HEAD {
                head = Some(y.head_digest);
            }
        }
    }
    t.runs += lost_runs;

    // The first runs again, in this process's child with everything else
    // different: they must come out the same.
    let mut deterministic = Value::Null;
    if let (Some(h), true) = (head, found.is_empty()) {
        let o = me()
            .args(["digest", prop, &seed.to_string(), "0", &(HEAD * w).to_string()])
            .stderr(Stdio::null())
            .output()
            .map_err(|e| e.to_string())?;
        let s = String::from_utf8_lossy(&o.stdout);
        let mut d = 0;
        for l in s.lines() {
            let mut it = l.split(' ');
            let r: u64 = it.next().and_then(|x| x.parse().ok()).unwrap_or(1);
            let x = it.next().and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0);
            if r % w == 0 {
                d = mix(d, x);
            }
        }
        deterministic = json!({ "runs": HEAD, "identical": d == h });
        if d != h {
            println!("note: the first {} runs came out differently a second time", HEAD);
        }
    }

    found.sort_by_key(|f| f.run);
    let mut f = Fresh { dir: dir.to_path_buf(), n: 0 };
    let mut reported = None;
    let mut skipped = 0;
    let budget = Instant::now() + Duration::from_secs(if tier == "quick" { 240 } else { 120 });
    let mut unconfirmed: Option<Found> = None;
    for x in &found {
        if Instant::now() > budget {
            break;
        }
        let case = gen::case(prop, seed, x.run);
        let limit = if x.viol.class == "hang" { HANG } else { Duration::from_secs(20) };
        match f.judge(prop, &case, limit) {
            Verdict::Bad(v, alone) => {
                if foreign(&mut f, prop, &case, &v.class, alone) {
                    skipped += 1;
                    continue;
                }
                reported = Some((x.run, v, case, true));
                break;
            }
            Verdict::Fine => {
                if unconfirmed.is_none() {
                    unconfirmed = Some(x.clone());
                }
            }
            Verdict::Harness(e) => return Err(e),
        }
    }
    if reported.is_none() {
        // What an earlier run in the same process left behind?
        if let Some(x) = unconfirmed {
            let all: Vec<u64> = (0..=(x.run - x.since) / x.stride).map(|k| x.since + k * x.stride).filter(|r| *r == x.run || !gen::fresh(prop, *r)).collect();
            let mut k = 2;
            let done;
            loop {
                let last = all[all.len().saturating_sub(k)..].to_vec();
                let whole = last.len() == all.len();
                let case = Case::Runs { prop: prop.into(), seed, runs: last };
                match f.judge(prop, &case, Duration::from_secs(300)) {
                    Verdict::Bad(v, alone) => {
                        // for isolation, the call alone decides as before
                        if !foreign(&mut f, prop, &case, &v.class, alone) {
                            done = Some((x.run, v, case, true));
                        } else {
                            skipped += 1;
                            done = None;
                        }
                        break;
                    }
                    Verdict::Harness(e) => return Err(e),
                    Verdict::Fine if whole => {
                        done = Some((x.run, x.viol.clone(), case, false));
                        break;
                    }
                    Verdict::Fine => k *= 8,
                }
            }
            reported = done;
        }
    }
    if skipped > 0 {
        println!("note: {} failing runs fail the same way without concurrency, nesting, history or allocation failures; they are not about this property", skipped);
    }

    let mut bad = false;
    if let Some((run, v, case, reproduced)) = reported {
        bad = true;
        let class = v.class.clone();
        let start = serde_json::to_value(&case).unwrap();
        let limit = if class == "hang" { Duration::from_secs(8) } else { Duration::from_secs(20) };
        let mut msg = v.msg.clone();
        let mut small = start.clone();
        let mut tried = 0;
        if reproduced {
            let mut judge = |c: &Value| -> bool {
                let Ok(c) = serde_json::from_value::<Case>(c.clone()) else { return false };
                match f.judge(prop, &c, limit) {
                    Verdict::Bad(v2, alone) if v2.class == class => {
                        if foreign(&mut f, prop, &c, &v2.class, alone) {
                            return false;
                        }
                        msg = v2.msg;
                        true
                    }
                    _ => false,
                }
            };
            let mut s = Shrinker { judge: &mut judge, until: Instant::now() + Duration::from_secs(60), tried: 0 };
            small = s.run(start.clone());
            tried = s.tried;
        }
        let rep = Replay {
            property: prop.into(),
            class,
            message: msg,
            seed,
            run,
            minimised: small != start,
            reproduced,
            case: serde_json::from_value(small).map_err(|e| e.to_string())?,
        };
        let dir = out.join("replays");
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let p = dir.join(format!("{}-{}-{}.json", prop, seed, run));
        std::fs::write(&p, serde_json::to_string_pretty(&rep).unwrap()).map_err(|e| e.to_string())?;
        println!("{}: {}", rep.class, rep.message);
        println!("seed {} run {}; minimised in {} attempts; replay with: ./check.sh replay {}", seed, run, tried, p.display());
        println!("VIOLATION property={} replay={}", prop, p.display());
    }

    let wall = t0.elapsed().as_secs_f64();
    let sample = |r: u64| json!({ "run": r, "case": gen::case(prop, seed, r) });
    let mut samples = vec![];
    let mut r = 0;
    while samples.len() < 3 && r < 200 {
        let s = sample(r);
        if s.to_string().len() < 4000 {
            samples.push(s);
        }
        r += 1;
    }
    let (faults, sched_ev, probes) = split_stats(&t.stats);
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": seen.len(),
            "rule": "One evaluation is one simulated run, generated from (seed, property, run number) and judged step by step against the reference model. Non-trivial: at least one fault, preemption, context switch, nested call or trap actually happened in it. Distinct: by a hash of everything observable in the run (callbacks, bytes, results) and its schedule.",
            "samples": samples,
            "nontrivial_runs": t.nontrivial,
            "library_calls": t.steps,
            "runs_per_hour": (t.runs as f64 / search_s * 3600.0) as u64,
            "seeds_per_hour": format!("each run is its own seed stream: {} per hour", (t.runs as f64 / search_s * 3600.0) as u64),
            "simulated_time_s": t.sim_us as f64 / 1e6,
            "faults_injected": faults,
            "schedule_events": sched_ev,
            "probes": probes,
            "runs_in_which_each_happened": t.fired_runs,
            "run_kinds": t.kinds,
            "distinct_interleavings_or_fault_traces": traces.len(),
            "interleaving_measure": "hash of the sequence of scheduling points with the task chosen at each, or of the delivered events of the simulated disk, network or request stream",
            "instruction_stepping": t.stepping,
            "library_statics_bytes": sched::lib_bytes(),
            "determinism_recheck": deterministic,
            "stopped_by_time": t.truncated,
            "real_components": "ethnum from /repo in up to four builds (native/LLVM intrinsics, release/debug assertions); core::fmt, std::io::Write::write_fmt, serde, serde_json, ron, bincode, std collections, OS threads",
            "stub_components": "scheduler (who runs, when preempted), writers, serializers, deserializers, sequence sources, iterators, hashers, disk, network, clock, allocator failures, stale stack content",
            "workers": w,
            "not_about_this_property": skipped
        },
        "assumptions": [
            "the reference model (num-bigint and the text rules in sim/src/text.rs) is right",
            "preemption is modelled at x86-64 instruction boundaries of code linked into the simulator, on one processor at a time: no weak-memory effects"
        ],
        "wall_s": wall,
        "violations": bad as u64
    });
    let dir = out.join("evidence");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    std::fs::write(dir.join(format!("{}.json", prop)), serde_json::to_string_pretty(&ev).unwrap()).map_err(|e| e.to_string())?;
    println!(
        "{} {}: {} runs ({} distinct non-trivial), {} library calls, {:.1} s; {}",
        prop,
        tier,
        t.runs,
        seen.len(),
        t.steps,
        wall,
        if bad { "violated" } else { "held" }
    );
    Ok(bad)
}

fn split_stats(s: &BTreeMap<String, u64>) -> (Value, Value, Value) {
    let (mut a, mut b, mut c) = (json!({}), json!({}), json!({}));
    for (k, v) in s {
        let t = match k.as_str() {
            "context_switch" | "preemption_inside_call" | "yield_in_callback" | "nested_call" | "reordered_request" => &mut b,
            "append_rolled_back" | "corruption_read_as_a_value" | "corruption_rejected" | "entry_applied" | "entry_ignored" | "fold_resumed"
            | "snapshot_installed" | "snapshot_sent" | "snapshot_uploaded" | "trap" | "restart" => &mut c,
            _ => &mut a,
        };
        t[k] = json!(v);
    }
    (a, b, c)
}

fn replay(p: &Path) -> i32 {
    let r: Replay = match std::fs::read(p).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            println!("ERROR {}: {}", p.display(), e);
            return 2;
        }
    };
    let dir = PathBuf::from(format!("{}/ethsim.replay.{}", std::env::temp_dir().display(), std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut f = Fresh { dir: dir.clone(), n: 0 };
    let v = f.judge(&r.property, &r.case, HANG);
    let _ = std::fs::remove_dir_all(&dir);
    match v {
        Verdict::Bad(v, _) => {
            if !v.class.starts_with("crash") && v.class != "hang" {
                sched::init_stepping();
                for l in run_case(&r.property, &r.case, true).log {
                    println!("{}", l);
                }
            }
            println!("{}: {}", v.class, v.msg);
            if v.class == r.class && v.msg == r.message {
                println!("reproduced exactly");
            } else {
                println!("recorded: {}: {}", r.class, r.message);
            }
            println!("VIOLATION property={} replay={}", r.property, p.display());
            1
        }
        Verdict::Fine => {
            println!("no violation: {}", p.display());
            0
        }
        Verdict::Harness(e) => {
            println!("ERROR {}", e);
            2
        }
    }
}

#[allow(dead_code)]
fn unused(_: &Act) -> u64 {
    fnv(0, b"")
}
