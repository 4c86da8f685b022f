//! The scheduler.  Tasks are real threads, but exactly one runs at any time: it
//! holds the baton, and gives it away only where the plan says so: at a seam
//! (a callback out of the library), between steps, after an exact number of
//! instructions inside a library call (the processor's single-step trap counts
//! them), or before an exact access of a library call to memory the library
//! shares between calls (its statics are on pages of their own, protected while
//! such a call runs).  Which task continues is the plan's next choice.

use crate::rng::mix;
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU32, Ordering::SeqCst};

pub const MAX_TASKS: usize = 6;

pub struct Sched {
    n: usize,
    /// set for the task that is given the baton
    baton: [AtomicU32; MAX_TASKS],
    done: [AtomicBool; MAX_TASKS],
    choices: Vec<u32>,
    pos: UnsafeCell<usize>,
    pub trace: UnsafeCell<u64>,
    pub switches: UnsafeCell<u64>,
    pub preempts: UnsafeCell<u64>,
}

// Only the baton holder touches the cells.
unsafe impl Sync for Sched {}

fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, v, 0usize);
    }
}
fn futex_wake(a: &AtomicU32) {
    unsafe {
        libc::syscall(libc::SYS_futex, a as *const _, libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX);
    }
}

static CURRENT: AtomicPtr<Sched> = AtomicPtr::new(std::ptr::null_mut());

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// Instructions until the next preemption; 0: not counting.
    static LEFT: Cell<u32> = const { Cell::new(0) };
    static NEXT: Cell<(*const u32, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    /// The same for accesses to the library's statics.
    static ALEFT: Cell<u32> = const { Cell::new(0) };
    static ANEXT: Cell<(*const u32, usize)> = const { Cell::new((std::ptr::null(), 0)) };
    /// Accesses of this call so far.
    static COUNT: Cell<u32> = const { Cell::new(0) };
    /// One instruction is being let through.
    static ONE: Cell<bool> = const { Cell::new(false) };
    pub static ARMED: Cell<bool> = const { Cell::new(false) };
}

impl Sched {
    pub fn new(n: usize, choices: Vec<u32>) -> Sched {
        Sched {
            n,
            baton: {
                let b: [AtomicU32; MAX_TASKS] = Default::default();
                b[0].store(1, SeqCst);
                b
            },
            done: Default::default(),
            choices,
            pos: UnsafeCell::new(0),
            trace: UnsafeCell::new(0),
            switches: UnsafeCell::new(0),
            preempts: UnsafeCell::new(0),
        }
    }

    fn wait(&self, me: usize) {
        while self.baton[me].swap(0, SeqCst) == 0 {
            futex_wait(&self.baton[me], 0);
        }
    }

    fn give(&self, to: usize) {
        self.baton[to].store(1, SeqCst);
        futex_wake(&self.baton[to]);
    }

    /// A point where another task may run.  Async-signal-safe.
    pub fn point(&self, me: usize, tag: u64) {
        unsafe {
            let pos = self.pos.get();
            let c = self.choices.get(*pos).copied().unwrap_or(0) as usize;
            *pos += 1;
            self.switch(me, tag, c);
        }
    }

    fn switch(&self, me: usize, tag: u64, c: usize) {
        unsafe {
            let mut run = [0usize; MAX_TASKS];
            let mut k = 0;
            let mut mine = 0;
            for t in 0..self.n {
                if t == me {
                    mine = k;
                }
                if !self.done[t].load(SeqCst) {
                    run[k] = t;
                    k += 1;
                }
            }
            let next = run[(mine + c) % k];
            *self.trace.get() = mix(*self.trace.get(), tag << 16 | (me as u64) << 8 | next as u64);
            if next != me {
                *self.switches.get() += 1;
                self.give(next);
                self.wait(me);
            }
        }
    }

    pub fn start(&self, me: usize) {
        ME.with(|m| m.set(me));
        self.wait(me);
    }

    pub fn finish(&self, me: usize) {
        self.done[me].store(true, SeqCst);
        for d in 1..self.n {
            let t = (me + d) % self.n;
            if !self.done[t].load(SeqCst) {
                self.give(t);
                return;
            }
        }
    }

    pub fn uninstall() {
        CURRENT.store(std::ptr::null_mut(), SeqCst);
    }

    pub fn install(&self) {
        CURRENT.store(self as *const _ as *mut _, SeqCst);
    }
}

// ---- threads -----------------------------------------------------------------

type Job = Box<dyn FnOnce() + Send>;

/// Runs `task(0)` to `task(n - 1)` on as many threads and waits for them.  The
/// threads are kept for the next run: what it finds in them is the history of
/// this process, as in any server.
pub fn on_threads(n: usize, task: &(dyn Fn(usize) + Sync)) {
    use std::sync::mpsc::{channel, Sender};
    thread_local! {
        static POOL: std::cell::RefCell<Vec<Sender<(Job, Sender<()>)>>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        while p.len() < n {
            let (tx, rx) = channel::<(Job, Sender<()>)>();
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    for (job, done) in rx {
                        job();
                        let _ = done.send(());
                    }
                })
                .expect("harness: thread");
            p.push(tx);
        }
        let (done, all) = channel();
        for (me, t) in p.iter().enumerate().take(n) {
            let job: Box<dyn FnOnce() + Send + '_> = Box::new(move || task(me));
            // every job has ended when this function returns
            let job: Job = unsafe { std::mem::transmute(job) };
            t.send((job, done.clone())).expect("harness: thread");
        }
        for _ in 0..n {
            all.recv().expect("harness: thread");
        }
    });
}

// ---- single stepping -------------------------------------------------------

extern "C" {
    static __executable_start: u8;
    static etext: u8;
    static __ethlib_start: u8;
    static __ethlib_end: u8;
}

fn lib() -> (usize, usize) {
    unsafe { (&__ethlib_start as *const u8 as usize, &__ethlib_end as *const u8 as usize) }
}

/// How much the library's calls can share.
pub fn lib_bytes() -> usize {
    lib().1 - lib().0
}

/// A call that has made so many accesses may be waiting for another task: it
/// lets the next one run.
const PATIENCE: u32 = 400;

/// Windows that count accesses.
static OPEN: AtomicU32 = AtomicU32::new(0);

fn guard(on: bool) {
    let (lo, hi) = lib();
    let p = if on { libc::PROT_NONE } else { libc::PROT_READ | libc::PROT_WRITE };
    unsafe { libc::mprotect(lo as *mut libc::c_void, hi - lo, p) };
}

#[inline(always)]
fn tf_set() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
}
#[inline(always)]
fn tf_clear() {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
}

static TF_OK: AtomicBool = AtomicBool::new(false);
static STEPPED: AtomicU32 = AtomicU32::new(0);

#[cfg(target_arch = "x86_64")]
extern "C" fn on_trap(_: i32, _: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let regs = &mut uc.uc_mcontext.gregs;
        let rip = regs[libc::REG_RIP as usize] as usize;
        let stop = |regs: &mut [i64; 23]| regs[libc::REG_EFL as usize] &= !0x100;
        if ONE.with(|o| o.replace(false)) && OPEN.load(SeqCst) > 0 {
            guard(true);
        }
        let left = LEFT.with(|l| l.get());
        if left == 0 {
            stop(regs);
            return;
        }
        let lo = &__executable_start as *const u8 as usize;
        let hi = &etext as *const u8 as usize;
        if rip < lo || rip >= hi {
            return;
        }
        STEPPED.fetch_add(1, SeqCst);
        if left > 1 {
            LEFT.with(|l| l.set(left - 1));
            return;
        }
        // Preempted here.
        let (p, n) = NEXT.with(|n| n.get());
        if n == 0 {
            LEFT.with(|l| l.set(0));
            stop(regs);
        } else {
            LEFT.with(|l| l.set(*p));
            NEXT.with(|x| x.set((p.add(1), n - 1)));
        }
        let me = ME.with(|m| m.get());
        let s = CURRENT.load(SeqCst);
        if !s.is_null() && me != usize::MAX {
            let armed = ARMED.with(|a| a.replace(false));
            *(*s).preempts.get() += 1;
            (*s).point(me, 0xffff);
            ARMED.with(|a| a.set(armed));
        }
    }
}

/// An access to the library's statics: perhaps someone else goes first; then
/// this one instruction is let through.
#[cfg(target_arch = "x86_64")]
extern "C" fn on_access(_: i32, si: *mut libc::siginfo_t, uc: *mut libc::c_void) {
    unsafe {
        let at = (*si).si_addr() as usize;
        let (lo, hi) = lib();
        if at < lo || at >= hi || ONE.with(|o| o.get()) {
            // A real fault: again, and nobody catches it.
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            return;
        }
        let uc = &mut *(uc as *mut libc::ucontext_t);
        let count = COUNT.with(|c| c.replace(c.get() + 1));
        if count % PATIENCE == PATIENCE - 1 {
            let me = ME.with(|m| m.get());
            let s = CURRENT.load(SeqCst);
            if !s.is_null() && me != usize::MAX {
                (*s).switch(me, 0xfffd, 1);
            }
        }
        let left = ALEFT.with(|l| l.get());
        if left > 0 {
            ALEFT.with(|l| l.set(left - 1));
            if left == 1 {
                let (p, n) = ANEXT.with(|n| n.get());
                if n > 0 {
                    ALEFT.with(|l| l.set(*p));
                    ANEXT.with(|x| x.set((p.add(1), n - 1)));
                }
                let me = ME.with(|m| m.get());
                let s = CURRENT.load(SeqCst);
                if !s.is_null() && me != usize::MAX {
                    let armed = ARMED.with(|a| a.replace(false));
                    *(*s).preempts.get() += 1;
                    (*s).point(me, 0xfffe);
                    ARMED.with(|a| a.set(armed));
                }
            }
        }
        guard(false);
        ONE.with(|o| o.set(true));
        uc.uc_mcontext.gregs[libc::REG_EFL as usize] |= 0x100;
    }
}

/// Probes whether instruction stepping works here, and turns it on if so.
pub fn init_stepping() -> bool {
    #[cfg(target_arch = "x86_64")]
    unsafe {
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_trap as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
        if libc::sigaction(libc::SIGTRAP, &sa, std::ptr::null_mut()) != 0 {
            return false;
        }
        TF_OK.store(true, SeqCst);
        if lib_bytes() > 0 {
            sa.sa_sigaction = on_access as usize;
            libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        }
        let probe = || {
            STEPPED.store(0, SeqCst);
            let a = [1000u32];
            {
                let w = Window::open(&a, &[]);
                let mut x = 1u64;
                for i in 0..50u64 {
                    x = std::hint::black_box(x.wrapping_mul(i | 3));
                }
                std::hint::black_box(x);
                drop(w);
            }
            STEPPED.load(SeqCst)
        };
        let (x, y) = (probe(), probe());
        let ok = x == y && x >= 50;
        TF_OK.store(ok, SeqCst);
        return ok;
    }
    #[allow(unreachable_code)]
    false
}

/// While open, the library runs on behalf of the step: its instructions are
/// counted for preemption.
pub struct Window {
    saved: (u32, (*const u32, usize), u32, (*const u32, usize)),
    acc: bool,
}

impl Window {
    pub fn open(pre: &[u32], shared: &[u32]) -> Window {
        let saved = (LEFT.with(|l| l.get()), NEXT.with(|n| n.get()), ALEFT.with(|l| l.get()), ANEXT.with(|n| n.get()));
        let s = CURRENT.load(SeqCst);
        let many = !s.is_null() && unsafe { (*s).n > 1 };
        let acc = TF_OK.load(SeqCst) && lib_bytes() > 0 && (many || !shared.is_empty());
        COUNT.with(|c| c.set(0));
        if acc && OPEN.fetch_add(1, SeqCst) == 0 {
            guard(true);
        }
        if acc && !shared.is_empty() {
            ANEXT.with(|n| n.set((shared[1..].as_ptr(), shared.len() - 1)));
            ALEFT.with(|l| l.set(shared[0].max(1)));
        } else {
            ALEFT.with(|l| l.set(0));
        }
        if TF_OK.load(SeqCst) && !pre.is_empty() {
            NEXT.with(|n| n.set((pre[1..].as_ptr(), pre.len() - 1)));
            LEFT.with(|l| l.set(pre[0].max(1)));
            tf_set();
        } else {
            LEFT.with(|l| l.set(0));
        }
        Window { saved, acc }
    }
}

impl Drop for Window {
    fn drop(&mut self) {
        tf_clear();
        LEFT.with(|l| l.set(self.saved.0));
        NEXT.with(|n| n.set(self.saved.1));
        ALEFT.with(|l| l.set(self.saved.2));
        ANEXT.with(|n| n.set(self.saved.3));
        if self.acc && OPEN.fetch_sub(1, SeqCst) == 1 {
            guard(false);
        }
    }
}

/// Suspends counting (and allocation failures) while simulator code runs.
pub struct Pause {
    left: u32,
    aleft: u32,
    armed: bool,
}

impl Pause {
    #[inline(always)]
    pub fn begin() -> Pause {
        tf_clear();
        Pause { left: LEFT.with(|l| l.replace(0)), aleft: ALEFT.with(|l| l.replace(0)), armed: ARMED.with(|a| a.replace(false)) }
    }
    pub fn end(self) {
        ARMED.with(|a| a.set(self.armed));
        ALEFT.with(|l| l.set(self.aleft));
        LEFT.with(|l| l.set(self.left));
        if self.left > 0 {
            tf_set();
        }
    }
}

/// Called when a panic starts: nothing is counted during unwinding, and the
/// panic machinery may allocate.
pub fn panicking() {
    tf_clear();
    LEFT.with(|l| l.set(0));
    ALEFT.with(|l| l.set(0));
    ARMED.with(|a| a.set(false));
}

pub fn disarm() {
    ARMED.with(|a| a.set(false));
}

/// Fills the stack below the caller with the pattern, so that whatever the next
/// call reads without writing first is the plan's choice.
#[inline(never)]
pub fn scribble(pat: u64) {
    let mut a = std::mem::MaybeUninit::<[u64; 640]>::uninit();
    let p = a.as_mut_ptr() as *mut u64;
    for i in 0..640 {
        unsafe { std::ptr::write_volatile(p.add(i), pat) };
    }
    std::hint::black_box(&mut a);
}
