#![feature(formatting_options, alloc_error_hook)]
#![allow(clippy::all)]

#[cfg(feature = "cells")]
mod cells;
mod cluster;
mod coll;
mod drive;
mod exec;
mod gen;
mod min;
mod node;
mod ops;
mod plan;
mod rng;
mod sched;
mod seam;
mod store;
mod text;
mod val;

use std::alloc::{GlobalAlloc, Layout, System};

/// The allocator every build of the library would get, if it asked.
struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sched::ARMED.with(|a| a.get()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if sched::ARMED.with(|a| a.get()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sched::ARMED.with(|a| a.get()) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

fn main() {
    std::alloc::set_alloc_error_hook(|l| {
        if !sched::ARMED.with(|a| a.get()) {
            eprintln!("harness: out of memory ({} bytes)", l.size());
            unsafe { libc::_exit(3) };
        }
        sched::panicking();
        std::panic::resume_unwind(Box::new(exec::AllocFailed));
    });
    std::panic::set_hook(Box::new(|info| {
        sched::panicking();
        // the simulator's own sources, except for the calls into the library
        let ours = info.location().map_or(true, |l| l.file().starts_with("src/") && !l.file().ends_with("node_impl.rs"));
        if ours {
            eprintln!("harness: {}", info);
            unsafe { libc::_exit(3) };
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(feature = "cells")]
    if args[0] == "cells" { return cells::main(&args[1..]); }
    std::process::exit(drive::main(&args));
}
