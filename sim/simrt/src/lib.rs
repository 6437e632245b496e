#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
//! A deterministic simulator for in-process Rust code. See /verif/DESIGN.md.
pub mod host;
pub mod intercept;
pub mod raw;
pub mod rng;
pub mod sim;

pub use rng::Rng;
pub use sim::{run_process, Env, Fault, Outcome, Sched, Stats};

extern "C" {
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

/// Map the coverage table shared by every simulated process forked from here.
pub fn share_coverage() {
    unsafe {
        let p = mmap(std::ptr::null_mut(), intercept::MAX_GUARDS, 3, 0x21, -1, 0);
        if p as isize != -1 {
            intercept::COV = p;
        }
    }
}

pub fn coverage() -> (u64, u64) {
    unsafe {
        if intercept::COV.is_null() {
            return (0, 0);
        }
        let n = intercept::N_GUARDS as usize;
        let hit = (1..=n.min(intercept::MAX_GUARDS - 1)).filter(|i| *intercept::COV.add(*i) != 0).count();
        (hit as u64, n as u64)
    }
}

/// Which instrumented basic blocks were reached so far.
pub fn coverage_bits() -> Vec<u8> {
    unsafe {
        if intercept::COV.is_null() {
            return vec![];
        }
        let n = (intercept::N_GUARDS as usize).min(intercept::MAX_GUARDS - 1);
        (1..=n).map(|i| *intercept::COV.add(i)).collect()
    }
}
