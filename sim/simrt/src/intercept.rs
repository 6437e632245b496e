//! The libc entry points through which Rust's standard library, rayon, rand and `time`
//! reach threads, locks, clocks and entropy. While a simulation is active they are served
//! by the simulator; otherwise they pass straight to the kernel or to libc.
#![allow(clippy::missing_safety_doc)]
use crate::raw;
use crate::sim;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

extern "C" {
    fn dlsym(h: *mut u8, name: *const u8) -> *mut u8;
    fn __errno_location() -> *mut i32;
    fn pthread_key_create(k: *mut u32, d: Option<unsafe extern "C" fn(*mut u8)>) -> i32;
    fn pthread_setspecific(k: u32, v: *const u8) -> i32;
}

unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

unsafe fn next(name: &'static [u8], slot: &AtomicUsize) -> usize {
    let p = slot.load(Relaxed);
    if p != 0 {
        return p;
    }
    let p = dlsym(-1isize as *mut u8, name.as_ptr()) as usize; // RTLD_NEXT
    slot.store(p, Relaxed);
    p
}

// ---------------------------------------------------------------- system calls, futexes

const WAIT: i64 = 0;
const WAKE: i64 = 1;
const WAIT_BITSET: i64 = 9;
const WAKE_BITSET: i64 = 10;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if let Some(m) = sim::me() {
        match n {
            raw::SYS_FUTEX => {
                let op = b & 0x7f & !128;
                match op {
                    WAIT | WAIT_BITSET => {
                        let deadline = if d == 0 {
                            u64::MAX
                        } else {
                            let ts = d as *const i64;
                            let ns = (*ts as u64).saturating_mul(1_000_000_000).saturating_add(*ts.add(1) as u64);
                            if op == WAIT {
                                ns.saturating_add(sim::mono_ns() - 1_000_000_000)
                            } else {
                                ns.saturating_sub(1_000_000_000)
                            }
                        };
                        let bits = if op == WAIT { u32::MAX } else { f as u32 };
                        return ret(sim::futex_wait(m, a as usize, c as u32, bits, deadline));
                    }
                    WAKE | WAKE_BITSET => {
                        let bits = if op == WAKE { u32::MAX } else { f as u32 };
                        return ret(sim::futex_wake(a as usize, c as u32, bits));
                    }
                    _ => {}
                }
            }
            raw::SYS_GETRANDOM => return getrandom(a as *mut u8, b as usize, c as u32) as i64,
            raw::SYS_CLOCK_GETTIME => return clock_gettime(a as i32, b as *mut i64) as i64,
            _ => {}
        }
    }
    ret(raw::sys(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- entropy

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sim::me().is_some() {
        let r = match sim::entropy(buf, len, false) {
            sim::Ent::Ok(n) => n as i64,
            sim::Ent::Err(e) => e,
        };
        sim::point();
        return ret(r) as isize;
    }
    ret(raw::sys(raw::SYS_GETRANDOM, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut u8, len: usize) -> i32 {
    let mut got = 0;
    while got < len {
        let r = getrandom(buf.add(got), len - got, 0);
        if r < 0 {
            if *__errno_location() == 4 {
                continue;
            }
            return -1;
        }
        got += r as usize;
    }
    0
}

const DEV_FD: i32 = 900_000;

unsafe fn is_random_device(p: *const u8) -> bool {
    let s = std::ffi::CStr::from_ptr(p.cast()).to_bytes();
    s == b"/dev/urandom" || s == b"/dev/random"
}

unsafe fn do_open(path: *const u8, flags: i32, mode: i32) -> i32 {
    if sim::me().is_some() && is_random_device(path) {
        sim::probe("entropy-device-fallback");
        return DEV_FD;
    }
    ret(raw::sys(raw::SYS_OPENAT, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: i32) -> i32 {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: i32) -> i32 {
    do_open(path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if fd == DEV_FD && sim::me().is_some() {
        let r = match sim::entropy(buf, len, true) {
            sim::Ent::Ok(n) => n as i64,
            sim::Ent::Err(e) => e,
        };
        return ret(r) as isize;
    }
    ret(raw::sys(raw::SYS_READ, fd as i64, buf as i64, len as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32 {
    if n == 1 && (*fds)[0] == DEV_FD && sim::me().is_some() {
        (*fds)[1] = ((*fds)[1] & 0xffff) | (1 << 16);
        return 1;
    }
    ret(raw::sys(raw::SYS_POLL, fds as i64, n as i64, ms as i64, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if fd == DEV_FD {
        return 0;
    }
    ret(raw::sys(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- clocks

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if sim::me().is_some() {
        let ns = match id {
            0 | 5 | 11 => {
                sim::point();
                sim::wall_ns()
            }
            _ => sim::mono_ns() as i64,
        };
        *ts = ns.div_euclid(1_000_000_000);
        *ts.add(1) = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    ret(raw::sys(raw::SYS_CLOCK_GETTIME, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut i64, _tz: *mut u8) -> i32 {
    if sim::me().is_some() {
        let ns = sim::wall_ns();
        *tv = ns.div_euclid(1_000_000_000);
        *tv.add(1) = ns.rem_euclid(1_000_000_000) / 1000;
        return 0;
    }
    ret(raw::sys(raw::SYS_GETTIMEOFDAY, tv as i64, 0, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn time(out: *mut i64) -> i64 {
    let mut ts = [0i64; 2];
    clock_gettime(0, ts.as_mut_ptr());
    if !out.is_null() {
        *out = ts[0];
    }
    ts[0]
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if let Some(m) = sim::me() {
        let ns = (*req as u64).saturating_mul(1_000_000_000).saturating_add(*req.add(1) as u64);
        let now = sim::mono_ns() - 1_000_000_000;
        let deadline = if flags & 1 == 1 { ns.saturating_sub(1_000_000_000) } else { now.saturating_add(ns) };
        sim::sleep_until(m, deadline);
        return 0;
    }
    (-raw::sys(raw::SYS_CLOCK_NANOSLEEP, id as i64, flags as i64, req as i64, rem as i64, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if sim::me().is_some() {
        return clock_nanosleep(1, 0, req, rem);
    }
    ret(raw::sys(raw::SYS_NANOSLEEP, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

// ---------------------------------------------------------------- identity

/// Every simulated process has the same id, as containers have: nothing may be drawn from it.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sim::me().is_some() {
        sim::probe("getpid");
        return 7;
    }
    raw::sys(39, 0, 0, 0, 0, 0, 0) as i32
}

// ---------------------------------------------------------------- threads

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if let Some(m) = sim::me() {
        sim::yield_now(m);
        return 0;
    }
    raw::sys(raw::SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0);
    0
}

type Start = unsafe extern "C" fn(*mut u8) -> *mut u8;

struct Boot {
    tid: usize,
    start: Start,
    arg: *mut u8,
}

static KEY: AtomicU32 = AtomicU32::new(u32::MAX);

unsafe extern "C" fn on_exit(_: *mut u8) {
    sim::thread_exit();
}

unsafe extern "C" fn trampoline(p: *mut u8) -> *mut u8 {
    let b = Box::from_raw(p.cast::<Boot>());
    let (tid, start, arg) = (b.tid, b.start, b.arg);
    sim::thread_start(tid);
    drop(b);
    pthread_setspecific(KEY.load(Relaxed), (tid + 1) as *const u8);
    start(arg)
}

static REAL_CREATE: AtomicUsize = AtomicUsize::new(0);
static REAL_JOIN: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub unsafe extern "C" fn pthread_create(th: *mut usize, attr: *const u8, start: Start, arg: *mut u8) -> i32 {
    let real: unsafe extern "C" fn(*mut usize, *const u8, Start, *mut u8) -> i32 =
        std::mem::transmute(next(b"pthread_create\0", &REAL_CREATE));
    if sim::me().is_some() {
        if KEY.load(Relaxed) == u32::MAX {
            let mut k = 0;
            pthread_key_create(&mut k, Some(on_exit));
            KEY.store(k, Relaxed);
        }
        sim::point();
        let Some(tid) = sim::spawn_begin() else { return 11 };
        let b = Box::into_raw(Box::new(Boot { tid, start, arg }));
        let r = real(th, attr, trampoline, b.cast());
        assert!(r == 0, "simulator: real thread creation failed");
        sim::spawn_done(tid, *th);
        sim::point();
        return 0;
    }
    real(th, attr, start, arg)
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(th: usize, out: *mut *mut u8) -> i32 {
    if let Some(m) = sim::me() {
        sim::join(m, th);
    }
    let real: unsafe extern "C" fn(usize, *mut *mut u8) -> i32 =
        std::mem::transmute(next(b"pthread_join\0", &REAL_JOIN));
    real(th, out)
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, len: usize, mask: *mut u8) -> i32 {
    if sim::me().is_some() {
        std::ptr::write_bytes(mask, 0, len);
        let w = sim::cpus();
        for i in 0..w {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = raw::sys(raw::SYS_SCHED_GETAFFINITY, pid as i64, len as i64, mask as i64, 0, 0, 0);
    if r >= 0 {
        for i in (r as usize)..len {
            *mask.add(i) = 0;
        }
    }
    ret(if r > 0 { 0 } else { r }) as i32
}

// ---------------------------------------------------------------- instrumentation callbacks

pub const MAX_GUARDS: usize = 1 << 18;
pub static mut COV: *mut u8 = std::ptr::null_mut();
pub static mut N_GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        N_GUARDS += 1;
        *a = N_GUARDS;
        a = a.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !sim::ACTIVE {
        return;
    }
    sim::LAST_GUARD = *g;
    if !COV.is_null() && (*g as usize) < MAX_GUARDS {
        *COV.add(*g as usize) = 1;
    }
    sim::point();
}

macro_rules! access {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_a: *const u8) {
            sim::point();
        }
    )* };
}
access!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);
