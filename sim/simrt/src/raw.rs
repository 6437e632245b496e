//! Direct system calls, used only by the simulator itself: everything the code under
//! test reaches through libc goes through the symbols in `intercept.rs` instead.
use std::arch::asm;

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_POLL: i64 = 7;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_GETTIMEOFDAY: i64 = 96;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_SCHED_GETAFFINITY: i64 = 204;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_GETRANDOM: i64 = 318;

/// # Safety
/// As the system call itself.
#[inline]
pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn futex_wait(addr: *const u32, val: u32) {
    unsafe {
        sys(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0);
    }
}

pub fn futex_wake(addr: *const u32) {
    unsafe {
        sys(SYS_FUTEX, addr as i64, 128 | 1, 1, 0, 0, 0);
    }
}

pub fn exit_group(code: i32) -> ! {
    loop {
        unsafe {
            sys(SYS_EXIT_GROUP, code as i64, 0, 0, 0, 0, 0);
        }
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys(SYS_WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

/// Real monotonic time in nanoseconds.
pub fn real_now_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        sys(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
