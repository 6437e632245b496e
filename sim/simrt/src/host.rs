//! What the driver (outside any simulation) needs from the host.
use crate::raw;

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
}

pub fn now_s() -> f64 {
    raw::real_now_ns() as f64 / 1e9
}

/// Keep this process, and the simulated processes it forks, on one processor: exactly one of
/// their threads runs at a time anyway.
pub fn pin(cpu: usize) {
    unsafe {
        let mut cur = [0u64; 16];
        let r = raw::sys(raw::SYS_SCHED_GETAFFINITY, 0, 128, cur.as_mut_ptr() as i64, 0, 0, 0);
        if r <= 0 {
            return;
        }
        let avail: Vec<usize> = (0..1024).filter(|i| cur[i / 64] >> (i % 64) & 1 == 1).collect();
        if avail.is_empty() {
            return;
        }
        let c = avail[cpu % avail.len()];
        let mut m = [0u64; 16];
        m[c / 64] |= 1 << (c % 64);
        raw::sys(203, 0, 128, m.as_ptr() as i64, 0, 0, 0);
    }
}

pub fn n_cpus() -> usize {
    unsafe {
        let mut cur = [0u64; 16];
        let r = raw::sys(raw::SYS_SCHED_GETAFFINITY, 0, 128, cur.as_mut_ptr() as i64, 0, 0, 0);
        if r <= 0 {
            return 1;
        }
        cur.iter().map(|w| w.count_ones() as usize).sum::<usize>().max(1)
    }
}

pub struct Child {
    pid: i32,
    fd: i32,
}

/// Run `f` in a forked process; its bytes are read with `collect`.
pub fn start(f: impl FnOnce() -> Vec<u8>) -> Child {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(pipe(fds.as_mut_ptr()) == 0, "pipe failed");
        let pid = fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            close(fds[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            if let Ok(b) = r {
                raw::write_all(fds[1], &b);
                raw::exit_group(0);
            }
            raw::exit_group(3);
        }
        close(fds[1]);
        Child { pid, fd: fds[0] }
    }
}

pub fn collect(c: Child) -> Option<Vec<u8>> {
    let mut buf = Vec::new();
    loop {
        let old = buf.len();
        buf.resize(old + (1 << 16), 0u8);
        let n = unsafe {
            raw::sys(raw::SYS_READ, c.fd as i64, buf[old..].as_mut_ptr() as i64, 1 << 16, 0, 0, 0)
        };
        buf.truncate(old + n.max(0) as usize);
        if n == -4 {
            continue;
        }
        if n <= 0 {
            break;
        }
    }
    let mut st = 0;
    unsafe {
        waitpid(c.pid, &mut st, 0);
        close(c.fd);
    }
    if st == 0 {
        Some(buf)
    } else {
        None
    }
}

extern "C" {
    fn personality(p: u64) -> i32;
    fn execv(path: *const u8, argv: *const *const u8) -> i32;
}

/// Re-execute this program without address-space randomisation, so that addresses repeat too.
pub fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: i32 = 0x0040000;
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur == -1 || cur & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("DST_ASLR").is_some() {
            return;
        }
        if personality((cur | ADDR_NO_RANDOMIZE) as u64) == -1 {
            return;
        }
        use std::os::unix::ffi::OsStrExt;
        let args: Vec<Vec<u8>> = std::env::args_os()
            .map(|a| {
                let mut v = a.as_bytes().to_vec();
                v.push(0);
                v
            })
            .collect();
        let mut ptrs: Vec<*const u8> = args.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        std::env::set_var("DST_ASLR", "off");
        execv(c"/proc/self/exe".as_ptr().cast(), ptrs.as_ptr());
    }
}
