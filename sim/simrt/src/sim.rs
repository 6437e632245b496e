//! Token-passing scheduler: real threads, of which exactly one runs at any time; which one
//! is decided here from a seeded generator (or from a recorded trace) at every
//! preemption point.
#![allow(static_mut_refs)]
use crate::raw;
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering::*};

pub const MAX_THREADS: usize = 256;
pub const NO_TID: u32 = u32::MAX;
const NS_PER_STEP: u64 = 20;
const TRACE_CAP: usize = 60_000;

// ------------------------------------------------------------------ configuration

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    /// "random", "pct", "rr", "block", "trace"
    pub mode: String,
    pub seed: u64,
    /// mean number of points between scheduling decisions ("random"), or the quantum ("rr")
    pub burst: u64,
    /// "pct": the points at which the running thread loses its priority
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub change: Vec<u64>,
    /// "trace": (point, thread) decisions that differ from "keep running / next in order"
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub trace: Vec<(u64, u32)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "kind", rename_all = "snake_case")]
pub enum Fault {
    /// The nth entropy request is interrupted.
    EntropyEintr { nth: u64 },
    /// The nth entropy request returns only `len` bytes.
    EntropyShort { nth: u64, len: u64 },
    /// The nth entropy request fails with EIO.
    EntropyEio { nth: u64 },
    /// From the nth request on there is no entropy at all.
    EntropyDead { from: u64 },
    /// The entropy system call does not exist on this kernel (device fallback).
    EntropyEnosys,
    /// At the nth wall-clock read the clock jumps by `ns` first.
    ClockJump { nth: u64, ns: i64 },
    /// At the nth wall-clock read the clock jumps to `before` ns before next midnight;
    /// the read after it is past midnight.
    ClockMidnight { nth: u64 },
    /// The nth futex wait returns without having been woken.
    Spurious { nth: u64 },
    /// The nth thread creation fails with EAGAIN.
    SpawnFail { nth: u64 },
    /// Thread `tid` gets no processor from point `at` for `len` points.
    Stall { tid: u32, at: u64, len: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Env {
    pub sched: Sched,
    /// worker threads of a default thread pool
    pub workers: u32,
    pub entropy: u64,
    /// wall clock at start, ns since 1970
    pub epoch_ns: i64,
    /// bytes of heap taken before the run, so that addresses differ between environments
    pub heap_pad: u64,
    pub faults: Vec<Fault>,
    pub max_steps: u64,
}

impl Default for Env {
    fn default() -> Self {
        Env {
            sched: Sched { mode: "block".into(), seed: 0, burst: 1000, change: vec![], trace: vec![] },
            workers: 1,
            entropy: 1,
            epoch_ns: 1_735_732_800_000_000_000, // 2025-01-01T12:00:00Z
            heap_pad: 0,
            faults: vec![],
            max_steps: 200_000_000,
        }
    }
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Futex { addr: usize, bits: u32 },
    Sleep,
    Join { target: usize },
    Exited,
}

struct Th {
    st: St,
    deadline: u64, // u64::MAX = none
    timed_out: bool,
    pri: u64,
    pthread: usize,
}

pub struct Sim {
    env: Env,
    rng: Rng,
    ent: Rng,
    th: Vec<Th>,
    cur: usize,
    mode: Mode,
    low_pri: u64,
    change_idx: usize,
    trace_idx: usize,
    trace_out: Vec<(u64, u32)>,
    trace_full: bool,
    pub hash: u64,
    pub switches: u64,
    skew: u64, // ns added to simulated time on top of steps
    real_off: i64,
    midnight: Option<i64>,
    n_wait: u64,
    n_spawn: u64,
    n_entropy: u64,
    n_clock: u64,
    frozen: Option<i64>,
    reads: Vec<i64>,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub log_hash: u64,
    panics: Vec<String>,
    out_fd: i32,
    stalls_seen: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Random,
    Pct,
    Rr,
    Block,
    Trace,
}

pub static mut ACTIVE: bool = false;
pub static mut STEP: u64 = 0;
static mut NEXT: u64 = u64::MAX;
static mut SIM: Option<Box<Sim>> = None;
pub static mut LAST_GUARD: u32 = 0;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU32 = AtomicU32::new(0);
static TOK: [AtomicU32; MAX_THREADS] = [Z; MAX_THREADS];

thread_local! {
    static TID: Cell<u32> = const { Cell::new(NO_TID) };
}

/// The simulated thread this is, if the simulator is in control of it.
#[inline(always)]
pub fn me() -> Option<usize> {
    unsafe {
        if !ACTIVE {
            return None;
        }
    }
    let t = TID.with(|t| t.get());
    if t == NO_TID {
        None
    } else {
        Some(t as usize)
    }
}

#[inline(always)]
fn sim() -> &'static mut Sim {
    unsafe { SIM.as_mut().unwrap() }
}

pub fn with<R>(f: impl FnOnce(&mut Sim) -> R) -> Option<R> {
    me().map(|_| f(sim()))
}

/// A preemption point. Called before every basic block, load and store of the code under test.
#[inline(always)]
pub fn point() {
    unsafe {
        if !ACTIVE {
            return;
        }
        if TID.with(|t| t.get()) == NO_TID {
            return;
        }
        STEP += 1;
        if STEP >= NEXT {
            slow();
        }
    }
}

fn fnv(h: &mut u64, v: u64) {
    for b in v.to_le_bytes() {
        *h ^= b as u64;
        *h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
}

impl Sim {
    pub fn now(&self) -> u64 {
        unsafe { STEP * NS_PER_STEP + self.skew }
    }

    pub fn fire(&mut self, k: &str) {
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }

    pub fn probe(&mut self, k: &str) {
        *self.probes.entry(k.to_string()).or_insert(0) += 1;
    }

    fn eligible(&self, t: usize) -> bool {
        let th = &self.th[t];
        match th.st {
            St::Ready => true,
            St::Exited | St::Join { .. } => false,
            St::Futex { .. } | St::Sleep => th.deadline <= self.now(),
        }
    }

    fn stalled(&self, t: usize) -> bool {
        let step = unsafe { STEP };
        self.env.faults.iter().any(|f| match f {
            Fault::Stall { tid, at, len } => *tid as usize == t && step >= *at && step < *at + *len,
            _ => false,
        })
    }

    fn candidates(&mut self, exclude: Option<usize>) -> Vec<usize> {
        let all: Vec<usize> =
            (0..self.th.len()).filter(|t| Some(*t) != exclude && self.eligible(*t)).collect();
        if self.env.faults.is_empty() {
            return all;
        }
        let live: Vec<usize> = all.iter().copied().filter(|t| !self.stalled(*t)).collect();
        if live.len() != all.len() && !live.is_empty() {
            let step = unsafe { STEP };
            for i in 0..self.env.faults.len().min(64) {
                if let Fault::Stall { at, len, tid } = self.env.faults[i] {
                    if step >= at && step < at + len && all.contains(&(tid as usize)) && self.stalls_seen >> i & 1 == 0 {
                        self.stalls_seen |= 1 << i;
                        self.fire("stall");
                    }
                }
            }
        }
        if live.is_empty() {
            all
        } else {
            live
        }
    }

    /// Choose among `c` (non-empty). `default` is what an empty trace would choose.
    fn choose(&mut self, c: &[usize], default: usize) -> usize {
        match self.mode {
            Mode::Random => c[self.rng.below(c.len() as u64) as usize],
            Mode::Pct => *c.iter().max_by_key(|t| (self.th[**t].pri, **t)).unwrap(),
            Mode::Rr => default,
            Mode::Block => default,
            Mode::Trace => {
                let step = unsafe { STEP };
                while self.trace_idx < self.env.sched.trace.len()
                    && self.env.sched.trace[self.trace_idx].0 < step
                {
                    self.trace_idx += 1;
                }
                match self.env.sched.trace.get(self.trace_idx) {
                    Some((s, t)) if *s == step && c.contains(&(*t as usize)) => *t as usize,
                    _ => default,
                }
            }
        }
    }

    fn record(&mut self, chosen: usize, default: usize) {
        if chosen != default {
            if self.trace_out.len() < TRACE_CAP {
                self.trace_out.push((unsafe { STEP }, chosen as u32));
            } else {
                self.trace_full = true;
            }
        }
    }

    /// Set the next point at which a decision is taken.
    fn rearm(&mut self) {
        unsafe {
            // A long run may not spend all its time switching: past each 100 000 switches, bursts grow.
            let burst = self.env.sched.burst.saturating_mul(1 << (2 * (self.switches / 100_000)).min(20));
            let mut next = match self.mode {
                Mode::Random => {
                    let u = 1.0 - self.rng.f();
                    STEP + 1 + (-(u.ln()) * burst as f64) as u64
                }
                Mode::Rr => STEP + burst.max(1),
                Mode::Block => u64::MAX,
                Mode::Pct => {
                    self.env.sched.change.get(self.change_idx).copied().unwrap_or(u64::MAX).max(STEP + 1)
                }
                Mode::Trace => {
                    let mut n = u64::MAX;
                    for (s, _) in &self.env.sched.trace[self.trace_idx..] {
                        if *s > STEP {
                            n = *s;
                            break;
                        }
                    }
                    n
                }
            };
            for f in &self.env.faults {
                if let Fault::Stall { at, len, .. } = f {
                    if *at > STEP {
                        next = next.min(*at);
                    }
                    if self.mode != Mode::Trace && *at + *len > STEP {
                        next = next.min(*at + *len);
                    }
                }
            }
            NEXT = next.min(self.env.max_steps.max(STEP + 1));
        }
    }

    fn after_cyclic(&self, c: &[usize], me: usize) -> usize {
        c.iter().copied().find(|t| *t > me).unwrap_or(c[0])
    }

    fn make_ready(&mut self, t: usize) {
        self.th[t].st = St::Ready;
        self.th[t].deadline = u64::MAX;
        if self.mode == Mode::Pct {
            unsafe { NEXT = NEXT.min(STEP + 1) };
        }
    }
}

/// A preemptive decision.
#[cold]
#[inline(never)]
fn slow() {
    let s = sim();
    let m = s.cur;
    unsafe {
        if STEP >= s.env.max_steps {
            die("step-limit");
        }
    }
    if s.mode == Mode::Pct {
        while s.change_idx < s.env.sched.change.len()
            && unsafe { STEP } >= s.env.sched.change[s.change_idx]
        {
            s.change_idx += 1;
            s.low_pri -= 1;
            let lp = s.low_pri;
            s.th[m].pri = lp;
        }
    }
    let c = s.candidates(None);
    let stall_me = !c.contains(&m);
    let default = if stall_me || s.mode == Mode::Rr { s.after_cyclic(&c, m) } else { m };
    let t = s.choose(&c, default);
    // In a trace the default of a running thread is to keep running.
    let base = if stall_me { s.after_cyclic(&c, m) } else { m };
    s.record(t, base);
    s.rearm();
    if t != m {
        s.fire_switch(m, t, true);
        hand_over(m, t);
    }
}

impl Sim {
    fn fire_switch(&mut self, from: usize, to: usize, preempt: bool) {
        self.switches += 1;
        let g = unsafe { LAST_GUARD } as u64;
        fnv(&mut self.hash, (from as u64) << 40 | (to as u64) << 32 | g << 1 | preempt as u64);
    }

    /// The thread about to run was waiting for a deadline: that wait ends now.
    fn on_resume(&mut self, t: usize) {
        if self.th[t].st != St::Ready {
            debug_assert!(self.th[t].deadline <= self.now());
            self.th[t].timed_out = true;
            self.th[t].st = St::Ready;
            self.th[t].deadline = u64::MAX;
        }
    }
}

fn hand_over(m: usize, t: usize) {
    let s = sim();
    s.on_resume(t);
    s.cur = t;
    TOK[t].store(1, Release);
    raw::futex_wake(TOK[t].as_ptr());
    wait_token(m);
}

fn wait_token(m: usize) {
    while TOK[m].load(Acquire) == 0 {
        raw::futex_wait(TOK[m].as_ptr(), 0);
    }
    TOK[m].store(0, Relaxed);
}

/// The current thread cannot go on (or gives way): pick another.
/// `yielding`: the thread stays runnable but others are preferred.
fn give_up(m: usize, yielding: bool, exiting: bool) {
    unsafe {
        STEP += 1;
        if STEP >= sim().env.max_steps {
            die("step-limit");
        }
    }
    let s = sim();
    let mut c = s.candidates(Some(m));
    if yielding && c.is_empty() {
        return;
    }
    if c.is_empty() {
        // everyone waits: jump to the earliest deadline
        let d = (0..s.th.len())
            .filter(|t| s.th[*t].st != St::Exited)
            .map(|t| s.th[t].deadline)
            .min()
            .unwrap_or(u64::MAX);
        if d == u64::MAX {
            die("deadlock");
        }
        let now = s.now();
        if d > now {
            s.skew += d - now;
            s.probe("clock-jump-to-deadline");
        }
        c = s.candidates(None);
    }
    if yielding && s.mode == Mode::Pct {
        s.low_pri -= 1;
        let lp = s.low_pri;
        s.th[m].pri = lp;
    }
    let default = s.after_cyclic(&c, m);
    let t = s.choose(&c, default);
    s.record(t, default);
    s.rearm();
    if t == m {
        s.on_resume(t);
        return;
    }
    s.fire_switch(m, t, false);
    if exiting {
        s.on_resume(t);
        s.cur = t;
        TID.with(|x| x.set(NO_TID));
        TOK[t].store(1, Release);
        raw::futex_wake(TOK[t].as_ptr());
    } else {
        hand_over(m, t);
    }
}

// ------------------------------------------------------------------ operations

pub const EAGAIN: i64 = -11;
pub const ETIMEDOUT: i64 = -110;

/// `deadline` in simulated monotonic ns.
pub fn futex_wait(m: usize, addr: usize, val: u32, bits: u32, deadline: u64) -> i64 {
    point();
    if unsafe { (*(addr as *const AtomicU32)).load(SeqCst) } != val {
        return EAGAIN;
    }
    let s = sim();
    let n = s.n_wait;
    s.n_wait += 1;
    if s.env.faults.iter().any(|f| matches!(f, Fault::Spurious { nth } if *nth == n)) {
        s.fire("spurious-wakeup");
        give_up(m, true, false);
        return 0;
    }
    s.th[m].st = St::Futex { addr, bits };
    s.th[m].deadline = deadline;
    s.th[m].timed_out = false;
    give_up(m, false, false);
    if sim().th[m].timed_out {
        sim().th[m].timed_out = false;
        ETIMEDOUT
    } else {
        0
    }
}

pub fn futex_wake(addr: usize, n: u32, bits: u32) -> i64 {
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let w: Vec<usize> = (0..s.th.len())
            .filter(|t| matches!(s.th[*t].st, St::Futex { addr: a, bits: b } if a == addr && b & bits != 0))
            .collect();
        if w.is_empty() {
            break;
        }
        unsafe { STEP += 1 };
        let t = if w.len() == 1 { w[0] } else { s.choose(&w, w[0]) };
        s.record(t, w[0]);
        s.make_ready(t);
        woken += 1;
    }
    unsafe {
        if STEP >= NEXT {
            slow();
        }
    }
    woken as i64
}

pub fn yield_now(m: usize) {
    give_up(m, true, false);
}

pub fn sleep_until(m: usize, deadline: u64) {
    let s = sim();
    s.th[m].st = St::Sleep;
    s.th[m].deadline = deadline;
    give_up(m, false, false);
    sim().th[m].timed_out = false;
}

/// Register a thread about to be created; `None` if the creation is to fail.
pub fn spawn_begin() -> Option<usize> {
    let s = sim();
    let n = s.n_spawn;
    s.n_spawn += 1;
    if s.env.faults.iter().any(|f| matches!(f, Fault::SpawnFail { nth } if *nth == n)) {
        s.fire("thread-spawn-failure");
        return None;
    }
    if s.th.len() >= MAX_THREADS {
        return None;
    }
    let pri = (1 << 40) + s.rng.below(1 << 40);
    s.th.push(Th { st: St::Ready, deadline: u64::MAX, timed_out: false, pri, pthread: 0 });
    if s.mode == Mode::Pct {
        unsafe { NEXT = NEXT.min(STEP + 1) };
    }
    Some(s.th.len() - 1)
}

pub fn spawn_done(t: usize, pthread: usize) {
    sim().th[t].pthread = pthread;
}

/// First thing the new thread does.
pub fn thread_start(t: usize) {
    wait_token(t);
    TID.with(|x| x.set(t as u32));
}

/// Last thing a thread does (after its thread-local destructors).
pub fn thread_exit() {
    if let Some(m) = me() {
        let s = sim();
        s.th[m].st = St::Exited;
        s.th[m].deadline = u64::MAX;
        for t in 0..s.th.len() {
            if s.th[t].st == (St::Join { target: m }) {
                s.make_ready(t);
            }
        }
        give_up(m, false, true);
    }
}

pub fn join(m: usize, pthread: usize) {
    let s = sim();
    if let Some(t) = (0..s.th.len()).rev().find(|t| s.th[*t].pthread == pthread) {
        if s.th[t].st != St::Exited {
            s.th[m].st = St::Join { target: t };
            give_up(m, false, false);
        }
        sim().th[t].pthread = 0;
    }
}

/// What an entropy request meets.
pub enum Ent {
    Ok(usize),
    Err(i64),
}

pub fn entropy(buf: *mut u8, len: usize, via_device: bool) -> Ent {
    let s = sim();
    if !via_device && s.env.faults.iter().any(|f| matches!(f, Fault::EntropyEnosys)) {
        s.fire("entropy-enosys");
        return Ent::Err(-38);
    }
    if len == 0 {
        return Ent::Ok(0);
    }
    let n = s.n_entropy;
    s.n_entropy += 1;
    let mut give = len;
    let mut err = 0;
    let mut kind = "";
    for f in &s.env.faults {
        match f {
            Fault::EntropyEintr { nth } if *nth == n => {
                err = -4;
                kind = "entropy-eintr";
            }
            Fault::EntropyEio { nth } if *nth == n => {
                err = -5;
                kind = "entropy-eio";
            }
            Fault::EntropyDead { from } if n >= *from => {
                err = -5;
                kind = "entropy-dead";
            }
            Fault::EntropyShort { nth, len: k } if *nth == n && (*k as usize) < len => {
                give = (*k as usize).max(1);
                kind = "entropy-short";
            }
            _ => {}
        }
    }
    if !kind.is_empty() {
        s.fire(kind);
    }
    if err != 0 {
        return Ent::Err(err);
    }
    for i in 0..give {
        unsafe { *buf.add(i) = (s.ent.next() >> 32) as u8 };
    }
    Ent::Ok(give)
}

pub const DAY_NS: i64 = 86_400_000_000_000;

/// Wall clock, ns since 1970.
pub fn wall_ns() -> i64 {
    let s = sim();
    if let Some(t) = s.frozen {
        return t;
    }
    let t = live_wall_ns();
    if s.reads.len() < 1_000_000 {
        s.reads.push(t);
    }
    t
}

/// Stop the wall clock (for the harness's reference computations), or let it go on.
pub fn freeze_wall(t: Option<i64>) {
    sim().frozen = t;
}

/// Every wall-clock time handed out so far, from the `from`th on.
pub fn wall_reads(from: usize) -> Vec<i64> {
    sim().reads[from..].to_vec()
}

pub fn n_wall_reads() -> usize {
    sim().reads.len()
}

fn live_wall_ns() -> i64 {
    let s = sim();
    let n = s.n_clock;
    s.n_clock += 1;
    if let Some(t) = s.midnight.take() {
        let base = s.env.epoch_ns + s.now() as i64;
        s.real_off = t - base;
    }
    let mut jumps = 0i64;
    let mut fired: Vec<&str> = vec![];
    let mut mid = false;
    for f in &s.env.faults {
        match f {
            Fault::ClockJump { nth, ns } if *nth == n => {
                jumps += ns;
                fired.push(if *ns < 0 { "clock-jump-back" } else { "clock-jump-forward" });
            }
            Fault::ClockMidnight { nth } if *nth == n => {
                mid = true;
                fired.push("clock-midnight");
            }
            _ => {}
        }
    }
    for k in fired {
        s.fire(k);
    }
    s.real_off += jumps;
    let mut t = s.env.epoch_ns + s.now() as i64 + s.real_off;
    if mid {
        let midnight = (t.div_euclid(DAY_NS) + 1) * DAY_NS;
        s.midnight = Some(midnight + 1_000_000);
        t = midnight - 1_000_000;
        s.real_off += t - (s.env.epoch_ns + s.now() as i64 + s.real_off);
    }
    t
}

/// Simulated wall clock without counting as a read by the code under test.
pub fn peek_wall_ns() -> i64 {
    let s = sim();
    if let Some(t) = s.midnight {
        return t;
    }
    s.env.epoch_ns + s.now() as i64 + s.real_off
}

pub fn clock_reads() -> u64 {
    sim().n_clock
}

pub fn entropy_reads() -> u64 {
    sim().n_entropy
}

pub fn mono_ns() -> u64 {
    unsafe { STEP += 1 };
    sim().now() + 1_000_000_000
}

// ------------------------------------------------------------------ child processes

pub fn log(line: String) {
    if me().is_none() {
        return;
    }
    let s = sim();
    for b in line.bytes() {
        s.log_hash = (s.log_hash ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
    }
    if s.log.len() < 4000 {
        s.log.push(line);
    }
}

/// Run harness code (no locks, no threads) without preemption points.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    struct Back(u32);
    impl Drop for Back {
        fn drop(&mut self) {
            TID.with(|x| x.set(self.0));
        }
    }
    let _b = Back(TID.with(|t| t.replace(NO_TID)));
    f()
}

pub fn probe(k: &str) {
    if unsafe { ACTIVE } {
        sim().probe(k);
    }
}

pub fn note_fault(k: &str) {
    if me().is_some() {
        sim().fire(k);
    }
}

pub fn note_panic(msg: String) {
    if me().is_some() {
        let s = sim();
        if s.panics.len() < 50 {
            s.panics.push(msg);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub sched_hash: u64,
    pub log_hash: u64,
    pub threads: u64,
    pub sim_ns: u64,
    pub fired: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub panics: Vec<String>,
    pub trace: Vec<(u64, u32)>,
    pub trace_full: bool,
    pub log: Vec<String>,
    pub clock_reads: u64,
    pub entropy_reads: u64,
    pub clock_moved_ns: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Outcome {
    /// "ok", "deadlock", "step-limit", "panic", "signal:N", "exit:N", "watchdog"
    pub status: String,
    pub result: serde_json::Value,
    pub stats: Stats,
}

fn stats(s: &Sim) -> Stats {
    Stats {
        steps: unsafe { STEP },
        switches: s.switches,
        sched_hash: s.hash,
        log_hash: s.log_hash,
        threads: s.th.len() as u64,
        sim_ns: s.now(),
        fired: s.fired.clone(),
        probes: s.probes.clone(),
        panics: s.panics.clone(),
        trace: if s.trace_full { vec![] } else { s.trace_out.clone() },
        trace_full: s.trace_full,
        log: s.log.clone(),
        clock_reads: s.n_clock,
        entropy_reads: s.n_entropy,
        clock_moved_ns: s.real_off,
    }
}

fn emit(status: &str, result: serde_json::Value) -> ! {
    unsafe { ACTIVE = false };
    let s = sim();
    let o = Outcome { status: status.into(), result, stats: stats(s) };
    let b = serde_json::to_vec(&o).unwrap();
    raw::write_all(s.out_fd, &b);
    raw::exit_group(0);
}

/// Ends the simulated process from inside the scheduler.
fn die(why: &str) -> ! {
    let s = sim();
    let states: Vec<String> =
        s.th.iter().enumerate().map(|(i, t)| format!("t{i}:{:?}", t.st)).collect();
    emit(why, serde_json::json!({ "threads": states }));
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn setenv(k: *const u8, v: *const u8, o: i32) -> i32;
    fn poll(fds: *mut [i32; 2], n: u64, ms: i32) -> i32;
    fn open(p: *const u8, flags: i32, mode: i32) -> i32;
    fn malloc(n: usize) -> *mut u8;
}

type Job = Box<dyn FnOnce() -> serde_json::Value + Send>;

/// Run `job` to completion in a forked, simulated process.
pub fn run_process(env: &Env, watchdog_ms: u64, job: Job) -> Outcome {
    let mut fds = [0i32; 2];
    let pid;
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            panic!("pipe failed");
        }
        pid = fork();
        if pid < 0 {
            panic!("fork failed");
        }
        if pid == 0 {
            close(fds[0]);
            child(env.clone(), fds[1], job);
        }
        close(fds[1]);
    }
    let mut buf: Vec<u8> = Vec::new();
    let start = raw::real_now_ns();
    let mut timed_out = false;
    loop {
        let mut p = [fds[0], 1]; // POLLIN in the low half of `events`
        let left = watchdog_ms as i64 - ((raw::real_now_ns() - start) / 1_000_000) as i64;
        if left <= 0 {
            timed_out = true;
            break;
        }
        let r = unsafe { poll(&mut p, 1, left as i32) };
        if r == 0 {
            timed_out = true;
            break;
        }
        let old = buf.len();
        buf.resize(old + 65536, 0);
        let n = unsafe {
            raw::sys(raw::SYS_READ, fds[0] as i64, buf[old..].as_mut_ptr() as i64, 65536, 0, 0, 0)
        };
        if n <= 0 {
            buf.truncate(old);
            if n == -4 {
                continue;
            }
            break;
        }
        buf.truncate(old + n as usize);
    }
    let mut st = 0;
    unsafe {
        if timed_out {
            kill(pid, 9);
        }
        waitpid(pid, &mut st, 0);
        close(fds[0]);
    }
    if timed_out {
        return Outcome { status: "watchdog".into(), result: serde_json::Value::Null, stats: Stats::default() };
    }
    match serde_json::from_slice(&buf) {
        Ok(o) => o,
        Err(_) => {
            let status = if st & 0x7f != 0 { format!("signal:{}", st & 0x7f) } else { format!("exit:{}", (st >> 8) & 0xff) };
            Outcome { status, result: serde_json::Value::Null, stats: Stats::default() }
        }
    }
}

fn child(env: Env, fd: i32, job: Job) -> ! {
    unsafe {
        let null = open(c"/dev/null".as_ptr().cast(), 2, 0);
        if null >= 0 {
            dup2(null, 1);
            dup2(null, 2);
        }
        let w = format!("{}\0", env.workers);
        setenv(c"RAYON_NUM_THREADS".as_ptr().cast(), w.as_ptr(), 1);
        setenv(c"RUST_BACKTRACE".as_ptr().cast(), c"0".as_ptr().cast(), 1);
        if env.heap_pad > 0 {
            let p = malloc(env.heap_pad as usize);
            std::ptr::write_volatile(p, 1);
        }
        let mode = match env.sched.mode.as_str() {
            "random" => Mode::Random,
            "pct" => Mode::Pct,
            "rr" => Mode::Rr,
            "trace" => Mode::Trace,
            _ => Mode::Block,
        };
        let mut s = Box::new(Sim {
            rng: Rng::derive(env.sched.seed, &[1]),
            ent: Rng::derive(env.entropy, &[2]),
            th: vec![Th { st: St::Ready, deadline: u64::MAX, timed_out: false, pri: 1 << 50, pthread: 0 }],
            cur: 0,
            mode,
            low_pri: 1 << 39,
            change_idx: 0,
            trace_idx: 0,
            trace_out: vec![],
            trace_full: false,
            hash: 0xcbf2_9ce4_8422_2325,
            switches: 0,
            skew: 0,
            real_off: 0,
            midnight: None,
            n_wait: 0,
            n_spawn: 0,
            n_entropy: 0,
            n_clock: 0,
            frozen: None,
            reads: vec![],
            fired: BTreeMap::new(),
            probes: BTreeMap::new(),
            log: vec![],
            log_hash: 0xcbf2_9ce4_8422_2325,
            panics: vec![],
            out_fd: fd,
            stalls_seen: 0,
            env,
        });
        STEP = 0;
        s.rearm();
        SIM = Some(s);
        TID.with(|t| t.set(0));
        ACTIVE = true;
    }
    let h = std::thread::Builder::new()
        .name("scenario".into())
        .spawn(move || std::panic::catch_unwind(std::panic::AssertUnwindSafe(job)))
        .expect("scenario thread");
    match h.join() {
        Ok(Ok(v)) => emit("ok", v),
        _ => emit("panic", serde_json::Value::Null),
    }
}

pub fn cpus() -> usize {
    (sim().env.workers as usize).clamp(1, 64)
}
