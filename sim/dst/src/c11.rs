//! C11: a call's result depends on its arguments only.
use crate::catalogue::{eval, set_hook, Slot, A, CATALOGUE, NP};
use crate::fw::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Call {
    name: String,
    a: A,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Step {
    call: u64,
    /// use the thread's object of these parameters again, if there is one
    reuse: bool,
    /// run this other call inside the n-th callback of this one
    nest: Option<(u64, u64)>,
    /// before it, this many calls of the same kind with arguments from this seed
    #[serde(default)]
    fill: Option<(u64, u64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    calls: Vec<Call>,
    threads: Vec<Vec<Step>>,
}

/// Which catalogue entry: names may appear several times to weight them.
fn entry(name: &str) -> Option<usize> {
    CATALOGUE.iter().position(|e| e.0 == name)
}

fn alone(c: &Call) -> Vec<u64> {
    entry(&c.name).map(|e| eval(e, &c.a, &mut Slot::default())).unwrap_or_default()
}

type Log = Rc<RefCell<Vec<(u64, Vec<u64>)>>>;

type Slots = HashMap<(String, (Vec<u64>, Vec<(usize, i64)>)), Slot>;

fn one(c: &Call, slots: &mut Slots, reuse: bool) -> Vec<u64> {
    let Some(e) = entry(&c.name) else { return vec![] };
    if reuse {
        let s = slots.entry((c.name.clone(), c.a.object())).or_default();
        eval(e, &c.a, s)
    } else {
        eval(e, &c.a, &mut Slot::default())
    }
}

const SLOW: &[&str] = &["fdm", "lsm", "heston", "simulation", "regressions", "sweep"];

/// Calls nobody looks at: all over the arguments, or along one of them, with the same object or others.
fn crowd(c: &Call, slots: &mut Slots, n: u64, seed: u64) {
    let Some(e) = entry(&c.name) else { return };
    let n = if SLOW.contains(&c.name.as_str()) { n.min(12) } else { n };
    let mut r = Rng::new(seed);
    let mode = r.below(4);
    let axis = r.below(NP as u64) as usize;
    for k in 0..n {
        let mut a = c.a.clone();
        match mode {
            0 => a = gen_a(&mut r),
            1 => a.p[axis] = (a.p[axis] + 1 + k) % 1001,
            2 => (NP / 2..NP).for_each(|i| a.p[i] = r.below(1001)),
            _ => {
                for _ in 0..r.range(1, 3) {
                    a.p[r.below(NP as u64) as usize] = r.below(1001);
                }
            }
        }
        let x = Call { name: c.name.clone(), a };
        if mode == 2 {
            one(&x, slots, true);
        } else {
            eval(e, &x.a, &mut Slot::default());
        }
    }
    sim::probe("crowd");
}

fn history(c: &Case, steps: &[Step]) -> Vec<(u64, Vec<u64>)> {
    let mut slots = HashMap::new();
    let log: Log = Rc::default();
    for s in steps {
        let k = s.call % c.calls.len() as u64;
        if let Some((n, seed)) = s.fill {
            crowd(&c.calls[k as usize], &mut slots, n, seed);
        }
        if let Some((at, other)) = s.nest {
            let o = other % c.calls.len() as u64;
            let (log, call) = (log.clone(), c.calls[o as usize].clone());
            set_hook(Some((
                at,
                Box::new(move || {
                    sim::probe("nested-call");
                    let r = alone(&call);
                    log.borrow_mut().push((o, r));
                }),
            )));
        }
        let r = one(&c.calls[k as usize], &mut slots, s.reuse);
        set_hook(None);
        if r == [1, 0xdead] {
            sim::note_fault("call-panicked");
        } else if let Some(e) = entry(&c.calls[k as usize].name) {
            sim::probe(CATALOGUE[e].0);
        }
        log.borrow_mut().push((k, r));
    }
    drop(slots);
    let v = log.borrow().clone();
    v
}

fn parse(v: &Value) -> Case {
    serde_json::from_value(v.clone()).unwrap_or(Case { calls: vec![], threads: vec![] })
}

fn gen_a(r: &mut Rng) -> A {
    A { p: (0..NP).map(|_| r.below(1001)).collect(), eps: vec![] }
}

fn tiny(r: &mut Rng, i: usize) -> (usize, i64) {
    let e = r.log_range(1, 1_000_000_000) as i64;
    (i, if r.chance(0.5) { e } else { -e })
}

/// A few threads repeat neighbouring calls of one kind at the finest interleavings.
fn hammer(r: &mut Rng) -> Plan {
    let first = Call { name: r.pick(CATALOGUE).0.into(), a: gen_a(r) };
    let n = r.range_u(2, 3);
    let mut calls = vec![first.clone()];
    while (calls.len() as u64) < n {
        let mut c = first.clone();
        for _ in 0..r.range(1, 2) {
            // mostly the query, and not which query it is
            let i = if r.chance(0.8) { r.range_u(9, NP as u64 - 1) } else { r.below(NP as u64) } as usize;
            if r.chance(0.15) {
                c.a.eps = vec![tiny(r, i)];
                continue;
            }
            c.a.p[i] = if r.chance(0.4) { c.a.p[i].saturating_add_signed(r.range(-2, 2)) } else { r.below(1001) };
        }
        if !calls.contains(&c) {
            calls.push(c);
        }
    }
    let slow = SLOW.contains(&first.name.as_str());
    let reuse = r.chance(0.3);
    let threads = (0..r.range_u(2, 3))
        .map(|th| {
            let only = r.chance(0.6);
            (0..r.range_u(3, if slow { 6 } else { 40 }))
                .map(|_| Step { call: if only { th % n } else { r.below(n) }, reuse, nest: None, fill: None })
                .collect()
        })
        .collect();
    let mut envs: Vec<_> = (0..n).map(|_| base_env(r)).collect();
    let mut e = gen_env(r, &EnvOpts { threads: true, entropy_soft: false, clock: false, spurious: false, stall: true, spawn_fail: false });
    if r.chance(0.7) {
        e.sched.mode = "random".into();
        e.sched.change.clear();
        e.sched.burst = r.log_range(1, 100);
    }
    envs.push(e);
    Plan { prop: "C11".into(), case: serde_json::to_value(Case { calls, threads }).unwrap(), envs }
}

pub struct C11;

impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a handful of calls from a catalogue over all crates, with neighbours that differ in one or two arguments, in random histories over one to \
         four threads with reused and fresh objects, calls nested in callbacks and calls that panic, or two to three threads repeating neighbouring calls of \
         one kind at fine interleavings; each result is compared bit for bit with the \
         same call alone in its own process with other clock, entropy and hash seeds; non-trivial: some call is not the first of its history"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _t: Tier) -> Plan {
        let mut calls: Vec<Call> = vec![];
        if r.chance(0.2) {
            return hammer(r);
        }
        let n = r.range(2, 9) as usize;
        while calls.len() < n {
            let c = if calls.is_empty() || r.chance(0.35) {
                Call { name: r.pick(CATALOGUE).0.into(), a: gen_a(r) }
            } else {
                // a neighbour: one or two arguments differ, perhaps very little
                let mut c = r.pick(&calls).clone();
                for _ in 0..r.range(1, 2) {
                    let i = r.below(NP as u64) as usize;
                    if r.chance(0.2) {
                        c.a.eps = (0..r.range(1, 3)).map(|_| { let i = r.below(NP as u64) as usize; tiny(r, i) }).collect();
                        continue;
                    }
                    c.a.p[i] = if r.chance(0.4) { c.a.p[i].saturating_add_signed(r.range(-2, 2)) } else { r.below(1001) };
                }
                c
            };
            if !calls.contains(&c) {
                calls.push(c);
            }
        }
        let nt = *r.pick(&[1, 1, 2, 2, 3, 4]);
        let crowded = r.chance(0.15);
        let threads = (0..nt)
            .map(|_| {
                (0..r.range(2, 14))
                    .map(|_| Step {
                        call: r.below(n as u64),
                        reuse: r.chance(0.5),
                        nest: if r.chance(0.3) { Some((if r.chance(0.5) { r.log_range(0, 40) } else { r.below(150) }, r.below(n as u64))) } else { None },
                        fill: if crowded && r.chance(0.3) { Some((r.log_range(3, 600), r.next())) } else { None },
                    })
                    .collect()
            })
            .collect();
        let mut envs: Vec<_> = (0..n)
            .map(|_| {
                let mut e = base_env(r);
                e.epoch_ns = gen_epoch(r);
                e
            })
            .collect();
        envs.push(gen_env(r, &EnvOpts::ALL));
        Plan { prop: "C11".into(), case: serde_json::to_value(Case { calls, threads }).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let c = parse(&p.case);
        p.envs.len() >= 2
            && !c.calls.is_empty()
            && p.envs.len() == c.calls.len() + 1
            && c.calls.iter().all(|x| x.a.p.len() == NP && entry(&x.name).is_some() && x.a.p.iter().all(|&v| v <= 2000))
            && c.calls.iter().all(|x| x.a.eps.iter().all(|e| e.0 < NP && e.1.abs() <= 1_000_000_000))
            && c.threads.iter().flatten().all(|s| s.nest.map_or(true, |n| n.0 < 1000) && s.fill.map_or(true, |f| f.0 <= 5000))
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c = parse(case);
        if k < c.calls.len() {
            return json!({"ref": alone(&c.calls[k])});
        }
        let out: Vec<_> = if c.threads.len() == 1 {
            vec![history(&c, &c.threads[0])]
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = c.threads.iter().map(|h| s.spawn(|| history(&c, h))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            })
        };
        json!({"got": out})
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let c = parse(&p.case);
        let n = c.calls.len();
        for (k, o) in outs.iter().enumerate() {
            if let Some(v) = bad_status(o, if k < n { &c.calls[k].name } else { "history" }) {
                return vec![v];
            }
        }
        let none = vec![];
        let mut v = vec![];
        for (th, list) in outs[n].result["got"].as_array().unwrap_or(&none).iter().enumerate() {
            for (i, x) in list.as_array().unwrap_or(&none).iter().enumerate() {
                let k = x[0].as_u64().unwrap_or(0) as usize;
                let want = &outs[k].result["ref"];
                if x[1] != *want {
                    let show = |v: &Value| {
                        let b: Vec<u64> = v.as_array().unwrap_or(&none).iter().map(|x| x.as_u64().unwrap_or(0)).collect();
                        if b == [1, 0xdead] {
                            "a panic".to_string()
                        } else {
                            format!("{:?}", b.into_iter().take(8).map(f64::from_bits).collect::<Vec<_>>())
                        }
                    };
                    v.push(viol(
                        "depends-on-history",
                        c.calls[k].name.clone(),
                        format!(
                            "thread {th}, call {i}: {}{:?} returned {}; alone in a fresh process it returns {}",
                            c.calls[k].name,
                            (&c.calls[k].a.p, &c.calls[k].a.eps),
                            show(&x[1]),
                            show(want)
                        ),
                    ));
                    if v.len() >= 3 {
                        return v;
                    }
                }
            }
        }
        v
    }
    fn nontrivial(&self, p: &Plan, _o: &[Outcome]) -> bool {
        let c = parse(&p.case);
        let used: BTreeSet<_> = c.threads.iter().flatten().map(|s| s.call).collect();
        used.len() > 1 || c.threads.iter().any(|t| t.len() > 1)
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 15_000,
            Tier::Thorough => 600_000,
        }
    }
    fn max_shrink_envs(&self) -> usize {
        99
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_math", "RustQuant_time", "RustQuant_instruments", "RustQuant_iso", "RustQuant_ml", "RustQuant_cashflows", "RustQuant_data",
          "RustQuant_portfolios", "RustQuant_trading", "RustQuant_autodiff", "RustQuant_stochastics", "rayon"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["system clock, OS scheduler, entropy source (simulator)"]
    }
}
