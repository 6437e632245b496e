//! C04: a failing user callback reaches the caller and nothing else.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use RustQuant_instruments::{EuropeanVanillaOption, MonteCarloPricer, TypeFlag};
use RustQuant_stochastics::*;

/// How a user's model is handed to the library.
const VICTIMS: &[&str] = &["own", "own-price", "gbm", "ou", "cir", "merton", "fou", "hw", "stochvol", "gbm-price"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Job {
    victim: String,
    spec: Spec,
    par: bool,
    /// callback evaluations (in order of execution) that panic
    at: Vec<u64>,
    /// every evaluation from this one on panics (0: none)
    from: u64,
    /// fail only when the time is at least this (thousandths of the horizon); 0: by count
    when: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    job: Job,
    /// more failing simulations at the same time
    twins: u64,
    /// healthy simulations beside the failing one
    beside: Vec<(Spec, bool)>,
    /// healthy simulations afterwards
    after: Vec<(Spec, bool)>,
    pool: u64,
    repeat: u64,
}

struct Trip {
    n: AtomicU64,
    fired: AtomicU64,
    at: Vec<u64>,
    from: u64,
    when: f64,
}

impl Trip {
    fn of(j: &Job) -> Arc<Trip> {
        Arc::new(Trip {
            n: AtomicU64::new(0),
            fired: AtomicU64::new(0),
            at: j.at.clone(),
            from: if j.from == 0 { u64::MAX } else { j.from },
            when: if j.when == 0 {
                f64::INFINITY
            } else {
                j.spec.t0() + (j.spec.tn() - j.spec.t0()) * j.when as f64 / 1000.0
            },
        })
    }
    fn tick(&self, t: f64) {
        let n = self.n.fetch_add(1, SeqCst);
        if self.at.contains(&n) || n >= self.from || t >= self.when {
            self.fired.fetch_add(1, SeqCst);
            sim::note_fault("callback-panic");
            panic!("user callback failed at evaluation {n}");
        }
    }
}

struct Own(Custom, Arc<Trip>);
impl StochasticProcess for Own {
    fn drift(&self, x: f64, t: f64) -> f64 {
        self.1.tick(t);
        self.0.drift(x, t)
    }
    fn diffusion(&self, x: f64, t: f64) -> f64 {
        self.1.tick(t);
        self.0.diffusion(x, t)
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
}

struct OwnSv(Arc<Trip>);
impl StochasticVolatilityProcess for OwnSv {
    fn drift_1(&self, _x: f64, t: f64) -> f64 {
        self.0.tick(t);
        1.0
    }
    fn drift_2(&self, _y: f64, _t: f64) -> f64 {
        0.0
    }
    fn diffusion_1(&self, _x: f64, t: f64) -> f64 {
        self.0.tick(t);
        0.0
    }
    fn diffusion_2(&self, _y: f64, t: f64) -> f64 {
        self.0.tick(t);
        0.0
    }
}

fn price<P: StochasticProcess>(p: &P, s: &Spec, par: bool) -> Vec<String> {
    let o = EuropeanVanillaOption::new(s.x0(), time::macros::date!(2030 - 01 - 01), TypeFlag::Call);
    let x = o.price_monte_carlo(p, &s.config(par, Some(s.seed)), 0.03);
    vec![format!("{:016x}", bits(x))]
}

fn do_job(j: &Job, trip: &Arc<Trip>) -> Vec<String> {
    let s = &j.spec;
    let c = s.config(j.par, Some(s.seed));
    let mp = |i: usize| {
        let (t, s) = (trip.clone(), s.clone());
        ModelParameter::from(move |x: f64| {
            t.tick(x);
            s.at(i, x)
        })
    };
    let k = |i: usize| s.at(i, 0.0);
    let m = FractionalProcessGeneratorMethod::CHOLESKY;
    let t: Traj = match j.victim.as_str() {
        "own" => Own(s.custom(), trip.clone()).generate(&c).into(),
        "own-price" => return price(&Own(s.custom(), trip.clone()), s, j.par),
        "gbm" => GeometricBrownianMotion::new(mp(0), mp(1)).generate(&c).into(),
        "gbm-price" => return price(&GeometricBrownianMotion::new(mp(0), k(1)), s, j.par),
        "ou" => OrnsteinUhlenbeck::new(k(0), mp(1), k(2)).generate(&c).into(),
        "cir" => CoxIngersollRoss::new(mp(0), k(1), mp(2)).generate(&c).into(),
        "hw" => HullWhite::new(k(0), mp(1), mp(2)).generate(&c).into(),
        "merton" => MertonJumpDiffusion::new(mp(0), mp(1), 3.0, 0.1, 0.02).generate(&c).into(),
        "fou" => FractionalOrnsteinUhlenbeck::new(k(0), mp(1), mp(2), 0.7, m).generate(&c).into(),
        "stochvol" => {
            OwnSv(trip.clone()).euler_maruyama(s.x0(), 0.0, s.t0(), s.tn(), s.steps as usize, s.paths as usize, j.par).into()
        }
        v => panic!("harness: no victim {v}"),
    };
    t.digest()
}

fn attempt(j: &Job) -> Value {
    let trip = Trip::of(j);
    let r = catch_unwind(AssertUnwindSafe(|| do_job(j, &trip)));
    let fired = trip.fired.load(SeqCst);
    if fired > 1 {
        sim::probe("several-failures-in-one-call");
    }
    match r {
        Ok(d) => json!({"ok": d, "fired": fired}),
        Err(_) => json!({"panic": true, "fired": fired}),
    }
}

fn healthy(s: &Spec, par: bool) -> Value {
    match catch_unwind(AssertUnwindSafe(|| s.seeded(par))) {
        Ok(t) => json!(t.digest()),
        Err(_) => json!("panic"),
    }
}

pub struct C04;

impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "a simulation or Monte-Carlo pricing of a user's model whose callbacks panic at chosen evaluations, from one on, or from a time on (1-4 such calls at once), beside and before healthy seeded simulations; the call must unwind and every healthy result must equal a quiet process's; non-trivial: a callback failed; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, _tier: Tier) -> Plan {
        let kinds = all_kinds();
        let mut spec = gen_spec(r, &["gbm"], 120, 20);
        spec.steps = spec.steps.max(2);
        if index % 37 == 5 {
            spec.paths = r.log_range(500, 3000);
            spec.steps = 2;
        }
        let victim = VICTIMS[(index % VICTIMS.len() as u64) as usize].to_string();
        let total = (spec.paths * spec.steps * 3).max(4);
        let mut job = Job { victim, par: r.chance(0.8), at: vec![], from: 0, when: 0, spec };
        match r.below(6) {
            0 => job.from = r.log_range(1, total),
            1 => job.when = r.range_u(1, 999),
            2 => job.at = (0..r.range(2, 6)).map(|_| r.below(total)).collect(),
            3 => job.at = vec![r.below(3)],
            4 => job.at = vec![total * 2 / 3 + r.below(total)],
            _ => job.at = vec![r.below(total)],
        }
        let other = |r: &mut Rng| {
            let mut s = gen_spec(r, &kinds, 60, 12);
            if FRACTIONAL.contains(&s.kind.as_str()) {
                s.steps = s.steps.max(2);
            }
            (s, r.chance(0.75))
        };
        let c = Case {
            job,
            twins: if r.chance(0.3) { r.below(3) + 1 } else { 0 },
            beside: (0..r.below(4)).map(|_| other(r)).collect(),
            after: (0..r.range(1, 3)).map(|_| other(r)).collect(),
            pool: if r.chance(0.25) { r.log_range(1, 9) } else { 0 },
            repeat: r.range_u(1, 3),
        };
        let mut envs = vec![base_env(r)];
        envs.push(gen_env(r, &EnvOpts { entropy_soft: false, ..EnvOpts::ALL }));
        if r.chance(0.4) {
            envs.push(gen_env(r, &EnvOpts::ALL));
        }
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        p.envs.len() >= 2
            && c.job.spec.valid()
            && c.job.spec.steps >= 2
            && c.twins <= 4
            && c.pool <= 16
            && (1..=4).contains(&c.repeat)
            && c.beside.iter().chain(&c.after).all(|(s, _)| {
                s.valid() && (!FRACTIONAL.contains(&s.kind.as_str()) || s.steps >= 2)
            })
    }
    fn max_shrink_envs(&self) -> usize {
        2
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        if k == 0 {
            // what everything returns when nothing fails
            let calm = Job { at: vec![], from: 0, when: 0, par: false, ..c.job.clone() };
            return json!({
                "job": attempt(&calm),
                "beside": c.beside.iter().map(|(s, _)| healthy(s, false)).collect::<Vec<_>>(),
                "after": c.after.iter().map(|(s, _)| healthy(s, false)).collect::<Vec<_>>(),
            });
        }
        let mut jobs = vec![];
        let mut beside: Vec<Option<Value>> = vec![None; c.beside.len()];
        std::thread::scope(|sc| {
            let hs: Vec<_> = c
                .beside
                .iter()
                .enumerate()
                .filter_map(|(i, (s, par))| {
                    std::thread::Builder::new().spawn_scoped(sc, move || healthy(s, *par)).ok().map(|h| (i, h))
                })
                .collect();
            let job = &c.job;
            let ts: Vec<_> = (0..c.twins)
                .filter_map(|_| std::thread::Builder::new().spawn_scoped(sc, move || attempt(job)).ok())
                .collect();
            for _ in 0..c.repeat {
                let r = if c.pool > 0 {
                    match rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build() {
                        Ok(p) => p.install(|| attempt(&c.job)),
                        Err(_) => attempt(&c.job),
                    }
                } else {
                    attempt(&c.job)
                };
                sim::log(format!("failing call: {r}"));
                jobs.push(r);
            }
            for (i, h) in hs {
                beside[i] = Some(h.join().unwrap());
            }
            for t in ts {
                jobs.push(t.join().unwrap());
            }
        });
        let after: Vec<Value> = c.after.iter().map(|(s, par)| healthy(s, *par)).collect();
        // and the same model works once its callbacks do
        let calm = Job { at: vec![], from: 0, when: 0, ..c.job.clone() };
        json!({ "jobs": jobs, "beside": beside, "after": after, "calm": attempt(&calm) })
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let c: Case = serde_json::from_value(p.case.clone()).unwrap();
        let key = c.job.victim.clone();
        let mut v = vec![];
        for o in outs {
            v.extend(bad_status(o, &key));
        }
        if !v.is_empty() {
            return v;
        }
        let base = &outs[0].result;
        // an unseeded model has no noise here: its result is still fixed
        for (k, o) in outs.iter().enumerate().skip(1) {
            let r = &o.result;
            for (i, j) in r["jobs"].as_array().unwrap().iter().enumerate() {
                let fired = j["fired"].as_u64().unwrap();
                if fired > 0 && j.get("panic").is_none() {
                    v.push(viol("failure-swallowed", &key, format!("process {k} call {i}: {fired} callbacks panicked and the call returned {j}")));
                }
                if fired == 0 && j.get("panic").is_some() {
                    v.push(viol("panics-without-a-failure", &key, format!("process {k} call {i}: {:?}", o.stats.panics)));
                }
                if fired == 0 && j.get("ok").is_some() && j["ok"] != base["job"]["ok"] {
                    v.push(viol("healthy-result-changed", &key, format!("process {k} call {i}, in which no callback failed")));
                }
            }
            for (i, b) in r["beside"].as_array().unwrap().iter().enumerate() {
                if !b.is_null() && *b != base["beside"][i] {
                    v.push(viol("concurrent-result-changed", &c.beside[i].0.kind, format!("process {k}: simulation {i} beside a failing {key}: {b}")));
                }
            }
            for (i, b) in r["after"].as_array().unwrap().iter().enumerate() {
                if *b != base["after"][i] {
                    v.push(viol("later-result-changed", &c.after[i].0.kind, format!("process {k}: simulation {i} after a failing {key}: {b}")));
                }
            }
            if r["calm"] != base["job"] {
                v.push(viol("later-result-changed", &key, format!("process {k}: the model itself after failing: {}", r["calm"])));
            }
        }
        v
    }
    fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
        outs[1..].iter().any(|o| {
            o.result["jobs"].as_array().is_some_and(|a| a.iter().any(|j| j["fired"].as_u64().unwrap_or(0) > 0))
        })
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 7000,
            Tier::Thorough => 120_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_stochastics", "RustQuant_instruments Monte-Carlo pricer", "rayon", "panic unwinding"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["the user's model (panics where the plan says)", "OS scheduler, clock, entropy source (simulator)"]
    }
}
