//! C01: a seeded simulation is a function of its arguments and seed alone.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Fault, Outcome, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    spec: Spec,
    /// simulations run earlier in the same process: (model, parallel)
    before: Vec<(Spec, bool)>,
    /// simulations other threads run meanwhile
    beside: Vec<(Spec, bool)>,
    /// parallel flag of each repetition of the simulation under test
    calls: Vec<bool>,
    /// threads of an explicit pool the calls are made in (0: the default pool)
    pool: u64,
    /// an unseeded simulation goes first
    unseeded_first: bool,
}

pub struct C01;

fn call(s: &Spec, par: bool) -> Vec<String> {
    match catch_unwind(AssertUnwindSafe(|| s.seeded(par))) {
        Ok(t) => t.digest(),
        Err(_) => vec!["panic".into()],
    }
}

impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "a random process, scheme, grid, path count and seed, simulated once sequentially in a quiet process and then in 1-3 hostile processes (other simulations before and beside it, parallel flag, worker count, explicit pool, scheduler, clock, entropy and thread-creation faults); non-trivial: a hostile process made at least one context switch or met a fault; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan {
        let kinds = all_kinds();
        let big = if tier == Tier::Thorough { 1500 } else { 300 };
        let mut spec = gen_spec(r, &kinds, big, 30);
        spec.kind = kinds[(index % kinds.len() as u64) as usize].to_string();
        if FRACTIONAL.contains(&spec.kind.as_str()) {
            spec.steps = spec.steps.clamp(2, 24);
            spec.paths = spec.paths.min(40);
        } else if index % 61 == 7 {
            spec.paths = r.log_range(1000, 5000);
            spec.steps = r.log_range(1, 4);
        }
        let other = |r: &mut Rng| {
            let mut s = if r.chance(0.3) { spec.clone() } else { gen_spec(r, &kinds, 40, 12) };
            if r.chance(0.3) {
                s.seed = spec.seed;
            }
            (s, r.chance(0.6))
        };
        let c = Case {
            before: (0..r.below(3)).map(|_| other(r)).collect(),
            beside: (0..r.below(4)).map(|_| other(r)).collect(),
            calls: (0..r.range(1, 3)).map(|_| r.chance(0.75)).collect(),
            pool: if r.chance(0.25) { r.log_range(1, 9) } else { 0 },
            unseeded_first: r.chance(0.2),
            spec,
        };
        let mut envs = vec![base_env(r)];
        for _ in 0..r.range(1, 3) {
            let mut e = gen_env(r, &EnvOpts { spawn_fail: true, ..EnvOpts::ALL });
            if r.chance(0.1) {
                e.faults.push(Fault::EntropyDead { from: r.below(4) });
            }
            envs.push(e);
        }
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        p.envs.len() >= 2
            && c.spec.valid()
            && c.before.iter().chain(&c.beside).all(|(s, _)| s.valid())
            && !c.calls.is_empty()
            && c.pool <= 16
            && std::iter::once(&c.spec)
                .chain(c.before.iter().chain(&c.beside).map(|(s, _)| s))
                .all(|s| !FRACTIONAL.contains(&s.kind.as_str()) || s.steps >= 2)
    }
    fn max_shrink_envs(&self) -> usize {
        2
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        if k == 0 {
            return json!({ "runs": [call(&c.spec, false)] });
        }
        if c.unseeded_first {
            let _ = catch_unwind(AssertUnwindSafe(|| c.spec.generate(true, None)));
        }
        for (s, par) in &c.before {
            call(s, *par);
        }
        let mut runs = vec![];
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for (s, par) in &c.beside {
                if let Ok(h) = std::thread::Builder::new().spawn_scoped(sc, move || call(s, *par)) {
                    hs.push((s, h));
                }
            }
            let body = || {
                for par in &c.calls {
                    runs.push(call(&c.spec, *par));
                }
            };
            if c.pool > 0 {
                if let Ok(p) = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build() {
                    let mut body = body;
                    p.install(&mut body);
                }
            } else {
                let mut body = body;
                body();
            }
            for (s, h) in hs {
                let d = h.join().unwrap();
                if *s == c.spec {
                    runs.push(d);
                }
            }
        });
        for (i, r) in runs.iter().enumerate() {
            sim::log(format!("call {i}: {} paths, first {:?}", r.len() - 1, r.get(1)));
        }
        json!({ "runs": runs })
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let c: Case = serde_json::from_value(p.case.clone()).unwrap();
        let key = format!("{}/{}", c.spec.kind, c.spec.scheme);
        let mut v = vec![];
        for o in outs {
            v.extend(bad_status(o, &key));
        }
        if !v.is_empty() {
            return v;
        }
        let want = &outs[0].result["runs"][0];
        for (k, o) in outs.iter().enumerate().skip(1) {
            let resource = o.stats.fired.contains_key("thread-spawn-failure") || o.stats.fired.contains_key("entropy-dead");
            for (i, got) in o.result["runs"].as_array().unwrap().iter().enumerate() {
                if got[0] == "panic" && want[0] != "panic" {
                    if !resource {
                        v.push(viol("panics-in-some-environments", &key, format!("process {k} call {i}: {:?}", o.stats.panics)));
                    }
                    continue;
                }
                if got != want {
                    let (a, b) = (want.as_array().unwrap(), got.as_array().unwrap());
                    let d = a.iter().zip(b).position(|(x, y)| x != y);
                    v.push(viol(
                        "seeded-result-differs",
                        &key,
                        format!(
                            "process {k} call {i}: {} paths against {}, first difference at {} (0 = time grid, n = path n-1)",
                            b.len() - 1,
                            a.len() - 1,
                            d.map_or("the end".to_string(), |d| d.to_string())
                        ),
                    ));
                }
            }
        }
        v
    }
    fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
        outs[1..].iter().any(|o| o.stats.switches > 2 || !o.stats.fired.is_empty())
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 4500,
            Tier::Thorough => 150_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_stochastics (all processes, simulation loop)", "rayon", "rand", "ndrustfft"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["OS scheduler, clock, entropy source and thread creation (simulator)"]
    }
}
