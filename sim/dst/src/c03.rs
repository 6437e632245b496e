//! C03: unseeded draws are fresh, and fail loudly when there is no entropy.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Fault, Outcome, Rng};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use RustQuant_math::distributions::{
    Bernoulli, Binomial, ChiSquared, Distribution, DistributionClass, Exponential, Gamma, Gaussian, Poisson, Uniform,
};
use RustQuant_stochastics::StochasticVolatilityProcess;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "draw", rename_all = "snake_case")]
enum Draw {
    Paths { spec: Spec, par: bool },
    StochVol { spec: Spec, par: bool },
    Sample { dist: u64, n: u64 },
    Lsm { sims: u64, steps: u64 },
    Fgn { fft: bool, n: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    /// what each thread draws, in order
    threads: Vec<Vec<Draw>>,
    /// one thread at a time, on fresh threads
    one_by_one: bool,
}

struct Sv;
impl StochasticVolatilityProcess for Sv {
    fn drift_1(&self, x: f64, _t: f64) -> f64 {
        0.1 * x
    }
    fn drift_2(&self, y: f64, _t: f64) -> f64 {
        1.5 * (0.04 - y)
    }
    fn diffusion_1(&self, x: f64, _t: f64) -> f64 {
        0.3 * x
    }
    fn diffusion_2(&self, _y: f64, _t: f64) -> f64 {
        0.2
    }
}

pub const DISTS: u64 = 8;

fn sample(d: u64, n: usize) -> Result<Vec<f64>, String> {
    fn f<E: std::fmt::Debug>(e: E) -> String { format!("{e:?}") }
    match d % DISTS {
        0 => Gaussian::new(0.5, 2.0).sample(n).map_err(f),
        1 => Uniform::new(-1.0, 3.0, DistributionClass::Continuous).sample(n).map_err(f),
        2 => Exponential::new(1.5).sample(n.max(160)).map_err(f),
        3 => Gamma::new(2.0, 1.5).sample(n.max(160)).map_err(f),
        4 => ChiSquared::new(3).sample(n.max(160)).map_err(f),
        5 => Poisson::new(40.0).sample(n.max(60)).map_err(f),
        6 => Binomial::new(60, 0.4).sample(n.max(60)).map_err(f),
        _ => Bernoulli::new(0.5).sample(n.max(200)).map_err(f),
    }
}

/// Hashes of everything a draw returned (one per path or sample), and a label.
fn draw(d: &Draw) -> Result<Vec<u64>, String> {
    match d {
        Draw::Paths { spec, par } => {
            let t = spec.generate(*par, None);
            Ok(sim::quiet(|| t.paths.iter().map(|p| hash_f64s(p)).collect()))
        }
        Draw::StochVol { spec, par } => {
            let t: Traj = Sv
                .euler_maruyama(spec.x0(), 0.04, spec.t0(), spec.tn(), spec.steps as usize, spec.paths as usize, *par)
                .into();
            Ok(sim::quiet(|| t.paths.iter().map(|p| hash_f64s(p)).collect()))
        }
        Draw::Sample { dist, n } => {
            let x = sample(*dist, *n as usize)?;
            if x.is_empty() {
                return Err("empty sample".into());
            }
            Ok(vec![hash_f64s(&x)])
        }
        Draw::Lsm { sims, steps } => {
            use time::macros::date;
            let p = RustQuant_instruments::LongstaffScwhartzPricer::new(
                15.0,
                10.0,
                0.05,
                0.3,
                Some(date!(2024 - 01 - 01)),
                date!(2025 - 01 - 01),
                *steps as u32,
                RustQuant_instruments::TypeFlag::Call,
                *sims,
                None,
            );
            Ok(vec![hash_f64s(&[p.generate_price()])])
        }
        Draw::Fgn { fft, n } => {
            use RustQuant_stochastics::{fgn_cholesky, fgn_fft};
            let x = if *fft { fgn_fft(0.7, *n as usize, 1.0, None) } else { fgn_cholesky(0.7, *n as usize, 1.0, None) };
            Ok(vec![hash_f64s(&x)])
        }
    }
}

fn label(d: &Draw) -> String {
    match d {
        Draw::Paths { spec, .. } => format!("paths/{}", spec.kind),
        Draw::StochVol { .. } => "paths/stochastic-volatility".into(),
        Draw::Sample { dist, .. } => format!("sample/{}", dist % DISTS),
        Draw::Lsm { .. } => "longstaff-schwartz".into(),
        Draw::Fgn { fft, .. } => format!("fgn/{fft}"),
    }
}

pub struct C03;

fn gen_draw(r: &mut Rng) -> Draw {
    let kinds = ["bm", "abm", "gbm", "ou", "hw", "holee", "merton", "fbm", "fou", "custom", "cir"];
    let mut spec = gen_spec(r, &kinds, 25, 12);
    spec.x0 = r.range(500, 2_000);
    spec.len = r.range(100, 2_000);
    spec.steps = spec.steps.max(3);
    spec.p[0] = 300;
    spec.p[1] = spec.p[1].max(100);
    match r.below(10) {
        0..=4 => Draw::Paths { spec, par: r.chance(0.6) },
        5 => Draw::StochVol { spec, par: r.chance(0.6) },
        6..=7 => Draw::Sample { dist: r.below(DISTS), n: r.range(3, 40) as u64 },
        8 => Draw::Lsm { sims: r.range(8, 30) as u64, steps: r.range(1, 5) as u64 },
        _ => Draw::Fgn { fft: r.chance(0.5), n: r.range(4, 20) as u64 },
    }
}

impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "1-4 threads of two processes, started at the same clock reading with the same process id, each make 1-5 unseeded draws (simulations, stochastic volatility, distribution samples, Longstaff-Schwartz, fractional noise); all results over threads, calls and processes must differ; entropy requests are interrupted, cut short, unsupported or refused for good; non-trivial: at least two comparable draws; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _tier: Tier) -> Plan {
        let common = gen_draw(r);
        let threads = (0..r.range(1, 4))
            .map(|_| (0..r.range(1, 5)).map(|_| if r.chance(0.5) { common.clone() } else { gen_draw(r) }).collect())
            .collect();
        let c = Case { threads, one_by_one: r.chance(0.3) };
        let mut e = gen_env(r, &EnvOpts { clock: false, ..EnvOpts::ALL });
        if r.chance(0.25) {
            e.faults.push(Fault::EntropyDead { from: r.below(6) });
        }
        let mut e2 = e.clone();
        e2.entropy = r.next() >> 12;
        let mut envs = vec![e, e2];
        if r.chance(0.3) {
            let mut e3 = gen_env(r, &EnvOpts { clock: false, ..EnvOpts::ALL });
            e3.epoch_ns = envs[0].epoch_ns;
            envs.push(e3);
        }
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        let mut ent: Vec<u64> = p.envs.iter().map(|e| e.entropy).collect();
        ent.sort_unstable();
        ent.dedup();
        ent.len() == p.envs.len()
            && c.threads.iter().flatten().all(|d| match d {
                Draw::Paths { spec, .. } | Draw::StochVol { spec, .. } => {
                    spec.valid() && spec.steps >= 3 && spec.p[1] >= 100 && spec.p[0] == 300 && spec.x0 >= 500 && spec.len >= 100
                }
                Draw::Sample { n, .. } => *n >= 3,
                Draw::Lsm { sims, steps } => *sims >= 8 && *steps >= 1,
                Draw::Fgn { n, .. } => *n >= 4,
            })
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        let job = |ds: &Vec<Draw>| -> Vec<Value> {
            ds.iter()
                .map(|d| match catch_unwind(AssertUnwindSafe(|| draw(d))) {
                    Ok(Ok(h)) => json!({"d": label(d), "h": h.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>()}),
                    Ok(Err(e)) => json!({"d": label(d), "err": e}),
                    Err(_) => json!({"d": label(d), "err": "panic"}),
                })
                .collect()
        };
        let mut out: Vec<Vec<Value>> = vec![];
        std::thread::scope(|sc| {
            if c.one_by_one {
                for t in &c.threads {
                    out.push(sc.spawn(move || job(t)).join().unwrap());
                }
            } else {
                let hs: Vec<_> = c.threads[1.min(c.threads.len())..].iter().map(|t| sc.spawn(move || job(t))).collect();
                if let Some(t) = c.threads.first() {
                    out.push(job(t));
                }
                for h in hs {
                    out.push(h.join().unwrap());
                }
            }
        });
        json!({ "draws": out })
    }
    fn judge(&self, _p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let mut v = vec![];
        let mut seen: BTreeMap<String, String> = BTreeMap::new();
        for (k, o) in outs.iter().enumerate() {
            if let Some(b) = bad_status(o, "unseeded") {
                v.push(b);
                continue;
            }
            let dead = o.stats.fired.contains_key("entropy-dead");
            for (t, ds) in o.result["draws"].as_array().unwrap().iter().enumerate() {
                for (i, d) in ds.as_array().unwrap().iter().enumerate() {
                    let key = d["d"].as_str().unwrap();
                    if let Some(e) = d["err"].as_str() {
                        if !dead {
                            v.push(viol(
                                "unseeded-draw-fails",
                                key,
                                format!("process {k} thread {t} draw {i}: {e} {:?} faults {:?}", o.stats.panics, o.stats.fired),
                            ));
                        }
                        continue;
                    }
                    for (n, h) in d["h"].as_array().unwrap().iter().enumerate() {
                        let here = format!("process {k} thread {t} draw {i} ({key}) item {n}");
                        if let Some(before) = seen.insert(h.as_str().unwrap().into(), here.clone()) {
                            v.push(viol("noise-repeats", key, format!("{here} equals {before}; faults {:?}", o.stats.fired)));
                        }
                    }
                }
            }
        }
        v
    }
    fn nontrivial(&self, p: &Plan, _outs: &[Outcome]) -> bool {
        let c: Case = serde_json::from_value(p.case.clone()).unwrap();
        c.threads.iter().flatten().count() >= 2
    }
    fn max_shrink_envs(&self) -> usize {
        1
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 9000,
            Tier::Thorough => 120_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_stochastics", "RustQuant_math distributions", "Longstaff-Schwartz pricer", "rand", "rayon", "std hash keys"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["entropy source with faults, clock, scheduler, process id (simulator)"]
    }
}
