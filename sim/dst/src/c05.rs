//! C05: every path obeys its scheme's recursion on the configured grid.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use RustQuant_stochastics::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    spec: Spec,
    par: bool,
    /// simulations of the same model running in other threads at the same time (parallel flags)
    crowd: Vec<bool>,
    /// also check a stochastic-volatility model
    sv: bool,
}

/// Unit diffusion, no drift: its increments are the driving noise.
struct Noise;
impl StochasticProcess for Noise {
    fn drift(&self, _x: f64, _t: f64) -> f64 {
        0.0
    }
    fn diffusion(&self, _x: f64, _t: f64) -> f64 {
        1.0
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
}

struct Sv {
    a: f64,
    b: f64,
    noise: f64,
}
impl StochasticVolatilityProcess for Sv {
    fn drift_1(&self, x: f64, t: f64) -> f64 {
        self.a * x + self.b * t
    }
    fn drift_2(&self, y: f64, _t: f64) -> f64 {
        0.3 - y
    }
    fn diffusion_1(&self, _x: f64, _t: f64) -> f64 {
        self.noise
    }
    fn diffusion_2(&self, _y: f64, _t: f64) -> f64 {
        0.2
    }
}

type V = Vec<(String, String, String)>;

fn shape(v: &mut V, key: &str, s: &Spec, t: &Traj) -> bool {
    let n = s.steps as usize;
    let mut bad = |c: &str, d: String| v.push((c.into(), key.into(), d));
    if t.times.len() != n + 1 {
        bad("wrong-grid", format!("{} times for {n} steps", t.times.len()));
        return false;
    }
    let (t0, tn) = (s.t0(), s.tn());
    let tol = 1e-9 * (tn - t0) / n as f64 + 1e-12 * tn;
    for (k, x) in t.times.iter().enumerate() {
        let want = t0 + (tn - t0) * k as f64 / n as f64;
        if !((x - want).abs() <= tol) {
            bad("wrong-grid", format!("time {k} is {x}, the even grid from {t0} to {tn} has {want}"));
            return false;
        }
    }
    if t.paths.len() as u64 != s.paths {
        bad("wrong-path-count", format!("{} paths for {}", t.paths.len(), s.paths));
        return false;
    }
    for (i, p) in t.paths.iter().enumerate() {
        if p.len() != n + 1 {
            bad("wrong-path-length", format!("path {i} has {} points for {n} steps", p.len()));
            return false;
        }
        if p[0] != s.x0() {
            bad("wrong-start", format!("path {i} starts at {} instead of {}", p[0], s.x0()));
            return false;
        }
    }
    true
}

fn increments(t: &Traj) -> Vec<Vec<f64>> {
    t.paths.iter().map(|p| p.windows(2).map(|w| w[1] - w[0]).collect()).collect()
}

/// 7-sigma tests of standardised noise: mean, variance, correlation in time and across paths.
fn statistics(v: &mut V, key: &str, z: &[Vec<f64>]) {
    let mut bad = |c: &str, d: String| v.push((c.into(), key.into(), d));
    let all: Vec<f64> = z.iter().flatten().copied().collect();
    let n = all.len() as f64;
    if n < 500.0 {
        return;
    }
    if all.iter().any(|x| !x.is_finite() || x.abs() > 9.5) {
        bad("noise-not-gaussian", "an increment is not finite or beyond 9.5 standard deviations".into());
        return;
    }
    sim::probe("noise-statistics");
    let mean = all.iter().sum::<f64>() / n;
    if mean.abs() * n.sqrt() > 7.0 {
        bad("noise-mean", format!("mean {mean} over {n} standardised increments"));
    }
    let var = all.iter().map(|x| x * x).sum::<f64>() / n;
    if (var - 1.0).abs() / (2.0 / n).sqrt() > 8.0 {
        bad("noise-variance", format!("variance {var} (in units of dt) over {n} increments"));
    }
    let mut corr = |name: &str, pairs: &mut dyn Iterator<Item = (f64, f64)>| {
        let (mut s, mut m) = (0.0, 0.0);
        for (a, b) in pairs {
            s += a * b;
            m += 1.0;
        }
        if m >= 500.0 && (s / f64::sqrt(m)).abs() > 8.0 {
            bad(name, format!("correlation {} over {m} pairs", s / m));
        }
    };
    corr("noise-correlated-in-time", &mut z.iter().flat_map(|p| p.windows(2).map(|w| (w[0], w[1]))));
    corr("noise-correlated-across-paths", &mut z.windows(2).flat_map(|w| w[0].iter().copied().zip(w[1].iter().copied())));
    let m = z.len();
    if m >= 4 {
        corr("noise-correlated-across-paths", &mut (0..m / 2).flat_map(|i| z[i].iter().copied().zip(z[i + m / 2].iter().copied())));
    }
}

/// The point the scheme gives, and how far rounding may take it (None: not determined here).
fn step(s: &Spec, x: f64, t: f64, dt: f64, dw: f64) -> Option<(f64, f64)> {
    let a = s.drift(x, t)?;
    let b = s.diffusion(x, t)?;
    let numeric = if s.kind == "bdt" && s.slope != 0 { 1e-6 * (a * dt).abs() } else { 0.0 };
    let (y, b, extra) = match s.scheme % 3 {
        0 => (x + a * dt + b * dw, b, 0.0),
        1 => {
            if matches!(s.kind.as_str(), "cir" | "cev" | "fcir") && x < 1e-3 {
                return None;
            }
            let h = 1e-5;
            let d = (s.diffusion(x + h, t)? - s.diffusion(x - h, t)?) / (2.0 * h);
            let c = 0.5 * b * d * (dw * dw - dt);
            // a derivative of a diffusion that does not depend on x may come out as rounding noise
            (x + a * dt + b * dw + c, b, 1e-4 * c.abs() + 1e-9 * b * b * (dw * dw + dt))
        }
        _ => {
            let b = s.diffusion(x + 0.5 * a * dt, t + 0.5 * dt)?;
            (x + a * dt + b * dw, b, 0.0)
        }
    };
    let scale = x.abs() + y.abs() + (a * dt).abs() + (b * dw).abs();
    Some((y, 1e-9 * scale + 1e-12 * b.abs() + extra + numeric))
}

fn recursion(v: &mut V, key: &str, s: &Spec, t: &Traj, noise: &[Vec<f64>]) {
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    let mut checked = 0u64;
    for (i, p) in t.paths.iter().enumerate() {
        for k in 0..p.len() - 1 {
            if !p[k].is_finite() || p[k].abs() > 1e100 {
                break;
            }
            let Some((want, tol)) = step(s, p[k], s.t0() + dt * k as f64, dt, noise[i][k]) else { continue };
            if !want.is_finite() {
                continue;
            }
            checked += 1;
            if !((p[k + 1] - want).abs() <= tol) {
                v.push((
                    "breaks-recursion".into(),
                    key.into(),
                    format!("path {i} step {k}: from {} with noise {} to {}, the scheme gives {want}", p[k], noise[i][k], p[k + 1]),
                ));
                return;
            }
        }
    }
    if checked > 0 {
        sim::probe("recursion-checked");
    }
}

fn with(s: &Spec, f: impl Fn(&mut Spec)) -> Spec {
    let mut s = s.clone();
    f(&mut s);
    s
}

fn unit_noise(s: &Spec, par: bool) -> Vec<Vec<f64>> {
    let mut c = s.config(par, Some(s.seed));
    c.x_0 = 0.0;
    let t: Traj = Noise.generate(&c).into();
    sim::quiet(|| increments(&t))
}

/// The fractional noise of a configuration: the increments of fractional Brownian motion from 0.
fn fractional_noise(s: &Spec, par: bool) -> Vec<Vec<f64>> {
    let mut c = s.config(par, Some(s.seed));
    c.x_0 = 0.0;
    let t: Traj = with(s, |s| s.kind = "fbm".into()).generate_with(&c).into();
    sim::quiet(|| increments(&t))
}

/// Does this model draw the noise of `unit_noise`? (It need not: then only statistics apply.)
fn same_stream(s: &Spec) -> bool {
    let m = with(s, |m| {
        m.paths = 12;
        m.steps = 25;
        m.slope = 0;
        m.x0 = 1000;
        m.len = 250;
    });
    let t = m.seeded(false);
    let n = if FRACTIONAL.contains(&s.kind.as_str()) { fractional_noise(&m, false) } else { unit_noise(&m, false) };
    sim::quiet(|| {
        let dt = 0.01;
        let (mut zz, mut z2, mut n2) = (0.0, 0.0, 0.0);
        for (p, q) in t.paths.iter().zip(&n) {
            for k in 0..p.len() - 1 {
                let (x, time) = (p[k], m.t0() + dt * k as f64);
                let (Some(a), Some(b)) = (m.drift(x, time), m.diffusion(x, time)) else { continue };
                let z = (p[k + 1] - x - a * dt) / b;
                if z.is_finite() && b.abs() > 1e-6 {
                    zz += z * q[k];
                    z2 += z * z;
                    n2 += q[k] * q[k];
                }
            }
        }
        zz / (z2 * n2).sqrt() > 0.8
    })
}

fn diffusion_like(v: &mut V, s: &Spec, t: &Traj, par: bool) {
    let key = format!("{}/{}", s.kind, s.scheme);
    let noise = unit_noise(s, par);
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    let stream = same_stream(s);
    sim::quiet(|| {
        let z: Vec<Vec<f64>> = noise.iter().map(|p| p.iter().map(|w| w / dt.sqrt()).collect()).collect();
        statistics(v, &format!("noise/{}", s.scheme), &z);
        if stream {
            recursion(v, &key, s, t, &noise);
        } else {
            sim::probe("own-noise-stream");
            if s.scheme != 1 {
                let z: Vec<Vec<f64>> = t
                    .paths
                    .iter()
                    .map(|p| {
                        (0..p.len() - 1)
                            .filter_map(|k| {
                                let x = p[k];
                                let time = s.t0() + dt * k as f64;
                                let a = s.drift(x, time)?;
                                let b = if s.scheme == 0 { s.diffusion(x, time)? } else { s.diffusion(x + 0.5 * a * dt, time + 0.5 * dt)? };
                                let z = (p[k + 1] - x - a * dt) / b / dt.sqrt();
                                z.is_finite().then_some(z)
                            })
                            .collect()
                    })
                    .collect();
                statistics(v, &key, &z);
            }
        }
    });
}

fn fractional_like(v: &mut V, s: &Spec, t: &Traj, par: bool) {
    let key = format!("{}/{}", s.kind, s.scheme);
    let h = s.hurst();
    let noise = fractional_noise(s, par);
    // the same driver over a unit period from time 0: self-similarity gives the scale
    let unit = fractional_noise(&with(s, |u| { u.t0 = 0; u.len = 1000; u.scheme = 0 }), false);
    let stream = same_stream(s);
    let wide = with(s, |w| { w.paths = 300; w.scheme = 0; w.steps = w.steps.min(8) });
    let sample = fractional_noise(&wide, par);
    sim::quiet(|| {
        let l = (s.tn() - s.t0()).powf(h);
        for (i, (p, q)) in noise.iter().zip(&unit).enumerate() {
            let bad = p.iter().zip(q).position(|(a, b)| (a - l * b).abs() > 1e-9 * (a.abs() + l * b.abs()) + 1e-12 * l);
            if let Some(k) = bad {
                v.push((
                    "fractional-noise-scale".into(),
                    format!("fbm/{}", s.scheme),
                    format!("path {i} step {k}: {} against {} over a unit period, H={h}, length {}", p[k], q[k], s.tn() - s.t0()),
                ));
                break;
            }
        }
        // variance of single increments and of the whole displacement
        let n = wide.steps as usize;
        for lag in [1, n] {
            let want = ((s.tn() - s.t0()) * lag as f64 / n as f64).powf(2.0 * h);
            let d: Vec<f64> = sample.iter().map(|p| p[..lag].iter().sum::<f64>()).collect();
            let var = d.iter().map(|x| x * x).sum::<f64>() / d.len() as f64 / want;
            if (var - 1.0).abs() / (2.0 / d.len() as f64).sqrt() > 9.0 {
                v.push(("fractional-noise-variance".into(), "fbm".into(), format!("variance over {lag} of {n} steps is {var} times (length)^2H, H={h}")));
            }
        }
        if stream && !(s.kind == "fcir" && s.scheme == 1) {
            recursion(v, &key, s, t, &noise);
        }
    });
}

fn merton_like(v: &mut V, s: &Spec, par: bool) {
    let key = format!("merton/{}", s.scheme);
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    let mu = s.q(0);
    // 1. (almost) no jumps: the recursion of the diffusion part
    let quiet_model = MertonJumpDiffusion::new(mu, s.q(1), 1e-12, 0.0, 0.01);
    let t: Traj = quiet_model.generate(&s.config(par, Some(s.seed))).into();
    let noise = unit_noise(s, false);
    let as_gbm = with(s, |g| { g.kind = "gbm".into(); g.slope = 0 });
    let stream = {
        let m = with(&as_gbm, |m| { m.paths = 12; m.steps = 25; m.x0 = 1000; m.len = 250; m.scheme = 0 });
        let a: Traj = quiet_model.generate(&m.config(false, Some(m.seed))).into();
        let n = unit_noise(&m, false);
        sim::quiet(|| {
            let (mut zz, mut z2, mut n2) = (0.0, 0.0, 0.0);
            for (p, q) in a.paths.iter().zip(&n) {
                for k in 0..p.len() - 1 {
                    let z = (p[k + 1] - p[k] * (1.0 + mu * 0.01)) / p[k];
                    zz += z * q[k];
                    z2 += z * z;
                    n2 += q[k] * q[k];
                }
            }
            zz / (z2 * n2).sqrt() > 0.8
        })
    };
    sim::quiet(|| {
        if shape(v, &key, s, &t) && stream {
            recursion(v, &key, &as_gbm, &t, &noise);
        }
    });
    // 2. no diffusion: drift or drift and one or more jumps
    let (m, var, lambda) = (0.7, 0.0025, 0.4 / dt);
    let js = with(s, |j| j.x0 = j.x0.min(3000));
    let t: Traj = MertonJumpDiffusion::new(0.0, 0.0, lambda, m, var).generate(&js.config(par, Some(s.seed))).into();
    sim::quiet(|| {
        if !shape(v, &key, &js, &t) {
            return;
        }
        let d: Vec<f64> = increments(&t).into_iter().flatten().collect();
        let sd = f64::sqrt(var);
        let jumps: Vec<f64> = d.iter().copied().filter(|x| x.abs() > 1e-9).collect();
        for x in &jumps {
            // c jumps in a step, should they be summed: near c*m
            let c = (x / m).round().max(1.0);
            if !((x - c * m).abs() <= 7.5 * sd * c.sqrt()) {
                v.push(("jump-size".into(), key.clone(), format!("jump {x} for sizes of mean {m} and standard deviation {sd}")));
                return;
            }
        }
        let n = d.len() as f64;
        let p = 1.0 - (-lambda * dt).exp();
        if n >= 300.0 {
            sim::probe("jump-statistics");
            let f = jumps.len() as f64 / n;
            if (f - p).abs() / (p * (1.0 - p) / n).sqrt() > 7.0 {
                v.push(("jump-frequency".into(), key.clone(), format!("{f} of {n} steps jump, expected {p}")));
            }
        }
    });
}

fn stochvol_like(v: &mut V, s: &Spec, par: bool) {
    let key = "stochastic-volatility";
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    let still = Sv { a: 0.3, b: 0.2, noise: 0.0 };
    let run = |m: &Sv| -> Traj { m.euler_maruyama(s.x0(), 0.1, s.t0(), s.tn(), s.steps as usize, s.paths as usize, par).into() };
    let t = run(&still);
    let loud = run(&Sv { a: 0.0, b: 0.0, noise: 0.5 });
    sim::quiet(|| {
        if shape(v, key, s, &t) {
            'out: for (i, p) in t.paths.iter().enumerate() {
                for k in 0..p.len() - 1 {
                    let want = p[k] + still.drift_1(p[k], s.t0() + dt * k as f64) * dt;
                    if want.is_finite() && !((p[k + 1] - want).abs() <= 1e-9 * (p[k].abs() + want.abs())) {
                        v.push(("breaks-recursion".into(), key.into(), format!("path {i} step {k}: {} to {}, expected {want}", p[k], p[k + 1])));
                        break 'out;
                    }
                }
            }
        }
        if shape(v, key, s, &loud) && s.x0() < 1e3 * dt.sqrt() {
            let z: Vec<Vec<f64>> = increments(&loud).iter().map(|p| p.iter().map(|w| w / dt.sqrt() / 0.5).collect()).collect();
            statistics(v, key, &z);
        }
    });
}

pub struct C05;

impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "a random model (Brownian-driven, fractional or with jumps), scheme, start time, horizon, step count (to thousands) and path count (to thousands), simulated beside up to 3 simulations of itself; every step of every path is recomputed from the previous point, the step's time and the configuration's driving noise, and the noise, jumps and grid are tested against their definition; non-trivial: context switches between two or more threads; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan {
        let kinds = all_kinds();
        let mut spec = gen_spec(r, &kinds, 200, 60);
        spec.kind = kinds[(index % kinds.len() as u64) as usize].to_string();
        if FRACTIONAL.contains(&spec.kind.as_str()) {
            spec.steps = spec.steps.clamp(2, 20);
            spec.paths = spec.paths.min(30);
        } else {
            let k = if tier == Tier::Thorough { 4 } else { 1 };
            match index % 53 {
                7 => {
                    spec.paths = r.log_range(800, 4000 * k);
                    spec.steps = r.log_range(1, 3);
                }
                19 => {
                    spec.steps = r.log_range(300, 3000 * k);
                    spec.paths = r.log_range(1, 4);
                }
                _ => {}
            }
        }
        let c = Case {
            spec,
            par: r.chance(0.7),
            crowd: (0..r.below(4)).map(|_| r.chance(0.6)).collect(),
            sv: r.chance(0.15),
        };
        let e = gen_env(r, &EnvOpts::ALL);
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs: vec![e] }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        c.spec.valid() && p.envs.len() == 1 && (!FRACTIONAL.contains(&c.spec.kind.as_str()) || c.spec.steps >= 2)
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        let s = &c.spec;
        let mut v: V = vec![];
        let mut all = vec![];
        std::thread::scope(|sc| {
            let hs: Vec<_> = c.crowd.iter().map(|par| sc.spawn(move || s.seeded(*par))).collect();
            all.push((s.seeded(c.par), c.par));
            for (h, par) in hs.into_iter().zip(&c.crowd) {
                all.push((h.join().unwrap(), *par));
            }
        });
        for (t, par) in &all {
            let key = format!("{}/{}", s.kind, s.scheme);
            if !sim::quiet(|| shape(&mut v, &key, s, t)) {
                continue;
            }
            match s.kind.as_str() {
                "merton" => merton_like(&mut v, s, *par),
                "fbm" | "fou" | "fcir" => fractional_like(&mut v, s, t, *par),
                _ => diffusion_like(&mut v, s, t, *par),
            }
        }
        if c.sv {
            stochvol_like(&mut v, s, c.par);
        }
        v.dedup_by(|a, b| a.0 == b.0 && a.1 == b.1);
        json!({ "viol": v })
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let key = format!("{}", p.case["spec"]["kind"].as_str().unwrap_or(""));
        let mut v = vec![];
        for o in outs {
            v.extend(bad_status(o, &key));
            v.extend(inner_viols(o));
        }
        v
    }
    fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
        outs[0].stats.switches > 2
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 3200,
            Tier::Thorough => 150_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_stochastics (schemes, all models, noise generators)", "rayon", "rand"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["OS scheduler, clock and entropy source (simulator)"]
    }
}
