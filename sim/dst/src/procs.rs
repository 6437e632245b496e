//! Stochastic processes as data.
use serde::{Deserialize, Serialize};
use simrt::Rng;
use RustQuant_stochastics::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub kind: String,
    /// parameters in thousandths
    pub p: Vec<i64>,
    /// slope in time of the parameters, thousandths
    pub slope: i64,
    pub scheme: u64,
    pub x0: i64,
    pub t0: i64,
    pub len: i64,
    pub steps: u64,
    pub paths: u64,
    pub seed: u64,
}

pub const DIFFUSIONS: &[&str] =
    &["bm", "abm", "gbm", "ou", "cir", "cev", "vasicek", "hw", "holee", "bdt", "bridge", "custom"];
pub const FRACTIONAL: &[&str] = &["fbm", "fou", "fcir"];

/// dX = (a + b X + c t) dt + (d + e sin X + f t) dW: a user's own model.
pub struct Custom {
    pub a: f64,
    pub b: f64,
    pub c: f64,
    pub d: f64,
    pub e: f64,
    pub f: f64,
}

impl StochasticProcess for Custom {
    fn drift(&self, x: f64, t: f64) -> f64 {
        self.a + self.b * x + self.c * t
    }
    fn diffusion(&self, x: f64, t: f64) -> f64 {
        self.d + self.e * x.sin() + self.f * t
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Traj {
    pub times: Vec<f64>,
    pub paths: Vec<Vec<f64>>,
}

impl From<Trajectories> for Traj {
    fn from(t: Trajectories) -> Self {
        Traj { times: t.times, paths: t.paths }
    }
}

pub fn bits(x: f64) -> u64 {
    if x.is_nan() {
        0x7ff8_0000_0000_0000
    } else {
        x.to_bits()
    }
}

pub fn hash_f64s(xs: &[f64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ xs.len() as u64;
    for x in xs {
        h = (h ^ bits(*x)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
    h
}

impl Traj {
    /// hash of the grid followed by one hash per path
    pub fn digest(&self) -> Vec<String> {
        simrt::sim::quiet(|| {
            let mut v = vec![format!("{:016x}", hash_f64s(&self.times))];
            v.extend(self.paths.iter().map(|p| format!("{:016x}", hash_f64s(p))));
            v
        })
    }
}

pub fn scheme(n: u64) -> StochasticScheme {
    match n % 3 {
        0 => StochasticScheme::EulerMaruyama,
        1 => StochasticScheme::Milstein,
        _ => StochasticScheme::StrangSplitting,
    }
}

impl Spec {
    pub fn q(&self, i: usize) -> f64 {
        self.p.get(i).copied().unwrap_or(100) as f64 / 1000.0
    }
    /// parameter i, growing in time
    pub fn at(&self, i: usize, t: f64) -> f64 {
        self.q(i) + self.slope as f64 / 1000.0 * t
    }
    fn par(&self, i: usize) -> ModelParameter {
        let (q, s) = (self.q(i), self.slope as f64 / 1000.0);
        if s == 0.0 {
            ModelParameter::from(q)
        } else {
            ModelParameter::from(move |t: f64| q + s * t)
        }
    }
    pub fn x0(&self) -> f64 {
        self.x0 as f64 / 1000.0
    }
    pub fn t0(&self) -> f64 {
        self.t0 as f64 / 1000.0
    }
    pub fn tn(&self) -> f64 {
        (self.t0 + self.len) as f64 / 1000.0
    }
    pub fn config(&self, par: bool, seed: Option<u64>) -> StochasticProcessConfig {
        StochasticProcessConfig::new(
            self.x0(),
            self.t0(),
            self.tn(),
            self.steps as usize,
            scheme(self.scheme),
            self.paths as usize,
            par,
            seed,
        )
    }
    fn method(&self) -> FractionalProcessGeneratorMethod {
        if self.p.get(4).copied().unwrap_or(0) % 2 == 0 {
            FractionalProcessGeneratorMethod::CHOLESKY
        } else {
            FractionalProcessGeneratorMethod::FFT
        }
    }
    pub fn hurst(&self) -> f64 {
        self.q(3).clamp(0.05, 0.95)
    }
    pub fn custom(&self) -> Custom {
        Custom {
            a: self.q(0),
            b: -self.q(1),
            c: self.slope as f64 / 1000.0,
            d: 0.05 + self.q(2).abs(),
            e: self.q(3),
            f: self.slope as f64 / 1000.0,
        }
    }
    pub fn generate(&self, par: bool, seed: Option<u64>) -> Traj {
        let c = self.config(par, seed);
        self.generate_with(&c).into()
    }
    pub fn seeded(&self, par: bool) -> Traj {
        self.generate(par, Some(self.seed))
    }
    pub fn generate_with(&self, c: &StochasticProcessConfig) -> Trajectories {
        match self.kind.as_str() {
            "bm" => BrownianMotion::new().generate(c),
            "abm" => ArithmeticBrownianMotion::new(self.par(0), self.par(1)).generate(c),
            "gbm" => GeometricBrownianMotion::new(self.par(0), self.par(1)).generate(c),
            "ou" => OrnsteinUhlenbeck::new(self.par(0), self.par(1), self.par(2)).generate(c),
            "cir" => CoxIngersollRoss::new(self.par(0), self.par(1), self.par(2)).generate(c),
            "cev" => ConstantElasticityOfVariance::new(self.par(0), self.par(1), self.q(3).clamp(0.0, 1.0)).generate(c),
            "vasicek" => ExtendedVasicek::new(self.par(0), self.par(1), self.par(2)).generate(c),
            "hw" => HullWhite::new(self.par(0), self.par(1), self.par(2)).generate(c),
            "holee" => HoLee::new(self.par(1), self.par(0)).generate(c),
            "bdt" => BlackDermanToy::new(self.par(1), self.par(0)).generate(c),
            "bridge" => GeometricBrownianBridge::new(self.par(0), self.par(1), 1.0 + self.q(2), self.tn()).generate(c),
            "merton" => {
                MertonJumpDiffusion::new(self.par(0), self.q(1), self.q(2) * 20.0, self.q(3) - 0.5, 0.04).generate(c)
            }
            "fbm" => FractionalBrownianMotion::new(self.hurst(), self.method()).generate(c),
            "fou" => {
                FractionalOrnsteinUhlenbeck::new(self.par(0), self.par(1), self.par(2), self.hurst(), self.method())
                    .generate(c)
            }
            "fcir" => {
                FractionalCoxIngersollRoss::new(self.par(0), self.par(1), self.par(2), self.hurst(), self.method())
                    .generate(c)
            }
            "custom" => self.custom().generate(c),
            k => panic!("harness: no process {k}"),
        }
    }
    /// The library's process.
    pub fn real(&self) -> Option<Box<dyn StochasticProcess>> {
        Some(match self.kind.as_str() {
            "bm" => Box::new(BrownianMotion::new()),
            "abm" => Box::new(ArithmeticBrownianMotion::new(self.par(0), self.par(1))),
            "gbm" => Box::new(GeometricBrownianMotion::new(self.par(0), self.par(1))),
            "ou" => Box::new(OrnsteinUhlenbeck::new(self.par(0), self.par(1), self.par(2))),
            "cir" => Box::new(CoxIngersollRoss::new(self.par(0), self.par(1), self.par(2))),
            "cev" => Box::new(ConstantElasticityOfVariance::new(self.par(0), self.par(1), self.q(3).clamp(0.0, 1.0))),
            "vasicek" => Box::new(ExtendedVasicek::new(self.par(0), self.par(1), self.par(2))),
            "hw" => Box::new(HullWhite::new(self.par(0), self.par(1), self.par(2))),
            "holee" => Box::new(HoLee::new(self.par(1), self.par(0))),
            "bdt" => Box::new(BlackDermanToy::new(self.par(1), self.par(0))),
            "bridge" => Box::new(GeometricBrownianBridge::new(self.par(0), self.par(1), 1.0 + self.q(2), self.tn())),
            "merton" => Box::new(MertonJumpDiffusion::new(self.par(0), self.q(1), self.q(2) * 20.0, self.q(3) - 0.5, 0.04)),
            "fou" => Box::new(FractionalOrnsteinUhlenbeck::new(self.par(0), self.par(1), self.par(2), self.hurst(), self.method())),
            "fcir" => Box::new(FractionalCoxIngersollRoss::new(self.par(0), self.par(1), self.par(2), self.hurst(), self.method())),
            "fbm" => Box::new(FractionalBrownianMotion::new(self.hurst(), self.method())),
            _ => return None,
        })
    }
    /// The model's own coefficients, stated independently of the library.
    pub fn drift(&self, x: f64, t: f64) -> Option<f64> {
        let p = |i| self.at(i, t);
        Some(match self.kind.as_str() {
            "bm" => 0.0,
            "abm" => p(0),
            "gbm" | "cev" => p(0) * x,
            "ou" | "cir" => p(2) * (p(0) - x),
            "vasicek" | "hw" => p(2) - p(0) * x,
            "holee" => p(0),
            "bridge" => p(0) * x + ((1.0 + self.q(2)).ln() - x.ln()) / (self.tn() - t) * x,
            "custom" => {
                let c = self.custom();
                c.a + c.b * x + c.c * t
            }
            "bdt" => p(0) + self.slope as f64 / 1000.0 / p(1) * x,
            "fou" | "fcir" => p(2) * (p(0) - x),
            "fbm" => 0.0,
            _ => return None,
        })
    }
    pub fn diffusion(&self, x: f64, t: f64) -> Option<f64> {
        let p = |i| self.at(i, t);
        Some(match self.kind.as_str() {
            "bm" | "fbm" => 1.0,
            "abm" | "fou" | "ou" | "vasicek" | "hw" | "holee" | "bdt" => p(1),
            "gbm" | "bridge" => p(1) * x,
            "cev" => p(1) * x.powf(self.q(3).clamp(0.0, 1.0)),
            "cir" | "fcir" => p(1) * x.sqrt(),
            "custom" => {
                let c = self.custom();
                c.d + c.e * x.sin() + c.f * t
            }
            _ => return None,
        })
    }
    pub fn valid(&self) -> bool {
        self.p.len() == 5
            && self.p.iter().all(|x| (1..=2000).contains(x))
            && self.x0 > 0
            && self.len > 0
            && self.t0 >= 0
            && self.slope >= 0
            && self.steps > 0
            && self.paths > 0
            && self.scheme < 3
    }
}

pub fn gen_seed(r: &mut Rng) -> u64 {
    match r.below(9) {
        0 => 0,
        1 => 1,
        2 => u64::MAX - r.below(5),
        3 => (r.below(7) + 1) << 32,
        4 => 1u64 << r.below(64),
        5 => r.below(1000),
        6 => i64::MAX as u64 + r.below(3),
        _ => r.next(),
    }
}

pub fn gen_spec(r: &mut Rng, kinds: &[&str], max_paths: u64, max_steps: u64) -> Spec {
    let kind = r.pick(kinds).to_string();
    let frac = FRACTIONAL.contains(&kind.as_str());
    Spec {
        p: vec![r.range(10, 400), r.range(50, 600), r.range(50, 900), r.range(100, 900), r.range(1, 2000)],
        slope: if r.chance(0.4) { r.range(1, 500) } else { 0 },
        scheme: r.below(3),
        x0: if r.chance(0.5) { r.range(500, 2_000) } else { r.range(1, 100_000) },
        t0: if r.chance(0.5) { 0 } else { r.range(1, 5_000) },
        len: if r.chance(0.5) { r.range(100, 2_000) } else { r.range(1, 20_000) },
        steps: r.log_range(if frac { 2 } else { 1 }, if frac { max_steps.min(24) } else { max_steps }),
        paths: r.log_range(1, max_paths),
        seed: gen_seed(r),
        kind,
    }
}

pub fn all_kinds() -> Vec<&'static str> {
    let mut v = DIFFUSIONS.to_vec();
    v.extend_from_slice(FRACTIONAL);
    v.push("merton");
    v
}
