//! C06: a Monte-Carlo price is the discounted mean payoff of the generated paths.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use time::macros::date;
use RustQuant_instruments::*;
use RustQuant_stochastics::*;

const OPTIONS: &[&str] = &[
    "asian", "binary", "vanilla", "power-contract", "power-option", "supershare", "barrier", "capped-power", "powered",
    "log-moneyness", "log-underlying", "log-option",
];
/// Models whose price is asked for; "scripted" generates the paths its user wrote.
const MODELS: &[&str] = &["gbm", "gbm", "merton", "abm", "ou", "bm", "custom", "fbm", "scripted", "scripted", "cev", "hw"];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Deal {
    option: String,
    /// call (true) or put
    call: bool,
    /// which flavour of the option
    variant: u64,
    /// strike, second strike / cap / barrier, and power, in thousandths
    k1: i64,
    k2: i64,
    power: i64,
    /// rate in hundred-thousandths
    rate: i64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    spec: Spec,
    deals: Vec<Deal>,
    /// (parallel flag, thread) of each pricing
    calls: Vec<bool>,
    crowd: bool,
    /// Longstaff-Schwartz: simulations, steps
    lsm: Option<(u64, u64)>,
}

/// A user's process that overrides path generation.
struct Scripted {
    x0: f64,
    salt: u64,
}
impl Scripted {
    fn path(&self, i: u64, n: u64) -> Vec<f64> {
        (0..=n)
            .map(|k| {
                if k == 0 {
                    self.x0
                } else {
                    let mut z = self.salt ^ (i << 20) ^ k;
                    self.x0 * (0.25 + 2.0 * (simrt::rng::splitmix(&mut z) >> 11) as f64 / (1u64 << 53) as f64)
                }
            })
            .collect()
    }
}
impl StochasticProcess for Scripted {
    fn drift(&self, _x: f64, _t: f64) -> f64 {
        0.0
    }
    fn diffusion(&self, _x: f64, _t: f64) -> f64 {
        1.0
    }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> {
        None
    }
    fn generate(&self, c: &StochasticProcessConfig) -> Trajectories {
        let dt = (c.t_n - c.t_0) / c.n_steps as f64;
        Trajectories {
            times: (0..=c.n_steps).map(|k| c.t_0 + dt * k as f64).collect(),
            paths: (0..c.m_paths as u64).map(|i| self.path(i, c.n_steps as u64)).collect(),
        }
    }
}

fn contract(call: bool, strike: Option<StrikeFlag>) -> OptionContract {
    OptionContract {
        type_flag: if call { TypeFlag::Call } else { TypeFlag::Put },
        exercise_flag: ExerciseFlag::European { expiry: date!(2040 - 01 - 01) },
        strike_flag: strike,
        settlement_flag: None,
    }
}

impl Deal {
    fn k(&self) -> f64 {
        self.k1 as f64 / 1000.0
    }
    fn l(&self) -> f64 {
        self.k2 as f64 / 1000.0
    }
    fn p(&self) -> f64 {
        self.power as f64 / 1000.0
    }
    fn rate(&self) -> f64 {
        self.rate as f64 / 100_000.0
    }
    fn label(&self) -> String {
        format!("{}/{}/{}", self.option, self.variant % 4, if self.call { "call" } else { "put" })
    }

    /// The library's price.
    fn price<P: StochasticProcess>(&self, p: &P, c: &StochasticProcessConfig) -> f64 {
        let (k, l, w, r) = (self.k(), self.l(), self.p(), self.rate());
        let plain = || contract(self.call, None);
        match self.option.as_str() {
            "asian" => AsianOption::new(
                contract(self.call, Some(if self.variant & 1 == 0 { StrikeFlag::Fixed } else { StrikeFlag::Floating })),
                if self.variant & 2 == 0 { AveragingMethod::ArithmeticDiscrete } else { AveragingMethod::GeometricDiscrete },
                if self.variant & 1 == 0 { Some(k) } else { None },
            )
            .price_monte_carlo(p, c, r),
            "binary" => BinaryOption {
                contract: plain(),
                strike: k,
                binary_type: if self.variant & 1 == 0 { BinaryType::AssetOrNothing } else { BinaryType::CashOrNothing },
            }
            .price_monte_carlo(p, c, r),
            "vanilla" => EuropeanVanillaOption::new(k, date!(2040 - 01 - 01), plain().type_flag).price_monte_carlo(p, c, r),
            "power-contract" => PowerContract::new(k, w).price_monte_carlo(p, c, r),
            "power-option" => PowerOption::new(plain(), k, w).price_monte_carlo(p, c, r),
            "supershare" => {
                SupershareOption { contract: plain(), strike_1: k, strike_2: k + l }.price_monte_carlo(p, c, r)
            }
            "barrier" => BarrierOption {
                contract: plain(),
                barrier_type: match self.variant % 4 {
                    0 => BarrierType::UpAndOut,
                    1 => BarrierType::DownAndOut,
                    2 => BarrierType::UpAndIn,
                    _ => BarrierType::DownAndIn,
                },
                barrier: l,
                strike: k,
                rebate: None,
            }
            .price_monte_carlo(p, c, r),
            "capped-power" => CappedPowerOption::new(plain(), k, w, l).price_monte_carlo(p, c, r),
            "powered" => PoweredOption::new(plain(), k, w).price_monte_carlo(p, c, r),
            "log-moneyness" => LogMoneynessContract { contract: plain(), strike: k }.price_monte_carlo(p, c, r),
            "log-underlying" => LogUnderlyingContract { contract: plain(), strike: k }.price_monte_carlo(p, c, r),
            "log-option" => LogOption { contract: plain(), strike: k }.price_monte_carlo(p, c, r),
            o => panic!("harness: no option {o}"),
        }
    }

    /// The contract's payoff on one path, stated independently of the library.
    fn payoff(&self, path: &[f64]) -> f64 {
        let (k, l, w) = (self.k(), self.l(), self.p());
        let s = path[path.len() - 1];
        let gain = |a: f64, b: f64| {
            let x = if self.call { a - b } else { b - a };
            if x > 0.0 {
                x
            } else {
                0.0
            }
        };
        match self.option.as_str() {
            "asian" => {
                let n = path.len() as f64;
                let avg = if self.variant & 2 == 0 {
                    path.iter().sum::<f64>() / n
                } else {
                    (path.iter().map(|x| x.ln()).sum::<f64>() / n).exp()
                };
                if self.variant & 1 == 0 {
                    gain(avg, k)
                } else {
                    gain(s, avg)
                }
            }
            "binary" => {
                let hit = if self.call { s > k } else { s < k };
                match (hit, self.variant & 1) {
                    (false, _) => 0.0,
                    (true, 0) => s,
                    (true, _) => k,
                }
            }
            "vanilla" => gain(s, k),
            "power-contract" => (s / k).powf(w),
            "power-option" => gain(s.powf(w), k),
            "supershare" => {
                if s >= k && s <= k + l {
                    s / k
                } else {
                    0.0
                }
            }
            "barrier" => {
                let touched = if self.variant % 2 == 0 { path.iter().any(|x| *x >= l) } else { path.iter().any(|x| *x <= l) };
                let knocks_in = self.variant % 4 >= 2;
                if touched == knocks_in {
                    gain(s, k)
                } else {
                    0.0
                }
            }
            "capped-power" => gain(s.powf(w), k).min(l),
            "powered" => gain(s, k).powf(w),
            "log-moneyness" => (s / k).ln(),
            "log-underlying" => s.ln(),
            _ => {
                let x = (s / k).ln();
                if x > 0.0 {
                    x
                } else {
                    0.0
                }
            }
        }
    }

    fn judgeable(&self, t: &Traj) -> bool {
        let positive = t.paths.iter().flatten().all(|x| *x > 0.0 && x.is_finite());
        let finite = t.paths.iter().flatten().all(|x| x.is_finite());
        match self.option.as_str() {
            "asian" if self.variant & 2 != 0 => positive,
            "vanilla" | "supershare" | "barrier" | "binary" | "asian" => finite,
            _ => t.paths.iter().all(|p| p[p.len() - 1] > 0.0 && p[p.len() - 1].is_finite()),
        }
    }
}

fn price_of(s: &Spec, d: &Deal, par: bool) -> f64 {
    let c = s.config(par, Some(s.seed));
    match s.kind.as_str() {
        "scripted" => d.price(&Scripted { x0: s.x0(), salt: s.seed }, &c),
        "gbm" => d.price(&GeometricBrownianMotion::new(s.q(0), s.q(1)), &c),
        "abm" => d.price(&ArithmeticBrownianMotion::new(s.q(0), s.q(1)), &c),
        "ou" => d.price(&OrnsteinUhlenbeck::new(s.q(0), s.q(1), s.q(2)), &c),
        "hw" => d.price(&HullWhite::new(s.q(0), s.q(1), s.q(2)), &c),
        "cev" => d.price(&ConstantElasticityOfVariance::new(s.q(0), s.q(1), s.q(3).clamp(0.0, 1.0)), &c),
        "bm" => d.price(&BrownianMotion::new(), &c),
        "fbm" => d.price(&FractionalBrownianMotion::new(s.hurst(), FractionalProcessGeneratorMethod::FFT), &c),
        "merton" => d.price(&MertonJumpDiffusion::new(s.q(0), s.q(1), s.q(2) * 20.0, s.q(3) - 0.5, 0.04), &c),
        "custom" => d.price(&s.custom(), &c),
        k => panic!("harness: no model {k}"),
    }
}

fn paths_of(s: &Spec, par: bool) -> Traj {
    let c = s.config(par, Some(s.seed));
    match s.kind.as_str() {
        "scripted" => Scripted { x0: s.x0(), salt: s.seed }.generate(&c).into(),
        "fbm" => FractionalBrownianMotion::new(s.hurst(), FractionalProcessGeneratorMethod::FFT).generate(&c).into(),
        _ => s.generate_with(&c).into(),
    }
}

pub struct C06;

impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "1-5 contracts of the twelve priced kinds on a random model (library, user-defined, or generating scripted paths), priced sequentially and in parallel, from several threads at once; each price against discount factor times mean of an independently stated payoff over the paths the process generates; seeded Longstaff-Schwartz prices compared across calls and processes; non-trivial: some payoff is not zero; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan {
        let mut spec = gen_spec(r, &["gbm"], 400, 25);
        spec.kind = r.pick(MODELS).to_string();
        spec.slope = 0;
        spec.len = spec.len.min(6000);
        if spec.kind == "fbm" {
            spec.steps = spec.steps.clamp(2, 16);
            spec.paths = spec.paths.min(60);
        } else if index % 41 == 9 {
            spec.paths = r.log_range(1000, if tier == Tier::Thorough { 20_000 } else { 5000 });
            spec.steps = 2;
        }
        let around = |r: &mut Rng| (spec.x0 as f64 * r.uniform(0.4, 1.8)) as i64 + 1;
        let deals = (0..r.range(1, 5))
            .map(|j| Deal {
                option: if j == 0 { OPTIONS[(index % 12) as usize].into() } else { r.pick(OPTIONS).to_string() },
                call: r.chance(0.5),
                variant: r.below(4),
                k1: around(r),
                k2: around(r),
                power: r.range(300, 2500),
                rate: r.range(-5_000, 20_000),
            })
            .collect();
        let c = Case {
            spec,
            deals,
            calls: (0..r.range(1, 3)).map(|_| r.chance(0.6)).collect(),
            crowd: r.chance(0.4),
            lsm: if r.chance(0.12) { Some((r.log_range(5, 120), r.range_u(1, 8))) } else { None },
        };
        let mut envs = vec![gen_env(r, &EnvOpts::ALL)];
        if c.lsm.is_some() || r.chance(0.3) {
            envs.push(gen_env(r, &EnvOpts::ALL));
        }
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        c.spec.valid()
            && c.spec.slope == 0
            && (c.spec.kind != "fbm" || c.spec.steps >= 2)
            && c.deals.iter().all(|d| d.k1 > 0 && d.k2 > 0 && d.power >= 300)
            && c.lsm.map_or(true, |l| l.0 >= 5 && l.1 >= 1)
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        let s = &c.spec;
        let mut v: Vec<(String, String, String)> = vec![];
        let mut got: Vec<(usize, bool, f64)> = vec![];
        let all = |par: bool| -> Vec<(usize, bool, f64)> {
            c.deals.iter().enumerate().map(|(i, d)| (i, par, price_of(s, d, par))).collect()
        };
        if c.crowd {
            std::thread::scope(|sc| {
                let hs: Vec<_> = c.calls.iter().map(|par| sc.spawn(|| all(*par))).collect();
                got.extend(all(false));
                for h in hs {
                    got.extend(h.join().unwrap());
                }
            });
        } else {
            for par in &c.calls {
                got.extend(all(*par));
            }
        }
        let t = paths_of(s, false);
        let lsm = c.lsm.map(|(sims, steps)| {
            let (a, b) = (date!(2024 - 01 - 01), date!(2025 - 03 - 01));
            let f = if s.scheme % 2 == 0 { TypeFlag::Put } else { TypeFlag::Call };
            let go = || {
                let p = LongstaffScwhartzPricer::new(10.0, 10.5, 0.04, 0.3, Some(a), b, steps as u32, f, sims, Some(s.seed));
                (p.generate_price(), p.generate_price())
            };
            let x = std::thread::scope(|sc| {
                let h = sc.spawn(go);
                let x = go();
                let y = h.join().unwrap();
                [x.0, x.1, y.0, y.1]
            });
            sim::probe("least-squares-price");
            x.map(|p| format!("{:016x}", bits(p)))
        });
        let mut worth = 0.0;
        sim::quiet(|| {
            let df = |d: &Deal| (-d.rate() * (s.tn() - s.t0())).exp();
            for (i, par, x) in &got {
                let d = &c.deals[*i];
                if t.paths.len() as u64 != s.paths || !d.judgeable(&t) {
                    continue;
                }
                sim::probe(&format!("priced-{}", d.option));
                let pay: Vec<f64> = t.paths.iter().map(|p| d.payoff(p)).collect();
                let n = pay.len() as f64;
                let want = df(d) * (pay.iter().sum::<f64>() / n);
                let size = df(d) * pay.iter().map(|x| x.abs()).sum::<f64>() / n;
                worth += size;
                let spread = df(d) * 1e-9 * t.paths.iter().map(|p| p[p.len() - 1].abs()).fold(d.k(), f64::max);
                // the barrier and the strike are hit or missed within rounding only by an average
                let slack = if d.option == "asian" { spread } else { 0.0 };
                if size.is_finite() && !((x - want).abs() <= 1e-9 * size + slack + f64::MIN_POSITIVE) {
                    v.push((
                        "price-is-not-the-mean-payoff".into(),
                        d.label(),
                        format!("{} priced {x} (parallel={par}), discounted mean payoff of its {} paths is {want}", s.kind, pay.len()),
                    ));
                }
            }
        });
        json!({ "viol": v, "worth": worth, "lsm": lsm, "prices": got.iter().map(|g| format!("{} {:016x}", g.0, bits(g.2))).collect::<std::collections::BTreeSet<_>>() })
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let key = p.case["spec"]["kind"].as_str().unwrap_or("").to_string();
        let mut v = vec![];
        for o in outs {
            v.extend(bad_status(o, &key));
            v.extend(inner_viols(o));
        }
        if !v.is_empty() {
            return v;
        }
        let mut lsm: Vec<&Value> = outs.iter().filter_map(|o| o.result["lsm"].as_array()).flatten().collect();
        lsm.dedup();
        if lsm.len() > 1 {
            v.push(viol("seeded-least-squares-price-differs", "longstaff-schwartz", format!("{lsm:?}")));
        }
        v
    }
    fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
        outs[0].result["worth"].as_f64().unwrap_or(0.0) > 0.0
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 4500,
            Tier::Thorough => 200_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_instruments Monte-Carlo and Longstaff-Schwartz pricers, payoffs", "RustQuant_stochastics", "rayon", "rand"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["OS scheduler, clock and entropy source (simulator)"]
    }
}
