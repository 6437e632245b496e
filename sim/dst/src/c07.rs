//! C07: one valuation date per result.
use crate::fw::*;
use crate::procs::bits;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Fault, Outcome, Rng};
use std::panic::{catch_unwind, AssertUnwindSafe};
use time::{Date, Duration};
use RustQuant_instruments::finite_difference_pricer::FiniteDifferencePricer;
use RustQuant_instruments::*;
use RustQuant_stochastics::{CurveModel, NelsonSiegelSvensson};
use RustQuant_time::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Item {
    what: String,
    method: String,
    /// raw parameters in [0, 1)
    p: Vec<f64>,
    /// expiry, in days after the case's day
    off: i64,
    call: bool,
    seed: u64,
    /// a pricer whose constructor checks the date: made before the clock runs
    #[serde(skip)]
    made: Option<Made>,
}

struct Made(LongstaffScwhartzPricer);
impl Clone for Made {
    fn clone(&self) -> Self {
        unreachable!()
    }
}
impl std::fmt::Debug for Made {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("made")
    }
}
impl PartialEq for Made {
    fn eq(&self, _: &Self) -> bool {
        true
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    /// days since 1970
    day: i64,
    items: Vec<Item>,
    threads: u64,
}

const BSM: &[&str] = &[
    "price", "implied_volatility", "year_fraction", "delta", "vanna", "charm", "lambda", "gamma", "gamma_percent",
    "zomma", "zomma_percent", "speed", "colour", "vega", "vomma", "ultima", "vega_bleed", "theta", "rho", "phi",
    "zeta", "strike_delta", "strike_gamma", "valuation_date", "instrument_price",
];
const GBSM: &[&str] = &[
    "price", "delta", "gamma", "theta", "vega", "rho", "vanna", "charm", "lambda", "zomma", "speed", "color", "vomma",
    "ultima",
];
const HESTON: &[&str] = &["price", "delta", "gamma", "rho"];
const BACHELIER: &[&str] = &["price", "atm_price", "atm_vol", "iv", "delta", "gamma", "theta", "vega"];
const FDM: &[&str] = &["explicit", "implicit", "crank_nicolson"];
const NSS: &[&str] = &["forward_rate", "spot_rate", "discount_factor"];
const WHATS: &[(&str, &[&str])] = &[
    ("bsm", BSM),
    ("bsm", BSM),
    ("bs73", GBSM),
    ("merton73", GBSM),
    ("black76", GBSM),
    ("asay82", GBSM),
    ("gk83", GBSM),
    ("heston", HESTON),
    ("bachelier", BACHELIER),
    ("fdm", FDM),
    ("lsm", &["generate_price"]),
    ("nss", NSS),
    ("nss", NSS),
    ("schedule", &["factors"]),
    ("currency", &["valuation_date"]),
    ("today", &["today"]),
];

fn date_of_ns(ns: i64) -> Date {
    date_of_day(ns.div_euclid(DAY))
}
fn date_of_day(d: i64) -> Date {
    Date::from_julian_day(2_440_588 + d as i32).unwrap()
}
fn num(d: Date) -> f64 {
    d.to_julian_day() as f64
}

impl Item {
    fn f(&self, i: usize, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.p[i % self.p.len()]
    }
    fn flag(&self) -> TypeFlag {
        if self.call {
            TypeFlag::Call
        } else {
            TypeFlag::Put
        }
    }
    fn bsm(&self, at: Option<Date>, expiry: Date) -> BlackScholesMerton {
        BlackScholesMerton::new(
            self.f(0, -0.05, 0.1),
            self.f(1, 50.0, 150.0),
            self.f(2, 60.0, 140.0),
            self.f(3, 0.1, 0.6),
            self.f(4, 0.01, 0.12),
            at,
            expiry,
            self.flag(),
        )
    }
    fn calendar(&self) -> Calendar {
        Calendar::new(
            [Market::None, Market::Weekends, Market::UnitedStates, Market::UnitedKingdom, Market::Australia, Market::Germany]
                [(self.seed % 6) as usize],
        )
    }
    fn dcc(&self) -> DayCountConvention {
        use DayCountConvention::*;
        [Actual_360, Actual_365_25, Actual_365_Fixed, Actual_Actual_ISDA, Thirty_360_ISDA, Thirty_E_360]
            [(self.seed / 6 % 6) as usize]
    }
    fn roll(&self) -> DateRollingConvention {
        use DateRollingConvention::*;
        [Actual, Following, ModifiedFollowing, Preceding, ModifiedPreceding][(self.seed / 36 % 5) as usize]
    }
    fn dates(&self, expiry: Date) -> Vec<Date> {
        (0..4).map(|i| expiry + Duration::days(i * (20 + self.seed as i64 % 90))).collect()
    }
}

/// The public call. `at`: an explicit date where the API takes one.
fn call(i: &Item, at: Option<Date>, day: i64) -> Vec<f64> {
    let expiry = date_of_day(day + i.off);
    let m = i.method.as_str();
    macro_rules! greeks {
        ($model:expr) => {{
            let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(i.f(2, 60.0, 140.0), expiry, i.flag()), $model);
            match m {
                "price" => p.price(),
                "delta" => p.delta(),
                "gamma" => p.gamma(),
                "theta" => p.theta(),
                "vega" => p.vega(),
                "rho" => p.rho(),
                "vanna" => p.vanna(),
                "charm" => p.charm(),
                "lambda" => p.lambda(),
                "zomma" => p.zomma(),
                "speed" => p.speed(),
                "color" => p.color(),
                "vomma" => p.vomma(),
                _ => p.ultima(),
            }
        }};
    }
    let x = match i.what.as_str() {
        "bsm" => {
            let b = i.bsm(at, expiry);
            match m {
                "price" => b.price(),
                "implied_volatility" => b.implied_volatility(i.f(5, 1.0, 30.0)),
                "year_fraction" => b.year_fraction(),
                "delta" => b.delta(),
                "vanna" => b.vanna(),
                "charm" => b.charm(),
                "lambda" => b.lambda(),
                "gamma" => b.gamma(),
                "gamma_percent" => b.gamma_percent(),
                "zomma" => b.zomma(),
                "zomma_percent" => b.zomma_percent(),
                "speed" => b.speed(),
                "colour" => b.colour(),
                "vega" => b.vega(),
                "vomma" => b.vomma(),
                "ultima" => b.ultima(),
                "vega_bleed" => b.vega_bleed(),
                "theta" => b.theta(),
                "rho" => b.rho(),
                "phi" => b.phi(),
                "zeta" => b.zeta(),
                "strike_delta" => b.strike_delta(),
                "strike_gamma" => b.strike_gamma(),
                "valuation_date" => num(Instrument::valuation_date(&b)),
                _ => Instrument::price(&b),
            }
        }
        "bs73" => greeks!(BlackScholes73::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(3, 0.1, 0.6))),
        "merton73" => greeks!(Merton73::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(0, 0.0, 0.05), i.f(3, 0.1, 0.6))),
        "black76" => greeks!(Black76::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(3, 0.1, 0.6))),
        "asay82" => greeks!(Asay82::new(i.f(1, 50.0, 150.0), i.f(3, 0.1, 0.6))),
        "gk83" => greeks!(GarmanKohlhagen83::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(0, 0.0, 0.05), i.f(3, 0.1, 0.6))),
        "heston" => {
            let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(i.f(2, 60.0, 140.0), expiry, i.flag()), heston(i));
            match m {
                "price" => p.price(),
                "delta" => p.delta(),
                "gamma" => p.gamma(),
                _ => p.rho(),
            }
        }
        "bachelier" => {
            let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(i.f(2, 60.0, 140.0), expiry, i.flag()), bachelier(i));
            let given = i.f(5, 1.0, 30.0);
            match m {
                "price" => p.price(),
                "atm_price" => p.atm_price(),
                "atm_vol" => p.atm_vol(given),
                "iv" => p.iv(given),
                "delta" => p.delta(),
                "gamma" => p.gamma(),
                "theta" => p.theta(),
                _ => p.vega(),
            }
        }
        "fdm" => {
            let style = if i.seed % 2 == 0 {
                ExerciseFlag::European { expiry }
            } else {
                ExerciseFlag::American { start: Date::MIN, end: Date::MAX }
            };
            let f = FiniteDifferencePricer::new(
                i.f(1, 50.0, 150.0),
                i.f(2, 60.0, 140.0),
                i.f(4, 0.01, 0.1),
                i.f(3, 0.1, 0.6),
                at,
                expiry,
                6,
                8,
                i.flag(),
                style,
            );
            match m {
                "explicit" => f.explicit(),
                "implicit" => f.implicit(),
                _ => f.crank_nicolson(),
            }
        }
        "lsm" => match (&i.made, at) {
            (Some(l), None) => l.0.generate_price(),
            _ => lsm(i, at, day).generate_price(),
        },
        "nss" => {
            let c = nss(i);
            match m {
                "forward_rate" => c.forward_rate(expiry),
                "spot_rate" => c.spot_rate(expiry),
                _ => c.discount_factor(expiry),
            }
        }
        "schedule" => {
            let s = i.calendar().generate_schedule_from_dates(i.dates(expiry), i.roll(), i.dcc());
            let mut v = s.day_count_factors;
            v.extend(s.dates.into_iter().map(num));
            return v;
        }
        "currency" => num(Instrument::valuation_date(&USD)),
        _ => num(today()),
    };
    vec![x]
}

fn lsm(i: &Item, at: Option<Date>, day: i64) -> LongstaffScwhartzPricer {
    LongstaffScwhartzPricer::new(
        i.f(1, 8.0, 12.0),
        i.f(2, 8.0, 12.0),
        i.f(4, 0.01, 0.1),
        i.f(3, 0.1, 0.6),
        at,
        date_of_day(day + i.off),
        3,
        i.flag(),
        12,
        Some(i.seed),
    )
}

fn heston(i: &Item) -> Heston93 {
    Heston93::new(i.f(1, 50.0, 150.0), i.f(3, 0.02, 0.2), i.f(4, 0.0, 0.1), 0.01, -0.5, 2.0, 0.06, 0.3)
}
fn bachelier(i: &Item) -> Bachelier {
    Bachelier::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(3, 5.0, 40.0))
}
fn nss(i: &Item) -> NelsonSiegelSvensson {
    NelsonSiegelSvensson::new(
        i.f(0, 0.01, 0.1),
        i.f(1, -0.1, 0.1),
        i.f(2, -0.5, 0.5),
        i.f(3, -0.5, 0.5),
        i.f(4, 0.2, 5.0),
        i.f(5, 0.1, 2.0),
    )
}

/// The same result through the part of the API that is given the date or the time to expiry.
fn dated(i: &Item, d: Date, day: i64) -> Option<Vec<f64>> {
    let expiry = date_of_day(day + i.off);
    let (k, t, f) = (i.f(2, 60.0, 140.0), year_fraction(d, expiry), i.flag());
    macro_rules! greeks {
        ($model:expr) => {{
            let p = $model;
            match i.method.as_str() {
                "price" => p.price(k, t, f),
                "delta" => p.delta(k, t, f),
                "gamma" => p.gamma(k, t, f),
                "theta" => p.theta(k, t, f),
                "vega" => p.vega(k, t, f),
                "rho" => p.rho(k, t, f),
                "vanna" => p.vanna(k, t, f),
                "charm" => p.charm(k, t, f),
                "lambda" => p.lambda(k, t, f),
                "zomma" => p.zomma(k, t, f),
                "speed" => p.speed(k, t, f),
                "color" => p.color(k, t, f),
                "vomma" => p.vomma(k, t, f),
                _ => p.ultima(k, t, f),
            }
        }};
    }
    Some(vec![match i.what.as_str() {
        "bsm" | "fdm" | "lsm" => return Some(call(i, Some(d), day)),
        "bs73" => greeks!(BlackScholes73::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(3, 0.1, 0.6))),
        "merton73" => greeks!(Merton73::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(0, 0.0, 0.05), i.f(3, 0.1, 0.6))),
        "black76" => greeks!(Black76::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(3, 0.1, 0.6))),
        "asay82" => greeks!(Asay82::new(i.f(1, 50.0, 150.0), i.f(3, 0.1, 0.6))),
        "gk83" => greeks!(GarmanKohlhagen83::new(i.f(1, 50.0, 150.0), i.f(4, 0.0, 0.1), i.f(0, 0.0, 0.05), i.f(3, 0.1, 0.6))),
        "heston" => {
            let p = heston(i);
            match i.method.as_str() {
                "price" => p.price(k, t, f),
                "delta" => p.delta(k, t, f),
                "gamma" => p.gamma(k, t, f),
                _ => p.rho(k, t, f),
            }
        }
        "bachelier" => {
            let p = bachelier(i);
            let given = i.f(5, 1.0, 30.0);
            match i.method.as_str() {
                "price" => p.price(k, t, f),
                "atm_price" => p.atm_price(t),
                "atm_vol" => p.atm_vol(given, t),
                "iv" => p.iv(given, k, t, f),
                "delta" => p.delta(k, t, f),
                "gamma" => p.gamma(k, t, f),
                "theta" => p.theta(k, t, f),
                _ => p.vega(k, t, f),
            }
        }
        "schedule" => {
            let c = i.calendar();
            let r = c.roll_dates(i.dates(expiry), i.roll());
            let mut v = vec![c.day_count_factor(d, r[0], i.dcc())];
            v.extend(r.windows(2).map(|w| c.day_count_factor(w[0], w[1], i.dcc())));
            v.extend(r.into_iter().map(num));
            return Some(v);
        }
        "currency" | "today" => num(d),
        _ => return None,
    }])
}

type Res = Option<Vec<f64>>;

fn caught(f: impl FnOnce() -> Vec<f64>) -> Res {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

fn same(a: &Res, b: &Res) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => {
            x.len() == y.len()
                && x.iter().zip(y).all(|(x, y)| bits(*x) == bits(*y) || (x - y).abs() <= 1e-11 * x.abs().max(y.abs()))
        }
        _ => false,
    }
}

/// A call with the clock running, and what the clock said meanwhile.
fn live(i: &Item, day: i64) -> (Res, Vec<i64>) {
    let from = sim::n_wall_reads();
    let mut seen = vec![sim::peek_wall_ns()];
    let r = caught(|| call(i, None, day));
    seen.extend(sim::wall_reads(from));
    seen.push(sim::peek_wall_ns());
    (r, seen)
}

pub struct C07;

impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "1-12 valuations without a date (16 pricers, curves and schedules, every method) while midnight passes or the clock jumps at chosen clock reads, alone or from several threads; each result must equal the result for one date the clock showed between the start and the end of the call, computed with the clock stopped and with the date given explicitly; explicitly dated results must not move with the clock; non-trivial: the clock showed two dates; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, _tier: Tier) -> Plan {
        let mut env = gen_env(r, &EnvOpts { threads: true, entropy_soft: false, clock: false, spurious: false, stall: true, spawn_fail: false });
        let day = env.epoch_ns.div_euclid(DAY);
        // mostly just before midnight
        if r.chance(0.4) {
            env.epoch_ns = day * DAY + DAY - r.log_range(1, 200_000) as i64;
        }
        let n = *r.pick(&[1, 1, 2, 4, 8, 12]);
        let items: Vec<Item> = (0..n)
            .map(|k| {
                let (w, ms) = WHATS[((index as usize).wrapping_add(k * 7)) % WHATS.len()];
                Item {
                    what: w.into(),
                    method: r.pick(ms).to_string(),
                    p: (0..6).map(|_| (r.f() * 1000.0).floor() / 1000.0).collect(),
                    off: match r.below(6) {
                        0 => r.range(0, 3),
                        1 => r.range(1000, 4000),
                        _ => r.range(5, 700),
                    },
                    call: r.chance(0.5),
                    seed: r.below(1 << 20),
                    made: None,
                }
            })
            .collect();
        let reach = 4 * n as u64 + 2;
        for _ in 0..r.range_u(1, 3) {
            let nth = r.below(reach);
            env.faults.push(match r.below(6) {
                0..=2 => Fault::ClockMidnight { nth },
                3 => Fault::ClockJump { nth, ns: r.range(1, 3) * DAY },
                4 => Fault::ClockJump { nth, ns: -r.range(1, 40) * DAY },
                _ => Fault::ClockJump { nth, ns: r.range(-1, 1) * DAY * r.range(1, 400) + r.range(-DAY, DAY) },
            });
        }
        let c = Case { day, items, threads: if r.chance(0.2) { r.range_u(2, 4) } else { 0 } };
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs: vec![env] }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        p.envs.len() == 1
            && !c.items.is_empty()
            && c.threads <= 4
            && (0..60_000).contains(&c.day)
            && c.items.iter().all(|i| {
                i.p.len() == 6
                    && i.p.iter().all(|x| (0.0..1.0).contains(x))
                    && (0..5000).contains(&i.off)
                    && WHATS.iter().any(|w| w.0 == i.what && w.1.contains(&i.method.as_str()))
            })
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        let mut c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        sim::freeze_wall(Some((c.day - 1) * DAY));
        for i in c.items.iter_mut().filter(|i| i.what == "lsm") {
            i.made = Some(Made(lsm(i, None, c.day)));
        }
        sim::freeze_wall(None);
        // the faulty part
        let mut got: Vec<(usize, Res, Vec<i64>)> = vec![];
        if c.threads == 0 {
            for (n, i) in c.items.iter().enumerate() {
                let (r, seen) = live(i, c.day);
                got.push((n, r, seen));
            }
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = (0..c.threads as usize)
                    .map(|t| {
                        let c = &c;
                        s.spawn(move || {
                            let mut v = vec![];
                            for (n, i) in c.items.iter().enumerate() {
                                if n % c.threads as usize == t {
                                    let (r, seen) = live(i, c.day);
                                    v.push((n, r, seen));
                                }
                            }
                            v
                        })
                    })
                    .collect();
                for h in hs {
                    got.extend(h.join().unwrap());
                }
            });
        }
        // explicitly dated calls while the clock runs on
        let some_day = date_of_day(c.day);
        let explicit: Vec<(usize, Res)> = c
            .items
            .iter()
            .enumerate()
            .filter(|(_, i)| matches!(i.what.as_str(), "bsm" | "fdm" | "lsm"))
            .map(|(n, i)| (n, caught(|| call(i, Some(some_day), c.day))))
            .collect();
        // references, with the clock stopped
        let mut viol = vec![];
        let mut two = 0;
        for (n, r, seen) in &got {
            let i = &c.items[*n];
            let key = format!("{}.{}", i.what, i.method);
            let mut days: Vec<i64> = seen.iter().map(|t| t.div_euclid(DAY)).collect();
            days.sort_unstable();
            days.dedup();
            two += (days.len() > 1) as u64;
            let mut hit = false;
            let mut refs = vec![];
            for d in &days {
                sim::freeze_wall(Some(d * DAY + DAY / 3));
                let stopped = caught(|| call(i, None, c.day));
                hit |= same(r, &stopped);
                if let Some(e) = catch_unwind(AssertUnwindSafe(|| dated(i, date_of_day(*d), c.day))).unwrap_or(None) {
                    if !same(&stopped, &Some(e.clone())) {
                        viol.push(json!(["implied-differs-from-explicit", key, format!("item {n}: clock stopped on {}: {stopped:?}, given that date: {e:?}", date_of_day(*d))]));
                    }
                }
                refs.push((date_of_day(*d).to_string(), stopped));
            }
            if !hit {
                viol.push(json!(["mixed-dates", key, format!("item {n}: the clock showed {days:?} (days) during the call, which returned {r:?}; for each single date: {refs:?}")]));
            }
        }
        for (n, r) in &explicit {
            let i = &c.items[*n];
            for at in [c.day, c.day + 1, c.day + 400, c.day - 3] {
                sim::freeze_wall(Some(at * DAY + 5));
                let e = caught(|| call(i, Some(some_day), c.day));
                // an expiry in the past is refused by some constructors only by the given date
                if !same(r, &e) {
                    viol.push(json!(["explicit-date-moves-with-clock", format!("{}.{}", i.what, i.method), format!("item {n} dated {some_day}: {r:?} with a running clock, {e:?} with the clock at {}", date_of_day(at))]));
                }
            }
        }
        sim::freeze_wall(None);
        json!({"viol": viol, "two": two, "first": date_of_ns(got[0].2[0]).to_string()})
    }
    fn judge(&self, _p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let mut v = vec![];
        for o in outs {
            if let Some(b) = bad_status(o, "valuation") {
                v.push(b);
            } else {
                v.extend(inner_viols(o));
            }
        }
        v
    }
    fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
        outs.iter().any(|o| o.result["two"].as_u64().unwrap_or(0) > 0)
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 600_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_instruments pricers", "RustQuant_stochastics Nelson-Siegel-Svensson", "RustQuant_time calendar, day counts, today()", "time crate"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["system clock (simulator)", "OS scheduler, entropy source (simulator)"]
    }
}
