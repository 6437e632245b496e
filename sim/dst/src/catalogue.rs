//! Deterministic public calls of every part of the library, as data: a name, parameters, a result.
use crate::fw::fnv;
use crate::procs::{self, bits, Spec};
use nalgebra::{DMatrix, DVector};
use num::Complex;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::cell::RefCell;
use time::{Date, Duration, Month};
use RustQuant_autodiff::{Accumulate, Gradient, Graph};
use RustQuant_cashflows::*;
use RustQuant_data::*;
use RustQuant_instruments::finite_difference_pricer::FiniteDifferencePricer;
use RustQuant_instruments::*;
use RustQuant_iso::*;
use RustQuant_math::rootfinding::bisection::Bisection;
use RustQuant_math::rootfinding::brent::Brent;
use RustQuant_math::rootfinding::newton_raphson::NewtonRaphson;
use RustQuant_math::rootfinding::rootfinder::{Rootfinder, RootfinderData};
use RustQuant_math::{
    fft_complex, fft_complex_inplace, fft_real, fft_real_inplace, integrate, is_valid_length, BSplineInterpolator, Bernoulli, Binomial, ChiSquared, Distribution,
    DistributionClass, Exponential, ExponentialInterpolator, Gamma, Gaussian, GradientDescent, Interpolator, LinearInterpolator, Poisson, Sequence, Statistic,
    Uniform,
};
use RustQuant_ml::*;
use RustQuant_portfolios::{Portfolio, Position};
use RustQuant_time::*;

/// One call: coordinates 0..8 describe the object, 8..16 the query.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct A {
    pub p: Vec<u64>,
    /// tiny changes of coordinates: (coordinate, trillionths of its range)
    #[serde(default)]
    pub eps: Vec<(usize, i64)>,
}

pub const NP: usize = 16;

impl A {
    pub fn u(&self, i: usize) -> u64 {
        self.p[i]
    }
    pub fn n(&self, i: usize, m: u64) -> usize {
        (self.p[i] % m) as usize
    }
    pub fn f(&self, i: usize, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * (self.p[i] as f64 / 1000.0 + self.tiny(i))
    }
    fn tiny(&self, i: usize) -> f64 {
        self.eps.iter().filter(|e| e.0 == i).map(|e| e.1 as f64 * 1e-12).sum()
    }
    /// What describes the object.
    pub fn object(&self) -> (Vec<u64>, Vec<(usize, i64)>) {
        (self.p[..NP / 2].to_vec(), self.eps.iter().filter(|e| e.0 < NP / 2).copied().collect())
    }
    pub fn b(&self, i: usize) -> bool {
        self.p[i] % 2 == 1
    }
    pub fn date(&self, i: usize) -> Date {
        Date::from_julian_day(2_451_545 + (self.p[i] * 17) as i32).unwrap()
    }
    /// Numbers that depend on coordinate `i` and the position.
    pub fn v(&self, i: usize, n: usize, lo: f64, hi: f64) -> Vec<f64> {
        let mut v: Vec<f64> =
            (0..n).map(|k| lo + (hi - lo) * ((self.p[i].wrapping_mul(7919).wrapping_add(k as u64 * 104_729) % 1009) as f64 / 1009.0)).collect();
        for e in self.eps.iter().filter(|e| e.0 == i && n > 0) {
            v[e.1.unsigned_abs() as usize % n] += (hi - lo) * e.1 as f64 * 1e-12;
        }
        v
    }
    fn flag(&self, i: usize) -> TypeFlag {
        if self.b(i) {
            TypeFlag::Call
        } else {
            TypeFlag::Put
        }
    }
}

/// Place for an object that may be reused by later calls with the same object parameters.
#[derive(Default)]
pub struct Slot(pub Option<Box<dyn Any>>);

impl Slot {
    fn get<T: Any>(&mut self, make: impl FnOnce() -> T) -> &T {
        self.0.get_or_insert_with(|| Box::new(make())).downcast_ref().expect("object type")
    }
}

thread_local! {
    /// runs at the n-th callback of a call (nested calls)
    static HOOK: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
}

pub fn set_hook(h: Option<(u64, Box<dyn FnOnce()>)>) -> bool {
    HOOK.with(|x| x.replace(h).is_none())
}

/// Called from inside every user callback the library calls.
fn tick() {
    let run = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        match h.as_mut() {
            Some((0, _)) => h.take().map(|x| x.1),
            Some((n, _)) => {
                *n -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(f) = run {
        f()
    }
}

pub type Entry = (&'static str, fn(&A, &mut Slot) -> Vec<f64>);

fn s(x: impl AsRef<str>) -> f64 {
    (fnv(x.as_ref().as_bytes()) >> 12) as f64
}
fn d(x: Date) -> f64 {
    x.to_julian_day() as f64
}
fn t(x: bool) -> f64 {
    x as u8 as f64
}
fn o(x: Option<f64>) -> f64 {
    x.unwrap_or(-987_654.25)
}
fn dbg(x: impl std::fmt::Debug) -> f64 {
    s(format!("{x:?}"))
}

fn dist<D: Distribution>(g: &D, a: &A, x: f64, p: f64) -> Vec<f64> {
    let c = |z: Complex<f64>| vec![z.re, z.im];
    match a.n(8, 13) {
        0 => c(g.cf(x)),
        1 => vec![g.pdf(x)],
        2 => vec![g.pmf(x)],
        3 => vec![g.cdf(x)],
        4 => vec![g.inv_cdf(p)],
        5 => vec![g.mean()],
        6 => vec![g.median()],
        7 => vec![g.mode()],
        8 => vec![g.variance()],
        9 => vec![g.skewness()],
        10 => vec![g.kurtosis()],
        11 => vec![g.entropy()],
        _ => vec![g.mgf(p * 0.1)],
    }
}

fn func(kind: usize, k: f64, x: f64) -> f64 {
    tick();
    match kind {
        0 => (x * k).sin(),
        1 => x * x * x - k,
        2 => (-x * x / (0.1 + k)).exp(),
        3 => 1.0 / (1.0 + k * x * x),
        4 => x.exp() - k - 1.0,
        _ => x - k,
    }
}
fn dfunc(kind: usize, k: f64, x: f64) -> f64 {
    tick();
    match kind {
        0 => k * (x * k).cos(),
        1 => 3.0 * x * x,
        2 => -2.0 * x / (0.1 + k) * (-x * x / (0.1 + k)).exp(),
        3 => -2.0 * k * x / (1.0 + k * x * x).powi(2),
        4 => x.exp(),
        _ => 1.0,
    }
}

pub const MARKETS: &[Market] = &[
    Market::None, Market::Weekends, Market::Argentina, Market::Australia, Market::Austria, Market::Botswana,
    Market::Brazil, Market::Canada, Market::Chile, Market::China, Market::CzechRepublic, Market::Denmark,
    Market::Finland, Market::France, Market::Germany, Market::HongKong, Market::Hungary, Market::Iceland,
    Market::India, Market::Indonesia, Market::Israel, Market::Italy, Market::Mexico, Market::Netherlands,
    Market::NewZealand, Market::Singapore, Market::UnitedKingdom, Market::UnitedStates, Market::Switzerland,
];

pub fn dcc(n: usize) -> DayCountConvention {
    use DayCountConvention::*;
    [
        One_One, Actual_360, Actual_364, Actual_366, Actual_365_25, Actual_365_Actual, Actual_365_Fixed,
        Actual_365_Leap, Actual_Actual_AFB, Actual_Actual_ICMA, Actual_Actual_ISDA, No_Leap_360, No_Leap_365,
        Thirty_360_ISDA, Thirty_E_360, Thirty_E_360_ISDA, Thirty_E_365, Thirty_E_Plus_360, Thirty_U_360,
    ][n % 19]
}
pub fn roll(n: usize) -> DateRollingConvention {
    use DateRollingConvention::*;
    [Actual, Following, ModifiedFollowing, Preceding, ModifiedPreceding, ModifiedRolling][n % 6]
}

pub const CURRENCIES: &[Currency] = &[USD, EUR, GBP, JPY, AUD, CHF, NZD, CAD, SEK, NOK];

fn market(m: &ISO_10383) -> Vec<f64> {
    vec![s(m.operating_mic), s(m.country_code), s(m.city), s(m.description), dbg(&m.status), dbg(&m.oprt_sgmt)]
}

fn calendar(a: &A, sl: &mut Slot) -> Vec<f64> {
    let c: &Calendar = sl.get(|| {
        let mut c = Calendar::new(MARKETS[a.n(0, MARKETS.len() as u64)]);
        if a.n(1, 4) == 0 {
            c.add_holidays((0..3).map(|k| a.date(2) + Duration::days(k * 31)).collect());
        }
        if a.n(1, 4) == 1 {
            c.add_holiday(a.date(2));
        }
        c
    });
    let x = a.date(9) + Duration::days(a.u(10) as i64 % 40);
    let y = a.date(9) + Duration::days(a.u(11) as i64);
    let list = || (0..4).map(|k| x + Duration::days(k * (10 + a.u(12) as i64 % 60))).collect::<Vec<_>>();
    match a.n(8, 15) {
        12 | 13 => {
            // the season of the movable feasts, and the turn of the year
            let y = 2000 + (a.u(9) % 60) as i32;
            let from = if a.b(10) { Date::from_ordinal_date(y, 75) } else { Date::from_ordinal_date(y, 340) }.unwrap();
            (0..3).map(|k| (0..24).fold(0u64, |m, i| m << 1 | c.is_holiday(from + Duration::days(24 * k + i)) as u64) as f64).collect()
        }
        14 => {
            let from = Date::from_ordinal_date(2000 + (a.u(9) % 60) as i32, 1 + (a.u(10) % 300) as u16).unwrap();
            (0..2).map(|k| (0..30).fold(0u64, |m, i| m << 1 | c.is_business_day(from + Duration::days(30 * k + i)) as u64) as f64).collect()
        }
        0 | 1 => vec![t(c.is_holiday(x))],
        2 | 3 => vec![t(c.is_business_day(x)), t(c.is_weekend(x))],
        4 => vec![d(c.roll_date(x, roll(a.n(12, 6))))],
        5 => c.roll_dates(list(), roll(a.n(13, 6))).into_iter().map(d).collect(),
        6 => vec![c.business_day_count(x, x + Duration::days(a.u(11) as i64 % 60)) as f64],
        7 => vec![c.calendar_day_count(x, y) as f64],
        8 => vec![c.day_count_factor(x, y, dcc(a.n(12, 19)))],
        9 => c.day_count_factors(list(), dcc(a.n(13, 19))),
        10 => c.calendar_day_counts(list()).into_iter().chain(c.business_day_counts(list())).map(|n| n as f64).collect(),
        _ => {
            let s = c.generate_schedule_from_dates(list(), roll(a.n(13, 6)), dcc(a.n(14, 19)));
            // the first factor depends on the clock
            s.day_count_factors[1..].iter().copied().chain(s.dates.into_iter().map(d)).collect()
        }
    }
}

fn dates(a: &A, _: &mut Slot) -> Vec<f64> {
    let x = a.date(8) + Duration::days(a.u(9) as i64 % 40);
    let y = x + Duration::days(a.u(10) as i64);
    let (yr, mo) = (2000 + (a.u(11) % 60) as i32, Month::try_from((a.u(12) % 12 + 1) as u8).unwrap());
    let r = |z: Result<Date, time::Error>| vec![z.map(d).unwrap_or(-1.0)];
    let cal = Calendar::new(MARKETS[a.n(14, MARKETS.len() as u64)]);
    match a.n(13, 27) {
        0 => {
            let (y, m, dd, w, yd, em) = unpack_date(x, a.b(14));
            vec![y as f64, m as u8 as f64, dd as f64, dbg(w), yd as f64, em as f64]
        }
        1 => vec![year_fraction(x, y)],
        2 => vec![t(is_weekend(x)), t(is_weekday(y))],
        3 => get_years_in_range(x, y).into_iter().map(f64::from).collect(),
        4 => get_days_in_years_in_range(x, y).into_iter().map(f64::from).collect(),
        5 => vec![t(contains_leap_year(x, y)), leap_year_count(x, y) as f64],
        6 => vec![days_between(x, y) as f64],
        7 => vec![t(is_first_day_of_month(x)), t(is_last_day_of_month(x)), t(is_last_day_of_february(x))],
        8 => vec![d(next_business_day(x, &cal))],
        9 => vec![d(previous_business_day(x, &cal))],
        10 => date_sequence(x, x + Duration::days(a.u(10) as i64 % 30)).into_iter().map(d).collect(),
        11 => vec![dbg(get_first_day_of_month(yr, mo)), dbg(get_last_day_of_month(yr, mo))],
        12 => r(get_first_monday_of_month(yr, mo)),
        13 => r(get_first_tuesday_of_month(yr, mo)),
        14 => r(get_first_wednesday_of_month(yr, mo)),
        15 => r(get_first_thursday_of_month(yr, mo)),
        16 => r(get_first_friday_of_month(yr, mo)),
        17 => r(get_first_saturday_of_month(yr, mo)),
        18 => r(get_first_sunday_of_month(yr, mo)),
        19 => r(get_last_monday_of_month(yr, mo)),
        20 => r(get_last_tuesday_of_month(yr, mo)),
        21 => r(get_last_wednesday_of_month(yr, mo)),
        22 => r(get_last_thursday_of_month(yr, mo)),
        23 => r(get_last_friday_of_month(yr, mo)),
        24 => r(get_last_saturday_of_month(yr, mo)),
        25 => r(get_last_sunday_of_month(yr, mo)),
        _ => vec![dbg(Frequency::infer_frequency(x, x + Duration::days([1, 7, 14, 15, 28, 30, 31, 45, 46, 91, 92, 121, 122, 182, 183, 365, 366, 33][a.n(10, 18)])))],
    }
}

fn statistic(a: &A, _: &mut Slot) -> Vec<f64> {
    let v = a.v(0, 2 + a.n(1, 9), 0.5, 1.0 + a.f(2, 0.0, 20.0));
    let w = a.v(3, v.len(), -1.0, 3.0);
    vec![match a.n(8, 20) {
        0 => Statistic::mean(&v),
        1 => v.arithmetic_mean(),
        2 => v.geometric_mean(),
        3 => v.harmonic_mean(),
        4 => Statistic::variance(&v),
        5 => v.sample_variance(),
        6 => v.population_variance(),
        7 => v.standard_deviation(),
        8 => v.sample_standard_deviation(),
        9 => v.population_standard_deviation(),
        10 => v.covariance(&w),
        11 => v.correlation(&w),
        12 => Statistic::skewness(&v),
        13 => Statistic::kurtosis(&v),
        14 => Statistic::min(&v) + Statistic::max(&v),
        15 => Statistic::median(&v),
        16 => v.percentile(a.f(9, 0.0, 1.0)),
        17 => v.quantile(a.f(9, 0.0, 1.0)),
        18 => v.interquartile_range(),
        _ => Statistic::range(&v),
    }]
}

macro_rules! gbsm {
    ($a:ident, $m:expr) => {{
        let m = $m;
        let (k, tt, fl) = ($a.f(8, 60.0, 140.0), $a.f(9, 0.05, 3.0), $a.flag(10));
        vec![match $a.n(11, 16) {
            0 => m.price(k, tt, fl),
            1 => m.delta(k, tt, fl),
            2 => m.gamma(k, tt, fl),
            3 => m.theta(k, tt, fl),
            4 => m.vega(k, tt, fl),
            5 => m.rho(k, tt, fl),
            6 => m.vanna(k, tt, fl),
            7 => m.charm(k, tt, fl),
            8 => m.lambda(k, tt, fl),
            9 => m.zomma(k, tt, fl),
            10 => m.speed(k, tt, fl),
            11 => m.color(k, tt, fl),
            12 => m.vomma(k, tt, fl),
            13 => m.ultima(k, tt, fl),
            14 => m.d1(k, tt),
            _ => m.d2(k, tt),
        }]
    }};
}

fn bsm(a: &A, sl: &mut Slot) -> Vec<f64> {
    let b: &BlackScholesMerton = sl.get(|| {
        let at = a.date(5);
        BlackScholesMerton::new(
            a.f(0, -0.05, 0.1),
            a.f(1, 50.0, 150.0),
            a.f(2, 60.0, 140.0),
            a.f(3, 0.05, 0.6),
            a.f(4, 0.0, 0.1),
            Some(at),
            at + Duration::days(5 + a.u(6) as i64),
            a.flag(7),
        )
    });
    vec![match a.n(8, 25) {
        0 => b.price(),
        1 => b.implied_volatility(a.f(9, 1.0, 30.0)),
        2 => b.year_fraction(),
        3 => b.delta(),
        4 => b.vanna(),
        5 => b.charm(),
        6 => b.lambda(),
        7 => b.gamma(),
        8 => b.gamma_percent(),
        9 => b.zomma(),
        10 => b.zomma_percent(),
        11 => b.speed(),
        12 => b.colour(),
        13 => b.vega(),
        14 => b.vomma(),
        15 => b.ultima(),
        16 => b.vega_bleed(),
        17 => b.theta(),
        18 => b.rho(),
        19 => b.phi(),
        20 => b.zeta(),
        21 => b.strike_delta(),
        22 => b.strike_gamma(),
        23 => d(Instrument::valuation_date(b)),
        _ => Instrument::price(b),
    }]
}

fn fdm(a: &A, sl: &mut Slot) -> Vec<f64> {
    let p: &FiniteDifferencePricer = sl.get(|| {
        let at = a.date(4);
        let expiry = at + Duration::days(20 + a.u(5) as i64);
        FiniteDifferencePricer::new(
            a.f(0, 50.0, 150.0),
            a.f(1, 60.0, 140.0),
            a.f(2, 0.01, 0.1),
            a.f(3, 0.1, 0.6),
            Some(at),
            expiry,
            4 + a.n(6, 3) as u32,
            6 + a.n(6, 4) as u32,
            a.flag(7),
            if a.n(7, 4) < 2 { ExerciseFlag::European { expiry } } else { ExerciseFlag::American { start: at, end: expiry } },
        )
    });
    vec![match a.n(8, 3) {
        0 => p.explicit(),
        1 => p.implicit(),
        _ => p.crank_nicolson(),
    }]
}

fn lsm(a: &A, sl: &mut Slot) -> Vec<f64> {
    let p: &LongstaffScwhartzPricer = sl.get(|| {
        // a date after every simulated clock reading is refused, one before is priced
        let at = a.date(5);
        LongstaffScwhartzPricer::new(
            a.f(0, 8.0, 12.0),
            a.f(1, 8.0, 12.0),
            a.f(2, 0.01, 0.1),
            a.f(3, 0.1, 0.6),
            Some(at),
            at + Duration::days(40 + a.u(6) as i64),
            3,
            a.flag(7),
            10,
            Some(a.u(4)),
        )
    });
    vec![p.generate_price()]
}

fn plain(a: &A) -> OptionContract {
    OptionContract { type_flag: a.flag(2), exercise_flag: ExerciseFlag::European { expiry: a.date(3) }, strike_flag: None, settlement_flag: None }
}
fn payoffs(a: &A, _: &mut Slot) -> Vec<f64> {
    let k = a.f(0, 60.0, 140.0);
    let w = 1.0 + a.n(1, 3) as f64 * 0.5;
    let x = a.f(9, 40.0, 160.0);
    let path = a.v(9, 2 + a.n(10, 6), 50.0, 150.0);
    let c = plain(a);
    vec![match a.n(8, 12) {
        0 => EuropeanVanillaOption::new(k, a.date(3), a.flag(2)).payoff(x),
        1 => PowerOption::new(c, k, w).payoff(x),
        2 => PoweredOption::new(c, k, w).payoff(x),
        3 => CappedPowerOption::new(c, k, w, a.f(4, 1.0, 50.0)).payoff(x),
        4 => PowerContract::new(k, w).payoff(x),
        5 => LogMoneynessContract { contract: c, strike: k }.payoff(x),
        6 => LogUnderlyingContract { contract: c, strike: k }.payoff(x),
        7 => LogOption { contract: c, strike: k }.payoff(x),
        8 => BinaryOption { contract: c, strike: k, binary_type: if a.b(4) { BinaryType::CashOrNothing } else { BinaryType::AssetOrNothing } }.payoff(x),
        9 => AsianOption::new(
            OptionContract { strike_flag: Some(if a.b(4) { StrikeFlag::Fixed } else { StrikeFlag::Floating }), ..c },
            if a.b(5) { AveragingMethod::ArithmeticDiscrete } else { AveragingMethod::GeometricDiscrete },
            Some(k),
        )
        .payoff(path),
        10 => BarrierOption {
            contract: c,
            barrier_type: [BarrierType::UpAndOut, BarrierType::DownAndOut, BarrierType::UpAndIn, BarrierType::DownAndIn][a.n(4, 4)],
            barrier: a.f(5, 60.0, 140.0),
            strike: k,
            rebate: None,
        }
        .payoff(path),
        _ => LookbackOption {
            contract: OptionContract { strike_flag: Some(if a.b(4) { StrikeFlag::Fixed } else { StrikeFlag::Floating }), ..c },
            strike: Some(k),
        }
        .payoff(path),
    }]
}

fn spec(a: &A) -> Spec {
    let kinds: Vec<&str> = procs::DIFFUSIONS.iter().chain(procs::FRACTIONAL).copied().chain(["merton"]).collect();
    Spec {
        kind: kinds[a.n(0, kinds.len() as u64)].into(),
        p: (0..6).map(|i| 100 + (a.u(1) as i64 * (i + 3) * 13) % 700).collect(),
        slope: if a.b(2) { 50 } else { 0 },
        scheme: a.u(3) % 3,
        x0: 500 + a.u(4) as i64,
        t0: if a.b(5) { 250 } else { 0 },
        len: 500 + a.u(5) as i64,
        steps: 2 + a.u(6) % 5,
        paths: 1 + a.u(6) % 4,
        seed: a.u(7),
    }
}

fn matrix(a: &A, i: usize, rows: usize, cols: usize) -> DMatrix<f64> {
    DMatrix::from_row_slice(rows, cols, &a.v(i, rows * cols, -2.0, 2.0))
}
fn vector(a: &A, i: usize, n: usize) -> DVector<f64> {
    DVector::from_vec(a.v(i, n, -1.0, 3.0))
}

fn book(a: &A, _: &mut Slot) -> Vec<f64> {
    let mut b = RustQuant_trading::limit_order_book::Book::new();
    let mut out = vec![];
    for k in 0..6u64 {
        let x = a.u(0).wrapping_mul(31).wrapping_add(k * 17) % 97;
        out.push(t(b.add_order(k, x % 2 == 0, 10 + x % 5, 100 + x % 3, k).is_ok()));
    }
    out.push(t(b.cancel_order(a.u(1) % 8).is_ok()));
    let (ok, fills) = b.execute_market_order(a.u(2) % 60, a.b(3));
    out.push(t(ok));
    out.extend(fills.into_iter().flat_map(|(p, q)| [p as f64, q as f64]));
    out
}

fn curve(a: &A, sl: &mut Slot) -> Vec<f64> {
    let c: &Curve = sl.get(|| {
        let n = 2 + a.n(0, 4);
        let ds: Vec<Date> = (0..n).map(|k| a.date(1) + Duration::days(k as i64 * (30 + a.u(2) as i64 % 100))).collect();
        Curve::new(
            ds,
            a.v(3, n, 0.01, 0.2),
            CurveType::Spot,
            if a.b(4) { InterpolationMethod::Linear } else { InterpolationMethod::Exponential },
        )
        .unwrap()
    });
    let x = a.date(1) + Duration::days(a.u(9) as i64 % 500 - 20);
    match a.n(8, 8) {
        0..=2 => vec![o(c.get_rate(x))],
        3 => c.get_rates(vec![x, x + Duration::days(1)]).into_iter().map(o).collect(),
        4 => c.dates().into_iter().map(d).chain(c.rates()).collect(),
        5 => vec![c.len() as f64, t(c.is_empty()), o(c.first_rate().copied()), o(c.last_rate().copied())],
        6 => {
            let (l, r) = c.get_brackets(x);
            vec![d(l), d(r)]
        }
        _ => {
            // changes happen to a copy
            let mut c = c.clone();
            c.shift(0.01);
            c.set_rate(x, 0.3);
            vec![o(c.get_rate(x)), o(c.get_rate(x + Duration::days(3))), o(c.get_rate_and_insert(x + Duration::days(5)))]
        }
    }
}

fn ad(a: &A, _: &mut Slot) -> Vec<f64> {
    let g = Graph::new();
    let x = g.var(a.f(0, 0.1, 2.0));
    let y = g.var(a.f(1, 0.1, 2.0));
    let z = match a.n(8, 5) {
        0 => (x * y).sin() + x.exp() / y,
        1 => x.ln() * y.sqrt() - x * 3.0,
        2 => (x + y).tanh() * (x - y).cosh(),
        3 => RustQuant_autodiff::Powf::powf(&x, 1.5) / (1.0 + y),
        _ => ActivationFunction::sigmoid(&x) + ActivationFunction::gelu(&y),
    };
    let grad = z.accumulate();
    vec![z.value(), grad.wrt(&x), grad.wrt(&y)]
}

fn money(a: &A, _: &mut Slot) -> Vec<f64> {
    let (c1, c2) = (CURRENCIES[a.n(0, 10)], CURRENCIES[a.n(1, 10)]);
    let (m1, m2) = (Money::new(c1, a.f(2, 0.0, 100.0)), Money::new(c2, a.f(3, 1.0, 100.0)));
    match a.n(8, 10) {
        0 => vec![(m1 + m2).amount],
        1 => vec![(m1 - m2).amount],
        2 => vec![(m1 * m2).amount],
        3 => vec![(m1 / m2).amount],
        4 => vec![s(m1.to_string()), t(m1 == m2), dbg(m1.partial_cmp(&m2))],
        5 => vec![s(c1.name()), s(c1.symbol()), s(c1.code().alphabetic()), s(c1.code().numeric()), c1.minor() as f64, c1.fractions() as f64, s(c1.to_string())],
        9 => {
            let m = Money::new(c1, a.f(3, 1.0, 100.0));
            vec![(m1 + m).amount(), (m1 - m).amount(), t(m1 < m), s(m.currency().name()), Instrument::price(&c1)]
        }
        6 => {
            let r = ExchangeRate::new(c1, c2, a.f(4, 0.1, 3.0));
            let m = r.convert(Money::new(c1, a.f(2, 0.0, 100.0)));
            vec![m.amount, s(m.currency.name)]
        }
        _ => {
            let mut e = Exchange::new();
            for k in 0..4usize {
                let (x, y) = (CURRENCIES[(a.n(0, 10) + k) % 10], CURRENCIES[(a.n(1, 10) + 2 * k) % 10]);
                e.add_rate(ExchangeRate::new(x, y, a.f(4, 0.1, 3.0) + k as f64));
            }
            let m = e.convert(m1, c2);
            vec![m.amount, s(m.currency.name), o(e.get_rate(&c1, &c2).map(|r| r.rate)), o(e.get_rate(&c2, &c1).map(|r| r.rate))]
        }
    }
}

fn cash(a: &A, _: &mut Slot) -> Vec<f64> {
    let c1 = Cashflow::new(a.f(0, -50.0, 100.0), a.date(1));
    let c2 = Cashflow::new(a.f(2, -50.0, 100.0), if a.b(3) { a.date(1) } else { a.date(4) });
    match a.n(8, 8) {
        0 => vec![(c1 + c2).amount],
        1 => vec![(c1 - c2).amount],
        2 => {
            let mut x = c1;
            x *= a.f(9, 0.0, 2.0);
            x /= 3.0;
            let mut y = c1;
            y += Cashflow::new(a.f(10, -5.0, 5.0), c1.date());
            y -= x;
            vec![(c1 * a.f(9, 0.0, 2.0)).amount, (c1 / a.f(9, 0.1, 2.0)).amount, (-c1).amount(), (-&c1).amount(), (-&mut x).amount(), x.amount, y.amount()]
        }
        3 => vec![c1.npv(a.f(9, 0.5, 1.0))],
        4 => vec![s(c1.to_string())],
        5 => {
            let mut q = SimpleQuote::new(Some(c1.amount));
            let diff = q.set_value(Some(c2.amount));
            let v = o(q.value());
            q.reset();
            vec![diff, v, t(q.is_valid()), o(q.value())]
        }
        _ => {
            let mut l = Leg::new(vec![c1, c2]);
            l.add_cashflow(Cashflow::new(a.f(5, 1.0, 10.0), a.date(6)));
            vec![l.npv(a.f(9, 0.5, 1.0)), l.size() as f64, l.start_date().map(d).unwrap_or(0.0), l.end_date().map(d).unwrap_or(0.0), t(l.is_active(a.date(10)))]
        }
    }
}

fn portfolio(a: &A, _: &mut Slot) -> Vec<f64> {
    // dyadic amounts: every total is exact whatever the order of summation
    let mut p = Portfolio::new(
        (0..1 + a.n(0, 4) as u64)
            .map(|k| {
                let q = 1 + (a.u(1) + 7 * k) % 50;
                (format!("P{k}"), Position::new(CURRENCIES[k as usize], q, (a.u(2) + k) as f64 / 8.0, (a.u(3) + 3 * k) as f64 / 8.0, Some(USD)))
            })
            .collect(),
    );
    match a.n(8, 4) {
        0 => {}
        1 => p.update_price("P0", a.u(9) as f64 / 4.0),
        2 => p.update_quantity("P0", a.u(9)),
        _ => {
            p.update_price("P1", a.u(9) as f64 / 4.0);
            p.update_quantity("P2", a.u(10))
        }
    }
    let w = p.position_weights();
    let mut k: Vec<&String> = w.keys().collect();
    k.sort();
    let mut out = vec![p.value(), p.cost(), p.profit()];
    out.extend(k.iter().map(|x| w[*x] as f64));
    out
}

fn defaults(a: &A, _: &mut Slot) -> Vec<f64> {
    let (x, p) = (a.f(9, -1.0, 3.0), a.f(10, 0.001, 0.999));
    match a.n(0, 12) {
        0 => dist(&Gaussian::default(), a, x, p),
        1 => dist(&Binomial::default(), a, x.round(), p),
        2 => dist(&ChiSquared::default(), a, x, p),
        3 => dist(&Bernoulli::default(), a, x.round(), p),
        4 => vec![dbg(DateRollingConvention::default()), dbg(InterpolationMethod::default()), dbg(CurveType::default())],
        5 => {
            let mut s = Bisection::new(|x| func(a.n(1, 6), a.f(2, 0.1, 2.0), x), a.f(9, -1.0, 2.0), RootfinderData::default());
            vec![s.solve()]
        }
        6 => {
            let mut s = Brent::new(|x| func(a.n(1, 6), a.f(2, 0.1, 2.0), x), a.f(9, -1.0, 2.0), RootfinderData::default());
            vec![s.solve()]
        }
        7 => {
            let g = RustQuant_stochastics::GeometricBrownianMotion::new(a.f(1, -0.1, 0.1), a.f(2, 0.1, 0.4));
            let (m, sg) = g.unpack();
            vec![m, sg]
        }
        8 => {
            let f = match a.n(1, 3) {
                0 => ExerciseFlag::European { expiry: a.date(2) },
                1 => ExerciseFlag::American { start: a.date(2), end: a.date(2) + Duration::days(9) },
                _ => ExerciseFlag::Bermudan { exercise_dates: vec![a.date(2), a.date(3)] },
            };
            vec![d(f.expiry())]
        }
        9 => {
            let c = plain(a);
            let k = LookbackOption { contract: OptionContract { strike_flag: Some(if a.b(1) { StrikeFlag::Fixed } else { StrikeFlag::Floating }), ..c }, strike: None };
            vec![k.payoff(a.v(9, 2 + a.n(10, 6), 50.0, 150.0))]
        }
        10 => {
            // unusable inputs
            let e = |x: Result<f64, RustQuant_error::RustQuantError>| x.unwrap_or_else(|e| s(e.to_string()));
            match a.n(1, 4) {
                0 => vec![e(BSplineInterpolator::new(a.v(2, 3, 0.0, 1.0), a.v(3, 3, 0.0, 1.0), 2).and_then(|b| b.interpolate(0.5)))],
                1 => vec![e(BSplineInterpolator::new(vec![0.0, 1.0, 2.0, 3.0, 4.0], a.v(3, 3, 0.0, 1.0), 1).and_then(|mut b| {
                    b.fit()?;
                    b.interpolate(a.f(9, 0.0, 4.0))
                }))],
                2 => vec![e(LinearInterpolator::new(vec![0.0, 1.0], a.v(3, 3, 0.0, 1.0)).and_then(|b| b.interpolate(0.5)))],
                _ => vec![e(ExponentialInterpolator::new(vec![0.0, 1.0], a.v(3, 2, -1.0, 1.0)).and_then(|b| b.interpolate(a.f(9, 0.0, 1.0))))],
            }
        }
        _ => {
            use RustQuant_trading::order_side::OrderSide;
            let side = if a.b(1) { OrderSide::BID } else { OrderSide::ASK };
            vec![s(side.to_string()), s((!side).to_string())]
        }
    }
}

/// Long series: an average over hundreds of calls.
fn sweep(a: &A, _: &mut Slot) -> Vec<f64> {
    let n = 100 + a.n(0, 300);
    let mut acc = 0.0f64;
    for k in 0..n {
        let x = a.f(1, 0.0, 1.0) + k as f64 * a.f(2, 0.001, 0.05);
        acc += match a.n(8, 4) {
            0 => Gaussian::new(0.0, 1.0).inv_cdf((x * 0.61).fract().clamp(0.001, 0.999)),
            1 => BlackScholes73::new(60.0 + x * 9.0, 0.03, 0.2).price(100.0, 0.7, a.flag(3)),
            2 => implied_volatility(2.0 + x, 100.0, 100.0 + x, 1.0, 0.01, a.flag(3)),
            _ => year_fraction(a.date(4), a.date(4) + Duration::days(k as i64 * 3)),
        };
    }
    vec![acc]
}

fn interp(a: &A, sl: &mut Slot) -> Vec<f64> {
    let n = 3 + a.n(0, 4);
    let xs: Vec<f64> = (0..n).map(|k| a.f(1, 0.0, 1.0) + k as f64 * a.f(2, 0.2, 2.0)).collect();
    let ys = a.v(3, n, 0.5, 2.0);
    let at = a.f(9, 0.0, 6.0);
    let r = |z: Result<f64, RustQuant_error::RustQuantError>| z.map_err(|e| s(e.to_string())).unwrap_or_else(|e| e);
    macro_rules! both {
        ($i:expr) => {{
            if a.b(10) {
                // points are added to another one
                let mut j = $i;
                j.add_point((a.f(11, -1.0, 7.0), a.f(12, 0.5, 2.0)));
                let _ = j.fit();
                vec![r(j.interpolate(at)), j.range().0, j.range().1]
            } else {
                let i = sl.get(|| $i);
                vec![r(i.interpolate(at)), i.range().0, i.range().1]
            }
        }};
    }
    match a.n(4, 3) {
        0 => both!(LinearInterpolator::new(xs, ys).unwrap()),
        1 => both!(ExponentialInterpolator::new(xs, ys).unwrap()),
        _ => {
            let deg = 1 + a.n(5, 2);
            let knots: Vec<f64> = (0..n + deg + 1).map(|k| k as f64 * a.f(2, 0.2, 2.0)).collect();
            let b: &BSplineInterpolator<f64, f64> = sl.get(|| BSplineInterpolator::new(knots, ys, deg).unwrap());
            vec![r(b.interpolate(at)), b.range().0, b.range().1]
        }
    }
}

fn fft(a: &A, _: &mut Slot) -> Vec<f64> {
    let n = [1, 2, 4, 8, 16, 3, 6][a.n(0, 7)];
    let x = a.v(1, n, -1.0, 1.0);
    let z: Vec<Complex<f64>> = x.iter().zip(a.v(2, n, -1.0, 1.0)).map(|(r, i)| Complex::new(*r, i)).collect();
    match a.n(8, 5) {
        0 => fft_real(&x),
        1 => {
            let mut y = x;
            fft_real_inplace(&mut y);
            y
        }
        2 => fft_complex(&z).into_iter().flat_map(|c| [c.re, c.im]).collect(),
        3 => {
            let mut y = z;
            fft_complex_inplace(&mut y);
            y.into_iter().flat_map(|c| [c.re, c.im]).collect()
        }
        _ => vec![t(is_valid_length(&x))],
    }
}

fn regressions(a: &A, _: &mut Slot) -> Vec<f64> {
    let (rows, cols) = (5 + a.n(0, 3), 1 + a.n(1, 2));
    let x = matrix(a, 2, rows, cols);
    let y = vector(a, 3, rows);
    let new = matrix(a, 9, 2, cols);
    let out = |i: f64, c: &DVector<f64>, p: Option<DVector<f64>>| {
        let mut v = vec![i];
        v.extend(c.iter());
        if let Some(p) = p {
            v.extend(p.iter());
        }
        v
    };
    let err = |e: String| vec![s(e)];
    match a.n(8, 7) {
        0..=2 => {
            let m = [Decomposition::None, Decomposition::QR, Decomposition::SVD][a.n(8, 7)];
            match LinearRegressionInput::new(x, y).fit(m) {
                Ok(f) => out(f.intercept, &f.coefficients, f.predict(new).ok()),
                Err(e) => err(e.to_string()),
            }
        }
        3 => match RidgeRegressionInput::new(x, y, a.f(4, 0.01, 2.0), a.b(5), 20, 1e-6).fit() {
            Ok(f) => out(f.intercept, &f.coefficients, f.predict(new).ok()),
            Err(e) => err(e.to_string()),
        },
        4 => match LassoInput::new(x, y, a.f(4, 0.01, 0.5), a.b(5), 5 + a.n(6, 20), 1e-4).fit() {
            Ok(f) => out(f.intercept, &f.coefficients, f.predict(new).ok()),
            Err(e) => err(e.to_string()),
        },
        5 => {
            let y = DVector::from_vec((0..rows).map(|k| ((a.u(3) + k as u64 * k as u64) % 2) as f64).collect());
            match LogisticRegressionInput::new(x, y).fit(LogisticRegressionAlgorithm::IRLS, 0.2) {
                Ok(f) => {
                    let mut v = out(f.iterations as f64, &f.coefficients, None);
                    let (p, h) = (f.predict_proba(&new), f.predict(&new));
                    v.extend(p.iter().chain(h.iter()));
                    let truth = DVector::from_vec(vec![t(a.b(9)), t(a.b(10))]);
                    v.push(f.score_misclassification(&truth, &h));
                    v.push(f.score_cross_entropy(&truth, &p));
                    v
                }
                Err(e) => err(e.to_string()),
            }
        }
        _ => {
            let y = DVector::from_vec((0..rows).map(|k| ((a.u(3) + k as u64) % 3) as f64).collect());
            let m = match a.n(4, 3) {
                0 => Metric::Euclidean,
                1 => Metric::Manhattan,
                _ => Metric::Minkowski(3),
            };
            KNearestClassifier::new(x, y, m).predict(&new, &(1 + a.n(10, 4)))
        }
    }
}

fn activations(a: &A, _: &mut Slot) -> Vec<f64> {
    let x = a.f(8, -3.0, 3.0);
    let v = DVector::from_vec(a.v(9, 4, -3.0, 3.0));
    fn go<T: ActivationFunction>(k: usize, x: &T) -> T {
        match k {
            0 => x.sigmoid(),
            1 => ActivationFunction::identity(x),
            2 => x.logistic(),
            3 => x.relu(),
            4 => x.gelu(),
            5 => ActivationFunction::tanh(x),
            6 => x.softplus(),
            _ => x.gaussian(),
        }
    }
    let k = a.n(10, 8);
    let mut out = vec![go(k, &x)];
    out.extend(go(k, &v).iter());
    out
}

fn roots(a: &A, _: &mut Slot) -> Vec<f64> {
    let (kind, k, guess) = (a.n(0, 6), a.f(1, 0.1, 2.0), a.f(8, -1.0, 2.0));
    let data = || RootfinderData::new([1e-6, 1e-10, 1e-3][a.n(2, 3)], 0.1, -10.0, 10.0, a.b(3));
    match a.n(9, 4) {
        0 => {
            let mut s = Bisection::new(|x| func(kind, k, x), guess, data());
            vec![s.solve()]
        }
        1 => {
            let mut s = Brent::new(|x| func(kind, k, x), guess, data());
            vec![s.solve()]
        }
        2 => {
            let mut s = NewtonRaphson::new(|x| func(kind, k, x), |x| dfunc(kind, k, x), guess, data());
            vec![s.solve()]
        }
        _ => {
            let g = GradientDescent::new(a.f(4, 0.01, 0.2), 5 + a.n(5, 30), if a.b(6) { Some(1e-6) } else { None });
            let r = g.optimize(
                |v| {
                    tick();
                    let x = v[0] - k;
                    let y = v[1] + 1.0;
                    x * x + y * y * 0.5
                },
                &[guess, a.f(10, -1.0, 1.0)],
                false,
            );
            vec![r.minimizer[0], r.minimizer[1], r.minimum, r.iterations as f64]
        }
    }
}

fn sequences(a: &A, _: &mut Slot) -> Vec<f64> {
    match a.n(8, 4) {
        0 => f64::seq(a.f(0, 0.0, 1.0), a.f(1, 2.0, 5.0), a.f(2, 0.1, 1.0)),
        1 => f64::rep(a.f(0, 0.0, 1.0), a.n(1, 9)),
        2 => f64::linspace(a.f(0, 0.0, 1.0), a.f(1, 2.0, 5.0), 2 + a.n(2, 9)),
        _ => f64::cumsum(&a.v(0, 1 + a.n(1, 9), -1.0, 1.0)),
    }
}

pub const CATALOGUE: &[Entry] = &[
    ("gaussian", |a, sl| dist(sl.get(|| Gaussian::new(a.f(0, -2.0, 2.0), a.f(1, 0.1, 3.0))), a, a.f(9, -4.0, 4.0), a.f(10, 0.001, 0.999))),
    ("poisson", |a, sl| dist(sl.get(|| Poisson::new(a.f(0, 0.1, 9.0))), a, a.n(9, 12) as f64, a.f(10, 0.001, 0.999))),
    ("gamma", |a, sl| dist(sl.get(|| Gamma::new(a.f(0, 0.2, 5.0), a.f(1, 0.2, 3.0))), a, a.f(9, 0.1, 6.0), a.f(10, 0.001, 0.999))),
    ("exponential", |a, sl| dist(sl.get(|| Exponential::new(a.f(0, 0.1, 5.0))), a, a.f(9, 0.0, 5.0), a.f(10, 0.001, 0.999))),
    ("chi-squared", |a, sl| dist(sl.get(|| ChiSquared::new(1 + a.n(0, 9))), a, a.f(9, 0.1, 9.0), a.f(10, 0.001, 0.999))),
    ("binomial", |a, sl| dist(sl.get(|| Binomial::new(1 + a.n(0, 20), a.f(1, 0.01, 0.99))), a, a.n(9, 12) as f64, a.f(10, 0.001, 0.999))),
    ("bernoulli", |a, sl| dist(sl.get(|| Bernoulli::new(a.f(0, 0.01, 0.99))), a, a.n(9, 2) as f64, a.f(10, 0.001, 0.999))),
    ("uniform", |a, sl| {
        dist(
            sl.get(|| {
                Uniform::new(
                    a.n(0, 4) as f64,
                    4.0 + a.n(1, 9) as f64,
                    if a.b(2) { DistributionClass::Continuous } else { DistributionClass::Discrete },
                )
            }),
            a,
            a.n(9, 14) as f64,
            a.f(10, 0.001, 0.999),
        )
    }),
    ("integrate", |a, _| vec![integrate(|x| func(a.n(0, 6), a.f(1, 0.1, 2.0), x), a.f(8, -2.0, 0.5), a.f(9, 0.6, 4.0))]),
    ("fft", fft),
    ("interpolation", interp),
    ("sequences", sequences),
    ("statistic", statistic),
    ("statistic", statistic),
    ("roots", roots),
    ("calendar", calendar),
    ("calendar", calendar),
    ("calendar", calendar),
    ("day-count", |a, _| vec![dcc(a.n(8, 19)).day_count_factor(a.date(9), a.date(9) + Duration::days(a.u(10) as i64))]),
    ("day-count", |a, _| vec![dcc(a.n(8, 19)).day_count_factor(a.date(9), a.date(10))]),
    ("dates", dates),
    ("dates", dates),
    ("iso-3166", |a, _| {
        let c = [b'A' + (a.u(8) % 26) as u8, b'A' + (a.u(9) % 26) as u8];
        match ISO_3166::from_alpha_2(std::str::from_utf8(&c).unwrap()) {
            Some(x) => vec![s(x.alpha_2()), s(x.alpha_3()), s(x.numeric())],
            None => vec![0.0],
        }
    }),
    ("iso-10383", |a, _| market(&[XNYS, XLON, XASX, XNAS, XTKS, XPAR][a.n(8, 6)])),
    ("regressions", regressions),
    ("regressions", regressions),
    ("activations", activations),
    ("defaults", defaults),
    ("defaults", defaults),
    ("sweep", sweep),
    ("implied-volatility", |a, _| {
        // far from the money, and for prices near both ends of the admissible range
        let (u, k, tt, r, fl) = (a.f(9, 20.0, 220.0), a.f(10, 80.0, 120.0), a.f(11, 0.02, 12.0), a.f(12, -0.02, 0.1), a.flag(13));
        let m = BlackScholes73::new(u, r, a.f(8, 0.01, 4.0));
        let p = m.price(k, tt, fl);
        let p = match a.n(14, 3) {
            0 => p,
            1 => p * a.f(15, 0.5, 1.5),
            _ => a.f(15, 0.0, u),
        };
        vec![implied_volatility(p, u, k, tt, r, fl), iv(p, u, k, tt, r, fl)]
    }),
    ("implied-volatility", |a, _| vec![implied_volatility(a.f(8, 1.0, 40.0), a.f(9, 80.0, 120.0), a.f(10, 80.0, 120.0), a.f(11, 0.1, 3.0), a.f(12, 0.0, 0.1), a.flag(13))]),
    ("bs73", |a, sl| gbsm!(a, sl.get(|| BlackScholes73::new(a.f(0, 50.0, 150.0), a.f(1, 0.0, 0.1), a.f(2, 0.1, 0.6))))),
    ("merton73", |a, sl| gbsm!(a, sl.get(|| Merton73::new(a.f(0, 50.0, 150.0), a.f(1, 0.0, 0.1), a.f(3, 0.0, 0.05), a.f(2, 0.1, 0.6))))),
    ("black76", |a, sl| gbsm!(a, sl.get(|| Black76::new(a.f(0, 50.0, 150.0), a.f(1, 0.0, 0.1), a.f(2, 0.1, 0.6))))),
    ("asay82", |a, sl| gbsm!(a, sl.get(|| Asay82::new(a.f(0, 50.0, 150.0), a.f(2, 0.1, 0.6))))),
    ("gk83", |a, sl| gbsm!(a, sl.get(|| GarmanKohlhagen83::new(a.f(0, 50.0, 150.0), a.f(1, 0.0, 0.1), a.f(3, 0.0, 0.05), a.f(2, 0.1, 0.6))))),
    ("heston", |a, sl| {
        let h: &Heston93 = sl.get(|| {
            Heston93::new(a.f(0, 80.0, 120.0), a.f(1, 0.02, 0.2), a.f(2, 0.0, 0.1), 0.01, a.f(3, -0.7, 0.2), a.f(4, 1.0, 3.0), a.f(5, 0.03, 0.1), a.f(6, 0.1, 0.4))
        });
        let (k, tt, fl) = (a.f(8, 70.0, 130.0), a.f(9, 0.1, 2.0), a.flag(10));
        vec![match a.n(11, 4) {
            0 => h.price(k, tt, fl),
            1 => h.delta(k, tt, fl),
            2 => h.gamma(k, tt, fl),
            _ => h.rho(k, tt, fl),
        }]
    }),
    ("bachelier", |a, sl| {
        let h: &Bachelier = sl.get(|| Bachelier::new(a.f(0, 80.0, 120.0), a.f(1, 0.0, 0.1), a.f(2, 5.0, 40.0)));
        let (k, tt, fl, p) = (a.f(8, 70.0, 130.0), a.f(9, 0.1, 2.0), a.flag(10), a.f(12, 1.0, 30.0));
        vec![match a.n(11, 8) {
            0 => h.price(k, tt, fl),
            1 => h.atm_price(tt),
            2 => h.atm_vol(p, tt),
            3 => h.iv(p, k, tt, fl),
            4 => h.delta(k, tt, fl),
            5 => h.gamma(k, tt, fl),
            6 => h.vega(k, tt, fl),
            _ => h.theta(k, tt, fl),
        }]
    }),
    ("sabr", |a, sl| {
        let h: &Sabr02 = sl.get(|| Sabr02::new(a.f(0, 0.02, 0.1), a.f(1, 0.05, 0.5), a.f(2, 0.0, 1.0), a.f(3, -0.8, 0.8), a.f(4, 0.1, 0.9)));
        vec![h.volatility(a.f(8, 0.01, 0.12), a.f(9, 0.1, 5.0))]
    }),
    ("bsm", bsm),
    ("bsm", bsm),
    ("fdm", fdm),
    ("lsm", lsm),
    ("payoffs", payoffs),
    ("payoffs", payoffs),
    ("money", money),
    ("cash", cash),
    ("portfolio", portfolio),
    ("curve", curve),
    ("curve", curve),
    ("autodiff", ad),
    ("book", book),
    ("process", |a, _| {
        let s = spec(a);
        let x = a.f(8, 0.2, 2.0);
        let tt = a.f(9, 0.0, 1.5);
        match s.real() {
            Some(p) => {
                let mut v = vec![p.drift(x, tt), p.diffusion(x, tt)];
                if s.kind != "merton" {
                    v.push(o(p.jump(x, tt)));
                }
                v.extend(p.parameters());
                v
            }
            None => vec![],
        }
    }),
    ("simulation", |a, _| {
        let s = spec(a);
        let r = s.seeded(a.b(8));
        r.times.into_iter().chain(r.paths.into_iter().flatten()).collect()
    }),
];

pub fn eval(e: usize, a: &A, sl: &mut Slot) -> Vec<u64> {
    let f = CATALOGUE[e].1;
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(a, sl))) {
        Ok(v) => v.into_iter().map(bits).collect(),
        Err(_) => vec![1, 0xdead],
    }
}
