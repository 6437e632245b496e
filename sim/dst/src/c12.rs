//! C12: market-data stores under a lossy feed, with crashes, journal replay, copies and readers.
use crate::catalogue::{roll, CURRENCIES, MARKETS};
use crate::fw::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use time::{Date, Weekday};
use RustQuant_cashflows::*;
use RustQuant_data::*;
use RustQuant_instruments::*;
use RustQuant_math::{BSplineInterpolator, ExponentialInterpolator, Interpolator, LinearInterpolator};
use RustQuant_portfolios::{Portfolio, Position};
use RustQuant_time::*;
use RustQuant_trading::{order::Order, order_book::OrderBook, order_lifespan::OrderTimeInForce, order_side::OrderSide, order_type::OrderType};

const BASE: i32 = 2_459_580;

fn day(d: i64) -> Date {
    Date::from_julian_day(BASE + d as i32).unwrap()
}
/// Rates in thousandths.
fn milli(x: i64) -> f64 {
    x as f64 / 1000.0
}
/// Prices in eighths: sums are exact.
fn eighth(x: i64) -> f64 {
    x as f64 / 8.0
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Upd {
    Quote { q: u64, v: Option<i64> },
    Reset { q: u64 },
    Price { p: u64, v: i64 },
    Quantity { p: u64, n: u64 },
    Put { p: u64, n: u64, bought: i64, now: i64 },
    Remove { p: u64 },
    Fx { from: u64, to: u64, rate: i64 },
    Node { c: u64, day: i64, rate: i64 },
    Nodes { c: u64, nodes: Vec<(i64, i64)> },
    Shift { c: u64, by: i64 },
    Keep { c: u64, days: Vec<i64>, one: bool },
    Holiday { k: u64, day: i64 },
    Holidays { k: u64, days: Vec<i64> },
    Point { i: u64, x: i64, y: i64 },
    Flow { day: i64, amount: i64 },
    /// another option for pricer k
    Terms { k: u64, strike: i64, day: i64, call: bool },
    /// another model for pricer k
    Params { k: u64, spot: i64, rate: i64, vol: i64 },
    Order { bid: bool, price: i64, n: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Act {
    /// an update, arriving after these delays (none: lost; several: duplicated)
    Send { delays: Vec<u64>, u: Upd },
    /// ask something
    Ask { what: u64, arg: u64 },
    /// take a copy of what can be copied
    Copy,
    /// an update to the n-th copy
    OnCopy { n: u64, u: Upd },
    AskCopy { n: u64, what: u64, arg: u64 },
    /// the process dies; the last `lost` journal records were not durable
    Crash { lost: u64 },
    /// this many threads ask at once, and meanwhile a copy changes
    Readers { n: u64, asks: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct CurveInit {
    nodes: Vec<(i64, i64)>,
    exp: bool,
    map: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct InterpInit {
    kind: u64,
    dates: bool,
    pts: Vec<(i64, i64)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    quotes: Vec<Option<i64>>,
    curves: Vec<CurveInit>,
    markets: Vec<u64>,
    interps: Vec<InterpInit>,
    acts: Vec<(u64, Act)>,
}

// ------------------------------------------------------------------ model

#[derive(Clone)]
struct MCurve {
    nodes: BTreeMap<i64, f64>,
    exp: bool,
}

#[derive(Clone)]
struct Model {
    quotes: Vec<Option<f64>>,
    pf: BTreeMap<u64, (u64, f64, f64)>,
    fx: BTreeMap<(u64, u64), f64>,
    curves: Vec<MCurve>,
    cals: Vec<(usize, BTreeSet<i64>)>,
    interps: Vec<InterpInit>,
    flows: Vec<(i64, f64)>,
    /// strike, expiry, call; spot, rate, volatility
    pricers: [((i64, i64, bool), (i64, i64, i64)); 2],
    orders: Vec<(bool, i64, u64)>,
}

enum Ip {
    F(Box<dyn Interpolator<f64, f64>>),
    D(Box<dyn Interpolator<Date, f64>>),
}

#[derive(Clone)]
struct Shared {
    fx: Exchange,
    curves: Vec<Curve>,
    cals: Vec<Calendar>,
    leg: Leg,
    orders: OrderBook,
}

type Pricer<M> = AnalyticOptionPricer<EuropeanVanillaOption, M>;

struct Stores {
    p0: Pricer<BlackScholes73>,
    p1: Pricer<Bachelier>,
    s: Shared,
    quotes: Vec<SimpleQuote>,
    pf: Portfolio<Currency>,
    interps: Vec<Ip>,
}

fn pname(p: u64) -> String {
    format!("P{p}")
}
fn cur(k: u64) -> Currency {
    CURRENCIES[(k % 10) as usize]
}

const DEGREE: usize = 2;

fn build_ip(i: &InterpInit) -> Ip {
    let ys: Vec<f64> = i.pts.iter().map(|p| milli(p.1)).collect();
    macro_rules! mk {
        ($v:ident, $xs:expr, $ends:expr) => {{
            let mut xs = $xs;
            match i.kind % 3 {
                0 => Ip::$v(Box::new(LinearInterpolator::new(xs, ys).unwrap())),
                1 => Ip::$v(Box::new(ExponentialInterpolator::new(xs, ys).unwrap())),
                _ => {
                    xs.extend($ends);
                    Ip::$v(Box::new(BSplineInterpolator::new(xs, ys, DEGREE).unwrap()))
                }
            }
        }};
    }
    if i.dates {
        mk!(D, i.pts.iter().map(|p| day(p.0)).collect::<Vec<_>>(), ends().map(day))
    } else {
        mk!(F, i.pts.iter().map(|p| p.0 as f64 / 4.0).collect::<Vec<_>>(), ends().map(|x| x as f64 / 4.0))
    }
}
/// extra knots of a spline
fn ends() -> impl Iterator<Item = i64> {
    [-7i64, 1601, 1607].into_iter()
}

const TERMS: (i64, i64, bool) = (100, 400, true);
const PARAMS: (i64, i64, i64) = (100, 30, 200);
/// Expiries lie after every clock reading of a simulation.
const LATE: i32 = 2_488_070;

fn expiry(d: i64) -> Date {
    Date::from_julian_day(LATE + d as i32).unwrap()
}
fn option(t: (i64, i64, bool)) -> EuropeanVanillaOption {
    EuropeanVanillaOption::new(t.0 as f64, expiry(t.1), if t.2 { TypeFlag::Call } else { TypeFlag::Put })
}
fn bs(p: (i64, i64, i64)) -> BlackScholes73 {
    BlackScholes73::new(p.0 as f64, milli(p.1), milli(p.2))
}
fn bach(p: (i64, i64, i64)) -> Bachelier {
    Bachelier::new(p.0 as f64, milli(p.1), p.2 as f64 / 10.0)
}
fn order(id: u64, o: (bool, i64, u64)) -> Order {
    Order {
        id,
        symbol_id: 7,
        order_type: if id % 2 == 0 { OrderType::Limit } else { OrderType::Market },
        order_side: if o.0 { OrderSide::BID } else { OrderSide::ASK },
        price: eighth(o.1),
        stop_price: eighth(o.1 + 1),
        quantity: o.2,
        executed_quantity: o.2 / 3,
        leaves_quantity: o.2 - o.2 / 3,
        time_in_force: OrderTimeInForce::GoodTillCancelled,
        timestamp: time::OffsetDateTime::UNIX_EPOCH + time::Duration::seconds(id as i64),
    }
}

fn init(c: &Case) -> (Stores, Model) {
    let curves = c
        .curves
        .iter()
        .map(|k| {
            let m = if k.exp { InterpolationMethod::Exponential } else { InterpolationMethod::Linear };
            let (xs, ys): (Vec<Date>, Vec<f64>) = k.nodes.iter().map(|n| (day(n.0), milli(n.1))).unzip();
            if k.map {
                Curve::from_nodes(xs.into_iter().zip(ys).collect(), CurveType::Spot, m).unwrap()
            } else {
                Curve::new(xs, ys, CurveType::Spot, m).unwrap()
            }
        })
        .collect();
    let st = Stores {
        s: Shared {
            fx: Exchange::new(),
            curves,
            cals: c.markets.iter().map(|&m| Calendar::new(MARKETS[m as usize % MARKETS.len()])).collect(),
            leg: Leg::new(vec![]),
            orders: OrderBook::new(),
        },
        p0: AnalyticOptionPricer::new(option(TERMS), bs(PARAMS)),
        p1: AnalyticOptionPricer::new(option(TERMS), bach(PARAMS)),
        quotes: c.quotes.iter().map(|q| SimpleQuote::new(q.map(eighth))).collect(),
        pf: Portfolio::new(HashMap::new()),
        interps: c.interps.iter().map(build_ip).collect(),
    };
    let m = Model {
        quotes: c.quotes.iter().map(|q| q.map(eighth)).collect(),
        pf: BTreeMap::new(),
        fx: BTreeMap::new(),
        curves: c.curves.iter().map(|k| MCurve { nodes: k.nodes.iter().map(|n| (n.0, milli(n.1))).collect(), exp: k.exp }).collect(),
        cals: c.markets.iter().map(|&m| (m as usize % MARKETS.len(), BTreeSet::new())).collect(),
        interps: c.interps.clone(),
        flows: vec![],
        pricers: [(TERMS, PARAMS); 2],
        orders: vec![],
    };
    (st, m)
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}
fn oclose(a: Option<f64>, b: Option<f64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => close(a, b),
        (None, None) => true,
        _ => false,
    }
}

impl MCurve {
    /// Outer None: not specified.
    fn rate(&self, d: i64) -> Option<Option<f64>> {
        if let Some(r) = self.nodes.get(&d) {
            return Some(Some(*r));
        }
        let (Some(l), Some(r)) = (self.nodes.range(..d).next_back(), self.nodes.range(d..).next()) else { return Some(None) };
        let w = (d - l.0) as f64 / (r.0 - l.0) as f64;
        if self.exp {
            if *l.1 <= 0.0 || *r.1 <= 0.0 || l.1.is_nan() || r.1.is_nan() {
                return None;
            }
            Some(Some((l.1.ln() * (1.0 - w) + r.1.ln() * w).exp()))
        } else {
            Some(Some(l.1 + (r.1 - l.1) * w))
        }
    }
}

fn weekend(m: usize, d: Date) -> bool {
    match d.weekday() {
        Weekday::Saturday => true,
        Weekday::Friday => matches!(MARKETS[m], Market::Israel),
        Weekday::Sunday => !matches!(MARKETS[m], Market::Israel),
        _ => false,
    }
}
fn holiday(k: &(usize, BTreeSet<i64>), d: i64) -> bool {
    k.1.contains(&d) || Calendar::new(MARKETS[k.0]).is_holiday(day(d))
}
fn open(k: &(usize, BTreeSet<i64>), d: i64) -> bool {
    !weekend(k.0, day(d)) && !holiday(k, d)
}
fn step(k: &(usize, BTreeSet<i64>), mut d: i64, by: i64) -> i64 {
    while !open(k, d) {
        d += by;
    }
    d
}

type Bad = Option<(&'static str, String)>;

fn fail(key: &'static str, d: String) -> Bad {
    Some((key, d))
}

/// Runs the library; a panic is an answer like any other.
fn lib<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

fn apply_shared(s: &mut Shared, m: &mut Model, u: &Upd) -> Bad {
    match u {
        Upd::Fx { from, to, rate } => {
            let (a, b) = (from % 10, to % 10);
            m.fx.insert((a, b), milli(*rate));
            if lib(|| s.fx.add_rate(ExchangeRate::new(cur(a), cur(b), milli(*rate)))).is_err() {
                return fail("exchange", "add_rate panicked".into());
            }
        }
        Upd::Node { c, day: d, rate } => {
            let k = *c as usize % s.curves.len();
            m.curves[k].nodes.insert(*d, milli(*rate));
            if lib(|| s.curves[k].set_rate(day(*d), milli(*rate))).is_err() {
                return fail("curve", "set_rate panicked".into());
            }
        }
        Upd::Nodes { c, nodes } => {
            let k = *c as usize % s.curves.len();
            m.curves[k].nodes.extend(nodes.iter().map(|n| (n.0, milli(n.1))));
            if lib(|| s.curves[k].set_rates(nodes.iter().map(|n| (day(n.0), milli(n.1))).collect())).is_err() {
                return fail("curve", "set_rates panicked".into());
            }
        }
        Upd::Shift { c, by } => {
            let k = *c as usize % s.curves.len();
            m.curves[k].nodes.values_mut().for_each(|v| *v += milli(*by));
            if lib(|| s.curves[k].shift(milli(*by))).is_err() {
                return fail("curve", "shift panicked".into());
            }
        }
        Upd::Keep { c, days, one } => {
            let k = *c as usize % s.curves.len();
            let got = lib(|| {
                if *one && days.len() == 1 {
                    vec![s.curves[k].get_rate_and_insert(day(days[0]))]
                } else {
                    s.curves[k].get_rates_and_insert(days.iter().map(|d| day(*d)).collect())
                }
            });
            let Ok(got) = got else { return fail("curve", "get_rate_and_insert panicked".into()) };
            if got.len() != days.len() {
                return fail("curve", format!("get_rates_and_insert answered {} of {} dates", got.len(), days.len()));
            }
            for (d, g) in days.iter().zip(got) {
                if let Some(want) = m.curves[k].rate(*d) {
                    if !oclose(g, want) {
                        return fail("curve", format!("get_rate_and_insert({}) is {g:?}; the current nodes give {want:?}", day(*d)));
                    }
                }
                if let Some(g) = g {
                    m.curves[k].nodes.entry(*d).or_insert(g);
                }
            }
        }
        Upd::Holiday { k, day: d } => {
            let k = *k as usize % s.cals.len();
            m.cals[k].1.insert(*d);
            if lib(|| s.cals[k].add_holiday(day(*d))).is_err() {
                return fail("calendar", "add_holiday panicked".into());
            }
        }
        Upd::Holidays { k, days } => {
            let k = *k as usize % s.cals.len();
            m.cals[k].1.extend(days);
            if lib(|| s.cals[k].add_holidays(days.iter().map(|d| day(*d)).collect())).is_err() {
                return fail("calendar", "add_holidays panicked".into());
            }
        }
        Upd::Flow { day: d, amount } => {
            m.flows.push((*d, eighth(*amount)));
            if lib(|| s.leg.add_cashflow(Cashflow::new(eighth(*amount), day(*d)))).is_err() {
                return fail("leg", "add_cashflow panicked".into());
            }
        }
        Upd::Order { bid, price, n } => {
            let o = (*bid, *price, *n);
            let id = m.orders.len() as u64;
            m.orders.push(o);
            if lib(|| s.orders.insert_order(order(id, o))).is_err() {
                return fail("orders", "insert_order panicked".into());
            }
        }
        _ => {}
    }
    None
}

fn apply(st: &mut Stores, m: &mut Model, u: &Upd) -> Bad {
    match u {
        Upd::Quote { q, v } => {
            let k = *q as usize % m.quotes.len();
            let new = v.map(eighth);
            let Ok(diff) = lib(|| st.quotes[k].set_value(new)) else { return fail("quote", "set_value panicked".into()) };
            let want = match (m.quotes[k], new) {
                (Some(a), Some(b)) => b - a,
                (None, Some(b)) => b,
                _ => 0.0,
            };
            if new.is_some() {
                m.quotes[k] = new;
            }
            if !close(diff, want) {
                return fail("quote", format!("set_value returned the difference {diff}, not {want}"));
            }
        }
        Upd::Reset { q } => {
            let k = *q as usize % m.quotes.len();
            m.quotes[k] = None;
            if lib(|| st.quotes[k].reset()).is_err() {
                return fail("quote", "reset panicked".into());
            }
        }
        Upd::Price { p, v } => {
            let r = lib(|| st.pf.update_price(&pname(*p), eighth(*v)));
            match (m.pf.get_mut(p), r) {
                (Some(x), Ok(())) => x.2 = eighth(*v),
                (None, Err(())) => sim::note_fault("update-of-unknown-position"),
                (x, _) => return fail("portfolio", format!("update_price of {} {}", pname(*p), if x.is_some() { "panicked" } else { "was accepted" })),
            }
        }
        Upd::Quantity { p, n } => {
            let r = lib(|| st.pf.update_quantity(&pname(*p), *n));
            match (m.pf.get_mut(p), r) {
                (Some(x), Ok(())) => x.0 = *n,
                (None, Err(())) => sim::note_fault("update-of-unknown-position"),
                (x, _) => return fail("portfolio", format!("update_quantity of {} {}", pname(*p), if x.is_some() { "panicked" } else { "was accepted" })),
            }
        }
        Upd::Put { p, n, bought, now } => {
            m.pf.insert(*p, (*n, eighth(*bought), eighth(*now)));
            st.pf.positions.insert(pname(*p), Position::new(cur(*p), *n, eighth(*bought), eighth(*now), Some(cur(*p))));
        }
        Upd::Remove { p } => {
            m.pf.remove(p);
            st.pf.positions.remove(&pname(*p));
        }
        Upd::Point { i, x, y } => {
            let k = *i as usize % m.interps.len();
            // two points at one index: not specified
            if m.interps[k].pts.iter().any(|p| p.0 == *x) || ends().any(|e| e == *x) {
                return None;
            }
            m.interps[k].pts.push((*x, *y));
            let r = lib(|| match &mut st.interps[k] {
                Ip::F(f) => f.add_point((*x as f64 / 4.0, milli(*y))),
                Ip::D(f) => f.add_point((day(*x), milli(*y))),
            });
            if r.is_err() {
                return fail("interpolator", "add_point panicked".into());
            }
        }
        Upd::Terms { k, strike, day, call } => {
            let t = (*strike, *day, *call);
            m.pricers[(k % 2) as usize].0 = t;
            if k % 2 == 0 {
                st.p0.set_option(option(t))
            } else {
                st.p1.set_option(option(t))
            }
        }
        Upd::Params { k, spot, rate, vol } => {
            let p = (*spot, *rate, *vol);
            m.pricers[(k % 2) as usize].1 = p;
            if k % 2 == 0 {
                st.p0.set_model(bs(p))
            } else {
                st.p1.set_model(bach(p))
            }
        }
        _ => return apply_shared(&mut st.s, m, u),
    }
    None
}

fn ask_shared(s: &Shared, m: &Model, what: u64, arg: u64) -> Bad {
    let mut g = Rng::new(arg ^ 0x5eed);
    let d = g.range(-20, 420);
    match what % 9 {
        0..=2 => {
            let k = g.below(s.curves.len() as u64) as usize;
            let (c, mc) = (&s.curves[k], &m.curves[k]);
            // often near a node
            let d = if g.chance(0.5) { mc.nodes.keys().nth(g.below(mc.nodes.len() as u64) as usize).unwrap() + g.range(-2, 2) } else { d };
            if g.chance(0.3) {
                let ds: Vec<i64> = (0..g.range(0, 4)).map(|_| g.range(-20, 420)).collect();
                let Ok(got) = lib(|| c.get_rates(ds.iter().map(|d| day(*d)).collect())) else { return fail("curve", "get_rates panicked".into()) };
                if got.len() != ds.len() {
                    return fail("curve", format!("get_rates answered {} of {} dates", got.len(), ds.len()));
                }
                for (d, got) in ds.iter().zip(got) {
                    if let Some(want) = mc.rate(*d) {
                        if !oclose(got, want) {
                            return fail("curve", format!("get_rates at {} is {got:?}; the current nodes give {want:?}", day(*d)));
                        }
                    }
                }
            } else {
                let Ok(got) = lib(|| c.get_rate(day(d))) else { return fail("curve", format!("get_rate({}) panicked", day(d))) };
                if let Some(want) = mc.rate(d) {
                    if !oclose(got, want) {
                        return fail("curve", format!("curve {k}: get_rate({}) is {got:?}; the current nodes give {want:?}", day(d)));
                    }
                }
            }
        }
        3 => {
            let k = g.below(s.curves.len() as u64) as usize;
            let (c, mc) = (&s.curves[k], &m.curves[k]);
            let want: Vec<(Date, f64)> = mc.nodes.iter().map(|n| (day(*n.0), *n.1)).collect();
            let got = lib(|| (c.dates(), c.rates(), c.len(), c.is_empty(), c.first_date().copied(), c.last_date().copied(), c.first_rate().copied(), c.last_rate().copied()));
            let Ok(got) = got else { return fail("curve", "listing the nodes panicked".into()) };
            let nodes: Vec<_> = got.0.iter().copied().zip(got.1.iter().copied()).collect();
            let same = nodes.len() == want.len() && got.1.len() == want.len() && nodes.iter().zip(&want).all(|(a, b)| a.0 == b.0 && close(a.1, b.1));
            if !same {
                return fail("curve", format!("curve {k} has nodes {nodes:?}, not {want:?}"));
            }
            let (f, l) = (want[0], want[want.len() - 1]);
            if got.2 != want.len() || got.3 || got.4 != Some(f.0) || got.5 != Some(l.0) || !oclose(got.6, Some(f.1)) || !oclose(got.7, Some(l.1)) {
                return fail("curve", format!("curve {k}: length or ends are wrong: {:?}", (got.2, got.3, got.4, got.5, got.6, got.7)));
            }
            let Ok(b) = lib(|| c.get_brackets(day(d))) else { return fail("curve", "get_brackets panicked".into()) };
            let b0 = mc.nodes.range(..d).next_back().or(mc.nodes.iter().next()).unwrap().0;
            let b1 = mc.nodes.range(d..).next().or(mc.nodes.iter().next_back()).unwrap().0;
            let first = *mc.nodes.keys().next().unwrap();
            let last = *mc.nodes.keys().next_back().unwrap();
            let wb = if d <= first { (first, first) } else if d >= last { (last, last) } else { (*b0, *b1) };
            if b != (day(wb.0), day(wb.1)) {
                return fail("curve", format!("get_brackets({}) is {b:?}, not {:?}", day(d), (day(wb.0), day(wb.1))));
            }
        }
        4 => {
            let (a, b) = (g.below(10), g.below(10));
            let got = lib(|| s.fx.get_rate(&cur(a), &cur(b)).copied());
            let Ok(got) = got else { return fail("exchange", "get_rate panicked".into()) };
            let want = m.fx.get(&(a, b));
            let ok = match (&got, want) {
                (Some(r), Some(w)) => close(r.rate, *w) && r.from_currency == cur(a) && r.to_currency == cur(b),
                (None, None) => true,
                _ => false,
            };
            if !ok {
                return fail("exchange", format!("get_rate({a}, {b}) is {:?}; last accepted {want:?}", got.map(|r| r.rate)));
            }
            let amt = eighth(g.range(-800, 800));
            match (lib(|| s.fx.convert(Money::new(cur(a), amt), cur(b))), want) {
                (Ok(x), Some(w)) if close(x.amount, amt * w) && x.currency == cur(b) => {}
                (Err(()), None) => sim::note_fault("conversion-without-rate"),
                (r, _) => return fail("exchange", format!("convert of {amt} from {a} to {b} is {:?}; last accepted rate {want:?}", r.map(|x| x.amount))),
            }
            if s.fx.rates.len() != m.fx.len() {
                return fail("exchange", format!("{} rates stored, {} accepted", s.fx.rates.len(), m.fx.len()));
            }
        }
        5 => {
            let k = g.below(s.cals.len() as u64) as usize;
            let (c, mk) = (&s.cals[k], &m.cals[k]);
            let d = if !mk.1.is_empty() && g.chance(0.6) { mk.1.iter().nth(g.below(mk.1.len() as u64) as usize).unwrap() + g.range(-2, 2) } else { d };
            let got = lib(|| (c.is_holiday(day(d)), c.is_business_day(day(d)), c.is_weekend(day(d)), c.market()));
            let want = (holiday(mk, d), open(mk, d), weekend(mk.0, day(d)));
            match got {
                Ok(g) if (g.0, g.1, g.2) == want && g.3 as usize == MARKETS[mk.0] as usize => {}
                _ => return fail("calendar", format!("{:?} at {}: holiday, business day, weekend are {:?}, not {want:?}", MARKETS[mk.0], day(d), got.map(|g| (g.0, g.1, g.2)))),
            }
            let set: BTreeSet<Date> = mk.1.iter().map(|d| day(*d)).collect();
            if lib(|| c.extra_holidays().clone()) != Ok(set) {
                return fail("calendar", "extra_holidays() is not what was added".into());
            }
        }
        6 => {
            let k = g.below(s.cals.len() as u64) as usize;
            let (c, mk) = (&s.cals[k], &m.cals[k]);
            let d = if !mk.1.is_empty() && g.chance(0.6) { mk.1.iter().nth(g.below(mk.1.len() as u64) as usize).unwrap() + g.range(-2, 2) } else { d };
            let n = g.range(0, 30);
            let (got, want) = match g.below(6) {
                0 => (lib(|| c.business_day_count(day(d), day(d + n))), (d..=d + n).filter(|x| open(mk, *x)).count() as i64),
                1 => (lib(|| next_business_day(day(d), c).to_julian_day() as i64 - BASE as i64), step(mk, d, 1)),
                2 => (lib(|| previous_business_day(day(d), c).to_julian_day() as i64 - BASE as i64), step(mk, d, -1)),
                3 => (lib(|| c.roll_date(day(d), DateRollingConvention::Following).to_julian_day() as i64 - BASE as i64), step(mk, d, 1)),
                4 => (lib(|| c.roll_date(day(d), DateRollingConvention::Preceding).to_julian_day() as i64 - BASE as i64), step(mk, d, -1)),
                _ => {
                    let kind = roll(g.below(6) as usize);
                    let mut f = Calendar::new(MARKETS[mk.0]);
                    mk.1.iter().for_each(|d| f.add_holiday(day(*d)));
                    (lib(|| c.roll_date(day(d), kind).to_julian_day() as i64), lib(|| f.roll_date(day(d), kind).to_julian_day() as i64).unwrap_or(-1))
                }
            };
            if got != Ok(want) {
                return fail("calendar", format!("{:?}, from {} for {n} days: {got:?}, not {want}", MARKETS[mk.0], day(d)));
            }
        }
        7 => {
            let rate = 0.5 + g.f() / 2.0;
            let l = &s.leg;
            let dates = || m.flows.iter().map(|f| f.0);
            let want: f64 = m.flows.iter().map(|f| f.1 * rate).sum();
            let at = g.range(-20, 420);
            let r = lib(|| (l.size(), l.npv(rate), l.start_date(), l.end_date(), l.is_active(day(at)), l.cashflows().iter().map(|c| (c.date(), c.amount())).collect::<Vec<_>>()));
            let Ok(r) = r else { return fail("leg", "a query panicked".into()) };
            let active = dates().min().map_or(false, |x| at >= x) && dates().max().map_or(false, |x| at <= x);
            let flows: Vec<_> = m.flows.iter().map(|f| (day(f.0), f.1)).collect();
            if r.0 != flows.len() || !close(r.1, want) || r.2 != dates().min().map(day) || r.3 != dates().max().map(day) || r.4 != active || r.5 != flows {
                return fail("leg", format!("answers {r:?}; accepted cash flows {flows:?}, npv {want}"));
            }
        }
        _ => {
            let b = &s.orders;
            if lib(|| (b.len(), b.is_empty())) != Ok((m.orders.len(), m.orders.is_empty())) {
                return fail("orders", format!("{} orders accepted, the book counts {}", m.orders.len(), b.len()));
            }
            for bid in [true, false] {
                let want: Vec<Order> = m.orders.iter().enumerate().filter(|(_, o)| o.0 == bid).map(|(i, o)| order(i as u64, *o)).collect();
                let got = if bid { &b.bids } else { &b.asks };
                let show = |o: &Order| {
                    (o.id(), o.symbol_id(), o.price(), o.stop_price(), o.quantity(), o.executed_quantity(), o.leaves_quantity(), o.timestamp(), o.to_string())
                };
                if got.len() != want.len() || !got.iter().zip(&want).all(|(a, b)| show(a) == show(b)) {
                    return fail("orders", format!("bid {bid}: the book holds {:?}; accepted {:?}", got.iter().map(show).collect::<Vec<_>>(), want.iter().map(show).collect::<Vec<_>>()));
                }
            }
        }
    }
    None
}

fn ask(st: &Stores, m: &Model, what: u64, arg: u64) -> Bad {
    let mut g = Rng::new(arg);
    match what % 14 {
        12 => {
            // the value on some day the clock showed meanwhile
            let from = sim::n_wall_reads();
            today();
            let which = g.below(3);
            let (a, b) = (&st.p0, &st.p1);
            let one = |k: usize| {
                if k == 0 {
                    [a.price(), a.delta(), a.vega()][which as usize]
                } else {
                    [b.price(), b.delta(), b.vega()][which as usize]
                }
            };
            let k = g.below(2) as usize;
            let Ok(got) = lib(|| one(k)) else { return fail("pricer", "a query panicked".into()) };
            let terms = if k == 0 { *a.option() } else { *b.option() };
            let (t, p) = m.pricers[k];
            let o = option(t);
            if (terms.strike, terms.expiry, terms.type_flag as u8) != (o.strike, o.expiry, o.type_flag as u8) {
                return fail("pricer", format!("pricer {k} holds {terms:?}; set last: {o:?}"));
            }
            let wants: Vec<f64> = sim::wall_reads(from)
                .into_iter()
                .map(|ns| {
                    let now = Date::from_julian_day(2_440_588 + ns.div_euclid(DAY) as i32).unwrap();
                    let tt = year_fraction(now, o.expiry);
                    if k == 0 {
                        let m = bs(p);
                        [m.price(o.strike, tt, o.type_flag), m.delta(o.strike, tt, o.type_flag), m.vega(o.strike, tt, o.type_flag)][which as usize]
                    } else {
                        let m = bach(p);
                        [m.price(o.strike, tt, o.type_flag), m.delta(o.strike, tt, o.type_flag), m.vega(o.strike, tt, o.type_flag)][which as usize]
                    }
                })
                .collect();
            if !wants.iter().any(|w| close(*w, got)) {
                return fail("pricer", format!("pricer {k}, query {which} answers {got}; its option {t:?} and model {p:?} give {wants:?}"));
            }
        }
        13 => return ask_shared(&st.s, m, 8, arg),
        8 => {
            let k = g.below(m.quotes.len() as u64) as usize;
            let got = (st.quotes[k].value(), st.quotes[k].is_valid());
            if got != (m.quotes[k], m.quotes[k].is_some()) {
                return fail("quote", format!("quote {k} is {got:?}; last accepted {:?}", m.quotes[k]));
            }
        }
        9 => {
            let v: f64 = m.pf.values().map(|x| x.0 as f64 * x.2).sum();
            let c: f64 = m.pf.values().map(|x| x.0 as f64 * x.1).sum();
            let Ok(got) = lib(|| (st.pf.value(), st.pf.cost(), st.pf.profit())) else { return fail("portfolio", "a total panicked".into()) };
            if !close(got.0, v) || !close(got.1, c) || !close(got.2, v - c) {
                return fail("portfolio", format!("value, cost, profit are {got:?}; the positions give {:?}", (v, c, v - c)));
            }
            for (p, x) in &m.pf {
                let q = &st.pf.positions[&pname(*p)];
                if (q.quantity, q.purchase_price, q.current_price) != *x || !close(q.value(), x.0 as f64 * x.2) || !close(q.profit(), x.0 as f64 * (x.2 - x.1)) {
                    return fail("portfolio", format!("{} is {:?}, value {}, profit {}; accepted {x:?}", pname(*p), (q.quantity, q.purchase_price, q.current_price), q.value(), q.profit()));
                }
            }
        }
        10 => {
            let v: f64 = m.pf.values().map(|x| x.0 as f64 * x.2).sum();
            let Ok(w) = lib(|| st.pf.position_weights()) else { return fail("portfolio", "position_weights panicked".into()) };
            if w.len() != m.pf.len() {
                return fail("portfolio", format!("{} weights for {} positions", w.len(), m.pf.len()));
            }
            if v > 0.0 {
                for (p, x) in &m.pf {
                    let want = x.0 as f64 * x.2 / v;
                    if w.get(&pname(*p)).map_or(true, |g| (*g as f64 - want).abs() > 1e-5) {
                        return fail("portfolio", format!("weight of {} is {:?}, not {want}", pname(*p), w.get(&pname(*p))));
                    }
                }
            }
        }
        11 => {
            let k = g.below(m.interps.len() as u64) as usize;
            let i = &m.interps[k];
            let x = if g.chance(0.3) { i.pts[g.below(i.pts.len() as u64) as usize].0 } else { g.range(-20, 420) };
            let at = |s: &Ip| {
                lib(|| match s {
                    Ip::F(f) => (f.interpolate(x as f64 / 4.0).ok(), f.range().0 as i64, f.range().1 as i64),
                    Ip::D(f) => (f.interpolate(day(x)).ok(), f.range().0.to_julian_day() as i64, f.range().1.to_julian_day() as i64),
                })
            };
            let got = at(&st.interps[k]);
            let fresh = at(&build_ip(i));
            let same = match (&got, &fresh) {
                (Ok(a), Ok(b)) => oclose(a.0, b.0) && (a.1, a.2) == (b.1, b.2),
                (Err(()), Err(())) => true,
                _ => false,
            };
            if !same {
                return fail("interpolator", format!("after points were added, interpolation at {x} is {got:?}; built from all points at once it is {fresh:?}; {i:?}"));
            }
            if i.kind % 3 < 2 {
                let mc = MCurve { nodes: i.pts.iter().map(|p| (p.0, milli(p.1))).collect(), exp: i.kind % 3 == 1 };
                if let (Ok(a), Some(want)) = (&got, mc.rate(x)) {
                    if !oclose(a.0, want) {
                        return fail("interpolator", format!("interpolation at {x} is {:?}, not {want:?}; {i:?}", a.0));
                    }
                }
            }
        }
        w => return ask_shared(&st.s, m, w, arg),
    }
    None
}

fn history(c: &Case) -> Value {
    let mut viol: Vec<Value> = vec![];
    let (mut st, mut m) = init(c);
    let mut journal: Vec<Upd> = vec![];
    let mut copies: Vec<(Shared, Model)> = vec![];
    // arrival order: (time, position), duplicates and all
    let mut ev: Vec<(u64, usize, &Act)> = vec![];
    for (i, (t, a)) in c.acts.iter().enumerate() {
        match a {
            Act::Send { delays, .. } => {
                match delays.len() {
                    0 => sim::note_fault("update-lost"),
                    1 => {}
                    _ => sim::note_fault("update-duplicated"),
                }
                for d in delays {
                    if *d > 0 {
                        sim::note_fault("update-delayed");
                    }
                    ev.push((t + d, i, a));
                }
            }
            _ => ev.push((*t, i, a)),
        }
    }
    ev.sort_by_key(|e| (e.0, e.1));
    for w in ev.windows(2) {
        if matches!((w[0].2, w[1].2), (Act::Send { .. }, Act::Send { .. })) && w[0].1 > w[1].1 {
            sim::note_fault("updates-reordered");
        }
    }
    let (mut applied, mut asked) = (0u64, 0u64);
    for (_, i, a) in ev {
        let bad = match a {
            Act::Send { u, .. } => {
                journal.push(u.clone());
                applied += 1;
                apply(&mut st, &mut m, u)
            }
            Act::Ask { what, arg } => {
                asked += 1;
                ask(&st, &m, *what, *arg)
            }
            Act::Copy => {
                sim::probe("copy");
                match lib(|| st.s.clone()) {
                    Ok(s) => {
                        copies.push((s, m.clone()));
                        None
                    }
                    Err(()) => fail("copy", "clone panicked".into()),
                }
            }
            Act::OnCopy { n, u } if !copies.is_empty() => {
                let k = *n as usize % copies.len();
                let (s, cm) = &mut copies[k];
                apply_shared(s, cm, u)
            }
            Act::AskCopy { n, what, arg } if !copies.is_empty() => {
                asked += 1;
                let (s, cm) = &copies[*n as usize % copies.len()];
                ask_shared(s, cm, *what, *arg)
            }
            Act::Crash { lost } => {
                sim::note_fault("consumer-crash");
                if *lost > 0 && !journal.is_empty() {
                    sim::note_fault("journal-tail-lost");
                }
                journal.truncate(journal.len().saturating_sub(*lost as usize));
                copies.clear();
                (st, m) = init(c);
                let mut b = None;
                for u in &journal {
                    b = b.or(apply(&mut st, &mut m, u));
                }
                b
            }
            Act::Readers { n, asks } => {
                sim::probe("concurrent-readers");
                let mut extra = st.s.clone();
                let mut em = m.clone();
                let (str, mr) = (&st, &m);
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..*n)
                        .map(|k| {
                            s.spawn(move || (0..*asks).find_map(|q| ask(str, mr, q + k, Rng::derive(i as u64, &[k, q]).next())))
                        })
                        .collect();
                    let mut b = None;
                    for q in 0..*asks {
                        b = b.or(apply_shared(&mut extra, &mut em, &Upd::Shift { c: q, by: 7 }));
                        b = b.or(ask_shared(&extra, &em, q, q * 31));
                    }
                    for h in hs {
                        b = b.or(h.join().unwrap_or_else(|_| fail("readers", "a reader panicked".into())));
                    }
                    b
                })
            }
            _ => None,
        };
        if let Some((key, d)) = bad {
            viol.push(json!(["stale-answer", key, format!("event {i} ({a:?}): {d}")]));
            break;
        }
    }
    // everything once more at the end, the copies too
    if viol.is_empty() {
        'end: for w in 0..14u64 {
            for arg in 0..4 {
                let mut b = ask(&st, &m, w, 1000 + arg);
                for (s, cm) in &copies {
                    b = b.or(ask_shared(s, cm, w, 2000 + arg));
                }
                if let Some((key, d)) = b {
                    viol.push(json!(["stale-answer", key, format!("at the end: {d}")]));
                    break 'end;
                }
            }
        }
    }
    json!({"viol": viol, "applied": applied, "asked": asked})
}

fn parse(v: &Value) -> Case {
    serde_json::from_value(v.clone()).unwrap_or(Case { quotes: vec![], curves: vec![], markets: vec![], interps: vec![], acts: vec![] })
}

fn some_day(r: &mut Rng) -> i64 {
    if r.chance(0.5) {
        r.range(0, 400)
    } else {
        r.range(0, 12) * 30
    }
}

/// How many positions, currencies, dates there are to choose from.
#[derive(Clone, Copy)]
struct Size {
    pos: u64,
    cur: u64,
    many: i64,
}

fn gen_upd(r: &mut Rng, z: Size) -> Upd {
    let (np, nc) = (z.pos, z.cur);
    match r.below(25) {
        0..=1 => Upd::Quote { q: r.below(2), v: if r.chance(0.15) { None } else { Some(*r.pick(&[0, 0, 8, 80, 81, -16, 404])) } },
        2 => Upd::Reset { q: r.below(2) },
        3 => Upd::Price { p: r.below(np), v: r.range(0, 900) },
        4 => Upd::Quantity { p: r.below(np), n: r.log_range(0, 1000) },
        5..=6 => Upd::Put { p: r.below(np), n: r.below(60), bought: r.range(0, 800), now: r.range(0, 800) },
        7 => Upd::Remove { p: r.below(np) },
        8..=9 => Upd::Fx { from: r.below(nc), to: r.below(nc), rate: r.range(1, 3000) },
        10..=12 => Upd::Node { c: r.below(2), day: some_day(r), rate: r.range(1, 300) },
        13 => Upd::Nodes { c: r.below(2), nodes: (0..r.range(0, z.many)).map(|_| (some_day(r), r.range(1, 300))).collect() },
        14 => Upd::Shift { c: r.below(2), by: *r.pick(&[0, 1, 10, 50, -1, -10]) },
        15..=16 => {
            let n = *r.pick(&[1usize, 1, 1, 2, 4]);
            Upd::Keep { c: r.below(2), days: (0..n).map(|_| r.range(-10, 410)).collect(), one: r.chance(0.7) }
        }
        17 => Upd::Holiday { k: r.below(2), day: r.range(0, 400) },
        18 => Upd::Holidays { k: r.below(2), days: (0..r.range(0, z.many)).map(|_| r.range(0, 400)).collect() },
        22 => Upd::Terms { k: r.below(2), strike: r.range(60, 140), day: r.range(0, 2000), call: r.chance(0.5) },
        23 => Upd::Params { k: r.below(2), spot: r.range(60, 140), rate: r.range(-20, 100), vol: r.range(50, 600) },
        24 => Upd::Order { bid: r.chance(0.5), price: r.range(0, 40), n: r.below(100) },
        19..=20 => Upd::Point { i: r.below(3), x: r.range(0, 400), y: r.range(1, 300) },
        _ => Upd::Flow { day: r.range(0, 400), amount: r.range(-100, 900) },
    }
}

pub struct C12;

impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "random streams of updates from a feed that delays, duplicates, drops and reorders them, with queries between them, copies that diverge, \
         concurrent readers, and crashes after which the stores are rebuilt from the durable part of a journal; every answer is compared with a \
         reference built from the accepted updates; non-trivial: at least one update precedes a query"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _t: Tier) -> Plan {
        // a few runs are much larger
        let wide = r.chance(0.2);
        let z = if wide { Size { pos: 40, cur: 10, many: 40 } } else { Size { pos: 4, cur: 4, many: 4 } };
        let curve = |r: &mut Rng, exp: bool| {
            let n = if wide { r.range(1, 60) } else { *r.pick(&[1, 2, 3, 3, 5, 9]) };
            let mut nodes: Vec<(i64, i64)> = (0..n).map(|_| (some_day(r), r.range(1, 300))).collect();
            if r.chance(0.3) {
                nodes.sort();
            }
            CurveInit { nodes, exp, map: r.chance(0.3) }
        };
        let interp = |r: &mut Rng, kind: u64| {
            let mut pts: Vec<(i64, i64)> = vec![];
            for _ in 0..if wide { r.range(3, 70) } else { r.range(3, 8) } {
                let x = r.range(0, 400);
                if !pts.iter().any(|p| p.0 == x) {
                    pts.push((x, r.range(1, 300)));
                }
            }
            InterpInit { kind, dates: r.chance(0.4), pts }
        };
        let n = if wide { r.log_range(30, 400) } else { r.log_range(3, 120) };
        // one kind of store at a time in half of the runs
        let focus = if r.chance(0.5) { Some(r.below(7)) } else { None };
        let upd = |r: &mut Rng| loop {
            let u = gen_upd(r, z);
            let kind = match u {
                Upd::Quote { .. } | Upd::Reset { .. } => 0,
                Upd::Price { .. } | Upd::Quantity { .. } | Upd::Put { .. } | Upd::Remove { .. } => 1,
                Upd::Node { .. } | Upd::Nodes { .. } | Upd::Shift { .. } | Upd::Keep { .. } => 2,
                Upd::Holiday { .. } | Upd::Holidays { .. } | Upd::Point { .. } => 3,
                Upd::Terms { .. } | Upd::Params { .. } => 5,
                Upd::Order { .. } => 6,
                _ => 4,
            };
            if focus.map_or(true, |f| f == kind) || r.chance(0.05) {
                return u;
            }
        };
        let bad = r.chance(0.7);
        let acts = (0..n)
            .map(|t| {
                let a = match r.below(40) {
                    0..=17 => {
                        let d = |r: &mut Rng| if bad && r.chance(0.3) { r.log_range(1, 30) } else { 0 };
                        let k = if bad { *r.pick(&[0usize, 1, 1, 1, 1, 1, 1, 1, 2, 3]) } else { 1 };
                        let delays = (0..k).map(|_| d(r)).collect();
                        Act::Send { delays, u: upd(r) }
                    }
                    18..=33 => Act::Ask { what: r.below(14), arg: r.below(1 << 20) },
                    34 => Act::Copy,
                    35 => Act::OnCopy { n: r.below(3), u: upd(r) },
                    36 => Act::AskCopy { n: r.below(3), what: r.below(9), arg: r.below(1 << 20) },
                    37 if bad => Act::Crash { lost: r.below(4) },
                    38 if r.chance(0.4) => Act::Readers { n: r.range(1, 3) as u64, asks: r.range(3, 13) as u64 },
                    _ => Act::Ask { what: r.below(14), arg: r.below(1 << 20) },
                };
                (t, a)
            })
            .collect();
        let c = Case {
            quotes: (0..2).map(|_| if r.chance(0.4) { None } else { Some(r.range(0, 100)) }).collect(),
            curves: vec![curve(r, false), curve(r, true)],
            markets: (0..2).map(|_| r.below(MARKETS.len() as u64)).collect(),
            interps: (0..3).map(|k| interp(r, k)).collect(),
            acts,
        };
        Plan { prop: "C12".into(), case: serde_json::to_value(c).unwrap(), envs: vec![gen_env(r, &EnvOpts::ALL)] }
    }
    fn valid(&self, p: &Plan) -> bool {
        let c = parse(&p.case);
        let ok = |d: i64| (-100..=500).contains(&d);
        let oku = |u: &Upd| match u {
            Upd::Node { day, rate, .. } => ok(*day) && *rate > 0,
            Upd::Nodes { nodes, .. } => nodes.iter().all(|n| ok(n.0) && n.1 > 0),
            Upd::Keep { days, .. } | Upd::Holidays { days, .. } => days.iter().all(|d| ok(*d)),
            Upd::Holiday { day, .. } | Upd::Flow { day, .. } => ok(*day),
            Upd::Point { x, y, .. } => (0..=400).contains(x) && *y > 0,
            Upd::Put { n, bought, now, .. } => *n < 100_000 && *bought >= 0 && *now >= 0,
            Upd::Price { v, .. } => *v >= 0,
            Upd::Quantity { n, .. } => *n < 100_000,
            Upd::Terms { strike, day, .. } => (1..10_000).contains(strike) && (0..10_000).contains(day),
            Upd::Params { spot, vol, rate, .. } => (1..10_000).contains(spot) && (1..10_000).contains(vol) && rate.abs() < 1000,
            Upd::Order { price, n, .. } => (0..10_000).contains(price) && *n < 100_000,
            _ => true,
        };
        !c.quotes.is_empty()
            && c.curves.len() == 2
            && c.curves.iter().all(|k| !k.nodes.is_empty() && k.nodes.iter().all(|n| ok(n.0) && n.1 > 0))
            && !c.markets.is_empty()
            && c.interps.len() == 3
            && c.interps.iter().all(|i| {
                let xs: BTreeSet<_> = i.pts.iter().map(|p| p.0).collect();
                i.pts.len() >= 2 && xs.len() == i.pts.len() && i.pts.iter().all(|p| (0..=400).contains(&p.0) && p.1 > 0)
            })
            && c.acts.iter().all(|(t, a)| {
                *t < 100_000
                    && match a {
                        Act::Send { delays, u } => delays.len() <= 4 && delays.iter().all(|d| *d < 100_000) && oku(u),
                        Act::OnCopy { u, .. } => oku(u),
                        Act::Readers { n, asks } => *n <= 4 && *asks <= 40,
                        _ => true,
                    }
            })
            && p.envs.len() == 1
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        history(&parse(case))
    }
    fn judge(&self, _p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        if let Some(v) = bad_status(&outs[0], "stores") {
            return vec![v];
        }
        inner_viols(&outs[0])
    }
    fn nontrivial(&self, p: &Plan, o: &[Outcome]) -> bool {
        let c = parse(&p.case);
        let up = c.acts.iter().position(|a| matches!(a.1, Act::Send { .. }));
        let q = c.acts.iter().rposition(|a| matches!(a.1, Act::Ask { .. }));
        matches!((up, q), (Some(a), Some(b)) if a < b) && o[0].result["asked"].as_u64().unwrap_or(0) > 0
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 30_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn max_shrink_envs(&self) -> usize {
        1
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_cashflows::{SimpleQuote, Leg}", "RustQuant_portfolios", "RustQuant_instruments::fx", "RustQuant_data::Curve", "RustQuant_math interpolators", "RustQuant_time::Calendar", "RustQuant_instruments::AnalyticOptionPricer", "RustQuant_trading::OrderBook"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["market-data feed (delay, loss, duplication, reordering)", "journal on durable storage", "system clock, OS scheduler, entropy (simulator)"]
    }
}
