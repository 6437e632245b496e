//! C13: hash seeds and insertion orders never show.
use crate::catalogue::{CURRENCIES, MARKETS};
use crate::fw::*;
use nalgebra::{DMatrix, DVector};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use time::Date;
use RustQuant_autodiff::{graphviz, Graph};
use RustQuant_cashflows::{Cashflow, Leg};
use RustQuant_data::*;
use RustQuant_instruments::*;
use RustQuant_math::{ExponentialInterpolator, Interpolator, LinearInterpolator};
use RustQuant_ml::*;
use RustQuant_portfolios::{Portfolio, Position};
use RustQuant_time::*;
use RustQuant_trading::limit_order_book::Book;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Knn {
    cols: usize,
    rows: Vec<Vec<f64>>,
    labels: Vec<i64>,
    queries: Vec<Vec<f64>>,
    k: usize,
    metric: u64,
    /// training rows may be permuted (no two are equally far from a query)
    permute: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    /// name, quantity, bought, now
    positions: Vec<(u64, u64, f64, f64)>,
    /// from, to, rate
    rates: Vec<(u64, u64, f64)>,
    knn: Vec<Knn>,
    /// operations of a graph, and which of its nodes are exported as variables
    graph: Vec<(u64, u64, u64)>,
    vars: Vec<u64>,
    /// day, rate
    nodes: Vec<(i64, f64)>,
    holidays: (u64, Vec<i64>),
    flows: Vec<(i64, f64)>,
    /// id, buy, shares, price; then (cancel id), market orders
    orders: Vec<(u64, bool, u64, u64)>,
    /// per process, per thread: seed of the order of insertion
    order: Vec<Vec<u64>>,
}

fn day(d: i64) -> Date {
    Date::from_julian_day(2_459_580 + d as i32).unwrap()
}
fn cur(k: u64) -> Currency {
    CURRENCIES[(k % 10) as usize]
}

struct Out {
    exact: Vec<(String, String)>,
    approx: Vec<(String, f64, f64)>,
}

fn permuted<T: Clone>(r: &mut Rng, seed: u64, v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    if seed != 0 {
        r.shuffle(&mut v);
    }
    v
}

/// Everything of one thread. `seed` 0: the order of the case.
fn answers(c: &Case, seed: u64) -> Out {
    let mut r = Rng::new(seed);
    let mut o = Out { exact: vec![], approx: vec![] };
    let churn = seed != 0 && r.chance(0.5);

    // portfolio
    let mut map: HashMap<String, Position<Currency>> = if churn { HashMap::with_capacity(r.below(200) as usize) } else { HashMap::new() };
    let put = |m: &mut HashMap<String, Position<Currency>>, p: &(u64, u64, f64, f64)| {
        m.insert(format!("I{}", p.0), Position::new(cur(p.0), p.1, p.2, p.3, Some(cur(p.0))));
    };
    let ps = permuted(&mut r, seed, &c.positions);
    for (i, p) in ps.iter().enumerate() {
        put(&mut map, p);
        if churn && r.chance(0.5) {
            for k in 0..r.below(20) {
                put(&mut map, &(1000 + k, 1, 1.0, 1.0));
            }
            for k in 0..20 {
                map.remove(&format!("I{}", 1000 + k));
            }
            // gone and back
            map.remove(&format!("I{}", ps[i / 2].0));
            put(&mut map, &ps[i / 2]);
        }
    }
    let mut pf = Portfolio::new(map);
    if churn {
        for p in &ps {
            pf.update_price(&format!("I{}", p.0), 3.0);
        }
        for p in &ps {
            pf.update_price(&format!("I{}", p.0), p.3);
        }
    }
    let scale: f64 = c.positions.iter().map(|p| p.1 as f64 * (p.2.abs() + p.3.abs())).sum();
    for (n, x) in [("value", pf.value()), ("cost", pf.cost()), ("profit", pf.profit())] {
        o.approx.push((format!("portfolio {n}"), x, scale * 1e-13));
    }
    let w = pf.position_weights();
    let mut names: Vec<_> = w.keys().cloned().collect();
    names.sort();
    for n in &names {
        o.approx.push((format!("portfolio weight {n}"), w[n] as f64, 2e-6));
    }
    o.exact.push(("portfolio weights".into(), format!("{names:?}")));

    // exchange
    let mut ex = Exchange::new();
    for x in permuted(&mut r, seed, &c.rates) {
        if churn && r.chance(0.3) {
            ex.add_rate(ExchangeRate::new(cur(x.0), cur(x.1), 77.0));
        }
        ex.add_rate(ExchangeRate::new(cur(x.0), cur(x.1), x.2));
    }
    if churn {
        ex = ex.clone();
    }
    let pairs: Vec<String> = (0..100)
        .map(|i| (i / 10, i % 10))
        .map(|(a, b)| match ex.get_rate(&cur(a), &cur(b)) {
            Some(x) => {
                let m = ex.convert(Money::new(cur(a), 12.5), cur(b));
                format!("{:?}{}{}{:?}{}", x.rate, x.from_currency.name, x.to_currency.name, m.amount, m.currency.name)
            }
            None => "-".into(),
        })
        .collect();
    o.exact.push(("exchange look-ups".into(), pairs.join(" ")));

    // nearest neighbours
    for (i, k) in c.knn.iter().enumerate() {
        let n = k.rows.len();
        let mut at: Vec<usize> = (0..n).collect();
        if k.permute && seed != 0 {
            r.shuffle(&mut at);
        }
        let x = DMatrix::from_fn(n, k.cols, |a, b| k.rows[at[a]][b]);
        let y = DVector::from_fn(n, |a, _| k.labels[at[a]] as f64);
        let q = DMatrix::from_fn(k.queries.len(), k.cols, |a, b| k.queries[a][b]);
        let m = match k.metric % 3 {
            0 => Metric::Euclidean,
            1 => Metric::Manhattan,
            _ => Metric::Minkowski(3),
        };
        let p = KNearestClassifier::new(x, y, m).predict(&q, &k.k);
        o.exact.push((format!("nearest neighbours {i}"), format!("{p:?}")));
    }

    // graph
    if !c.vars.is_empty() {
        let g = Graph::new();
        let mut v = vec![g.var(0.5)];
        for (k, a, b) in &c.graph {
            let (x, y) = (v[*a as usize % v.len()], v[*b as usize % v.len()]);
            v.push(match k % 5 {
                0 => x + y,
                1 => x * y,
                2 => x.sin(),
                3 => g.var(*a as f64 / 7.0),
                _ => x - 2.0,
            });
        }
        let vars: Vec<_> = permuted(&mut r, seed, &c.vars).iter().map(|i| v[*i as usize % v.len()]).collect();
        o.exact.push(("graph export".into(), graphviz(&g, &vars)));
    }

    // curves and interpolators
    if !c.nodes.is_empty() {
        let ns = permuted(&mut r, seed, &c.nodes);
        for (name, m) in [("linear", InterpolationMethod::Linear), ("exponential", InterpolationMethod::Exponential)] {
            let split = if churn { r.below(ns.len() as u64) as usize + 1 } else { ns.len() };
            let (xs, ys): (Vec<Date>, Vec<f64>) = ns[..split].iter().map(|n| (day(n.0), n.1)).unzip();
            let mut k = Curve::new(xs, ys, CurveType::Spot, m).unwrap();
            for n in &ns[split..] {
                k.set_rate(day(n.0), n.1);
            }
            o.exact.push((format!("{name} curve nodes"), format!("{:?} {:?}", k.dates(), k.rates())));
            for d in 0..40 {
                let x = k.get_rate(day(d * 10 + 3));
                o.approx.push((format!("{name} curve at {}", d * 10 + 3), x.unwrap_or(-1.0), 1e-12));
            }
            let mut q = ns.iter().map(|n| (n.0 as f64, n.1)).collect::<Vec<_>>();
            let late = q.split_off(split);
            let (xs, ys): (Vec<f64>, Vec<f64>) = q.into_iter().unzip();
            let mut ip: Box<dyn Interpolator<f64, f64>> = if name == "linear" {
                Box::new(LinearInterpolator::new(xs, ys).unwrap())
            } else {
                Box::new(ExponentialInterpolator::new(xs, ys).unwrap())
            };
            late.into_iter().for_each(|p| ip.add_point(p));
            for d in 0..40 {
                o.approx.push((format!("{name} interpolator at {}", d * 10 + 3), ip.interpolate(d as f64 * 10.0 + 3.0).unwrap_or(-1.0), 1e-12));
            }
        }
    }

    // calendar
    let mut cal = Calendar::new(MARKETS[c.holidays.0 as usize % MARKETS.len()]);
    let hs = permuted(&mut r, seed, &c.holidays.1);
    if churn {
        cal.add_holidays(hs.iter().map(|d| day(*d)).collect());
    } else {
        hs.iter().for_each(|d| cal.add_holiday(day(*d)));
    }
    o.exact.push((
        "calendar".into(),
        format!(
            "{:?} {} {:?}",
            cal.extra_holidays(),
            cal.business_day_count(day(0), day(120)),
            (0..60).map(|d| next_business_day(day(d * 2), &cal)).collect::<BTreeSet<_>>()
        ),
    ));

    // leg
    let fs = permuted(&mut r, seed, &c.flows);
    let cut = if churn { r.below(fs.len() as u64 + 1) as usize } else { fs.len() };
    let mut leg = Leg::new(fs[..cut].iter().map(|f| Cashflow::new(f.1, day(f.0))).collect());
    fs[cut..].iter().for_each(|f| leg.add_cashflow(Cashflow::new(f.1, day(f.0))));
    o.exact.push(("leg".into(), format!("{} {:?} {:?} {}", leg.size(), leg.start_date(), leg.end_date(), leg.is_active(day(100)))));
    o.approx.push(("leg npv".into(), leg.npv(0.9), c.flows.iter().map(|f| f.1.abs()).sum::<f64>() * 1e-13));

    // book: the history has one order; only the hash seed differs
    let mut b = Book::new();
    let mut log = vec![];
    for (i, x) in c.orders.iter().enumerate() {
        match i % 5 {
            3 => log.push(format!("{}", b.cancel_order(x.0).is_ok())),
            4 => log.push(format!("{:?}", b.execute_market_order(x.2, x.1))),
            _ => log.push(format!("{}", b.add_order(x.0, x.1, x.2, x.3, i as u64).is_ok())),
        }
    }
    o.exact.push(("order book".into(), log.join(" ")));
    o
}

fn dist(m: u64, a: &[f64], b: &[f64]) -> f64 {
    let d = a.iter().zip(b).map(|(x, y)| (x - y).abs());
    match m % 3 {
        0 => d.map(|x| x * x).sum::<f64>().sqrt(),
        1 => d.sum(),
        _ => d.map(|x| x * x * x).sum::<f64>().cbrt(),
    }
}

fn distinct(k: &Knn) -> bool {
    k.queries.iter().all(|q| {
        let mut d: Vec<f64> = k.rows.iter().map(|x| dist(k.metric, q, x)).collect();
        d.sort_by(f64::total_cmp);
        d.windows(2).all(|w| w[1] - w[0] > 1e-6)
    })
}

fn parse(v: &Value) -> Case {
    serde_json::from_value(v.clone()).unwrap_or(Case {
        positions: vec![],
        rates: vec![],
        knn: vec![],
        graph: vec![],
        vars: vec![],
        nodes: vec![],
        holidays: (0, vec![]),
        flows: vec![],
        orders: vec![],
        order: vec![],
    })
}

pub struct C13;

impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "the same content of every store built in two to four simulated processes with different hash seeds, on one to three threads each, in \
         permuted orders and with entries that come, go and come back; all answers must agree (floating-point sums up to rounding); \
         non-trivial: two different insertion orders or hash seeds of at least two entries"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _t: Tier) -> Plan {
        let positions = (0..r.log_range(0, 40)).map(|i| (i, r.below(1000), r.f() * 100.0, r.f() * 100.0)).collect();
        let mut rates: Vec<(u64, u64, f64)> = vec![];
        for _ in 0..r.log_range(0, 40) {
            let (a, b) = (r.below(10), r.below(10));
            if !rates.iter().any(|x| (x.0, x.1) == (a, b)) {
                rates.push((a, b, 0.1 + r.f() * 3.0));
            }
        }
        let knn = (0..r.range(0, 2))
            .map(|_| {
                let cols = r.range(1, 3) as usize;
                let grid = r.chance(0.5);
                let classes = r.range(2, 5);
                let point = |r: &mut Rng| (0..cols).map(|_| if grid { r.range(-2, 2) as f64 } else { r.f() * 4.0 - 2.0 }).collect::<Vec<f64>>();
                let n = r.range(2, 14) as usize;
                let mut k = Knn {
                    cols,
                    rows: (0..n).map(|_| point(r)).collect(),
                    labels: (0..n).map(|_| r.range(-1, classes - 2)).collect(),
                    queries: (0..r.range(1, 4)).map(|_| point(r)).collect(),
                    k: r.range(1, n as i64) as usize,
                    metric: r.below(3),
                    permute: false,
                };
                k.permute = distinct(&k);
                k
            })
            .collect();
        let graph: Vec<(u64, u64, u64)> = (0..r.log_range(1, 30)).map(|_| (r.below(5), r.below(40), r.below(40))).collect();
        let vars = (0..r.range(0, 6)).map(|_| r.below(graph.len() as u64 + 1)).collect();
        let mut nodes: Vec<(i64, f64)> = vec![];
        for _ in 0..r.range(0, 9) {
            let d = r.range(0, 400);
            if !nodes.iter().any(|n| n.0 == d) {
                nodes.push((d, 0.001 + r.f() * 0.2));
            }
        }
        let ids = r.range(3, 12) as u64;
        let np = r.range(2, 4);
        let c = Case {
            positions,
            rates,
            knn,
            graph,
            vars,
            nodes,
            holidays: (r.below(MARKETS.len() as u64), (0..r.range(0, 8)).map(|_| r.range(0, 130)).collect()),
            flows: (0..r.range(0, 8)).map(|_| (r.range(0, 300), r.f() * 200.0 - 50.0)).collect(),
            orders: (0..r.range(0, 30)).map(|_| (r.below(ids), r.chance(0.5), r.range(1, 20) as u64, 100 + r.below(4))).collect(),
            order: (0..np).map(|p| (0..r.range(1, 3)).map(|t| if p == 0 && t == 0 { 0 } else { r.next() >> 20 }).collect()).collect(),
        };
        let envs = (0..np)
            .map(|_| {
                let mut o = EnvOpts::ALL;
                o.clock = false;
                gen_env(r, &o)
            })
            .collect();
        Plan { prop: "C13".into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let c = parse(&p.case);
        let uniq = |v: Vec<String>| v.len() == v.iter().collect::<BTreeSet<_>>().len();
        p.envs.len() <= c.order.len() && p.envs.len() >= 2
            && !c.order.is_empty()
            && c.order.iter().all(|t| !t.is_empty() && t.len() <= 4)
            && uniq(c.positions.iter().map(|x| x.0.to_string()).collect())
            && c.positions.iter().all(|x| x.0 < 1000 && x.1 < 1_000_000 && x.2.is_finite() && x.2 >= 0.0 && x.3.is_finite() && x.3 >= 0.0)
            && uniq(c.rates.iter().map(|x| format!("{} {}", x.0 % 10, x.1 % 10)).collect())
            && c.rates.iter().all(|x| x.2.is_finite())
            && uniq(c.nodes.iter().map(|x| x.0.to_string()).collect())
            && c.nodes.iter().all(|n| (-1000..1000).contains(&n.0) && n.1 > 1e-9 && n.1 < 10.0)
            && c.holidays.1.iter().chain(c.flows.iter().map(|f| &f.0)).all(|d| (-1000..1000).contains(d))
            && c.flows.iter().all(|f| f.1.is_finite())
            && c.orders.iter().all(|o| o.2 < 1000 && o.2 > 0)
            && c.knn.iter().all(|k| {
                k.cols > 0
                    && !k.rows.is_empty()
                    && k.rows.len() == k.labels.len()
                    && !k.queries.is_empty()
                    && k.rows.iter().chain(&k.queries).all(|x| x.len() == k.cols && x.iter().all(|v| v.is_finite() && v.abs() < 1e6))
                    && (1..=k.rows.len()).contains(&k.k)
                    && (!k.permute || distinct(k))
            })
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c = parse(case);
        let seeds = &c.order[k];
        let outs: Vec<Out> = if seeds.len() == 1 {
            vec![answers(&c, seeds[0])]
        } else {
            sim::probe("several-threads");
            std::thread::scope(|s| {
                let hs: Vec<_> = seeds.iter().map(|&x| (s.spawn(|| ()), x)).collect();
                let _ = hs.into_iter().map(|h| h.0.join()).collect::<Vec<_>>();
                let hs: Vec<_> = seeds.iter().map(|&x| s.spawn({ let c = &c; move || answers(c, x) })).collect();
                hs.into_iter()
                    .map(|h| h.join().unwrap_or_else(|_| Out { exact: vec![("thread".into(), "panicked".into())], approx: vec![] }))
                    .collect()
            })
        };
        let bits = |o: &Out| o.approx.iter().map(|x| json!([x.0, x.1.to_bits(), x.2.to_bits()])).collect::<Vec<_>>();
        json!({"out": outs.iter().map(|o| json!({"exact": o.exact, "approx": bits(o)})).collect::<Vec<_>>()})
    }
    fn judge(&self, _p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        for o in outs {
            if let Some(v) = bad_status(o, "stores") {
                return vec![v];
            }
        }
        let none = vec![];
        let first = &outs[0].result["out"][0];
        let exact: BTreeMap<&str, &Value> = first["exact"].as_array().unwrap_or(&none).iter().map(|x| (x[0].as_str().unwrap_or(""), &x[1])).collect();
        let f = |v: &Value| f64::from_bits(v.as_u64().unwrap_or(0));
        let approx: BTreeMap<&str, (f64, f64)> =
            first["approx"].as_array().unwrap_or(&none).iter().map(|x| (x[0].as_str().unwrap_or(""), (f(&x[1]), f(&x[2])))).collect();
        for (p, o) in outs.iter().enumerate() {
            for (t, x) in o.result["out"].as_array().unwrap_or(&none).iter().enumerate() {
                let (ex, ap) = (x["exact"].as_array().unwrap_or(&none), x["approx"].as_array().unwrap_or(&none));
                if ex.len() != exact.len() || ap.len() != approx.len() {
                    return vec![viol("order-dependent", "answers", format!("process {p}, thread {t}: a different set of answers: {ex:?}"))];
                }
                for e in ex {
                    let n = e[0].as_str().unwrap_or("");
                    if exact.get(n) != Some(&&e[1]) {
                        return vec![viol(
                            "order-dependent",
                            n.split_whitespace().next().unwrap_or(""),
                            format!("{n}: process {p}, thread {t} answers {}; process 0 answers {}", e[1], exact.get(n).copied().unwrap_or(&Value::Null)),
                        )];
                    }
                }
                for a in ap {
                    let n = a[0].as_str().unwrap_or("");
                    let got = f(&a[1]);
                    let ok = approx.get(n).map_or(false, |(w, tol)| *w == got || (w.is_nan() && got.is_nan()) || (w - got).abs() <= *tol);
                    if !ok {
                        return vec![viol(
                            "order-dependent",
                            n.split_whitespace().next().unwrap_or(""),
                            format!("{n}: process {p}, thread {t} answers {got:?}; process 0 answers {:?}", approx.get(n).map(|x| x.0)),
                        )];
                    }
                }
            }
        }
        vec![]
    }
    fn nontrivial(&self, p: &Plan, _o: &[Outcome]) -> bool {
        let c = parse(&p.case);
        c.order.iter().flatten().count() > 1 && c.positions.len() + c.rates.len() + c.nodes.len() + c.knn.len() + c.vars.len() > 1
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 11_000,
            Tier::Thorough => 600_000,
        }
    }
    fn max_shrink_envs(&self) -> usize {
        99
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_portfolios", "RustQuant_instruments::fx", "RustQuant_ml::KNearestClassifier", "RustQuant_autodiff::graphviz", "RustQuant_data::Curve",
          "RustQuant_math interpolators", "RustQuant_time::Calendar", "RustQuant_cashflows::Leg", "RustQuant_trading::Book", "std::collections::HashMap (RandomState)"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["entropy source behind the hash seeds, OS scheduler (simulator)"]
    }
}
