//! C14: iterative solvers against callbacks that misbehave.
use crate::fw::*;
use crate::procs::bits;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Fault, Outcome, Rng};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use RustQuant_instruments::*;
use RustQuant_math::rootfinding::bisection::Bisection;
use RustQuant_math::rootfinding::brent::Brent;
use RustQuant_math::rootfinding::newton_raphson::NewtonRaphson;
use RustQuant_math::rootfinding::rootfinder::{Rootfinder, RootfinderData};
use RustQuant_math::{integrate, GradientDescent};

/// What happens at the `at`-th evaluation.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Mis {
    at: u64,
    what: String,
    /// at every later evaluation too
    on: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Func {
    kind: u64,
    k: f64,
    mis: Vec<Mis>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Solver {
    /// bisection, brent, newton, descent, integral, implied
    kind: u64,
    /// guess, accuracy, step, lower, upper / rate, tolerance / bounds
    p: Vec<f64>,
    flag: bool,
    n: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Call {
    solver: u64,
    f: Func,
    /// use the thread's object for this solver again
    reuse: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    solvers: Vec<Solver>,
    threads: Vec<Vec<Call>>,
}

const KINDS: &[&str] = &["bisection", "brent", "newton-raphson", "gradient-descent", "integral", "implied-volatility"];
/// The documented iteration limit of the root finders.
const LIMIT: u64 = 1000;
const RUNAWAY: u64 = 40_000;

fn special(name: &str, n: u64, v: f64) -> f64 {
    match name {
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "zero" => 0.0,
        "one" => 1.0,
        "huge" => 1e308,
        "tiny" => 5e-324,
        "negate" => -v,
        "flip" => if n % 2 == 0 { 1.0 } else { -1.0 },
        "drift" => v + n as f64,
        _ => v,
    }
}

struct Env {
    f: RefCell<Func>,
    n: Cell<u64>,
    m: Cell<u64>,
    hurt: Cell<bool>,
    over: Cell<bool>,
}

/// Slow callbacks are slow; time is the simulator's.
fn misbehave(e: &Env, n: u64, mut v: f64) -> f64 {
    if n > RUNAWAY {
        e.over.set(true);
        panic!("too many evaluations");
    }
    for m in &e.f.borrow().mis {
        if n == m.at || (m.on && n > m.at) {
            match m.what.as_str() {
                "panic" => {
                    e.hurt.set(true);
                    sim::note_fault("callback-panic");
                    panic!("callback gives up");
                }
                "sleep" => {
                    if n == m.at {
                        sim::note_fault("callback-slow");
                    }
                    std::thread::sleep(std::time::Duration::from_millis(1 + n % 900));
                }
                "nest" => {
                    if n == m.at {
                        sim::note_fault("callback-nested-solve");
                        let inner = Solver { kind: n % 5, p: vec![0.3, 1e-8, 0.1, -5.0, 5.0], flag: true, n: 9 };
                        let _ = call(&mut None, &inner, &Func { kind: 1, k: 0.7, mis: vec![] });
                    }
                }
                w => {
                    if n == m.at {
                        sim::note_fault("callback-bad-value");
                    }
                    v = special(w, n, v)
                }
            }
        }
    }
    v
}

fn value(f: &Func, x: f64) -> f64 {
    let k = f.k;
    match f.kind % 8 {
        0 => x - k,
        1 => x * x * x - k,
        2 => (x * 3.0).sin() - k / 3.0,
        3 => x.exp() - k.abs() - 0.1,
        4 => if x < k { -1.0 } else { 2.0 },
        5 => k,
        6 => (x - k).powi(2) + 1e-3,
        _ => 1.0 / (x - k),
    }
}
fn slope(f: &Func, x: f64) -> f64 {
    let k = f.k;
    match f.kind % 8 {
        0 => 1.0,
        1 => 3.0 * x * x,
        2 => 3.0 * (x * 3.0).cos(),
        3 => x.exp(),
        4 | 5 => 0.0,
        6 => 2.0 * (x - k),
        _ => -1.0 / (x - k).powi(2),
    }
}

type F1 = Box<dyn Fn(f64) -> f64>;

enum Obj {
    B(Bisection<F1>),
    R(Brent<F1>),
    N(NewtonRaphson<F1, F1>),
    G(GradientDescent),
    None,
}

struct Held {
    obj: Obj,
    env: std::rc::Rc<Env>,
}

fn hold(s: &Solver) -> Held {
    let env = std::rc::Rc::new(Env {
        f: RefCell::new(Func { kind: 0, k: 0.0, mis: vec![] }),
        n: Cell::new(0),
        m: Cell::new(0),
        hurt: Cell::new(false),
        over: Cell::new(false),
    });
    let f = |e: &std::rc::Rc<Env>| -> F1 {
        let e = e.clone();
        Box::new(move |x| {
            let n = e.n.get();
            e.n.set(n + 1);
            let v = value(&e.f.borrow(), x);
            misbehave(&e, n, v)
        })
    };
    let df = |e: &std::rc::Rc<Env>| -> F1 {
        let e = e.clone();
        Box::new(move |x| {
            let n = e.m.get();
            e.m.set(n + 1);
            let v = slope(&e.f.borrow(), x);
            // derivative calls misbehave together with the function calls
            misbehave(&e, n + 1, v)
        })
    };
    let data = || RootfinderData::new(s.p[1], s.p[2], s.p[3], s.p[4], s.flag);
    let obj = match s.kind % 6 {
        0 => Obj::B(Bisection::new(f(&env), s.p[0], data())),
        1 => Obj::R(Brent::new(f(&env), s.p[0], data())),
        2 => Obj::N(NewtonRaphson::new(f(&env), df(&env), s.p[0], data())),
        3 => Obj::G(GradientDescent::new(s.p[2], s.n as usize, if s.flag { Some(s.p[1]) } else { None })),
        _ => Obj::None,
    };
    Held { obj, env }
}

/// (ending, results, evaluations of the function, of the derivative)
fn call(slot: &mut Option<Held>, s: &Solver, f: &Func) -> (String, Vec<u64>, u64, u64) {
    let h = slot.get_or_insert_with(|| hold(s));
    let e = h.env.clone();
    *e.f.borrow_mut() = f.clone();
    e.n.set(0);
    e.m.set(0);
    e.hurt.set(false);
    let r = catch_unwind(AssertUnwindSafe(|| match &mut h.obj {
        Obj::B(x) => vec![x.solve()],
        Obj::R(x) => vec![x.solve()],
        Obj::N(x) => vec![x.solve()],
        Obj::G(g) => {
            let r = g.optimize(
                |v| {
                    let n = e.n.get();
                    e.n.set(n + 1);
                    let fu = e.f.borrow().clone();
                    // a polynomial with the callback's value mixed in
                    let mut z = (v[0] - fu.k) * (v[0] - fu.k);
                    for x in &v[1..] {
                        z = z + *x * *x * 0.5;
                    }
                    let y = misbehave(&e, n, 1.0);
                    if fu.kind % 8 == 7 {
                        z = z.sqrt();
                    }
                    z * y
                },
                &vec![s.p[0]; 1 + (s.n % 3) as usize],
                false,
            );
            let mut out = r.minimizer.clone();
            out.push(r.iterations as f64);
            if r.elapsed > std::time::Duration::from_secs(1 << 40) {
                out.push(-1.0);
            }
            out
        }
        Obj::None if s.kind % 6 == 4 => vec![integrate(
            |x| {
                let n = e.n.get();
                e.n.set(n + 1);
                let v = value(&e.f.borrow(), x);
                misbehave(&e, n, v)
            },
            s.p[3],
            s.p[4],
        )],
        Obj::None => {
            let t = if s.flag { TypeFlag::Call } else { TypeFlag::Put };
            vec![
                implied_volatility(s.p[0], s.p[3], s.p[4], s.p[2], s.p[1], t),
                Bachelier::new(s.p[3], s.p[1], 0.3).iv(s.p[0], s.p[4], s.p[2], t),
            ]
        }
    }));
    let end = match (&r, e.hurt.get(), e.over.get()) {
        (_, _, true) => "runaway",
        (Ok(_), _, _) => "returned",
        (Err(_), true, _) => "callback's panic",
        (Err(_), false, _) => "panicked by itself",
    };
    (end.into(), r.unwrap_or_default().into_iter().map(bits).collect(), e.n.get(), e.m.get())
}

fn budget(s: &Solver) -> u64 {
    match s.kind % 6 {
        0..=2 => 2 * LIMIT + 20,
        3 => 2 * s.n + 2,
        4 => 400,
        _ => 0,
    }
}

fn history(c: &Case, calls: &[Call], reuse: bool) -> Vec<Value> {
    let mut held: Vec<Option<Held>> = c.solvers.iter().map(|_| None).collect();
    calls
        .iter()
        .map(|x| {
            let k = (x.solver % c.solvers.len() as u64) as usize;
            let r = if reuse && x.reuse { call(&mut held[k], &c.solvers[k], &x.f) } else { call(&mut None, &c.solvers[k], &x.f) };
            json!([r.0, r.1, r.2, r.3])
        })
        .collect()
}

fn parse(v: &Value) -> Case {
    serde_json::from_value(v.clone()).unwrap_or(Case { solvers: vec![], threads: vec![] })
}

/// JSON has no infinities.
fn num(r: &mut Rng, usual: f64) -> f64 {
    match r.below(14) {
        0 => 0.0,
        1 => 1e300,
        2 => -1e300,
        3 => 1e-300,
        _ => usual,
    }
}

pub struct C14;

impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "histories of solver calls on one to three threads, fresh and reused solver objects, with callbacks that turn to NaN, infinities, constants, \
         sign flips or drift, sleep, start another solver or panic at any evaluation, on jumping clocks; each call must end within its evaluation \
         budget, never panic by itself, and do exactly what the same call does on a fresh object alone; non-trivial: some callback misbehaved"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _t: Tier) -> Plan {
        let solvers: Vec<Solver> = (0..r.range(1, 4))
            .map(|_| {
                let kind = *r.pick(&[0u64, 0, 1, 1, 2, 2, 3, 3, 4, 5]);
                let u = r.uniform(-3.0, 3.0);
                let guess = num(r, u);
                let acc = *r.pick(&[1e-3, 1e-6, 1e-10, 1e-15, 1e-300, 1.0, 1e300]);
                let step = *r.pick(&[0.1, 1.0, 1e-5, 0.0, 1e-300, 100.0, 1e200]);
                let (lo, hi) = *r.pick(&[(-10.0, 10.0), (-1.0, 1.0), (0.0, 2.0), (-1e308, 1e308), (0.5, 0.5)]);
                let p = match kind {
                    3 => vec![guess, acc, *r.pick(&[0.1, 0.01, 0.5, 1.0, 3.0, 0.0, 1e300]), lo, hi],
                    5 => {
                        let v = [r.uniform(0.0, 30.0), r.uniform(0.0, 0.1), r.uniform(0.01, 3.0), r.uniform(50.0, 150.0), r.uniform(50.0, 150.0)];
                        v.iter().map(|x| if r.chance(0.1) { num(r, *x) } else { *x }).collect()
                    }
                    _ => vec![guess, acc, step, lo, hi],
                };
                Solver { kind, p, flag: r.chance(0.5), n: r.log_range(0, 120) }
            })
            .collect();
        let nt = *r.pick(&[1, 1, 1, 2, 3]);
        let ns = solvers.len() as u64;
        let threads = (0..nt)
            .map(|_| {
                (0..r.range(1, 6))
                    .map(|_| {
                        let mis = (0..*r.pick(&[0, 0, 1, 1, 1, 2, 3]))
                            .map(|_| {
                                let what = *r.pick(&["nan", "nan", "inf", "-inf", "zero", "one", "huge", "tiny", "negate", "flip", "drift", "panic", "panic", "panic", "sleep", "nest"]);
                                Mis { at: if r.chance(0.3) { r.below(4) } else { r.log_range(0, 2100) }, what: what.into(), on: what != "sleep" && r.chance(0.6) }
                            })
                            .collect();
                        Call { solver: r.below(ns), f: Func { kind: r.below(8), k: r.uniform(-2.0, 2.0), mis }, reuse: r.chance(0.7) }
                    })
                    .collect()
            })
            .collect();
        let c = Case { solvers, threads };
        let mut e = gen_env(r, &EnvOpts::ALL);
        if r.chance(0.3) {
            e.faults.push(Fault::ClockJump { nth: r.below(30), ns: r.range(-400, 400) * DAY });
        }
        Plan { prop: "C14".into(), case: serde_json::to_value(c).unwrap(), envs: vec![base_env(r), e] }
    }
    fn valid(&self, p: &Plan) -> bool {
        let c = parse(&p.case);
        p.envs.len() == 2
            && !c.solvers.is_empty()
            && c.solvers.iter().all(|s| s.p.len() == 5 && s.p.iter().all(|x| x.is_finite()) && (s.kind % 6 > 3 || s.p[1] > 0.0) && (s.kind % 6 > 2 || s.p[3] <= s.p[4]) && s.n <= 1000)
            && !c.threads.is_empty()
            && c.threads.iter().all(|t| t.iter().all(|x| x.f.k.is_finite()))
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c = parse(case);
        if k == 0 {
            // each on a fresh object, one after the other
            return json!({"out": c.threads.iter().map(|t| history(&c, t, false)).collect::<Vec<_>>()});
        }
        let out: Vec<Vec<Value>> = if c.threads.len() == 1 {
            vec![history(&c, &c.threads[0], true)]
        } else {
            std::thread::scope(|s| {
                let hs: Vec<_> = c.threads.iter().map(|t| s.spawn(|| history(&c, t, true))).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
            })
        };
        json!({"out": out})
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let c = parse(&p.case);
        for (i, o) in outs.iter().enumerate() {
            if let Some(v) = bad_status(o, if i == 0 { "alone" } else { "history" }) {
                return vec![v];
            }
        }
        let mut v = vec![];
        for (t, calls) in c.threads.iter().enumerate() {
            for (i, x) in calls.iter().enumerate() {
                let s = &c.solvers[(x.solver % c.solvers.len() as u64) as usize];
                let name = KINDS[(s.kind % 6) as usize];
                let (a, b) = (&outs[0].result["out"][t][i], &outs[1].result["out"][t][i]);
                let place = format!("thread {t}, call {i}: {name} {:?} {} {} on {:?}", s.p, s.flag, s.n, x.f);
                for r in [a, b] {
                    let (n, m) = (r[2].as_u64().unwrap_or(0), r[3].as_u64().unwrap_or(0));
                    if r[0] == "runaway" || n > budget(s) || m > budget(s) {
                        v.push(viol("over-budget", name, format!("{place}: {n} evaluations of the function, {m} of its derivative; {} are allowed", budget(s))));
                    } else if r[0] == "panicked by itself" {
                        v.push(viol("panicked", name, format!("{place}: the solver panicked")));
                    }
                }
                if a != b && v.is_empty() {
                    let show = |r: &Value| {
                        let x: Vec<f64> = r[1].as_array().map(|a| a.iter().map(|b| f64::from_bits(b.as_u64().unwrap_or(0))).collect()).unwrap_or_default();
                        format!("{} {x:?} after {} evaluations", r[0], r[2])
                    };
                    v.push(viol("after-failure", name, format!("{place}: {}; alone on a fresh object: {}", show(b), show(a))));
                }
                if !v.is_empty() {
                    return v;
                }
            }
        }
        v
    }
    fn nontrivial(&self, p: &Plan, _o: &[Outcome]) -> bool {
        parse(&p.case).threads.iter().flatten().any(|x| !x.f.mis.is_empty())
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 50_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn max_shrink_envs(&self) -> usize {
        2
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_math::rootfinding", "RustQuant_math::GradientDescent", "RustQuant_math::integrate", "RustQuant_instruments implied volatility", "RustQuant_autodiff"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["the user's function", "clock, sleep, OS scheduler, entropy (simulator)"]
    }
}
