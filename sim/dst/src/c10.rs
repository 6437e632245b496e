//! C10: gradients on a shared tape.
use crate::fw::*;
use crate::procs::{bits, hash_f64s};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use RustQuant_autodiff::*;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Op {
    k: String,
    a: u64,
    b: u64,
    c: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Expr {
    /// another expression this one continues from
    base: Option<u64>,
    inputs: Vec<f64>,
    /// inputs it shares with other expressions on the same graph
    shared: Vec<u64>,
    ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Step {
    /// "op", "acc", "junk" or a kind of cut-short recording
    what: String,
    g: u64,
    slot: u64,
    n: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Hist {
    caps: Vec<u64>,
    steps: Vec<Step>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    shared: Vec<f64>,
    exprs: Vec<Expr>,
    threads: Vec<Hist>,
    /// which of the (expression, length) pairs is also recorded alone in a process
    solo: u64,
}

const UNARY: &[&str] = &[
    "neg", "abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "cbrt", "cos", "cosh", "exp", "exp2", "exp_m1",
    "ln", "ln_1p", "log10", "log2", "recip", "sin", "sinh", "sqrt", "tan", "tanh", "erf", "erfc",
];
const BINARY: &[&str] = &[
    "add", "sub", "mul", "div", "add=", "sub=", "mul=", "div=", "log", "min", "max", "powf", "powi",
];
const CONST: &[&str] = &[
    "add", "sub", "mul", "div", "add=", "sub=", "mul=", "div=", "log", "min", "max", "powf", "powi",
];
const NARY: &[&str] = &["sum", "product", "sum-map"];
const CUTS: &[&str] = &["cut-plain", "cut-sum", "cut-arity", "cut-graphs", "cut-empty-sum", "cut-wrt"];

fn apply<'v>(g: &'v Graph, nodes: &[Variable<'v>], op: &Op) -> Variable<'v> {
    let n = nodes.len() as u64;
    let x = nodes[(op.a % n) as usize];
    let y = nodes[(op.b % n) as usize];
    let c = op.c;
    let (kind, name) = op.k.split_once(':').unwrap_or(("", ""));
    match kind {
        "u" => match name {
            "neg" => -x,
            "abs" => x.abs(),
            "acos" => x.acos(),
            "acosh" => x.acosh(),
            "asin" => x.asin(),
            "asinh" => x.asinh(),
            "atan" => x.atan(),
            "atanh" => x.atanh(),
            "cbrt" => x.cbrt(),
            "cos" => x.cos(),
            "cosh" => x.cosh(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "exp_m1" => x.exp_m1(),
            "ln" => x.ln(),
            "ln_1p" => x.ln_1p(),
            "log10" => x.log10(),
            "log2" => x.log2(),
            "recip" => x.recip(),
            "sin" => x.sin(),
            "sinh" => x.sinh(),
            "sqrt" => x.sqrt(),
            "tan" => x.tan(),
            "tanh" => x.tanh(),
            "erf" => x.erf(),
            _ => x.erfc(),
        },
        "b" => {
            let mut z = x;
            match name {
                "add" => z = x + y,
                "sub" => z = x - y,
                "mul" => z = x * y,
                "div" => z = x / y,
                "add=" => z += y,
                "sub=" => z -= y,
                "mul=" => z *= y,
                "div=" => z /= y,
                "log" => z = Log::log(&x, y),
                "min" => z = Min::min(&x, y),
                "max" => z = Max::max(&x, y),
                "powf" => z = Powf::powf(&x, y),
                _ => z = Powi::powi(&x, y),
            }
            z
        }
        "c" => {
            let mut z = x;
            match name {
                "add" => z = x + c,
                "sub" => z = x - c,
                "mul" => z = x * c,
                "div" => z = x / c,
                "add=" => z += c,
                "sub=" => z -= c,
                "mul=" => z *= c,
                "div=" => z /= c,
                "log" => z = Log::log(&x, c),
                "min" => z = Min::min(&x, c),
                "max" => z = Max::max(&x, c),
                "powf" => z = Powf::powf(&x, c),
                _ => z = Powi::powi(&x, c as i32),
            }
            z
        }
        "f" => match name {
            "add" => c + x,
            "sub" => c - x,
            "mul" => c * x,
            "div" => c / x,
            "log" => Log::log(&c, x),
            "min" => Min::min(&c, x),
            "max" => Max::max(&c, x),
            "powf" => Powf::powf(&c, x),
            "powi" => Powi::powi(&c, x),
            _ => g.var(c),
        },
        _ => {
            let some: Vec<Variable> = (0..2 + op.b % 5).map(|i| nodes[((op.a + i * 3) % n) as usize]).collect();
            match name {
                "sum" => some.into_iter().sum(),
                "product" => some.into_iter().product(),
                _ => some.iter().map(|v| *v * c).sum(),
            }
        }
    }
}

/// One expression being recorded on one graph.
#[derive(Clone, Default)]
struct Rec<'v> {
    /// everything the expression consists of (its base's nodes included)
    nodes: Vec<Variable<'v>>,
    started: bool,
    done: usize,
}

struct Tape<'v> {
    g: &'v Graph,
    shared: Vec<Option<Variable<'v>>>,
    slots: BTreeMap<u64, Rec<'v>>,
}

impl Case {
    fn expr(&self, slot: u64) -> usize {
        (slot % self.exprs.len() as u64) as usize
    }
    /// number of records (inputs and operations)
    fn len(&self, e: usize) -> usize {
        self.exprs[e].inputs.len() + self.exprs[e].ops.len()
    }
}

impl<'v> Tape<'v> {
    fn new(c: &Case, g: &'v Graph) -> Self {
        Tape { g, shared: vec![None; c.shared.len()], slots: BTreeMap::new() }
    }
    /// Record the next `n` operations of `slot`'s expression.
    fn record(&mut self, c: &Case, slot: u64, n: usize) {
        let e = &c.exprs[c.expr(slot)];
        let mut r = self.slots.remove(&slot).unwrap_or_default();
        if !r.started {
            r.started = true;
            if let Some(b) = e.base {
                // the base has a slot of its own in the same family of slots
                let bslot = slot - slot % c.exprs.len() as u64 + b;
                self.record(c, bslot, usize::MAX);
                r.nodes.extend(self.slots[&bslot].nodes.clone());
            }
            for &s in &e.shared {
                let s = (s % c.shared.len() as u64) as usize;
                let g = self.g;
                r.nodes.push(*self.shared[s].get_or_insert_with(|| g.var(c.shared[s])));
            }
        }
        let total = e.inputs.len() + e.ops.len();
        let mut k = 0;
        while k < n && r.done < total {
            let v = if r.done < e.inputs.len() {
                if r.done == 0 && e.inputs.len() > 1 && n >= e.inputs.len() && n % 2 == 0 {
                    // all at once
                    r.nodes.extend(self.g.vars(&e.inputs));
                    r.done = e.inputs.len();
                    k += e.inputs.len();
                    continue;
                }
                self.g.var(e.inputs[r.done])
            } else {
                apply(self.g, &r.nodes, &e.ops[r.done - e.inputs.len()])
            };
            r.nodes.push(v);
            r.done += 1;
            k += 1;
        }
        self.slots.insert(slot, r);
    }
    /// Value and gradient of what `slot` has recorded so far.
    fn measure(&self, c: &Case, slot: u64) -> Option<Value> {
        let r = self.slots.get(&slot)?;
        let z = *r.nodes.last()?;
        let adj = z.accumulate();
        let values: Vec<f64> = r.nodes.iter().map(|v| v.value()).collect();
        let grad = adj.wrt(&r.nodes);
        // the other ways to ask for the same derivatives
        let slice = adj.wrt(&r.nodes[..]);
        let each: Vec<f64> = r.nodes.iter().map(|v| adj.wrt(v)).collect();
        let mut forms = hash_f64s(&slice) == hash_f64s(&grad) && hash_f64s(&each) == hash_f64s(&grad);
        if r.nodes.len() >= 2 {
            let pair = [r.nodes[0], z];
            let a = adj.wrt(pair);
            let b = adj.wrt(&pair);
            forms &= hash_f64s(&a) == hash_f64s(&b) && bits(a[0]) == bits(grad[0]) && bits(a[1]) == bits(*grad.last().unwrap());
        }
        Some(json!({
            "expr": c.expr(slot),
            "len": r.done,
            "value": bits(z.value()),
            "values": format!("{:016x}", hash_f64s(&values)),
            "grad": grad.iter().map(|x| bits(*x)).collect::<Vec<_>>(),
            "forms": forms,
        }))
    }
}

fn cut(g: &Graph, what: &str, n: u64) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let a = g.var(1.5 + n as f64);
        let mut b = a.sin() * 2.0;
        for i in 0..n % 7 {
            b = b + a * (i as f64);
        }
        match what {
            "cut-plain" => panic!("cut short"),
            "cut-sum" => {
                let s: Variable = (0..5u64)
                    .map(|i| {
                        if i == n % 5 {
                            panic!("cut short in a sum")
                        }
                        a * i as f64
                    })
                    .sum();
                std::hint::black_box(s.value());
            }
            "cut-arity" => {
                g.push(Arity::Unary, &[], &[]);
            }
            "cut-graphs" => {
                let other = Graph::new();
                let o = other.var(1.0);
                // the assertion for operands of different graphs
                let f: fn(&Variable, &Variable) = |x, y| {
                    let y2: Variable = unsafe { std::mem::transmute(*y) };
                    let x2: Variable = unsafe { std::mem::transmute(*x) };
                    let _ = x2 + y2;
                };
                f(&b, &o);
            }
            "cut-empty-sum" => {
                let s: Variable = Vec::<Variable>::new().into_iter().sum();
                std::hint::black_box(s.value());
            }
            _ => {
                // a gradient taken before the variable existed
                let adj = b.accumulate();
                let late = g.var(1.0);
                let d: f64 = adj.wrt(&late);
                std::hint::black_box(d);
            }
        }
    }));
    if r.is_ok() {
        sim::probe("cut-did-not-panic");
    }
    sim::note_fault("recording-cut-short");
}

fn history(c: &Case, h: &Hist) -> Vec<Value> {
    let graphs: Vec<Graph> = h
        .caps
        .iter()
        .map(|&n| if n == 0 { Graph::new() } else { Graph::with_capacity(n as usize) })
        .collect();
    let mut tapes: Vec<Tape> = graphs.iter().map(|g| Tape::new(c, g)).collect();
    let mut out = vec![];
    for s in &h.steps {
        let gi = (s.g % graphs.len() as u64) as usize;
        let t = &mut tapes[gi];
        match s.what.as_str() {
            "op" => t.record(c, s.slot, s.n as usize),
            "acc" => {
                for _ in 0..s.n {
                    out.extend(t.measure(c, s.slot));
                }
            }
            "junk" => {
                let mut x = t.g.var(0.3);
                for i in 0..s.n {
                    x = match i % 4 {
                        0 => x * 1.0001,
                        1 => x.sin(),
                        2 => x + t.g.var(0.1),
                        _ => x / 1.5,
                    };
                }
                std::hint::black_box(x.value());
                if s.n > 1000 {
                    sim::probe("long-tape");
                }
            }
            "clone" => {
                let copy = t.g.clone();
                std::hint::black_box(copy.len());
                copy.clear();
            }
            w => cut(t.g, w, s.n),
        }
    }
    for t in &tapes {
        for slot in t.slots.keys() {
            out.extend(t.measure(c, *slot));
        }
    }
    out
}

/// Every (expression, recorded length) the histories measure.
fn wanted(c: &Case) -> Vec<(usize, usize)> {
    let mut set = BTreeSet::new();
    for h in &c.threads {
        let ng = h.caps.len();
        let mut at: Vec<BTreeMap<u64, usize>> = vec![BTreeMap::new(); ng];
        fn rec(c: &Case, m: &mut BTreeMap<u64, usize>, slot: u64, n: usize) {
            let e = c.expr(slot);
            if !m.contains_key(&slot) {
                if let Some(b) = c.exprs[e].base {
                    rec(c, m, slot - slot % c.exprs.len() as u64 + b, usize::MAX);
                }
                m.insert(slot, 0);
            }
            let d = m.get_mut(&slot).unwrap();
            *d = (*d + n.min(1 << 40)).min(c.len(e));
        }
        for s in &h.steps {
            let gi = (s.g % ng as u64) as usize;
            match s.what.as_str() {
                "op" => rec(c, &mut at[gi], s.slot, s.n as usize),
                "acc" => {
                    if let Some(&d) = at[gi].get(&s.slot) {
                        set.insert((c.expr(s.slot), d));
                    }
                }
                _ => {}
            }
        }
        for m in &at {
            for (slot, &d) in m {
                set.insert((c.expr(*slot), d));
            }
        }
    }
    set.into_iter().collect()
}

/// The expression alone on a fresh graph.
fn alone(c: &Case, (e, len): (usize, usize)) -> Option<Value> {
    let g = Graph::new();
    let mut t = Tape::new(c, &g);
    t.record(c, e as u64, len);
    t.measure(c, e as u64)
}

fn parse(v: &Value) -> Case {
    serde_json::from_value(v.clone()).unwrap_or(Case { shared: vec![], exprs: vec![], threads: vec![], solo: 0 })
}

fn gen_expr(r: &mut Rng, base: Option<u64>, nshared: u64) -> Expr {
    let nin = r.range(if base.is_some() { 0 } else { 1 }, 4) as usize;
    let inputs = (0..nin).map(|_| value(r)).collect();
    let shared = (0..r.below(3)).map(|_| r.below(nshared)).collect();
    let most = *r.pick(&[3, 8, 25]);
    let ops = (0..r.range(1, most))
        .map(|_| {
            let k = match r.below(12) {
                0..=3 => format!("u:{}", r.pick(UNARY)),
                4..=7 => format!("b:{}", r.pick(BINARY)),
                8..=9 => format!("c:{}", r.pick(CONST)),
                10 => format!("f:{}", r.pick(&["add", "sub", "mul", "div", "log", "min", "max", "powf", "powi", "var"])),
                _ => format!("n:{}", r.pick(NARY)),
            };
            // mostly recent nodes, so that chains get deep
            Op { k, a: r.next() >> 12, b: r.next() >> 12, c: value(r) }
        })
        .collect();
    Expr { base, inputs, shared, ops }
}

fn value(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => 0.0,
        1 => -1.0 * r.f(),
        2 => 1.0,
        3 => -(r.range(1, 4) as f64),
        4 => r.range(1, 50) as f64,
        5 => *r.pick(&[1e-9, 1e9, 1e200, 1e-300]),
        _ => (r.f() * 3.0 * 1024.0).round() / 1024.0,
    }
}

pub struct C10;

impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "random expressions over all overloaded operations (own, shared and derived inputs) recorded interleaved on one to three graphs per thread \
         by one to four threads, with foreign operations, recordings cut short by panics and gradients accumulated at any moment; every value and \
         gradient is compared bit for bit with the expression recorded alone on a fresh graph; non-trivial: at least two expressions were interleaved"
    }
    fn gen(&self, r: &mut Rng, _index: u64, _t: Tier) -> Plan {
        let nshared = r.range(1, 3);
        let mut exprs: Vec<Expr> = vec![];
        for i in 0..r.range(1, 5) as u64 {
            let base = if i > 0 && r.chance(0.3) { Some(r.below(i)) } else { None };
            exprs.push(gen_expr(r, base, nshared as u64));
        }
        let ne = exprs.len() as u64;
        let nt = *r.pick(&[1u64, 1, 2, 3, 4]);
        let threads = (0..nt)
            .map(|_| {
                let caps: Vec<u64> = (0..*r.pick(&[1, 1, 1, 2, 3])).map(|_| *r.pick(&[0, 0, 1, 16, 1000])).collect();
                let ng = caps.len() as u64;
                let copies = r.range(1, 3) as u64;
                let big = r.chance(0.02);
                let mut steps: Vec<Step> = (0..r.range(3, 30))
                    .map(|_| {
                        let slot = r.below(ne * copies);
                        let g = r.below(ng);
                        match r.below(20) {
                            0..=11 => Step { what: "op".into(), g, slot, n: r.log_range(1, 12) },
                            12..=14 => Step { what: "acc".into(), g, slot, n: r.range(1, 2) as u64 },
                            15..=16 => Step { what: "junk".into(), g, slot, n: r.log_range(1, 60) },
                            17 => Step { what: "clone".into(), g, slot, n: 0 },
                            _ => Step { what: r.pick(CUTS).to_string(), g, slot, n: r.below(20) },
                        }
                    })
                    .collect();
                if big {
                    let at = r.below(steps.len() as u64 + 1) as usize;
                    steps.insert(at, Step { what: "junk".into(), g: 0, slot: 0, n: *r.pick(&[300, 1100, 4200, 33_000, 66_000]) });
                }
                Hist { caps, steps }
            })
            .collect();
        let c = Case { shared: (0..nshared).map(|_| value(r)).collect(), exprs, threads, solo: r.next() >> 40 };
        let mut o = EnvOpts::ALL;
        o.clock = false;
        let mut envs = vec![base_env(r), gen_env(r, &o)];
        if r.chance(0.4) {
            envs.push(base_env(r));
        }
        Plan { prop: "C10".into(), case: serde_json::to_value(c).unwrap(), envs }
    }
    fn valid(&self, p: &Plan) -> bool {
        let c = parse(&p.case);
        let ne = c.exprs.len() as u64;
        p.envs.len() >= 2
            && ne > 0
            && !c.shared.is_empty()
            && !c.threads.is_empty()
            && c.shared.iter().all(|x| x.is_finite())
            && c.exprs.iter().enumerate().all(|(i, e)| {
                e.base.map_or(true, |b| b < i as u64)
                    && (e.base.is_some() || !e.shared.is_empty() || !e.inputs.is_empty())
                    && e.inputs.iter().all(|x| x.is_finite())
                    && e.ops.iter().all(|o| o.c.is_finite() && o.k.contains(':'))
            })
            && c.threads.iter().all(|h| !h.caps.is_empty() && h.caps.iter().all(|&n| n <= 100_000) && h.steps.iter().all(|s| s.n <= 100_000))
    }
    fn run(&self, case: &Value, k: usize) -> Value {
        let c = parse(case);
        match k {
            0 => json!({"ref": wanted(&c).into_iter().filter_map(|w| alone(&c, w)).collect::<Vec<_>>()}),
            1 => {
                let out: Vec<Vec<Value>> = if c.threads.len() == 1 {
                    vec![history(&c, &c.threads[0])]
                } else {
                    std::thread::scope(|s| {
                        let hs: Vec<_> = c.threads.iter().map(|h| s.spawn(|| history(&c, h))).collect();
                        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| vec![json!({"panic": true})])).collect()
                    })
                };
                json!({"got": out})
            }
            _ => {
                let w = wanted(&c);
                if w.is_empty() {
                    return json!({"ref": []});
                }
                json!({"ref": alone(&c, w[(c.solo % w.len() as u64) as usize]).into_iter().collect::<Vec<_>>()})
            }
        }
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        for o in outs {
            if let Some(v) = bad_status(o, "autodiff") {
                return vec![v];
            }
        }
        let none = vec![];
        let mut m: BTreeMap<(u64, u64), &Value> = BTreeMap::new();
        let refs = outs[0].result["ref"].as_array().unwrap_or(&none);
        for x in refs {
            m.insert((x["expr"].as_u64().unwrap_or(0), x["len"].as_u64().unwrap_or(0)), x);
        }
        let c = parse(&p.case);
        let check = |x: &Value, place: &str| -> Option<Viol> {
            if x["panic"] == true {
                return Some(viol("panicked", "autodiff", format!("{place}: recording or accumulating panicked")));
            }
            let id = (x["expr"].as_u64().unwrap_or(0), x["len"].as_u64().unwrap_or(0));
            let Some(r) = m.get(&id) else {
                return Some(viol("missing", "autodiff", format!("{place}: no reference for {id:?}")));
            };
            if x["forms"] != true {
                return Some(viol("wrt-forms", "autodiff", format!("{place}: the forms of wrt() disagree for expression {id:?}")));
            }
            let describe = |v: &Value| {
                let g: Vec<f64> = v["grad"].as_array().unwrap_or(&none).iter().map(|b| f64::from_bits(b.as_u64().unwrap_or(0))).collect();
                format!("value {} gradient {:?}", f64::from_bits(v["value"].as_u64().unwrap_or(0)), g)
            };
            for part in ["value", "values", "grad"] {
                if x[part] != r[part] {
                    return Some(viol(
                        if part == "grad" { "gradient" } else { "value" },
                        "autodiff",
                        format!(
                            "{place}: expression {} after {} records: {}; alone on a fresh graph: {}; {}",
                            id.0,
                            id.1,
                            describe(x),
                            describe(r),
                            serde_json::to_string(&c.exprs[id.0 as usize]).unwrap_or_default()
                        ),
                    ));
                }
            }
            None
        };
        let mut v = vec![];
        for (t, list) in outs[1].result["got"].as_array().unwrap_or(&none).iter().enumerate() {
            for x in list.as_array().unwrap_or(&none) {
                v.extend(check(x, &format!("thread {t}")));
            }
        }
        if outs.len() > 2 {
            for x in outs[2].result["ref"].as_array().unwrap_or(&none) {
                v.extend(check(x, "alone in its own process"));
            }
        }
        v.truncate(3);
        v
    }
    fn nontrivial(&self, p: &Plan, _outs: &[Outcome]) -> bool {
        let c = parse(&p.case);
        c.threads.iter().any(|h| {
            let mut seen = BTreeSet::new();
            h.steps.iter().filter(|s| s.what == "op").for_each(|s| {
                seen.insert((s.g % h.caps.len() as u64, s.slot));
            });
            seen.len() > 1
        })
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 28_000,
            Tier::Thorough => 1_000_000,
        }
    }
    fn max_shrink_envs(&self) -> usize {
        2
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_autodiff"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["kernel futex/threads/entropy (simulated)"]
    }
}
