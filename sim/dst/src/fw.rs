//! Plans, judging, shrinking, replay files, the driver and its evidence.
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use simrt::{host, run_process, Env, Fault, Outcome, Rng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// One simulated experiment: the same case executed in one or more simulated processes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub case: Value,
    pub envs: Vec<Env>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// what kind of violation (kept fixed while shrinking)
    pub class: String,
    /// which input, call site or history (compared with the known findings)
    pub key: String,
    pub detail: String,
}

pub fn viol(class: impl Into<String>, key: impl Into<String>, detail: impl Into<String>) -> Viol {
    let mut d: String = detail.into();
    if d.len() > 1500 {
        let mut n = 1500;
        while !d.is_char_boundary(n) {
            n -= 1;
        }
        d.truncate(n);
        d.push_str(" ...");
    }
    Viol { class: class.into(), key: key.into(), detail: d }
}

pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    /// how cases are made and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan;
    /// is this case inside the property's quantifier (used while shrinking)?
    fn valid(&self, _p: &Plan) -> bool {
        true
    }
    /// Executed inside simulated process `k`.
    fn run(&self, case: &Value, k: usize) -> Value;
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol>;
    fn nontrivial(&self, p: &Plan, outs: &[Outcome]) -> bool;
    fn runs(&self, tier: Tier) -> u64;
    fn max_shrink_envs(&self) -> usize {
        1
    }
    fn real(&self) -> &'static [&'static str];
    fn stub(&self) -> &'static [&'static str];
}

pub const WATCHDOG_MS: u64 = 30_000;

pub fn execute(prop: &'static dyn Prop, p: &Plan) -> Vec<Outcome> {
    (0..p.envs.len())
        .map(|k| {
            let go = |ms| {
                let case = p.case.clone();
                run_process(&p.envs[k], ms, Box::new(move || prop.run(&case, k)))
            };
            let o = go(WATCHDOG_MS);
            if o.status == "watchdog" {
                // A slow host must not look like a hang.
                go(3 * WATCHDOG_MS)
            } else {
                o
            }
        })
        .collect()
}

pub fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, x| (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01B3))
}

/// Everything about an execution that must repeat exactly.
pub fn fingerprint(o: &Outcome) -> Value {
    json!({
        "status": o.status,
        "result": format!("{:016x}", fnv(o.result.to_string().as_bytes())),
        "schedule": format!("{:016x}", o.stats.sched_hash),
        "log": format!("{:016x}", o.stats.log_hash),
        "points": o.stats.steps,
        "switches": o.stats.switches,
        "sim_ns": o.stats.sim_ns,
    })
}

// ------------------------------------------------------------------ helpers for judges

/// Violations reported from inside the simulated process as `"viol": [[class, key, detail], ..]`.
pub fn inner_viols(o: &Outcome) -> Vec<Viol> {
    let mut v = vec![];
    if let Some(a) = o.result.get("viol").and_then(|x| x.as_array()) {
        for x in a {
            v.push(viol(
                x[0].as_str().unwrap_or("?"),
                x[1].as_str().unwrap_or("?"),
                x[2].as_str().unwrap_or("?"),
            ));
        }
    }
    v
}

pub fn bad_status(o: &Outcome, key: &str) -> Option<Viol> {
    if o.status == "ok" {
        None
    } else {
        Some(viol(
            format!("process-{}", o.status),
            key,
            format!("simulated process ended with {} {} panics: {:?}", o.status, o.result, o.stats.panics),
        ))
    }
}

// ------------------------------------------------------------------ environments

pub struct EnvOpts {
    pub threads: bool,
    pub entropy_soft: bool,
    pub clock: bool,
    pub spurious: bool,
    pub stall: bool,
    pub spawn_fail: bool,
}

impl EnvOpts {
    pub const ALL: EnvOpts = EnvOpts {
        threads: true,
        entropy_soft: true,
        clock: true,
        spurious: true,
        stall: true,
        spawn_fail: false,
    };
}

pub const DAY: i64 = 86_400_000_000_000;

pub fn base_env(r: &mut Rng) -> Env {
    let mut e = Env::default();
    e.entropy = r.next() >> 12;
    e
}

pub fn gen_sched(r: &mut Rng, e: &mut Env) {
    e.sched.seed = r.next() >> 12;
    match r.below(10) {
        0..=3 => {
            e.sched.mode = "random".into();
            e.sched.burst = r.log_range(1, 20_000);
        }
        4..=6 => {
            e.sched.mode = "pct".into();
            let d = r.range(1, 6);
            let len = r.log_range(50, 100_000);
            e.sched.change = (0..d).map(|_| r.below(len) + 1).collect();
            e.sched.change.sort_unstable();
            e.sched.change.dedup();
        }
        7..=8 => {
            e.sched.mode = "rr".into();
            e.sched.burst = r.log_range(3, 5_000);
        }
        _ => e.sched.mode = "block".into(),
    }
}

pub fn gen_env(r: &mut Rng, o: &EnvOpts) -> Env {
    let mut e = base_env(r);
    if o.threads {
        gen_sched(r, &mut e);
        e.workers = *r.pick(&[1, 2, 2, 3, 4, 4, 5, 8, 16]);
    }
    e.epoch_ns = gen_epoch(r);
    e.heap_pad = if r.chance(0.3) { r.log_range(1, 300_000) } else { 0 };
    if o.entropy_soft && r.chance(0.35) {
        for _ in 0..r.range(1, 3) {
            let nth = r.below(12);
            e.faults.push(match r.below(5) {
                0 | 1 => Fault::EntropyEintr { nth },
                2 | 3 => Fault::EntropyShort { nth, len: r.below(15) + 1 },
                _ => Fault::EntropyEnosys,
            });
        }
    }
    if o.clock && r.chance(0.35) {
        for _ in 0..r.range(1, 3) {
            let nth = r.below(6);
            e.faults.push(if r.chance(0.4) {
                Fault::ClockMidnight { nth }
            } else {
                Fault::ClockJump { nth, ns: r.range(-400, 400) * DAY / 3 + r.range(-1_000_000, 1_000_000) }
            });
        }
    }
    if o.spurious && o.threads && r.chance(0.25) {
        for _ in 0..r.range(1, 4) {
            e.faults.push(Fault::Spurious { nth: r.below(20) });
        }
    }
    if o.stall && o.threads && r.chance(0.3) {
        for _ in 0..r.range(1, 3) {
            e.faults.push(Fault::Stall { tid: r.below(10) as u32, at: r.log_range(1, 50_000), len: r.log_range(10, 50_000) });
        }
    }
    if o.spawn_fail && r.chance(0.2) {
        e.faults.push(Fault::SpawnFail { nth: r.below(8) + 1 });
    }
    e
}

/// A wall-clock start, often close to a boundary.
pub fn gen_epoch(r: &mut Rng) -> i64 {
    let day = match r.below(6) {
        0 => 19_782,                  // 2024-02-29
        1 => 20_088,                  // 2024-12-31
        2 => r.range(0, 3_000),       // 1970s
        3 => r.range(25_000, 40_000), // far future
        _ => r.range(18_000, 22_000),
    };
    day * DAY + if r.chance(0.4) { DAY - r.range(1, 3_000_000) } else { r.range(0, DAY - 1) }
}

// ------------------------------------------------------------------ shrinking

fn find(v: &[Viol], class: &str) -> Option<Viol> {
    v.iter().find(|x| x.class == class).cloned()
}

struct Shrinker<'a> {
    prop: &'static dyn Prop,
    class: &'a str,
    deadline: f64,
    tries: u64,
    best: Plan,
    viol: Viol,
    outs: Vec<Outcome>,
}

impl Shrinker<'_> {
    fn spent(&self) -> bool {
        host::now_s() > self.deadline || self.tries > 3000
    }

    fn attempt(&mut self, p: Plan) -> bool {
        if p == self.best || self.spent() || !self.prop.valid(&p) {
            return false;
        }
        self.tries += 1;
        let o = execute(self.prop, &p);
        match find(&self.prop.judge(&p, &o), self.class) {
            Some(v) => {
                self.best = p;
                self.viol = v;
                self.outs = o;
                true
            }
            None => false,
        }
    }

    fn with_case(&self, case: Value) -> Plan {
        Plan { case, ..self.best.clone() }
    }

    fn shrink_envs(&mut self) {
        for k in 0..self.best.envs.len() {
            let mut i = self.best.envs[k].faults.len();
            while i > 0 {
                i -= 1;
                let mut p = self.best.clone();
                p.envs[k].faults.remove(i);
                self.attempt(p);
            }
            let d = Env::default();
            for what in 0..5 {
                let mut p = self.best.clone();
                let e = &mut p.envs[k];
                match what {
                    0 => e.sched = d.sched.clone(),
                    1 => e.heap_pad = 0,
                    2 => e.epoch_ns = d.epoch_ns,
                    3 => e.workers = 1,
                    _ => e.workers = 2.min(e.workers),
                }
                self.attempt(p);
            }
        }
        // drop whole environments (but a comparison needs two)
        let mut k = self.best.envs.len();
        while k > self.prop.max_shrink_envs() && k > 0 {
            k -= 1;
            if self.best.envs.len() > 1 {
                let mut p = self.best.clone();
                p.envs.remove(k);
                self.attempt(p);
            }
        }
    }

    fn shrink_case(&mut self) {
        let mut progress = true;
        while progress && !self.spent() {
            progress = false;
            let mut paths = vec![];
            collect_paths(&self.best.case, &mut vec![], &mut paths);
            for path in paths {
                if self.spent() {
                    return;
                }
                let Some(node) = at(&self.best.case, &path) else { continue };
                match node.clone() {
                    Value::Array(a) => {
                        let mut chunk = a.len();
                        while chunk > 0 && !self.spent() {
                            let mut i = 0;
                            loop {
                                let Some(Value::Array(cur)) = at(&self.best.case, &path).cloned() else { break };
                                if i >= cur.len() {
                                    break;
                                }
                                let mut b = cur.clone();
                                b.drain(i..(i + chunk).min(cur.len()));
                                let mut c = self.best.case.clone();
                                *at_mut(&mut c, &path).unwrap() = Value::Array(b);
                                if self.attempt(self.with_case(c)) {
                                    progress = true;
                                } else {
                                    i += chunk;
                                }
                            }
                            chunk /= 2;
                        }
                    }
                    Value::Number(n) if n.is_u64() || n.is_i64() => {
                        let x = n.as_i64().unwrap_or(i64::MAX);
                        for y in [0, 1, 2, x / 2, x - x / 4, x - x.signum()] {
                            let cur = at(&self.best.case, &path).and_then(|v| v.as_i64()).unwrap_or(0);
                            if y.unsigned_abs() >= cur.unsigned_abs() {
                                continue;
                            }
                            let mut c = self.best.case.clone();
                            *at_mut(&mut c, &path).unwrap() = json!(y);
                            if self.attempt(self.with_case(c)) {
                                progress = true;
                            }
                        }
                    }
                    Value::Bool(true) => {
                        let mut c = self.best.case.clone();
                        *at_mut(&mut c, &path).unwrap() = json!(false);
                        progress |= self.attempt(self.with_case(c));
                    }
                    _ => {}
                }
            }
        }
    }

    /// Replace the seeded scheduler by the decisions it took, and drop those that do not matter.
    fn shrink_trace(&mut self) {
        for k in 0..self.best.envs.len() {
            if self.best.envs[k].sched.mode == "block" || self.outs[k].stats.trace_full || self.outs[k].stats.steps == 0 {
                continue;
            }
            let mut p = self.best.clone();
            p.envs[k].sched.mode = "trace".into();
            p.envs[k].sched.change = vec![];
            p.envs[k].sched.trace = self.outs[k].stats.trace.clone();
            if !self.attempt(p) {
                continue;
            }
            let mut chunk = self.best.envs[k].sched.trace.len();
            while chunk > 0 && !self.spent() {
                let mut i = 0;
                while i < self.best.envs[k].sched.trace.len() && !self.spent() {
                    let mut p = self.best.clone();
                    let t = &mut p.envs[k].sched.trace;
                    let end = (i + chunk).min(t.len());
                    t.drain(i..end);
                    if !self.attempt(p) {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
    }
}

fn collect_paths(v: &Value, cur: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                cur.push(k.clone());
                collect_paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Array(a) => {
            out.push(cur.clone());
            for (i, x) in a.iter().enumerate() {
                cur.push(i.to_string());
                collect_paths(x, cur, out);
                cur.pop();
            }
        }
        Value::Number(_) | Value::Bool(true) => out.push(cur.clone()),
        _ => {}
    }
}

fn at<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    path.iter().try_fold(v, |v, k| match v {
        Value::Object(m) => m.get(k),
        Value::Array(a) => a.get(k.parse::<usize>().ok()?),
        _ => None,
    })
}

fn at_mut<'a>(v: &'a mut Value, path: &[String]) -> Option<&'a mut Value> {
    path.iter().try_fold(v, |v, k| match v {
        Value::Object(m) => m.get_mut(k),
        Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?),
        _ => None,
    })
}

// ------------------------------------------------------------------ known findings

/// Lines `known: property=<id> class=<class> key=<key> <what fails>` of KNOWN_FINDINGS.
fn known(root: &str, id: &str) -> Vec<(String, String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS")) {
        for l in t.lines() {
            if let Some(rest) = l.strip_prefix("known: ") {
                let mut class = "";
                let mut key = "";
                let mut prop = "";
                let mut what = vec![];
                for w in rest.split(' ') {
                    if let Some(x) = w.strip_prefix("property=") {
                        prop = x;
                    } else if let Some(x) = w.strip_prefix("class=") {
                        class = x;
                    } else if let Some(x) = w.strip_prefix("key=") {
                        key = x;
                    } else {
                        what.push(w);
                    }
                }
                if prop == id {
                    v.push((class.into(), key.into(), what.join(" ")));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ driver

#[derive(Serialize, Deserialize, Default)]
struct Tally {
    plans: u64,
    processes: u64,
    nontrivial: BTreeSet<u64>,
    schedules: BTreeSet<u64>,
    fired: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    points: u64,
    switches: u64,
    threads_max: u64,
    sim_ns: u64,
    clock_moved_ns: u64,
    statuses: BTreeMap<String, u64>,
    rechecked: u64,
    nondeterministic: Vec<Value>,
    found: Vec<(u64, Plan, Viol)>,
    samples: Vec<Value>,
    cov: Vec<u8>,
    last: u64,
}

fn seed_rng(seed: u64, id: &str, i: u64) -> Rng {
    Rng::derive(seed, &[fnv(id.as_bytes()), i])
}

fn worker(prop: &'static dyn Prop, tier: Tier, seed: u64, w: u64, n: u64, total: u64, deadline: f64) -> Tally {
    host::pin(w as usize);
    simrt::share_coverage();
    let mut t = Tally::default();
    let mut i = w;
    while i < total && host::now_s() < deadline {
        let plan = prop.gen(&mut seed_rng(seed, prop.id(), i), i, tier);
        assert!(prop.valid(&plan), "generator made an invalid plan: {}", serde_json::to_string(&plan).unwrap());
        let outs = execute(prop, &plan);
        t.plans += 1;
        t.last = i;
        for o in &outs {
            t.processes += 1;
            t.points += o.stats.steps;
            t.switches += o.stats.switches;
            t.sim_ns += o.stats.sim_ns;
            t.clock_moved_ns = t.clock_moved_ns.saturating_add(o.stats.clock_moved_ns.unsigned_abs());
            t.threads_max = t.threads_max.max(o.stats.threads);
            t.schedules.insert(o.stats.sched_hash);
            *t.statuses.entry(o.status.clone()).or_insert(0) += 1;
            for (k, v) in &o.stats.fired {
                *t.fired.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &o.stats.probes {
                *t.probes.entry(k.clone()).or_insert(0) += v;
            }
        }
        let v = prop.judge(&plan, &outs);
        if prop.nontrivial(&plan, &outs) {
            let h: u64 = outs.iter().fold(fnv(plan.case.to_string().as_bytes()), |h, o| {
                h.rotate_left(7) ^ o.stats.sched_hash
            });
            t.nontrivial.insert(h);
        }
        if i % 97 == 0 {
            t.rechecked += 1;
            let again = execute(prop, &plan);
            for (a, b) in outs.iter().zip(&again) {
                let (a, b) = (fingerprint(a), fingerprint(b));
                if a != b && t.nondeterministic.len() < 3 {
                    t.nondeterministic.push(json!({"index": i, "first": a, "second": b, "plan": plan}));
                }
            }
        }
        if t.samples.is_empty() && i >= 8 && v.is_empty() {
            t.samples.push(json!({
                "index": i,
                "plan": plan,
                "outcomes": outs.iter().map(fingerprint).collect::<Vec<_>>(),
            }));
        }
        for x in v {
            if !t.found.iter().any(|(_, _, y)| y.class == x.class && y.key == x.key) && t.found.len() < 12 {
                t.found.push((i, plan.clone(), x));
            }
        }
        if t.found.len() >= 12 {
            break;
        }
        i += n;
    }
    t.cov = simrt::coverage_bits();
    t
}

pub struct Cfg {
    pub root: String,
    pub tier: Tier,
    pub seed: u64,
    pub max_s: f64,
    pub runs: Option<u64>,
}

pub fn check(prop: &'static dyn Prop, cfg: &Cfg) -> i32 {
    let t0 = host::now_s();
    let total = cfg.runs.unwrap_or(prop.runs(cfg.tier));
    let n = host::n_cpus().clamp(1, 16) as u64;
    let deadline = t0 + cfg.max_s;
    let kids: Vec<_> = (0..n)
        .map(|w| {
            let (tier, seed) = (cfg.tier, cfg.seed);
            host::start(move || serde_json::to_vec(&worker(prop, tier, seed, w, n, total, deadline)).unwrap())
        })
        .collect();
    let mut all = Tally::default();
    let mut lost = 0;
    for k in kids {
        let Some(t) = host::collect(k).and_then(|b| serde_json::from_slice::<Tally>(&b).ok()) else {
            lost += 1;
            continue;
        };
        all.plans += t.plans;
        all.processes += t.processes;
        all.nontrivial.extend(t.nontrivial);
        all.schedules.extend(t.schedules);
        for (k, v) in t.fired {
            *all.fired.entry(k).or_insert(0) += v;
        }
        for (k, v) in t.probes {
            *all.probes.entry(k).or_insert(0) += v;
        }
        for (k, v) in t.statuses {
            *all.statuses.entry(k).or_insert(0) += v;
        }
        all.points += t.points;
        all.switches += t.switches;
        all.sim_ns += t.sim_ns;
        all.clock_moved_ns = all.clock_moved_ns.saturating_add(t.clock_moved_ns);
        all.threads_max = all.threads_max.max(t.threads_max);
        all.rechecked += t.rechecked;
        all.nondeterministic.extend(t.nondeterministic);
        all.found.extend(t.found);
        all.samples.extend(t.samples);
        if all.cov.len() < t.cov.len() {
            all.cov.resize(t.cov.len(), 0);
        }
        for (i, b) in t.cov.iter().enumerate() {
            all.cov[i] |= *b;
        }
    }
    let search_s = host::now_s() - t0;
    all.found.sort_by_key(|f| f.0);
    all.samples.sort_by_key(|s| s["index"].as_u64());
    all.samples.truncate(3);

    let known = known(&cfg.root, prop.id());
    for (c, k, what) in &known {
        println!("KNOWN-FINDING: property={} {} [class={} key={}]", prop.id(), what, c, k);
    }
    let mut classes: BTreeSet<String> = BTreeSet::new();
    let mut reported: Vec<Value> = vec![];
    let mut known_hits = 0;
    for (i, plan, v) in &all.found {
        if known.iter().any(|(c, k, _)| *c == v.class && *k == v.key) {
            known_hits += 1;
            continue;
        }
        if !classes.insert(v.class.clone()) || reported.len() >= 3 {
            continue;
        }
        let (path, rec) = report(prop, cfg, *i, plan, v);
        println!("VIOLATION property={} replay={}", prop.id(), path);
        println!("  class {} at {}: {}", rec.class, rec.key, rec.detail);
        reported.push(json!({"index": i, "class": rec.class, "key": rec.key, "detail": rec.detail, "replay": path}));
    }
    let wall = host::now_s() - t0;
    let hit = all.cov.iter().filter(|b| **b != 0).count();
    let mut cov = Map::new();
    let mut put = |k: &str, v: Value| {
        cov.insert(k.to_string(), v);
    };
    put("evaluations", json!(all.plans));
    put("distinct_nontrivial", json!(all.nontrivial.len()));
    put("rule", json!(prop.rule()));
    put("samples", json!(all.samples));
    put("planned_runs", json!(total));
    put("simulated_processes", json!(all.processes));
    put("seeds_per_hour", json!((all.plans as f64 / search_s * 3600.0) as u64));
    put("simulated_runs_per_hour", json!((all.processes as f64 / search_s * 3600.0) as u64));
    put("simulated_seconds", json!(all.sim_ns as f64 / 1e9));
    put("clock_displaced_days", json!((all.clock_moved_ns / 86_400_000_000_000) as i64));
    put("preemption_points_passed", json!(all.points));
    put("context_switches", json!(all.switches));
    put("distinct_interleavings", json!(all.schedules.len()));
    put("interleaving_measure", json!("hash of the sequence of (from, to, code location) of all context switches of a simulated process"));
    put("max_threads", json!(all.threads_max));
    put("faults_injected", json!(all.fired));
    put("reached", json!(all.probes));
    put("process_endings", json!(all.statuses));
    put("code_blocks_reached", json!(hit));
    put("code_blocks_instrumented", json!(all.cov.len()));
    put("determinism_rechecks", json!(all.rechecked));
    put("determinism_failures", json!(all.nondeterministic.len()));
    put("real_code", json!(prop.real()));
    put("stubs", json!(prop.stub()));
    put("known_findings_hit", json!(known_hits));
    put("found", json!(reported));
    let ev = json!({
        "property": prop.id(),
        "tier": if cfg.tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": Value::Object(cov),
        "assumptions": [
            "sequentially consistent memory: one simulated thread runs at a time",
            "context switches happen at basic-block, load/store and system-call granularity of the RustQuant and scenario code; rayon's own internals switch at their system calls and where they are instantiated in RustQuant code",
            "a seeded sample of schedules and faults, not all of them"
        ],
        "wall_s": wall,
        "violations": reported.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", cfg.root));
    let mut f = std::fs::File::create(format!("{}/evidence/{}.json", cfg.root, prop.id())).expect("evidence file");
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    println!(
        "{} {:?}: {} runs ({} simulated processes, {} distinct non-trivial) in {:.1}s, {} interleavings, {} of {} blocks, faults {}, endings {}, reached {}",
        prop.id(), cfg.tier, all.plans, all.processes, all.nontrivial.len(), wall, all.schedules.len(), hit, all.cov.len(),
        json!(all.fired), json!(all.statuses), json!(all.probes)
    );
    if !reported.is_empty() {
        return 1;
    }
    if lost > 0 {
        eprintln!("harness error: {lost} workers died");
        return 2;
    }
    if !all.nondeterministic.is_empty() {
        eprintln!("harness error: a run did not repeat: {}", all.nondeterministic[0]);
        return 2;
    }
    if all.plans == 0 {
        eprintln!("harness error: nothing was run");
        return 2;
    }
    0
}

fn report(prop: &'static dyn Prop, cfg: &Cfg, i: u64, plan: &Plan, v: &Viol) -> (String, Viol) {
    let outs = execute(prop, plan);
    let mut s = Shrinker {
        prop,
        class: &v.class,
        deadline: host::now_s() + if cfg.tier == Tier::Quick { 25.0 } else { 120.0 },
        tries: 0,
        best: plan.clone(),
        viol: v.clone(),
        outs,
    };
    let again = find(&prop.judge(plan, &s.outs), &v.class);
    if again.is_some() {
        s.shrink_envs();
        s.shrink_case();
        s.shrink_envs();
        s.shrink_trace();
    }
    let outs = execute(prop, &s.best);
    let f1: Vec<Value> = outs.iter().map(fingerprint).collect();
    let f2: Vec<Value> = execute(prop, &s.best).iter().map(fingerprint).collect();
    let doc = json!({
        "property": prop.id(),
        "violation": s.viol,
        "seed": cfg.seed,
        "index": i,
        "plan": s.best,
        "expect": f1,
        "replays_exactly": f1 == f2,
        "reproduced_from_seed": again.is_some(),
        "shrink_attempts": s.tries,
        "original_plan": plan,
        "history": outs.iter().map(|o| json!({"log": o.stats.log, "panics": o.stats.panics, "faults": o.stats.fired})).collect::<Vec<_>>(),
    });
    let _ = std::fs::create_dir_all(format!("{}/out", cfg.root));
    let path = format!("out/{}-{}-{}.json", prop.id(), cfg.seed, i);
    let class = fnv(v.class.as_bytes()) & 0xffff;
    let path = path.replace(".json", &format!("-{class:04x}.json"));
    std::fs::write(format!("{}/{}", cfg.root, path), serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
    (path, s.viol)
}

/// Re-executes a replay file. Exit 1 if the violation is there again, exactly; 0 if it is gone.
pub fn replay(props: &[&'static dyn Prop], file: &str) -> i32 {
    simrt::share_coverage();
    host::pin(0);
    let doc: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("json");
    let plan: Plan = serde_json::from_value(doc["plan"].clone()).expect("plan");
    let class = doc["violation"]["class"].as_str().unwrap_or("");
    let prop = *props.iter().find(|p| p.id() == plan.prop).expect("known property");
    let outs = execute(prop, &plan);
    let f: Vec<Value> = outs.iter().map(fingerprint).collect();
    for (i, o) in outs.iter().enumerate() {
        println!("process {i}: {}", f[i]);
        for l in &o.stats.log {
            println!("   {l}");
        }
        for p in &o.stats.panics {
            println!("   panic: {p}");
        }
        if std::env::var("DST_SHOW").is_ok() {
            println!("   result: {}", o.result);
        }
    }
    let same = json!(f) == doc["expect"];
    println!("execution identical to the recorded one: {same}");
    let v = prop.judge(&plan, &outs);
    for x in &v {
        println!("{} at {}: {}", x.class, x.key, x.detail);
    }
    if v.iter().any(|x| x.class == class) {
        println!("VIOLATION property={} replay={}", prop.id(), file);
        1
    } else {
        println!("the recorded violation ({class}) does not occur");
        0
    }
}

/// Run one seed and show everything (for debugging).
pub fn one(prop: &'static dyn Prop, cfg: &Cfg, i: u64) {
    simrt::share_coverage();
    let plan = prop.gen(&mut seed_rng(cfg.seed, prop.id(), i), i, cfg.tier);
    println!("{}", serde_json::to_string_pretty(&plan).unwrap());
    let outs = execute(prop, &plan);
    for o in &outs {
        println!("{}", serde_json::to_string(o).unwrap());
    }
    for v in prop.judge(&plan, &outs) {
        println!("{v:?}");
    }
}
