//! C02: path i is fixed by the seed and i; different paths are driven by different noise.
use crate::fw::*;
use crate::procs::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    spec: Spec,
    /// (paths, parallel): the same simulation asked for with other path counts
    asks: Vec<(u64, bool)>,
    /// other seeds
    seeds: Vec<u64>,
}

pub struct C02;

/// Processes whose paths show their noise to full precision.
const CLEAR: &[&str] = &["bm", "abm", "ou", "hw", "vasicek", "holee", "merton", "fbm", "fou", "gbm"];

fn pairs_equal(t: &Traj) -> Option<(usize, usize)> {
    let mut seen: BTreeMap<u64, usize> = BTreeMap::new();
    for (i, p) in t.paths.iter().enumerate() {
        if let Some(j) = seen.insert(hash_f64s(p), i) {
            return Some((j, i));
        }
    }
    None
}

/// Increments that occur more than once, anywhere in the simulation.
fn repeated_noise(s: &Spec, t: &Traj) -> Option<(usize, String)> {
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    // (scheme noise) = what remains of a step of unit diffusion without drift
    let mut all: Vec<(f64, usize, usize)> = vec![];
    for (i, p) in t.paths.iter().enumerate() {
        for k in 1..p.len() {
            all.push(((p[k] - p[k - 1]) / dt.sqrt(), i, k));
        }
    }
    if all.iter().any(|x| !x.0.is_finite()) {
        return None;
    }
    all.sort_by(|a, b| a.0.total_cmp(&b.0));
    let mut n = 0;
    let mut first = String::new();
    let scale = 1.0 + s.x0().abs() / dt.sqrt();
    let eps = 1e-14 * scale * 8.0;
    if eps > 1e-12 {
        return None;
    }
    for w in all.windows(2) {
        if w[1].0 - w[0].0 <= eps {
            n += 1;
            if first.is_empty() {
                first = format!("path {} step {} and path {} step {}: {} and {}", w[0].1, w[0].2, w[1].1, w[1].2, w[0].0, w[1].0);
            }
        }
    }
    // coincidences by chance: about n^2 * eps * 0.3, far below 1
    if n >= 3 {
        Some((n, first))
    } else {
        None
    }
}

impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "a random process and seed simulated with 2-4 path counts (up to tens of thousands), sequentially and in parallel, and with other seeds (adjacent, differing in one bit, wrapping); shared paths must be bit-identical and all paths, and for a unit-diffusion model all increments, distinct; non-trivial: at least two paths and a context switch; distinct by case and interleaving"
    }
    fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan {
        let mut spec = gen_spec(r, CLEAR, 200, 20);
        if r.chance(0.35) {
            spec.kind = "bm".into();
            spec.x0 = 1;
            spec.slope = 0;
        }
        // enough noise for two paths never to agree by rounding
        spec.p[1] = spec.p[1].max(100);
        spec.p[2] = spec.p[2].max(100);
        spec.len = spec.len.max(50);
        spec.x0 = spec.x0.min(5_000);
        if matches!(spec.kind.as_str(), "ou" | "hw" | "vasicek") && spec.len > 3_000 {
            spec.len = 3_000;
        }
        let frac = FRACTIONAL.contains(&spec.kind.as_str());
        if frac {
            spec.steps = spec.steps.clamp(2, 16);
            spec.paths = spec.paths.min(40);
        } else if index % 40 == 3 {
            spec.paths = r.log_range(1_000, if tier == Tier::Thorough { 140_000 } else { 9_000 });
            spec.steps = r.log_range(1, 3);
        } else if index % 400 == 11 {
            spec.paths = 66_000 + r.below(3_000);
            spec.steps = 1;
        }
        let m = spec.paths;
        let asks = (0..r.range(1, 3))
            .map(|_| {
                let k = match r.below(6) {
                    0 => 1,
                    1 => m + 1,
                    2 => (m / 2).max(1),
                    3 => m,
                    4 => m * 2 + r.below(4),
                    _ => r.log_range(1, m.max(2)),
                };
                (k, r.chance(0.6))
            })
            .collect();
        let seeds = (0..r.range(1, 4))
            .map(|_| match r.below(5) {
                0 => spec.seed.wrapping_add(1),
                1 => spec.seed ^ (1u64 << r.below(64)),
                2 => spec.seed.wrapping_add((r.below(9) + 1) << 32),
                3 => !spec.seed,
                _ => gen_seed(r),
            })
            .filter(|s| *s != spec.seed)
            .collect();
        let c = Case { spec, asks, seeds };
        let e = gen_env(r, &EnvOpts::ALL);
        Plan { prop: self.id().into(), case: serde_json::to_value(c).unwrap(), envs: vec![e] }
    }
    fn valid(&self, p: &Plan) -> bool {
        let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
        c.spec.valid()
            && p.envs.len() == 1
            && c.spec.p[1] >= 100
            && c.spec.p[2] >= 100
            && c.spec.len >= 50
            && c.spec.x0 <= 5_000
            && (!matches!(c.spec.kind.as_str(), "ou" | "hw" | "vasicek") || c.spec.len <= 3_000)
            && c.asks.iter().all(|a| a.0 > 0)
            && c.seeds.iter().all(|s| *s != c.spec.seed)
            && (!FRACTIONAL.contains(&c.spec.kind.as_str()) || c.spec.steps >= 2)
    }
    fn run(&self, case: &Value, _k: usize) -> Value {
        let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
        let mut v: Vec<(String, String, String)> = vec![];
        let key = c.spec.kind.clone();
        let full = c.spec.seeded(true);
        sim::log(format!("{} paths", full.paths.len()));
        if full.paths.len() as u64 != c.spec.paths {
            v.push(("wrong-path-count".into(), key.clone(), format!("asked {} got {}", c.spec.paths, full.paths.len())));
        }
        for (m, par) in &c.asks {
            let s = Spec { paths: *m, ..c.spec.clone() };
            let t = s.seeded(*par);
            sim::quiet(|| {
                if t.paths.len() as u64 != *m {
                    v.push(("wrong-path-count".into(), key.clone(), format!("asked {} got {}", m, t.paths.len())));
                }
                let bad = full
                    .paths
                    .iter()
                    .zip(&t.paths)
                    .position(|(a, b)| hash_f64s(a) != hash_f64s(b));
                if let Some(i) = bad {
                    v.push((
                        "path-depends-on-path-count".into(),
                        key.clone(),
                        format!("path {i} of {} differs from path {i} of {} (parallel={par})", full.paths.len(), t.paths.len()),
                    ));
                }
            });
        }
        sim::quiet(|| {
            if let Some((i, j)) = pairs_equal(&full) {
                v.push(("two-paths-equal".into(), key.clone(), format!("paths {i} and {j} of seed {} are identical", c.spec.seed)));
            }
        });
        if c.spec.paths > 1 && c.spec.paths * c.spec.steps <= 70_000 {
            // the driving noise itself
            let probe = match key.as_str() {
                "fbm" | "fou" => None,
                "merton" => None,
                _ => Some(Spec { kind: "bm".into(), x0: 1, slope: 0, ..c.spec.clone() }),
            };
            if let Some(s) = probe {
                let t = s.seeded(c.asks.first().map_or(true, |a| a.1));
                sim::quiet(|| {
                    if let Some((n, first)) = repeated_noise(&s, &t) {
                        v.push(("noise-repeats".into(), "bm".into(), format!("{n} repeated increments, e.g. {first}")));
                    }
                });
            }
        }
        if key == "merton" {
            // jump times must differ between paths: without diffusion noise a path is its jumps
            let s = Spec { steps: c.spec.steps.max(40), paths: c.spec.paths.clamp(2, 12), ..c.spec.clone() };
            let t = jumps_only(&s);
            sim::quiet(|| {
                let pat: Vec<Vec<bool>> = t
                    .paths
                    .iter()
                    .map(|p| p.windows(2).map(|w| (w[1] - w[0]).abs() > 1e-9).collect())
                    .collect();
                let busy = |p: &Vec<bool>| p.iter().filter(|b| **b).count() >= 8 && p.iter().filter(|b| !**b).count() >= 8;
                for i in 0..pat.len() {
                    for j in 0..i {
                        if busy(&pat[i]) && pat[i] == pat[j] {
                            v.push(("jump-times-shared".into(), key.clone(), format!("paths {j} and {i} jump at the same steps")));
                            return;
                        }
                        for k in 1..t.paths[i].len() {
                            let (a, b) = (t.paths[i][k] - t.paths[i][k - 1], t.paths[j][k] - t.paths[j][k - 1]);
                            if a.abs() > 1e-9 && (a - b).abs() < 1e-13 {
                                v.push(("jump-sizes-shared".into(), key.clone(), format!("paths {j} and {i} have the same jump {a} at step {k}")));
                                return;
                            }
                        }
                    }
                }
            });
            sim::probe("merton-jumps");
        }
        for seed in &c.seeds {
            let mut s = c.spec.clone();
            s.seed = *seed;
            s.paths = s.paths.min(50);
            let t = s.seeded(false);
            sim::quiet(|| {
                for i in 0..t.paths.len().min(full.paths.len()) {
                    if hash_f64s(&t.paths[i]) == hash_f64s(&full.paths[i]) {
                        v.push((
                            "seeds-share-paths".into(),
                            key.clone(),
                            format!("path {i} of seed {} equals path {i} of seed {seed}", c.spec.seed),
                        ));
                        return;
                    }
                }
            });
        }
        json!({ "viol": v })
    }
    fn judge(&self, p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
        let key = p.case["spec"]["kind"].as_str().unwrap_or("").to_string();
        let mut v = vec![];
        for o in outs {
            v.extend(bad_status(o, &key));
            v.extend(inner_viols(o));
        }
        v
    }
    fn nontrivial(&self, p: &Plan, outs: &[Outcome]) -> bool {
        p.case["spec"]["paths"].as_u64().unwrap_or(0) > 1 && outs[0].stats.switches > 2
    }
    fn runs(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 5000,
            Tier::Thorough => 100_000,
        }
    }
    fn real(&self) -> &'static [&'static str] {
        &["RustQuant_stochastics", "rayon", "rand"]
    }
    fn stub(&self) -> &'static [&'static str] {
        &["OS scheduler, clock and entropy source (simulator)"]
    }
}

fn jumps_only(s: &Spec) -> Traj {
    use RustQuant_stochastics::*;
    let dt = (s.tn() - s.t0()) / s.steps as f64;
    // about 0.3 jumps a step
    MertonJumpDiffusion::new(0.0, 0.0, 0.35 / dt, 0.5, 0.04).generate(&s.config(true, Some(s.seed))).into()
}
