//! C08 and C09: the limit order book behind a simulated exchange.
//!
//! Clients send orders over a simulated network (delay, loss, duplication, reordering,
//! partitions) to one exchange process, which applies them to the real book in order of arrival
//! and journals what the book accepted. The exchange crashes and restarts from the durable part
//! of its journal. In the threaded mode the clients are simulated threads that share the book
//! behind a mutex. Every answer is compared with a small reference book.
use crate::fw::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simrt::{sim, Outcome, Rng};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use RustQuant_trading::limit_order_book::Book;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Add { id: u64, buy: bool, shares: u64, price: u64, stamp: u64 },
    Cancel { id: u64 },
    Market { shares: u64, buy: bool },
}

/// One request and what the network does with it: it arrives `delays.len()` times.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Msg {
    client: u64,
    at: u64,
    delays: Vec<u64>,
    op: Op,
}

/// Requests of a client that would arrive in `[from, to)` arrive at `to` instead, in a burst.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Partition {
    client: u64,
    from: u64,
    to: u64,
}

/// The exchange stops at this time; the last `lost` journal records were not yet durable.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Crash {
    at: u64,
    lost: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
struct Case {
    msgs: Vec<Msg>,
    partitions: Vec<Partition>,
    crashes: Vec<Crash>,
    /// 0: one exchange process; otherwise this many client threads
    threads: u64,
    /// inspect the book after every this many applied requests
    audit: u64,
    /// share size of the orders that inspect it
    sip: u64,
}

// ------------------------------------------------------------------ reference book

#[derive(Clone, Default)]
struct Model {
    /// (id, buy, price, shares) in order of arrival
    rest: Vec<(u64, bool, u64, u64)>,
    /// per (buy, price): accepted, filled, cancelled
    flow: BTreeMap<(bool, u64), (u128, u128, u128)>,
}

#[derive(Clone, Debug, PartialEq)]
enum Ans {
    Done,
    Refused,
    Fills(bool, Vec<(u64, u64)>),
    Panicked,
}

impl Model {
    fn apply(&mut self, o: &Op) -> Ans {
        match o {
            Op::Add { id, buy, shares, price, .. } => {
                if self.rest.iter().any(|r| r.0 == *id) {
                    return Ans::Refused;
                }
                self.rest.push((*id, *buy, *price, *shares));
                self.flow.entry((*buy, *price)).or_default().0 += *shares as u128;
                Ans::Done
            }
            Op::Cancel { id } => match self.rest.iter().position(|r| r.0 == *id) {
                Some(i) => {
                    let r = self.rest.remove(i);
                    self.flow.entry((r.1, r.2)).or_default().2 += r.3 as u128;
                    Ans::Done
                }
                None => Ans::Refused,
            },
            Op::Market { shares, buy } => {
                let mut left = *shares;
                let mut fills: Vec<(u64, u64)> = vec![];
                while left > 0 {
                    let side = self.rest.iter().filter(|r| r.1 != *buy).map(|r| r.2);
                    let Some(best) = (if *buy { side.min() } else { side.max() }) else {
                        return Ans::Fills(false, fills);
                    };
                    let mut taken = 0;
                    while left > 0 {
                        let Some(i) = self.rest.iter().position(|r| r.1 != *buy && r.2 == best) else { break };
                        let n = left.min(self.rest[i].3);
                        self.rest[i].3 -= n;
                        left -= n;
                        taken += n;
                        if self.rest[i].3 == 0 {
                            self.rest.remove(i);
                        }
                    }
                    self.flow.entry((!*buy, best)).or_default().1 += taken as u128;
                    fills.push((best, taken));
                }
                Ans::Fills(true, fills)
            }
        }
    }
    fn side(&self, buy: bool) -> u128 {
        self.rest.iter().filter(|r| r.1 == buy).map(|r| r.3 as u128).sum()
    }
}

fn real(b: &mut Book, o: &Op) -> Ans {
    let r = catch_unwind(AssertUnwindSafe(|| match o {
        Op::Add { id, buy, shares, price, stamp } => match b.add_order(*id, *buy, *shares, *price, *stamp) {
            Ok(()) => Ans::Done,
            Err(_) => Ans::Refused,
        },
        Op::Cancel { id } => match b.cancel_order(*id) {
            Ok(()) => Ans::Done,
            Err(_) => Ans::Refused,
        },
        Op::Market { shares, buy } => {
            let (all, fills) = b.execute_market_order(*shares, *buy);
            Ans::Fills(all, fills)
        }
    }));
    r.unwrap_or(Ans::Panicked)
}

fn rebuilt(journal: &[Op]) -> Book {
    let mut b = Book::new();
    for o in journal {
        real(&mut b, o);
    }
    b
}

// ------------------------------------------------------------------ judging answers

type V = Vec<(String, String, String)>;

/// Which property a wrong answer breaks (often both).
fn compare(o: &Op, got: &Ans, want: &Ans, opposite: u128, whence: &str, v: &mut V) {
    if got == want {
        return;
    }
    let d = format!("{whence}: {o:?} answered {got:?}, the reference book answers {want:?}");
    match (o, got, want) {
        (_, Ans::Panicked, _) => {
            v.push(("C08".into(), "book-panics".into(), d.clone()));
            v.push(("C09".into(), "book-panics".into(), d));
        }
        (Op::Market { shares, .. }, Ans::Fills(ok, fills), Ans::Fills(wok, wfills)) => {
            let total: u128 = fills.iter().map(|f| f.1 as u128).sum();
            if total != (*shares as u128).min(opposite) {
                v.push(("C09".into(), "fills-do-not-add-up".into(), d.clone()));
            }
            if ok != wok {
                v.push(("C08".into(), "success-wrong".into(), d.clone()));
            }
            if fills != wfills {
                let mut a = fills.clone();
                let mut b = wfills.clone();
                a.sort_unstable();
                b.sort_unstable();
                let class = if a == b { "fills-out-of-order" } else { "fills-at-wrong-prices" };
                v.push(("C08".into(), class.into(), d));
            }
        }
        (Op::Cancel { .. }, Ans::Done, _) => v.push(("C09".into(), "cancelled-without-resting".into(), d)),
        (Op::Cancel { .. }, _, _) => v.push(("C09".into(), "resting-order-not-cancellable".into(), d)),
        (Op::Add { .. }, Ans::Done, _) => v.push(("C09".into(), "duplicate-id-accepted".into(), d)),
        (Op::Add { .. }, _, _) => v.push(("C09".into(), "free-id-refused".into(), d)),
        _ => v.push(("C08".into(), "answer-of-wrong-kind".into(), d)),
    }
}

/// Empty one side in sips of `n` shares, comparing every answer.
fn drain(b: &mut Book, m: &mut Model, n: u64, whence: &str, v: &mut V) {
    for buy in [true, false] {
        let mut k = 0u64;
        loop {
            let opposite = m.side(!buy);
            // after a few sips one gulp
            let shares = if k > 60 { u64::MAX } else { n.max(1) };
            let o = Op::Market { shares, buy };
            let got = real(b, &o);
            let want = m.apply(&o);
            let before = v.len();
            compare(&o, &got, &want, opposite, whence, v);
            if v.len() > before || opposite <= shares as u128 && !matches!(want, Ans::Fills(true, _)) {
                break;
            }
            k += 1;
            if k > 80 {
                break;
            }
        }
    }
}

/// Look inside by acting on books rebuilt from the journal.
fn audit(journal: &[Op], m: &Model, sip: u64, used: &[u64], whence: &str, v: &mut V) {
    // which identifiers rest, and that nothing else does
    let mut b = rebuilt(journal);
    let mut mm = m.clone();
    for id in used {
        let o = Op::Cancel { id: *id };
        let got = real(&mut b, &o);
        let want = mm.apply(&o);
        compare(&o, &got, &want, 0, whence, v);
    }
    drain(&mut b, &mut mm, 1, whence, v);
    if !v.is_empty() {
        return;
    }
    // identifiers that rest are refused, whatever the new order looks like, and refusal changes nothing
    let mut b = rebuilt(journal);
    let mut mm = m.clone();
    for r in &m.rest {
        let o = Op::Add { id: r.0, buy: !r.1, shares: 7, price: r.2 / 2 + 1, stamp: 0 };
        let got = real(&mut b, &o);
        let want = mm.apply(&o);
        compare(&o, &got, &want, 0, whence, v);
    }
    let o = Op::Cancel { id: u64::MAX - 12345 };
    let got = real(&mut b, &o);
    let want = mm.apply(&o);
    compare(&o, &got, &want, 0, whence, v);
    drain(&mut b, &mut mm, sip, whence, v);
    if !v.is_empty() {
        return;
    }
    // conservation per price, from the answers alone
    for ((buy, price), (acc, fill, canc)) in &m.flow {
        let resting: u128 = m.rest.iter().filter(|r| r.1 == *buy && r.2 == *price).map(|r| r.3 as u128).sum();
        if *acc != fill + canc + resting {
            v.push(("C09".into(), "harness".into(), format!("reference book does not conserve at {price}")));
        }
    }
}

fn accepted(o: &Op, a: &Ans) -> bool {
    match (o, a) {
        (_, Ans::Done) => true,
        (Op::Market { .. }, Ans::Fills(..)) => true,
        _ => false,
    }
}

fn exchange(c: &Case) -> (V, Value) {
    // the network decides the order of arrival
    let mut arrivals: Vec<(u64, usize)> = vec![];
    for (i, m) in c.msgs.iter().enumerate() {
        for d in &m.delays {
            let mut t = m.at + d;
            for p in &c.partitions {
                if p.client == m.client && (p.from..p.to).contains(&t) {
                    t = p.to;
                    sim::note_fault("partition-held");
                }
            }
            arrivals.push((t, i));
        }
        match m.delays.len() {
            0 => sim::note_fault("request-lost"),
            1 => {}
            _ => sim::note_fault("request-duplicated"),
        }
    }
    arrivals.sort();
    if arrivals.windows(2).any(|w| w[0].1 > w[1].1) {
        sim::note_fault("requests-reordered");
    }
    let mut v: V = vec![];
    let mut book = Book::new();
    let mut model = Model::default();
    let mut journal: Vec<Op> = vec![];
    let mut crashes = c.crashes.clone();
    crashes.sort_by_key(|c| c.at);
    let mut next = 0;
    let (mut partial, mut swept, mut refused) = (0u64, 0u64, 0u64);
    let mut used: Vec<u64> = c.msgs.iter().filter_map(|m| match m.op {
        Op::Add { id, .. } | Op::Cancel { id } => Some(id),
        _ => None,
    }).collect();
    used.sort_unstable();
    used.dedup();
    for (n, (t, i)) in arrivals.iter().enumerate() {
        while next < crashes.len() && crashes[next].at <= *t {
            let keep = journal.len().saturating_sub(crashes[next].lost as usize);
            if keep < journal.len() {
                sim::note_fault("journal-tail-lost");
            }
            sim::note_fault("exchange-crash");
            journal.truncate(keep);
            drop(std::mem::take(&mut book));
            book = rebuilt(&journal);
            model = Model::default();
            for o in &journal {
                model.apply(o);
            }
            sim::log(format!("t={t} restart from {keep} records"));
            next += 1;
        }
        let op = &c.msgs[*i].op;
        let opposite = match op {
            Op::Market { buy, .. } => model.side(!*buy),
            _ => 0,
        };
        let got = real(&mut book, op);
        let want = model.apply(op);
        sim::log(format!("t={t} {op:?} -> {got:?}"));
        compare(op, &got, &want, opposite, &format!("request {n}"), &mut v);
        if !v.is_empty() {
            return (v, json!({}));
        }
        match &want {
            Ans::Refused => refused += 1,
            Ans::Fills(ok, f) => {
                swept += (f.len() > 1) as u64;
                partial += !ok as u64;
            }
            _ => {}
        }
        if accepted(op, &got) {
            journal.push(op.clone());
        }
        if c.audit > 0 && (n as u64 + 1) % c.audit == 0 {
            audit(&journal, &model, c.sip, &used, &format!("book rebuilt after request {n}"), &mut v);
            if !v.is_empty() {
                return (v, json!({}));
            }
        }
    }
    audit(&journal, &model, c.sip, &used, "book rebuilt at the end", &mut v);
    if v.is_empty() {
        // the book that lived through it all, last
        let mut m = model.clone();
        drain(&mut book, &mut m, c.sip, "book at the end", &mut v);
        for id in &used {
            let o = Op::Cancel { id: *id };
            let got = real(&mut book, &o);
            let want = m.apply(&o);
            compare(&o, &got, &want, 0, "book at the end", &mut v);
        }
    }
    (v, json!({"applied": arrivals.len(), "swept": swept, "partial": partial, "refused": refused}))
}

fn threaded(c: &Case) -> (V, Value) {
    let shared: Mutex<(Book, Vec<(usize, Ans)>)> = Mutex::new((Book::new(), vec![]));
    let n = c.threads.clamp(1, 8);
    std::thread::scope(|s| {
        for t in 0..n {
            let shared = &shared;
            let b = std::thread::Builder::new();
            let _ = b.spawn_scoped(s, move || {
                for (i, m) in c.msgs.iter().enumerate() {
                    if m.client % n == t {
                        let mut g = shared.lock().unwrap_or_else(|e| e.into_inner());
                        let a = real(&mut g.0, &m.op);
                        g.1.push((i, a));
                    }
                }
            });
        }
    });
    let (mut book, log) = shared.into_inner().unwrap_or_else(|e| e.into_inner());
    let mut v: V = vec![];
    let mut model = Model::default();
    let mut journal = vec![];
    let mut used: Vec<u64> = vec![];
    for (n, (i, got)) in log.iter().enumerate() {
        let op = &c.msgs[*i].op;
        if let Op::Add { id, .. } = op {
            used.push(*id);
        }
        let opposite = match op {
            Op::Market { buy, .. } => model.side(!*buy),
            _ => 0,
        };
        let want = model.apply(op);
        compare(op, got, &want, opposite, &format!("request {n}, by thread {}", c.msgs[*i].client), &mut v);
        if !v.is_empty() {
            return (v, json!({}));
        }
        if accepted(op, got) {
            journal.push(op.clone());
        }
    }
    audit(&journal, &model, c.sip, &used, "book rebuilt at the end", &mut v);
    if v.is_empty() {
        drain(&mut book, &mut model, c.sip, "book at the end", &mut v);
    }
    (v, json!({"applied": log.len(), "threads": n}))
}

// ------------------------------------------------------------------ plans

fn gen_case(r: &mut Rng, index: u64, tier: Tier, c09: bool) -> Case {
    let n = match r.below(6) {
        0 => r.range_u(2, 12),
        1..=3 => r.log_range(10, 120),
        _ => r.log_range(50, if tier == Tier::Thorough { 900 } else { 350 }),
    };
    let clients = r.range_u(1, 6);
    let levels = r.log_range(1, 12);
    let base: u64 = match r.below(8) {
        0 => 0,
        1 => u64::MAX - levels * 3,
        _ => r.log_range(1, 1_000_000),
    };
    let step = r.range_u(1, 3);
    let huge = r.chance(0.08);
    let max_shares = if huge { u64::MAX / 2 } else { *r.pick(&[1, 2, 5, 100, 100, 1000]) };
    // crossing books (limit orders never match each other here) or a proper spread
    let spread = r.chance(0.6);
    let ids = if c09 { r.log_range(1, 30) } else { r.log_range(2, 500) };
    let reuse = if c09 { 0.6 } else { 0.2 };
    let mut fresh = 0u64;
    let mut msgs = vec![];
    let mut live: Vec<u64> = vec![];
    let (wa, wc) = match r.below(4) {
        0 => (0.45, 0.25),
        1 => (0.6, 0.1),
        2 => (0.5, 0.4),
        _ => (0.7, 0.15),
    };
    let gap = r.log_range(1, 50);
    let lag = r.log_range(1, 400);
    let (p_loss, p_dup) = (*r.pick(&[0.0, 0.02, 0.1]), *r.pick(&[0.0, 0.05, 0.3]));
    let mut t = 0;
    for _ in 0..n {
        t += r.below(gap);
        let x = r.f();
        let op = if x < wa || live.is_empty() {
            let id = if r.chance(reuse) {
                r.below(ids)
            } else {
                fresh += 1;
                1_000 + fresh
            };
            live.push(id);
            let buy = r.chance(0.5);
            let l = r.below(levels) * step;
            let price = if spread && !buy { base.saturating_add(levels + l) } else { base.saturating_add(l) };
            let shares = if max_shares == 1 { 1 } else { r.log_range(1, max_shares) };
            Op::Add { id, buy, shares, price, stamp: r.below(1_000_000) }
        } else if x < wa + wc {
            let id = if r.chance(0.85) { *r.pick(&live) } else { r.below(ids) };
            Op::Cancel { id }
        } else {
            let shares = match r.below(12) {
                0 => 0,
                1 => u64::MAX,
                2 => max_shares,
                3 => 1,
                _ => r.log_range(1, max_shares.saturating_mul(4)),
            };
            Op::Market { shares, buy: r.chance(0.5) }
        };
        let delays = if r.chance(p_loss) {
            vec![]
        } else if r.chance(p_dup) {
            (0..r.range_u(2, 3)).map(|_| r.below(lag * 4)).collect()
        } else {
            vec![r.below(lag)]
        };
        msgs.push(Msg { client: r.below(clients), at: t, delays, op });
    }
    let span = t + lag + 1;
    let partitions = if r.chance(0.3) {
        (0..r.range_u(1, 3))
            .map(|_| {
                let from = r.below(span);
                Partition { client: r.below(clients), from, to: from + 1 + r.below(span) }
            })
            .collect()
    } else {
        vec![]
    };
    let crashes = if r.chance(0.4) {
        (0..r.range_u(1, 4))
            .map(|_| Crash { at: r.below(span), lost: if r.chance(0.5) { 0 } else { r.log_range(1, 12) } })
            .collect()
    } else {
        vec![]
    };
    Case {
        msgs,
        partitions,
        crashes,
        threads: if index % 4 == 3 { r.range_u(2, 6) } else { 0 },
        audit: match r.below(4) {
            0 => 1 + n / 20,
            1 => 1 + n / 5,
            _ => 0,
        },
        sip: *r.pick(&[1, 1, 2, 3, 7, 50, u64::MAX]),
    }
}

fn gen_plan(id: &str, r: &mut Rng, index: u64, tier: Tier) -> Plan {
    let c = gen_case(r, index, tier, id == "C09");
    let o = EnvOpts { threads: c.threads > 0, entropy_soft: true, clock: true, spurious: true, stall: true, spawn_fail: false };
    let envs = vec![gen_env(r, &o)];
    Plan { prop: id.into(), case: serde_json::to_value(c).unwrap(), envs }
}

fn run_case(case: &Value) -> Value {
    let c: Case = sim::quiet(|| serde_json::from_value(case.clone()).unwrap());
    let (v, stats) = if c.threads > 0 { threaded(&c) } else { exchange(&c) };
    json!({ "viol": v, "stats": stats })
}

fn judge_case(id: &str, outs: &[Outcome]) -> Vec<Viol> {
    let mut v = vec![];
    for o in outs {
        if let Some(b) = bad_status(o, "order-book") {
            v.push(b);
            continue;
        }
        for x in o.result["viol"].as_array().unwrap() {
            if x[0] == id {
                v.push(viol(x[1].as_str().unwrap(), "order-book", x[2].as_str().unwrap()));
            }
        }
    }
    v
}

fn valid_case(p: &Plan) -> bool {
    let Ok(c) = serde_json::from_value::<Case>(p.case.clone()) else { return false };
    c.threads <= 8
        && p.envs.len() == 1
        && c.sip > 0
        && c.msgs.iter().all(|m| {
            m.at < 1 << 40
                && m.delays.iter().all(|d| *d < 1 << 40)
                && match m.op {
                    // an order for nothing has no shares that could rest
                    Op::Add { shares, .. } => shares > 0,
                    _ => true,
                }
        })
}

fn busy(outs: &[Outcome]) -> bool {
    outs.iter().any(|o| o.result["stats"]["applied"].as_u64().unwrap_or(0) > 1)
}

macro_rules! lob {
    ($t:ident, $id:literal, $rule:literal, $quick:literal) => {
        pub struct $t;
        impl Prop for $t {
            fn id(&self) -> &'static str {
                $id
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn gen(&self, r: &mut Rng, index: u64, tier: Tier) -> Plan {
                gen_plan($id, r, index, tier)
            }
            fn valid(&self, p: &Plan) -> bool {
                valid_case(p)
            }
            fn run(&self, case: &Value, _k: usize) -> Value {
                run_case(case)
            }
            fn judge(&self, _p: &Plan, outs: &[Outcome]) -> Vec<Viol> {
                judge_case($id, outs)
            }
            fn nontrivial(&self, _p: &Plan, outs: &[Outcome]) -> bool {
                busy(outs)
            }
            fn runs(&self, t: Tier) -> u64 {
                match t {
                    Tier::Quick => $quick,
                    Tier::Thorough => 2_000_000,
                }
            }
            fn real(&self) -> &'static [&'static str] {
                &["RustQuant_trading::limit_order_book"]
            }
            fn stub(&self) -> &'static [&'static str] {
                &["clients, network, exchange process and its journal (simulated)", "OS scheduler, clock, entropy source (simulator)"]
            }
        }
    };
}

lob!(C08, "C08", "2-350 requests (900 thorough) of 1-6 clients sent over a lossy, duplicating, reordering, partitioned network to an exchange that crashes and restarts from its journal, or issued by 2-6 threads sharing the book; every market order's fills and success against a reference book, and books rebuilt from the journal sipped empty; non-trivial: at least two requests were applied; distinct by case and interleaving", 40_000);
lob!(C09, "C09", "as C08 with identifiers drawn from a small pool (collisions, re-use after fill and after cancel); every acceptance, refusal and filled amount against a reference book, and books rebuilt from the journal cancelled and sipped empty; non-trivial: at least two requests were applied; distinct by case and interleaving", 40_000);
