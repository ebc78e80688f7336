//! X04: memory accounting.
use crate::hash;
use memory_pool::{GreedyMemoryPool, MemoryConsumer, MemoryPoolRef, MemoryReservation};
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn gen(r: &mut Rng, t: Tier) -> Value {
    let nt = 2 + r.below(4);
    let limit = *r.pick(&[1u64, 10, 50, 100, 1000, 1 << 30]);
    let n = 8 + r.below(if t == Tier::Quick { 60 } else { 200 });
    // growing without asking may go over the limit
    let forced = r.chance(1, 3);
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let t = r.below(nt);
            let c = r.below(3);
            let amount = match r.below(8) {
                0 => limit,
                1 => limit + 1,
                2 => 0,
                3 => u64::MAX - r.below(3),
                _ => r.below(limit.max(2)) / 2 + 1,
            };
            let small = amount.min(limit * 2);
            match r.below(10) {
                0..=4 => json!({"t": t, "c": c, "op": "try", "n": amount}),
                5 => json!({"t": t, "c": c, "op": if forced { "grow" } else { "try" }, "n": small}),
                6 => json!({"t": t, "c": c, "op": "shrink", "pct": r.below(101)}),
                7 => json!({"t": t, "c": c, "op": "free"}),
                8 => json!({"t": t, "c": c, "op": "drop"}),
                _ => json!({"t": t, "c": c, "op": if forced { "resize" } else { "free" }, "n": small}),
            }
        })
        .collect();
    json!({"limit": limit, "forced": forced, "ops": ops})
}
/// What each thread holds for certain, and what it may hold while a call is under way.
#[derive(Default)]
struct Held {
    sure: BTreeMap<u64, u128>,
    maybe: BTreeMap<u64, u128>,
    /// lowest sum of `sure` and highest sum of `maybe` since a call began
    watch: BTreeMap<u64, (u128, u128)>,
    refused: u64,
    granted: u64,
}
impl Held {
    fn note(&mut self) {
        let (a, b) = (self.sure.values().sum(), self.maybe.values().sum());
        for w in self.watch.values_mut() {
            w.0 = w.0.min(a);
            w.1 = w.1.max(b);
        }
    }
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let limit = p["limit"].as_u64().unwrap();
        let forced = p["forced"].as_bool().unwrap();
        let pool: MemoryPoolRef = Arc::new(GreedyMemoryPool::new(limit as usize));
        let held = Arc::new(Mutex::new(Held::default()));
        let mut by: BTreeMap<u64, Vec<Value>> = BTreeMap::new();
        for o in p["ops"].as_array().unwrap() {
            by.entry(o["t"].as_u64().unwrap()).or_default().push(o.clone());
        }
        let hs: Vec<_> = by
            .into_iter()
            .map(|(t, ops)| {
                let (pool, held) = (pool.clone(), held.clone());
                simstd::thread::spawn(move || {
                    let mut rs: BTreeMap<u64, MemoryReservation> = BTreeMap::new();
                    for o in ops {
                        let c = o["c"].as_u64().unwrap();
                        let n = o["n"].as_u64().unwrap_or(0);
                        let mut r = rs.remove(&c).unwrap_or_else(|| MemoryConsumer::new(format!("c{t}.{c}")).register(&pool));
                        let mine = |rs: &BTreeMap<u64, MemoryReservation>| rs.values().map(|r| r.size() as u128).sum::<u128>();
                        let others = mine(&rs);
                        let size = r.size() as u64;
                        let op = o["op"].as_str().unwrap().to_string();
                        let target = match op.as_str() {
                            "try" | "grow" => size as u128 + n as u128,
                            "shrink" => (size - size * o["pct"].as_u64().unwrap() / 100) as u128,
                            "resize" => n as u128,
                            _ => 0,
                        };
                        {
                            let mut h = held.lock().unwrap();
                            h.sure.insert(t, others + (size as u128).min(target));
                            h.maybe.insert(t, others + (size as u128).max(target));
                            h.watch.insert(t, (u128::MAX, 0));
                            h.note();
                        }
                        let mut refused = false;
                        match op.as_str() {
                            "try" => refused = r.try_grow(n as usize).is_err(),
                            "grow" => r.grow(n as usize),
                            "shrink" => r.shrink((size - target as u64) as usize),
                            "resize" => r.resize(n as usize),
                            "free" => {
                                r.free();
                            }
                            _ => {}
                        }
                        let now = if op == "drop" {
                            drop(r);
                            0
                        } else {
                            let s = r.size() as u128;
                            rs.insert(c, r);
                            s
                        };
                        hlog!("{t}.{c} {op} {n} refused={refused} holds {now}");
                        let want = if refused { size as u128 } else { target };
                        if now != want {
                            violation("a reservation holds a wrong size", format!("{op} {n} from {size}, refused: {refused}, now {now}"));
                        }
                        let mut h = held.lock().unwrap();
                        let w = h.watch.remove(&t).unwrap();
                        h.sure.insert(t, others + now);
                        h.maybe.insert(t, others + now);
                        h.note();
                        if op == "try" {
                            // w counts this thread at its old size in the sums of what is sure, and with the request in what may be
                            if refused {
                                h.refused += 1;
                                if w.1 <= limit as u128 {
                                    violation("a reservation that fits was refused", format!("{n} refused though at most {} of {limit} would have been held", w.1));
                                }
                            } else {
                                h.granted += 1;
                                if w.0 + n as u128 > limit as u128 {
                                    violation("a reservation beyond the limit was granted", format!("{n} granted though at least {} of {limit} were held", w.0));
                                }
                            }
                        }
                        drop(h);
                        if !forced && pool.reserved() as u64 > limit {
                            violation("more is reserved than the limit", format!("{} of {limit}", pool.reserved()));
                        }
                    }
                    rs
                })
            })
            .collect();
        let mut all = vec![];
        for h in hs {
            match h.join() {
                Ok(r) => all.push(r),
                Err(_) => match simh::sut_panics().first() {
                    Some(p) => violation("panic", format!("{} at {}", p.0, p.1)),
                    None => simh::harness_error(format!("{:?}", simh::panics())),
                },
            }
        }
        let sum: u128 = all.iter().flat_map(|r| r.values()).map(|r| r.size() as u128).sum();
        if pool.reserved() as u128 != sum {
            violation("the total differs from what the consumers hold", format!("total {}, held {sum}", pool.reserved()));
        }
        drop(all);
        if pool.reserved() != 0 {
            violation("memory is still reserved when all consumers are gone", format!("{}", pool.reserved()));
        }
        let h = held.lock().unwrap();
        let mut rep = Report { nontrivial: h.granted > 0 && h.refused > 0, ..Default::default() };
        rep.count("granted", h.granted);
        rep.count("refused", h.refused);
        rep.state = hash(&[sum as u64, h.granted, h.refused]);
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "X04",
        name: "pool",
        share: 1,
        gen,
        run,
        rule: "2 to 5 threads grow, try to grow, shrink, resize, free and drop reservations of one pool; each decision is compared with what was surely and possibly held while it was made, and the totals are compared at the end. Non-trivial: something was granted and something refused.",
        real: &["common/memory_pool"],
        stub: &["datafusion's MemoryConsumer and MemoryReservation (re-implemented; datafusion cannot be fetched here)", "atomics (simulated: every access may be preempted)"],
        assumptions: &["memory is sequentially consistent"],
    }]
}
