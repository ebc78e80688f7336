//! M01: several metadata stores apply the same commands.
use crate::gen;
use crate::world::*;
use meta::store::command::WriteCommand;
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU8, Ordering::Relaxed};
use std::sync::Arc;

/// What of this run is known to be read outside the state.
static ODD: AtomicU8 = AtomicU8::new(0);

fn plan(r: &mut Rng, t: Tier) -> Value {
    let mut n = gen::Names::new();
    let machines = 2 + r.below(2);
    // limits and expiry read the clock, allocation asks the data nodes: apart
    let odd = r.below(8);
    let skew: Vec<i64> = (0..machines).map(|_| if r.chance(1, 2) { 0 } else { (r.below(20_000) as i64 - 10_000) * 1_000_000 }).collect();
    let mut ops: Vec<Value> = gen::base(r, &mut n).into_iter().map(|c| json!({"k": "c", "c": c})).collect();
    let count = 10 + r.below(if t == Tier::Quick { 60 } else { 160 });
    for _ in 0..count {
        ops.push(match r.below(24) {
            0 => json!({"k": "kill", "m": r.below(machines)}),
            1 => json!({"k": "keep", "m": r.below(machines)}),
            2 => json!({"k": "snap", "m": r.below(machines)}),
            3 if odd == 0 => json!({"k": "down", "n": 1 + r.below(3)}),
            4 if odd == 0 => json!({"k": "up", "n": 1 + r.below(3)}),
            5 if odd == 1 => {
                let t = gen::tenant(r);
                json!({"k": "c", "c": {"LimiterRequest": {"cluster": CLUSTER, "tenant": t, "request": {"kind": "CoordWrites", "expected": {"min": 1, "max": 1 + r.below(5)}}}}})
            }
            6 if odd == 2 => json!({"k": "edge", "ms": r.below(8000) as i64 - 4000}),
            _ => json!({"k": "c", "c": gen::command(r, &mut n)}),
        });
    }
    let mut p = json!({"sched": simh::sched(r), "machines": machines, "skew": skew, "ops": ops});
    if odd != 1 {
        strip_limits(&mut p["ops"]);
    }
    p
}
/// A limiter keeps the time it was made at.
pub fn strip_limits(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(strip_limits),
        Value::Object(m) => {
            for (k, v) in m.iter_mut() {
                if k == "limiter_config" {
                    *v = Value::Null;
                } else {
                    strip_limits(v);
                }
            }
        }
        _ => {}
    }
}
/// An answer without the order of what is a set.
fn bag(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(bag).collect();
            a.sort_by_key(|x| x.to_string());
            Value::Array(a)
        }
        Value::Object(m) => m.iter().map(|(k, v)| (k.clone(), bag(v))).collect(),
        v => v.clone(),
    }
}
fn differ(a: &BTreeMap<String, Value>, b: &BTreeMap<String, Value>) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) {
            let s = |x: Option<&Value>| x.map(short).unwrap_or("nothing".into());
            return Some(format!("{k}: {} and {}", s(a.get(k)), s(b.get(k))));
        }
    }
    None
}
fn kind(c: &Value) -> String {
    c.as_object().and_then(|m| m.keys().next().cloned()).unwrap_or_default()
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        (1..=4).for_each(data_up);
        let skew: Vec<i64> = p["skew"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
        let ms: Vec<Arc<Machine>> = skew.iter().enumerate().map(|(i, s)| Machine::skewed(i as u32, *s)).collect();
        let mut log: Vec<(Value, Value)> = vec![];
        let mut kept: Vec<Option<(u64, Vec<u8>)>> = vec![None; ms.len()];
        let check = |m: &Arc<Machine>, i: usize, base: &BTreeMap<String, Value>, last: &str| {
            if let Some(d) = differ(base, &m.dump()) {
                violation(&class("state", last, &d), format!("stores 0 and {i} after {last}: {d}"));
            }
        };
        let mut down = vec![];
        ODD.store(0, Relaxed);
        for o in p["ops"].as_array().unwrap() {
            let m = o["m"].as_u64().unwrap_or(0) as usize % ms.len();
            match o["k"].as_str().unwrap() {
                "c" | "edge" => {
                    let c = if o["k"] == "c" {
                        o["c"].clone()
                    } else {
                        let at = simrt::wall_ns(ms[0].node()) / 1_000_000 - 3650 * 86_400_000 + o["ms"].as_i64().unwrap();
                        json!({"CreateBucket": [CLUSTER, "t1", "d9", at]})
                    };
                    if o["k"] == "edge" {
                        ODD.store(2, Relaxed);
                        let d = cmd(&WriteCommand::CreateDB(CLUSTER.into(), "t1".into(), db_schema("t1", "d9", 1, 1, "1h", "3650d", "ms")));
                        step(&ms, &d, &mut log);
                    }
                    step(&ms, &c, &mut log);
                    simrt::observe(log.len() as u64);
                    let base = ms[0].dump();
                    for (i, m) in ms.iter().enumerate().skip(1) {
                        check(m, i, &base, &kind(&c));
                    }
                }
                "kill" => {
                    let before = ms[m].dump();
                    ms[m].kill();
                    ms[m].open();
                    if let Some(d) = differ(&before, &ms[m].dump()) {
                        violation("a restart changed the state", format!("store {m}: {d}"));
                    }
                }
                "keep" => {
                    let at = log.len() as u64;
                    kept[m] = ms[m].snapshot(at).map(|b| (at, b));
                    if at % 2 == 0 {
                        kept[m] = ms[m].last_snapshot().map(|(b, i)| (i, b));
                        if kept[m].is_none() {
                            violation("a snapshot that was made is not there", format!("store {m}, at {at}"));
                        }
                    }
                    hlog!("snapshot of {m} at {at}");
                }
                // the next one goes back to the snapshot and applies the rest again
                "snap" => {
                    let (Some((at, b)), to) = (kept[m].clone(), (m + 1) % ms.len()) else { continue };
                    hlog!("store {to} restores the snapshot of {m} at {at}");
                    if ms[to].restore(b) != Some(true) {
                        violation("a snapshot is refused", String::new());
                    }
                    for (i, (c, a)) in log.iter().enumerate().skip(at as usize) {
                        let got = ms[to].apply(c, i as u64).unwrap();
                        if bag(&got) != bag(a) {
                            violation(&class("answer", &kind(c), &short(&got)), format!("replayed {}: {} instead of {}", short(c), short(&got), short(a)));
                        }
                    }
                    let base = ms[(to + 1) % ms.len()].dump();
                    check(&ms[to], to, &base, "a snapshot and the rest");
                }
                "down" => {
                    let n = o["n"].as_u64().unwrap();
                    if !down.contains(&n) {
                        ODD.store(1, Relaxed);
                        simrt::note("fault:data node unreachable");
                        // while one store is ahead of the others
                        let c = json!({"CreateBucket": [CLUSTER, "t1", "d1", 1_700_000_000_000_000_000i64 + 40 * 86_400_000_000_000 * (log.len() as i64 % 9)]});
                        let at = log.len() as u64 + 1;
                        data_up(n);
                        let first = ms[0].apply(&c, at).unwrap();
                        data_down(n);
                        for m in &ms[1..] {
                            let a = m.apply(&c, at).unwrap();
                            if bag(&a) != bag(&first) {
                                violation(&class("answer", "CreateBucket", &short(&a)), format!("{} and {}", short(&first), short(&a)));
                            }
                        }
                        log.push((c, first));
                        down.push(n);
                    }
                }
                "up" => {
                    let n = o["n"].as_u64().unwrap();
                    if down.contains(&n) {
                        down.retain(|x| *x != n);
                        data_up(n);
                    }
                }
                k => simh::harness_error(k.to_string()),
            }
        }
        let mut rep = Report::default();
        rep.nontrivial = log.iter().filter(|(_, a)| ok(a)).count() > 5;
        rep.count("commands compared", log.len() as u64);
        rep.count("commands accepted", log.iter().filter(|(_, a)| ok(a)).count() as u64);
        rep.state = hash(&ms[0].dump());
        rep
    })
}
fn class(what: &str, cmd: &str, detail: &str) -> String {
    match ODD.load(Relaxed) {
        1 => return "the choice of nodes follows who answers a ping".into(),
        2 => return "the expiry of a bucket follows the local clock".into(),
        _ => {}
    }
    if detail.contains("/limiter") || cmd == "LimiterRequest" {
        return "a limiter follows the local clock".into();
    }
    format!("{what} differs after {cmd}")
}
fn step(ms: &[Arc<Machine>], c: &Value, log: &mut Vec<(Value, Value)>) {
    let i = log.len() as u64 + 1;
    let all: Vec<Value> = ms.iter().map(|m| m.apply(c, i).expect("machine")).collect();
    hlog!("{}: {}", short(c), short(&all[0]));
    for (m, a) in all.iter().enumerate().skip(1) {
        if bag(a) != bag(&all[0]) {
            violation(&class("answer", &kind(c), &short(a)), format!("{}: store 0 answers {}, store {m} {}", short(c), short(&all[0]), short(a)));
        }
    }
    log.push((c.clone(), all[0].clone()));
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "M01",
        name: "same",
        share: 1,
        gen: plan,
        run,
        rule: "every store has the same keys and values after every command, gave the same answers, and a store that restores a snapshot and applies the rest again does too",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
