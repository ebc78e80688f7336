//! X03: token buckets under concurrent callers and a clock that jumps.
use crate::{hash, threads, tick};
use limiter_bucket::{RateBucket, RateBucketBuilder};
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::sync::{Arc, Mutex};

fn gen(r: &mut Rng, t: Tier) -> Value {
    let nt = 1 + r.below(4);
    let interval = *r.pick(&[1u64, 2, 7, 10, 100, 1000, 60_000]);
    let refill = *r.pick(&[1u64, 2, 3, 10, 1000, 1 << 20, 1 << 40, 1 << 63, u64::MAX]);
    let max: Option<u64> = match r.below(4) {
        0 => None,
        1 => Some(r.below(20) + 1),
        2 => Some(refill),
        _ => Some(refill.saturating_mul(1 + r.below(5)).saturating_add(r.below(3))),
    };
    let initial = *r.pick(&[0, 1, 5, refill, max.unwrap_or(7)]);
    let n = 10 + r.below(if t == Tier::Quick { 60 } else { 200 });
    let jumpy = r.chance(1, 2);
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let t = r.below(nt);
            // around the refill period, or much longer
            let wait = match r.below(6) {
                0 | 1 => 0,
                2 => r.below(interval * 1000),
                3 => r.below(interval * 3000),
                4 => interval * 1000,
                _ => r.below(interval * 200_000),
            };
            let amount = match r.below(5) {
                0 => 1,
                1 => refill,
                2 => max.unwrap_or(refill),
                3 => r.below(refill.clamp(1, 1 << 62)) + 1,
                _ => r.below(10),
            };
            match r.below(if jumpy { 10 } else { 9 }) {
                0..=5 => json!({"t": t, "wait_us": wait, "op": "acquire", "n": amount}),
                6 => json!({"t": t, "wait_us": wait, "op": "closed", "n": amount}),
                7 => json!({"t": t, "wait_us": wait, "op": "balance"}),
                8 => json!({"t": t, "wait_us": wait, "op": "copy", "how": r.below(2)}),
                _ => json!({"t": t, "wait_us": wait, "op": "jump", "ms": r.below(interval * 40) as i64 - (interval * 20) as i64}),
            }
        })
        .collect();
    let mut sched = simh::sched(r);
    sched["max_time_s"] = json!(20_000_000u64);
    json!({"sched": sched, "interval": interval, "refill": refill, "max": max, "initial": initial, "ops": ops})
}
struct St {
    /// when the call began (by number, and by the highest clock seen), and what it was granted
    grants: Vec<(u64, i64, u128)>,
    high: i64,
    granted: u128,
    skew: i64,
    refused: u64,
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let u = |k: &str| p[k].as_u64().unwrap();
        let (interval, refill) = (u("interval"), u("refill"));
        let mut b = RateBucketBuilder::default();
        b.refill(refill as usize).interval(chrono::Duration::milliseconds(interval as i64)).initial(u("initial") as usize);
        if let Some(m) = p["max"].as_u64() {
            b.max(m as usize);
        }
        let t0 = simrt::wall_ns(simrt::current_node());
        let bucket = Arc::new(simstd::sync::RwLock::new(Arc::new(b.build())));
        let first = bucket.read().unwrap().clone();
        let max = first.max() as u128;
        let start = first.balance() as u128;
        if start > max || start != (u("initial") as u128).min(max) {
            violation("the first balance is not the initial one", format!("{start}"));
        }
        let ival = interval as i64 * 1_000_000;
        let st = Arc::new(Mutex::new(St { grants: vec![], high: t0, granted: 0, skew: 0, refused: 0 }));
        let wall = || simrt::wall_ns(simrt::current_node());
        let (bk, s2) = (bucket.clone(), st.clone());
        // tokens that may have come in while the highest clock went from a to b
        let income = move |a: i64, b: i64| -> u128 { ((b - a).max(0) / ival) as u128 * refill as u128 };
        let gate = simstd::sync::RwLock::new(());
        let alone = p["ops"].as_array().unwrap().iter().map(|o| o["t"].as_u64()).collect::<std::collections::BTreeSet<_>>().len() == 1;
        threads(p["ops"].as_array().unwrap(), move |_, o| {
            let b = bk.read().unwrap().clone();
            let n = o["n"].as_u64().unwrap_or(0);
            match o["op"].as_str().unwrap() {
                // asks for nothing: the bucket does not even look at the clock
                w @ ("acquire" | "closed") if n == 0 => {
                    if w == "acquire" && b.acquire(0).is_err() || w == "closed" && b.acquire_closed(0) != 0 {
                        violation("a request for nothing was refused or granted something", String::new());
                    }
                }
                w @ ("acquire" | "closed") => {
                    // the clock does not jump while a call is under way
                    let _still = gate.read().unwrap();
                    let w0 = wall();
                    let (call, w0) = {
                        let mut s = s2.lock().unwrap();
                        s.high = s.high.max(w0);
                        (tick::next(), s.high)
                    };
                    // alone, what is taken shows in the balance
                    let before = alone.then(|| b.balance());
                    let got = if w == "acquire" { if b.acquire(n as usize).is_ok() { n } else { 0 } } else { b.acquire_closed(n as usize) as u64 };
                    if let Some(x) = before {
                        if (b.balance() as u128) < x as u128 - (got as u128).min(x as u128) {
                            violation("a request took more than it was granted", format!("asked {n}, got {got}, the balance fell from {x} to {}", b.balance()));
                        }
                    }
                    let w1 = wall();
                    let mut s = s2.lock().unwrap();
                    s.high = s.high.max(w1);
                    hlog!("{w} {n}: {got}");
                    if got > n {
                        violation("more was granted than was asked for", format!("asked {n}, got {got}"));
                    }
                    if got < n {
                        s.refused += 1;
                    }
                    s.granted += got as u128;
                    let high = s.high;
                    // since the start
                    let lim = start + income(t0, high);
                    if s.granted > lim {
                        violation("more tokens were granted than rate and burst allow", format!("{} granted in {} ms; {start} at first, {refill} every {interval} ms", s.granted, (high - t0) / 1_000_000));
                    }
                    // since any earlier call began: at most a full bucket, and what came in since
                    s.grants.push((call, w0, got as u128));
                    for (c, t, _) in s.grants.iter() {
                        let sum: u128 = s.grants.iter().filter(|g| g.0 >= *c).map(|g| g.2).sum();
                        if sum > max + income(*t, high) + refill as u128 {
                            violation("more tokens were granted than rate and burst allow", format!("{sum} granted in {} ms; at most {max} at once, {refill} every {interval} ms", (high - t) / 1_000_000));
                        }
                    }
                }
                "balance" => {
                    if b.balance() as u128 > max {
                        violation("the balance exceeds the maximum", format!("{} of {max}", b.balance()));
                    }
                }
                "copy" => {
                    // buckets travel between meta and data nodes as bytes
                    let mut g = bk.write().unwrap();
                    // not while others hold the old one: they would keep drawing from it
                    if Arc::strong_count(&g) == 2 {
                        drop(b);
                        let c: RateBucket = if o["how"] == 0 { bincode::deserialize(&bincode::serialize(&**g).unwrap()).unwrap() } else { serde_json::from_str(&serde_json::to_string(&**g).unwrap()).unwrap() };
                        if c != **g {
                            violation("a bucket changes when it is sent", format!("{:?} became {c:?}", **g));
                        }
                        *g = Arc::new(c);
                    }
                }
                _ => {
                    let _still = gate.write().unwrap();
                    let mut s = s2.lock().unwrap();
                    s.skew += o["ms"].as_i64().unwrap() * 1_000_000;
                    simrt::set_skew(simrt::current_node(), s.skew);
                    simrt::note("clock jump");
                }
            }
        });
        let mut rep = Report::default();
        {
            // past anything the clock showed before, and then long enough to fill
            let s = st.lock().unwrap();
            let b = bucket.read().unwrap().clone();
            let behind = (s.high - wall()).max(0);
            simrt::sleep(behind as u64 + 2 * ival as u64 + 2_000_000);
            let want = max.min(3 * refill as u128) as u64;
            let rounds = 3u64;
            if b.acquire(usize::try_from(want).unwrap_or(usize::MAX)).is_err() {
                simrt::sleep(rounds * (ival as u64 + 1_000_000));
                let w = want.min(usize::MAX as u64) as usize;
                if b.acquire(w).is_err() {
                    violation("a bucket does not refill", format!("{want} refused after {} intervals of rest: balance {}, {refill} every {interval} ms, maximum {max}", rounds + 2, b.balance()));
                }
            }
            if b.balance() as u128 > max {
                violation("the balance exceeds the maximum", format!("{} of {max}", b.balance()));
            }
            rep.nontrivial = s.granted > 0 && s.refused > 0;
            rep.count("grants checked", s.grants.len() as u64);
            rep.count("refusals", s.refused);
            rep.state = hash(&[s.granted as u64, s.refused, s.grants.len() as u64]);
        }
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "X03",
        name: "bucket",
        share: 1,
        gen,
        run,
        rule: "1 to 4 threads draw from one bucket of random rate, burst and start (up to the largest integers), with waits from zero to 200 intervals, clock jumps either way and copies through both encodings; every grant is checked against all earlier ones, and the bucket must refill at the end. Non-trivial: something was granted and something refused.",
        real: &["common/limiter_bucket", "chrono", "serde_json", "bincode"],
        stub: &["clock (simulated)", "parking_lot (simulated locks)"],
        assumptions: &["the refill interval is at least one millisecond", "time is what the bucket's own clock shows: a forward jump counts as elapsed time once"],
    }]
}
