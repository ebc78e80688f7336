//! M05: what the nodes of a cluster admit for a tenant, by the real limiters of the nodes and
//! the shared one of a metadata server that may die, stall or lose answers.
use crate::watch::{Client, Server};
use crate::world::*;
use config::common::{Bucket, CountBucketConfig, RateBucketConfig, RequestLimiterConfig, TenantLimiterConfig};
use meta::limiter::RequestLimiter;
use meta::store::command::WriteCommand;
use models::schema::tenant::{Tenant, TenantOptionsBuilder};
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::sync::{Arc, Mutex};

const MS: u64 = 1_000_000;
/// the kinds, in the order of the checks below
const KINDS: [&str; 4] = ["data in", "data out", "queries", "writes"];

fn bucket(b: &Value) -> Option<Bucket> {
    if b.is_null() {
        return None;
    }
    let u = |k: &str| b[k].as_u64().unwrap();
    Some(Bucket {
        remote_bucket: RateBucketConfig { max: b["max"].as_u64().map(|m| m as usize), initial: u("init") as usize, refill: u("refill") as usize, interval: u("ms") as i64 },
        local_bucket: CountBucketConfig { max: b["lmax"].as_i64(), initial: u("linit") as i64 },
    })
}
fn plan(r: &mut Rng, t: Tier) -> Value {
    let faults = r.chance(1, 2);
    let exact = !faults && r.chance(1, 2);
    let mut kinds = vec![];
    for k in 0..4 {
        kinds.push(if k < 2 && r.chance(2, 3) || k >= 2 && r.chance(1, 3) {
            let f = if k < 2 { 40 } else { 1 };
            let init = r.below(6) * f;
            let refill = if exact { 0 } else { 1 + r.below(4) * f };
            json!({"max": if exact { json!(init + f) } else if r.chance(2, 3) { json!(1 + r.below(8) * f) } else { Value::Null }, "init": init, "refill": refill, "ms": *r.pick(&[10, 100, 1000, 30_000]),
                   "lmax": if r.chance(2, 3) { json!(1 + r.below(3) * f) } else { Value::Null }, "linit": r.below(3) * f})
        } else {
            Value::Null
        });
    }
    let nodes = 1 + r.below(3);
    let mut ops = vec![];
    for _ in 0..20 + r.below(if t == Tier::Quick { 100 } else { 300 }) {
        let mut o = match r.below(40) {
            0 if faults => json!({"k": "kill", "ms": r.below(2000)}),
            1 if faults => json!({"k": "weather", "loss": r.below(200), "slow": r.below(500)}),
            2 if faults => json!({"k": "calm"}),
            3 if faults => json!({"k": "jump", "ms": r.below(100_000)}),
            4 => json!({"k": "tenant"}),
            _ => json!({"k": "ask", "kind": r.below(4), "len": match r.below(4) { 0 => 1, 1 => r.below(8), 2 => r.below(50), _ => r.below(120) }}),
        };
        o["c"] = json!(r.below(nodes * 2));
        o["z"] = json!(match r.below(6) { 0..=3 => 0, 4 => r.below(20) * MS, _ => r.below(2000) * MS });
        ops.push(o);
    }
    json!({"sched": simh::sched(r), "nodes": nodes, "warm": exact || r.chance(1, 2), "kinds": kinds, "exact": exact, "ops": ops})
}
struct Ask {
    kind: usize,
    len: i64,
    ok: bool,
    /// the server's clock when the request began and ended
    begin: i64,
    end: i64,
}
async fn ask(l: &Arc<dyn RequestLimiter>, kind: usize, len: usize) -> bool {
    match kind {
        0 => l.check_coord_data_in(len).await,
        1 => l.check_coord_data_out(len).await,
        2 => l.check_coord_queries().await,
        _ => l.check_coord_writes().await,
    }
    .is_ok()
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let dir = mk(&format!("{}/server", simh::scratch()));
        let mut s = Server { disk: simrt::fsx::add_disk(&dir, 0), dir, inc: 1000 };
        s.start();
        let skew = Arc::new(Mutex::new(0i64));
        let clock = {
            let s = skew.clone();
            move || simrt::now() as i64 + *lk(&s)
        };
        let nodes = p["nodes"].as_u64().unwrap() as usize;
        let cs: Vec<Arc<Client>> = (0..nodes as u32).map(|i| Arc::new(Client::new(i))).collect();
        let kinds = p["kinds"].as_array().unwrap();
        let limits = RequestLimiterConfig {
            coord_data_in: bucket(&kinds[0]),
            coord_data_out: bucket(&kinds[1]),
            coord_queries: bucket(&kinds[2]),
            coord_writes: bucket(&kinds[3]),
            http_data_in: None,
            http_data_out: None,
            http_queries: None,
            http_writes: None,
        };
        let options = TenantOptionsBuilder::default().limiter_config(TenantLimiterConfig { object_config: None, request_config: Some(limits) }).build().expect("options");
        let w = WriteCommand::CreateTenant(CLUSTER.into(), Tenant::new(7, "t1".into(), options));
        let start = clock();
        let r = cs[0].on(move |_, h| async move { h.write::<Value>(&w).await.map_err(|e| e.to_string()) });
        if let Err(e) = r {
            violation("a command fails without a fault", e);
        }
        let asks: Arc<Mutex<Vec<Ask>>> = Default::default();
        let all = p["ops"].as_array().unwrap().clone();
        // a node that knows the tenant, and has seen the change that made it, keeps its buckets
        // until the metadata server restarts; a fresh bucket begins with the initial tokens
        if p["warm"] == true {
            for c in &cs {
                c.on(|a, _| async move { a.tenant_meta("t1").await.is_some() });
            }
            simrt::sleep(60_000 * MS);
        }
        let kills = p["ops"].as_array().unwrap().iter().filter(|o| o["k"] == "kill").count() as i64;
        let fresh = 2 * kills + if p["warm"] == true { 1 } else { 3 };
        // two callers on each node
        let mut ts = vec![];
        for c in 0..2 * nodes {
            let mine: Vec<Value> = all.iter().filter(|o| o["c"] == json!(c) && (o["k"] == "ask" || o["k"] == "tenant")).cloned().collect();
            let (cl, asks, clock, kinds) = (cs[c % nodes].clone(), asks.clone(), clock.clone(), kinds.clone());
            let node = cl.node;
            ts.push((simrt::spawn_on("caller", node, move || {
                calm(move || {
                    for o in mine {
                        simrt::sleep(o["z"].as_u64().unwrap());
                        let a = cl.admin.clone();
                        if o["k"] == "tenant" {
                            cl.rt.block_on(async move { a.tenant_meta("t1").await.is_some() });
                            continue;
                        }
                        let (kind, len) = (o["kind"].as_u64().unwrap() as usize, o["len"].as_u64().unwrap());
                        let len = if kind < 2 { len as i64 } else { 1 };
                        let begin = clock();
                        let r = cl.rt.block_on(async move {
                            let l = a.limiter("t1").await.ok()?;
                            Some(ask(&l, kind, len as usize).await)
                        });
                        let Some(ok) = r else { continue };
                        hlog!("n{} asks {len} {}: {ok}", cl.node, KINDS[kind]);
                        if !ok && kinds[kind].is_null() {
                            violation("a request of an unlimited kind is refused", KINDS[kind].to_string());
                        }
                        lk(&asks).push(Ask { kind, len, ok, begin, end: clock() });
                    }
                    std::mem::forget(cl);
                })
            }), node));
        }
        for o in all.iter().filter(|o| o["k"] != "ask" && o["k"] != "tenant") {
            simrt::sleep(o["z"].as_u64().unwrap());
            match o["k"].as_str().unwrap() {
                "kill" => {
                    s.kill();
                    simrt::sleep(o["ms"].as_u64().unwrap() * MS);
                    simrt::set_skew(s.inc + 1, *lk(&skew));
                    s.start();
                }
                "jump" => {
                    simrt::note("fault:clock jump");
                    let mut g = lk(&skew);
                    *g += (o["ms"].as_u64().unwrap() * MS) as i64;
                    simrt::set_skew(s.inc, *g);
                }
                "weather" => tonic::net::weather(tonic::net::Weather { loss_pm: o["loss"].as_u64().unwrap(), slow_pm: o["slow"].as_u64().unwrap(), slow_ns: 3_000 * MS, min_ns: 100_000, max_ns: 5 * MS }),
                "calm" => tonic::net::calm(),
                k => simh::harness_error(k.to_string()),
            }
        }
        ts.into_iter().for_each(|(h, n)| wait(h, n));
        tonic::net::calm();
        simrt::sleep(20_000 * MS);
        let one = |c: &Arc<Client>, kind: usize, len: i64| {
            let begin = clock();
            let ok = c.on(move |a, _| async move {
                match a.limiter("t1").await {
                    Ok(l) => ask(&l, kind, len as usize).await,
                    Err(e) => violation("no limiter without a fault", e.to_string()),
                }
            });
            lk(&asks).push(Ask { kind, len, ok, begin, end: clock() });
            ok
        };
        let mut retried = 0;
        for (kind, b) in kinds.iter().enumerate() {
            for c in &cs {
                if b.is_null() {
                    if !one(c, kind, 1000) {
                        violation("a request of an unlimited kind is refused", KINDS[kind].to_string());
                    }
                    continue;
                }
                if p["exact"] == true {
                    let mut refused = 0;
                    let all = b["init"].as_i64().unwrap() + nodes as i64 * (b["linit"].as_i64().unwrap() + 2 * b["lmax"].as_i64().unwrap_or(0));
                    let mut n = 0;
                    loop {
                        if n > all {
                            violation("more is admitted than the limit allows", format!("{n} {} one by one on node {}, at most {all} by {b}", KINDS[kind], c.node));
                        }
                        if one(c, kind, 1) {
                            (n, refused) = (n + 1, 0);
                        } else {
                            refused += 1;
                        }
                        if refused == 4 {
                            break;
                        }
                    }
                    continue;
                }
                let lmax = b["lmax"].as_i64();
                let refill = b["refill"].as_i64().unwrap();
                let len = if kind < 2 { lmax.unwrap_or(40).min(40) } else { 1 };
                let tries = 8 + 3 * (len + 2 * lmax.unwrap_or(0) + b["linit"].as_i64().unwrap()) / refill.min(b["max"].as_i64().unwrap_or(i64::MAX));
                let mut n = 0;
                while !one(c, kind, len) {
                    n += 1;
                    if n > tries {
                        violation("a request within the limit is refused for ever", format!("{len} {} on node {}, {b}, refused {n} times", KINDS[kind], c.node));
                    }
                    simrt::sleep(b["ms"].as_u64().unwrap() * MS);
                }
                retried += n;
            }
        }
        // what was granted, over all windows
        let asks = std::mem::take(&mut *lk(&asks));
        let mut granted = 0;
        for (kind, b) in kinds.iter().enumerate().filter(|(_, b)| !b.is_null()) {
            let u = |k: &str| b[k].as_i64().unwrap();
            let lmax = b["lmax"].as_i64();
            let rmax = b["max"].as_i64().unwrap_or(10 * u("refill").max(u("init")));
            let mine: Vec<&Ask> = asks.iter().filter(|a| a.kind == kind && a.ok).collect();
            let most = asks.iter().filter(|a| a.kind == kind).map(|a| a.len).max().unwrap_or(0);
            let total: i64 = mine.iter().map(|a| a.len).sum();
            granted += total;
            let periods = |d: i64| d / (u("ms") * MS as i64) + 2;
            let debt = lmax.unwrap_or(0);
            let mut begins: Vec<i64> = mine.iter().map(|a| a.begin).collect();
            begins.sort();
            begins.dedup();
            let mut ends: Vec<(i64, i64, i64)> = mine.iter().map(|a| (a.end, a.begin, a.len)).collect();
            ends.sort();
            for (i, from) in std::iter::once(start).chain(begins).enumerate() {
                let (local, remote) = if i == 0 { (u("linit") * fresh, u("init").min(rmax)) } else { (u("linit").max(lmax.unwrap_or(2 * most)) + u("linit") * (fresh - 1), rmax) };
                let mut sum = 0;
                for (end, begin, len) in &ends {
                    if *begin < from {
                        continue;
                    }
                    sum += len;
                    let bound = nodes as i64 * (local + debt * fresh) + remote + u("refill") * periods(end - from);
                    if sum > bound {
                        violation("more is admitted than the limit allows", format!("{sum} {} within {} ms on {nodes} nodes, at most {bound} by {b}", KINDS[kind], (end - from) / MS as i64));
                    }
                }
            }
            if p["exact"] == true {
                // every token is used up: nothing is lost on the way
                let least = u("init").min(rmax) + nodes as i64 * (u("linit") - 1);
                if total < least {
                    violation("tokens are lost", format!("{total} {} granted, at least {least} by {b}", KINDS[kind]));
                }
            }
        }
        let mut rep = Report::default();
        rep.nontrivial = granted > 0;
        rep.count("requests", asks.len() as u64);
        rep.count("requests admitted", asks.iter().filter(|a| a.ok).count() as u64);
        rep.count("retries until admitted", retried as u64);
        rep.state = hash(&asks.iter().map(|a| (a.kind, a.len, a.ok)).collect::<Vec<_>>());
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "M05",
        name: "limits",
        share: 1,
        gen: plan,
        run,
        rule: "over every interval the nodes together admit at most what they and the shared bucket can hold plus the refill; without faults no token is lost; unlimited kinds are never refused; once faults stop a request within the limit is admitted within a bounded number of tries",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
