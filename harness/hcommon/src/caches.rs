//! X01: sharded and plain caches, driven from several threads or tasks.
use crate::{hash, threads, tick};
use cache::{AsyncCache, AsyncCacheWrap, LruWrap, ShardedAsyncCache, ShardedSyncCache, SyncCache, SyncCacheWrap};
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::num::NonZeroUsize;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
enum Ev {
    /// value put, value returned
    Insert(u64, Option<u64>),
    Get(Option<u64>),
    Remove(Option<u64>),
    /// pop took this key's value
    Pop(u64),
    Clear,
}
#[derive(Clone, Debug)]
struct Rec {
    call: u64,
    ret: u64,
    ev: Ev,
}

enum C {
    ShardedSync(ShardedSyncCache<u64, u64>),
    Sync(SyncCacheWrap<u64, u64>),
    ShardedAsync(ShardedAsyncCache<u64, u64>),
    Async(AsyncCacheWrap<u64, u64>),
}
fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Handle::current().block_on(f)
}
macro_rules! on {
    ($c:expr, $m:ident ( $($a:expr),* )) => {
        match $c {
            C::ShardedSync(c) => c.$m($($a),*),
            C::Sync(c) => c.$m($($a),*),
            C::ShardedAsync(c) => block(c.$m($($a),*)),
            C::Async(c) => block(c.$m($($a),*)),
        }
    };
}
impl C {
    fn new(kind: &str, cap: usize) -> C {
        let nz = NonZeroUsize::new(cap.max(1)).unwrap();
        match kind {
            "sharded_sync" => C::ShardedSync(ShardedSyncCache::create_lru_sharded_cache(cap)),
            "sharded_sync_unbounded" => C::ShardedSync(ShardedSyncCache::create_lru_sharded_cache_unbounded()),
            "sync" => C::Sync(SyncCacheWrap::new(LruWrap::new(nz))),
            "sharded_async" => C::ShardedAsync(ShardedAsyncCache::create_lru_sharded_cache(cap)),
            _ => C::Async(AsyncCacheWrap::new(LruWrap::new(nz))),
        }
    }
    /// names the shard of a key
    fn group(&self, k: u64) -> usize {
        match self {
            C::ShardedSync(c) => c.shard(&k).map(|s| s as *const _ as *const u8 as usize).unwrap_or(0),
            C::ShardedAsync(c) => block(async { c.lock_shard(&k).await.map(|g| &*g as *const _ as *const u8 as usize).unwrap_or(0) }),
            _ => 0,
        }
    }
    fn pop_shard(&self, k: u64) -> Option<(u64, u64)> {
        match self {
            C::ShardedSync(c) => c.pop_shard(&k),
            C::ShardedAsync(c) => block(c.pop_shard(&k)),
            c => on!(c, pop()),
        }
    }
    fn sharded(&self) -> bool {
        matches!(self, C::ShardedSync(_) | C::ShardedAsync(_))
    }
}

const KINDS: [&str; 5] = ["sharded_sync", "sharded_sync_unbounded", "sync", "sharded_async", "async"];

fn gen_conc(r: &mut Rng, t: Tier) -> Value {
    let nt = 2 + r.below(if t == Tier::Quick { 3 } else { 5 });
    let nk = 1 + r.below(12);
    // enough room for every key in any one shard, or too little
    let roomy = r.chance(1, 2);
    let kind = *r.pick(&KINDS);
    let cap = if roomy { 16 * nk + r.below(40) } else { r.below(16 * nk + 1) };
    let n = 10 + r.below(if t == Tier::Quick { 50 } else { 90 });
    let w = [4 + r.below(6), 3 + r.below(6), r.below(4), r.below(5), if r.chance(1, 4) { 1 } else { 0 }, r.below(2)];
    let mut ops = vec![];
    for i in 0..n {
        let k = r.below(nk);
        let t = r.below(nt);
        let op = match r.weighted(&w) {
            0 => json!({"t": t, "op": "insert", "k": k, "v": i + 1000}),
            1 => json!({"t": t, "op": "get", "k": k}),
            2 => json!({"t": t, "op": "remove", "k": k}),
            3 => json!({"t": t, "op": "pop"}),
            4 => json!({"t": t, "op": "clear"}),
            _ => json!({"t": t, "op": "pop_shard", "k": k}),
        };
        ops.push(op);
    }
    json!({"kind": kind, "cap": cap, "keys": nk, "ops": ops})
}

/// Is there an order of one key's operations, each within its interval, in which
/// they act on one slot that holds a value or nothing? Entries may also be
/// dropped at any moment when `evict` is set.
fn linear(h: &[Rec], evict: bool) -> bool {
    fn go(h: &[Rec], done: &mut Vec<bool>, left: usize, st: Option<u64>, evict: bool, seen: &mut HashSet<(Vec<bool>, Option<u64>)>) -> bool {
        if left == 0 {
            return true;
        }
        if !seen.insert((done.clone(), st)) {
            return false;
        }
        let limit = h.iter().zip(done.iter()).filter(|(_, d)| !**d).map(|(r, _)| r.ret).min().unwrap();
        for i in 0..h.len() {
            if done[i] || h[i].call > limit {
                continue;
            }
            let sts: &[Option<u64>] = if evict && st.is_some() { &[st, None] } else { &[st] };
            for &s in sts {
                let next = match h[i].ev {
                    Ev::Insert(v, old) if old == s => Some(v),
                    Ev::Get(v) if v == s => s,
                    Ev::Remove(v) if v == s => None,
                    Ev::Pop(v) if Some(v) == s => None,
                    Ev::Clear => None,
                    _ => continue,
                };
                done[i] = true;
                if go(h, done, left - 1, next, evict, seen) {
                    return true;
                }
                done[i] = false;
            }
        }
        false
    }
    let mut done = vec![false; h.len()];
    go(h, &mut done, h.len(), None, evict, &mut HashSet::new())
}

fn run_conc(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
        let _g = rt.enter();
        let kind = p["kind"].as_str().unwrap();
        let cap = p["cap"].as_u64().unwrap() as usize;
        let nk = p["keys"].as_u64().unwrap();
        let c = Arc::new(C::new(kind, cap));
        let room = kind == "sharded_sync_unbounded" || (if c.sharded() { cap / 16 } else { cap.max(1) }) as u64 >= nk;
        let total = on!(&*c, get_capacity());
        if kind != "sharded_sync_unbounded" && (total < cap || total > cap + 16) {
            violation("capacity is not what was asked for", format!("asked {cap}, has {total}"));
        }
        let recs: Arc<Mutex<BTreeMap<u64, Vec<Rec>>>> = Default::default();
        let empty_pops: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
        {
            let (c, recs, empty_pops, h) = (c.clone(), recs.clone(), empty_pops.clone(), rt.handle().clone());
            threads(p["ops"].as_array().unwrap(), move |_, o| {
                let _g = h.enter();
                let k = o["k"].as_u64().unwrap_or(0);
                let call = tick::next();
                let mut put = |k: u64, ev: Ev| {
                    let ret = tick::next();
                    hlog!("{k}: {ev:?}");
                    recs.lock().unwrap().entry(k).or_default().push(Rec { call, ret, ev })
                };
                match o["op"].as_str().unwrap() {
                    "insert" => {
                        let v = o["v"].as_u64().unwrap();
                        let old = on!(&*c, insert(k, v));
                        put(k, Ev::Insert(v, old))
                    }
                    "get" => {
                        let v = on!(&*c, get(&k));
                        put(k, Ev::Get(v))
                    }
                    "remove" => {
                        let v = on!(&*c, remove(&k));
                        put(k, Ev::Remove(v))
                    }
                    "clear" => {
                        on!(&*c, clear());
                        for k in 0..nk {
                            put(k, Ev::Clear)
                        }
                    }
                    w => {
                        let r = if w == "pop" { on!(&*c, pop()) } else { c.pop_shard(k) };
                        match r {
                            Some((k, v)) => put(k, Ev::Pop(v)),
                            None if w == "pop" => {
                                let ret = tick::next();
                                empty_pops.lock().unwrap().push((call, ret));
                                hlog!("pop: nothing");
                            }
                            None => {}
                        }
                    }
                }
                let u = on!(&*c, get_usage());
                if u > total {
                    violation("more entries than the capacity", format!("{u} entries, capacity {total}"));
                }
            });
        }
        let mut rep = Report::default();
        // what is left, read back
        let mut left = 0;
        for k in 0..nk {
            let call = tick::next();
            let v = on!(&*c, get(&k));
            left += v.is_some() as usize;
            let ret = tick::next();
            recs.lock().unwrap().entry(k).or_default().push(Rec { call, ret, ev: Ev::Get(v) });
        }
        let usage = on!(&*c, get_usage());
        if usage != left {
            violation("usage differs from the entries held", format!("usage {usage}, {left} keys found"));
        }
        let recs = recs.lock().unwrap();
        let mut st = vec![];
        let mut overlap = false;
        for (k, h) in recs.iter() {
            if h.len() <= 60 && !linear(h, !room) {
                violation("no order of the operations explains what they returned", format!("key {k}, room for all keys: {room}: {h:?}"));
            }
            for (i, a) in h.iter().enumerate() {
                overlap |= h[i + 1..].iter().any(|b| a.call < b.ret && b.call < a.ret);
                st.push(match a.ev {
                    Ev::Get(v) | Ev::Remove(v) | Ev::Insert(_, v) => v.unwrap_or(0),
                    Ev::Pop(v) => v,
                    Ev::Clear => 1,
                });
            }
        }
        for (call, ret) in empty_pops.lock().unwrap().iter() {
            if !room {
                continue;
            }
            // a key that was there all along: put before the call, and not taken by anything that began before the return
            for (k, h) in recs.iter() {
                let put = h.iter().filter(|r| matches!(r.ev, Ev::Insert(..)) && r.ret < *call).map(|r| r.call).max();
                let Some(put) = put else { continue };
                if !h.iter().any(|r| matches!(r.ev, Ev::Remove(_) | Ev::Pop(_) | Ev::Clear) && r.ret > put && r.call < *ret) {
                    violation("pop returned nothing while the cache held an entry", format!("pop during [{call},{ret}] returned nothing; key {k} was there throughout: {h:?}"));
                }
            }
        }
        // emptied one by one
        for i in 0..left {
            if on!(&*c, pop()).is_none() {
                violation("pop returned nothing while the cache held an entry", format!("{left} entries, only {i} popped"));
            }
        }
        if on!(&*c, pop()).is_some() || on!(&*c, get_usage()) != 0 {
            violation("entries left after the last was popped", String::new());
        }
        rep.nontrivial = overlap;
        rep.count("ops", p["ops"].as_array().unwrap().len() as u64);
        rep.count("keys checked", recs.len() as u64);
        rep.state = hash(&st);
        rep
    })
}

fn gen_lru(r: &mut Rng, t: Tier) -> Value {
    let nk = 3 + r.below(60);
    let kind = *r.pick(&KINDS);
    let cap = match kind {
        "sync" | "async" => 1 + r.below(nk + 2),
        _ => 1 + r.below(70),
    };
    let n = 30 + r.below(if t == Tier::Quick { 150 } else { 600 });
    let w = [6, 4, 1 + r.below(2), r.below(2), r.below(3), if r.chance(1, 3) { 1 } else { 0 }];
    let ops: Vec<Value> = (0..n)
        .map(|i| {
            let k = r.below(nk);
            match r.weighted(&w) {
                0 => json!({"op": "insert", "k": k, "v": i + 1000}),
                1 => json!({"op": "get", "k": k}),
                2 => json!({"op": "remove", "k": k}),
                3 => json!({"op": "pop"}),
                4 => json!({"op": "pop_shard", "k": k}),
                _ => json!({"op": "cap", "n": 1 + r.below(80)}),
            }
        })
        .collect();
    json!({"kind": kind, "cap": cap, "keys": nk, "ops": ops})
}
/// One caller; each shard against an exact least-recently-used list.
fn run_lru(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap();
        let _g = rt.enter();
        let kind = p["kind"].as_str().unwrap();
        let cap = p["cap"].as_u64().unwrap() as usize;
        let c = C::new(kind, cap);
        let per = |cap: usize| {
            if kind.ends_with("unbounded") {
                usize::MAX
            } else if c.sharded() {
                cap.div_ceil(16).max(1)
            } else {
                cap
            }
        };
        let mut room = per(cap);
        // shard -> entries, the least recently used first
        let mut m: HashMap<usize, Vec<(u64, u64)>> = HashMap::new();
        let group: Vec<usize> = (0..p["keys"].as_u64().unwrap()).map(|k| c.group(k)).collect();
        let mut rep = Report::default();
        let mut st = vec![];
        let bad = |i: usize, o: &Value, want: String, got: String| -> ! { violation("differs from a least-recently-used map", format!("op {i} {o}: expected {want}, got {got}")) };
        for (i, o) in p["ops"].as_array().unwrap().iter().enumerate() {
            let k = o["k"].as_u64().unwrap_or(0);
            let l = m.entry(group[k as usize]).or_default();
            let at = l.iter().position(|e| e.0 == k);
            match o["op"].as_str().unwrap() {
                "insert" => {
                    let v = o["v"].as_u64().unwrap();
                    let want = at.map(|x| l.remove(x).1);
                    if want.is_none() && l.len() >= room {
                        l.remove(0);
                        rep.count("evictions", 1);
                    }
                    l.push((k, v));
                    let got = on!(&c, insert(k, v));
                    if got != want {
                        bad(i, o, format!("{want:?}"), format!("{got:?}"));
                    }
                }
                "get" => {
                    let want = at.map(|x| {
                        let e = l.remove(x);
                        l.push(e);
                        e.1
                    });
                    let got = on!(&c, get(&k));
                    if got != want {
                        bad(i, o, format!("{want:?}"), format!("{got:?}"));
                    }
                    st.push(got.unwrap_or(0));
                }
                "remove" => {
                    let want = at.map(|x| l.remove(x).1);
                    let got = on!(&c, remove(&k));
                    if got != want {
                        bad(i, o, format!("{want:?}"), format!("{got:?}"));
                    }
                }
                "pop_shard" => {
                    let want = if l.is_empty() { None } else { Some(l.remove(0)) };
                    let got = c.pop_shard(k);
                    if got != want {
                        bad(i, o, format!("{want:?}"), format!("{got:?}"));
                    }
                    st.push(got.map(|e| e.1).unwrap_or(0));
                }
                "pop" => {
                    let got = on!(&c, pop());
                    match got {
                        None => {
                            if m.values().any(|l| !l.is_empty()) {
                                violation("pop returned nothing while the cache held an entry", format!("op {i}: entries {m:?}"));
                            }
                        }
                        Some(e) => {
                            let l = m.entry(group[e.0 as usize]).or_default();
                            if l.first() != Some(&e) {
                                bad(i, o, format!("the oldest of its shard, {:?}", l.first()), format!("{got:?}"));
                            }
                            l.remove(0);
                        }
                    }
                    st.push(got.map(|e| e.1).unwrap_or(0));
                }
                _ => {
                    let n = o["n"].as_u64().unwrap() as usize;
                    on!(&c, set_capacity(NonZeroUsize::new(n).unwrap()));
                    room = if c.sharded() { n.div_ceil(16).max(1) } else { n };
                    for l in m.values_mut() {
                        while l.len() > room {
                            l.remove(0);
                        }
                    }
                    rep.count("resizes", 1);
                }
            }
            let used: usize = m.values().map(|l| l.len()).sum();
            if on!(&c, get_usage()) != used {
                bad(i, o, format!("{used} entries"), format!("{}", on!(&c, get_usage())));
            }
        }
        rep.nontrivial = rep.counts.contains_key("evictions");
        rep.count("ops", p["ops"].as_array().unwrap().len() as u64);
        rep.state = hash(&st);
        rep
    })
}

pub fn scenarios() -> Vec<Scenario> {
    let base = Scenario {
        property: "X01",
        name: "concurrent",
        share: 3,
        gen: gen_conc,
        run: run_conc,
        rule: "2 to 7 threads issue random insert, get, remove, pop, pop_shard and clear calls on one cache (sharded or not, sync or async, roomy or tight); a per-key linearizability search, a capacity check after every call and a full drain decide. Non-trivial: operations on one key overlapped.",
        real: &["common/cache", "lru crate", "rand crate"],
        stub: &["parking_lot (simulated locks)", "tokio runtime (simulated; real tokio locks)", "getrandom (seeded)"],
        assumptions: &["memory is sequentially consistent: weak-memory reorderings are not simulated"],
    };
    vec![
        Scenario {
            name: "exact-lru",
            share: 2,
            gen: gen_lru,
            run: run_lru,
            rule: "one caller; every shard is compared with an exact least-recently-used list after every call. Non-trivial: an entry was evicted.",
            ..base.clone()
        },
        Scenario { property: "X01", name: "concurrent", share: 3, gen: gen_conc, run: run_conc, rule: base.rule, real: base.real, stub: base.stub, assumptions: base.assumptions },
    ]
}
