//! What the runs of each property look like.
use crate::drive;
use simh::{json, Rng, Scenario, Tier, Value};

pub const REAL: &[&str] = &["tskv (write-ahead log, caches, index, flush, compaction, manifest, readers)", "coordinator", "replication", "meta (server and client)", "models, protocol_parser, config, memory_pool"];
pub const STUB: &[&str] = &[
    "tokio, parking_lot, std::sync: the simulator's threads, locks, channels, timers",
    "system calls on files: the simulator's disks",
    "openraft: a stand-in Raft core with the same interface",
    "heed (LMDB): a checksummed log of transactions",
    "tonic, warp, reqwest: the simulator's network",
    "datafusion: only the types the storage engine uses",
    "pco, bzip2: simple codecs of the same interface",
];

pub struct Mix {
    pub clients: usize,
    pub ops: u64,
    pub w: u32,
    pub d: u32,
    pub r: u32,
    pub ra: u32,
    pub tags: u32,
    pub fl: u32,
    pub cp: u32,
    pub ddl: u32,
    pub ut: u32,
    /// distinct seconds per day: fewer means more overwrites
    pub secs: u64,
    pub days: u64,
    pub rows: u64,
}
impl Default for Mix {
    fn default() -> Self {
        Mix { clients: 3, ops: 30, w: 60, d: 6, r: 12, ra: 3, tags: 2, fl: 8, cp: 4, ddl: 0, ut: 0, secs: 40, days: 3, rows: 6 }
    }
}
const FIELDS: [&str; 5] = ["i", "u", "f", "b", "s"];
fn fields(r: &mut Rng) -> String {
    let k = r.below(4);
    let f: Vec<&str> = match k {
        0 => FIELDS.to_vec(),
        1 => vec![*r.pick(&FIELDS)],
        _ => {
            let m = 1 + r.below(31);
            FIELDS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect()
        }
    };
    f.join(",")
}
fn off(r: &mut Rng, m: &Mix) -> i64 {
    (r.below(m.days) * 1000 + r.below(m.secs)) as i64
}
fn cols(r: &mut Rng) -> Value {
    let m = if r.chance(1, 3) { 31 } else { 1 + r.below(31) };
    json!(FIELDS.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect::<Vec<_>>())
}
pub fn range(r: &mut Rng, m: &Mix) -> (i64, i64) {
    let a = off(r, m);
    match r.below(4) {
        0 => (a, a),
        1 => (a, a + r.below(8) as i64),
        _ => {
            let b = off(r, m);
            (a.min(b), a.max(b))
        }
    }
}
/// Leaves a few times or hosts out of what an operation is about.
fn but(r: &mut Rng, m: &Mix, o: &mut Value, a: i64, b: i64) {
    if r.chance(1, 5) {
        let t: Vec<i64> = (0..1 + r.below(2)).map(|_| if r.chance(1, 2) { off(r, m) } else { a + r.below((b - a + 1) as u64) as i64 }).collect();
        o["nt"] = json!(t);
    }
    if r.chance(1, 8) {
        o["nh"] = json!([*r.pick(&["h0", "h1", "h2", "h3"])]);
    }
}
/// A random list of operations.
pub fn ops(r: &mut Rng, m: &Mix) -> Vec<Value> {
    let mut out = vec![];
    let total = m.w + m.d + m.r + m.ra + m.tags + m.fl + m.cp + m.ddl + m.ut;
    let hs = ["h0", "h1", "h2", "h3"];
    let mut fresh = 0;
    let mut extra: Vec<Vec<&str>> = vec![vec![]; m.clients];
    for n in 0..m.ops {
        let c = r.below(m.clients as u64) as usize;
        let own = format!("t{}", c + 1);
        let t = if (m.ddl > 0 || m.ut > 0) && r.chance(1, 2) { own.clone() } else { "t0".to_string() };
        let mut k = r.below(total as u64) as u32;
        let mut is = |w: u32| {
            if k < w {
                k = u32::MAX;
                true
            } else {
                if k != u32::MAX {
                    k -= w;
                }
                false
            }
        };
        let pause = if r.chance(1, 8) { r.below(30_000) } else { r.below(200) };
        let mut o = if is(m.w) {
            let mut rows = vec![];
            let cnt = 1 + r.below(m.rows);
            let run = r.chance(1, 4);
            let (h0, o0) = (*r.pick(&hs), off(r, m));
            for i in 0..cnt {
                let mut f = fields(r);
                if t == own && !extra[c].is_empty() && r.chance(1, 2) {
                    f = format!("{f},{}", r.pick(&extra[c]));
                }
                if run {
                    rows.push(json!([h0, o0 + i as i64, f]));
                } else {
                    rows.push(json!([*r.pick(&hs), off(r, m), f]));
                }
            }
            let mut seen = std::collections::HashSet::new();
            // a third of the batches may have one row twice: the later one counts
            let dup = r.below(3) == 0;
            rows.retain(|x: &Value| dup || seen.insert(format!("{}{}", x[0], x[1])));
            json!({"k": "w", "n": n, "t": t, "rows": rows})
        } else if is(m.d) {
            let (a, b) = range(r, m);
            // DELETE takes no OR: one value, or a range of values
            let (x, y) = (r.below(4) as usize, r.below(4) as usize);
            let h: Vec<&str> = if r.chance(1, 2) { vec![] } else { hs[x.min(y)..=x.max(y)].to_vec() };
            let mut o = json!({"k": "d", "t": t, "h": h, "a": a, "b": b});
            but(r, m, &mut o, a, b);
            if r.chance(1, 3) {
                o["x"] = json!(true);
            }
            o
        } else if is(m.r) {
            let mut o = json!({"k": "r", "t": t, "f": cols(r), "batch": *r.pick(&[1, 3, 10, 100, 1000])});
            if r.chance(1, 2) {
                let h: Vec<&str> = hs.iter().filter(|_| r.chance(1, 2)).copied().collect();
                o["h"] = json!(h);
                o["notags"] = json!(r.chance(1, 2));
            }
            if r.chance(2, 3) {
                let (a, b) = range(r, m);
                o["a"] = json!(a);
                o["b"] = json!(b);
                but(r, m, &mut o, a, b);
                if r.chance(1, 4) {
                    let (a, b) = range(r, m);
                    o["a2"] = json!(a);
                    o["b2"] = json!(b);
                }
            }
            if r.chance(1, 4) {
                let c: Vec<Value> = (0..1 + r.below(2)).map(|_| json!([*r.pick(&FIELDS), *r.pick(&["=", "<", "<=", ">", ">="]), r.below(n + 1), r.below(m.rows)])).collect();
                o["conds"] = json!(c);
            }
            if r.chance(1, 8) {
                o["limit"] = json!(1 + r.below(10));
            }
            o
        } else if is(m.ra) {
            json!({"k": "ra", "t": t, "f": cols(r), "batch": 20})
        } else if is(m.tags) {
            let mut o = json!({"k": "tags", "t": t, "f": []});
            if r.chance(1, 2) {
                o["h"] = json!([*r.pick(&hs)]);
            }
            o
        } else if is(m.fl) {
            json!({"k": "fl", "compact": r.chance(1, 2)})
        } else if is(m.cp) {
            json!({"k": "cp"})
        } else if is(m.ddl) {
            match r.below(5) {
                0 => json!({"k": "dt", "t": own}),
                1 => json!({"k": "dc", "t": own, "f": *r.pick(&FIELDS)}),
                2 => json!({"k": "dc", "t": own, "f": *r.pick(&["x1", "x2"])}),
                3 => {
                    let x = *r.pick(&["x1", "x2"]);
                    extra[c].push(x);
                    json!({"k": "ac", "t": own, "f": x})
                }
                _ => {
                    let (f, e) = *r.pick(&[("i", "DELTA"), ("i", "NULL"), ("u", "DELTA"), ("f", "GORILLA"), ("s", "ZSTD"), ("s", "GZIP"), ("b", "BITPACK")]);
                    json!({"k": "ae", "t": own, "f": f, "e": e})
                }
            }
        } else {
            fresh += 1;
            json!({"k": "ut", "t": own, "h": *r.pick(&hs), "to": format!("g{fresh}")})
        };
        o["c"] = json!(c);
        if pause > 0 {
            o["z"] = json!(pause);
        }
        out.push(o);
    }
    out
}
pub fn tables(r: &mut Rng, n: usize) -> Value {
    let mut v = vec![];
    for i in 0..n {
        let enc = if r.chance(1, 2) {
            json!({})
        } else {
            json!({"i": *r.pick(&["DEFAULT", "NULL", "DELTA", "QUANTILE"]), "u": *r.pick(&["DEFAULT", "NULL", "DELTA", "QUANTILE"]), "f": *r.pick(&["DEFAULT", "NULL", "GORILLA", "QUANTILE"]),
                "s": *r.pick(&["DEFAULT", "NULL", "GZIP", "BZIP", "ZSTD", "SNAPPY", "ZLIB"]), "b": *r.pick(&["DEFAULT", "NULL", "BITPACK"]), "time": *r.pick(&["DEFAULT", "NULL", "DELTA"])})
        };
        v.push(json!({"name": format!("t{i}"), "enc": enc}));
    }
    json!(v)
}
pub fn cfg(r: &mut Rng) -> Value {
    json!({
        "base_file_size": *r.pick(&[2_000u64, 20_000, 16 << 20]),
        "compact_files": *r.pick(&[2, 3, 4, 8]),
        "datablock": *r.pick(&[8u64, 50, 1000, 100 << 10]),
        "summary": *r.pick(&[300u64, 3_000, 128 << 20]),
        "readers": *r.pick(&[1, 2, 32]),
        "index_cache": *r.pick(&[1u64, 4, 100_000]),
        "meta_compress": *r.pick(&["zstd", "null", "snappy"]),
        "wal_file": *r.pick(&[2_000u64, 20_000, 128 << 20]),
        "wal_compress": *r.pick(&["zstd", "null", "gzip"]),
        "logs_keep": *r.pick(&[0u64, 5, 5000]),
        "snapshot_ms": *r.pick(&[300u64, 5_000, 600_000]),
        "snapshot_hold_s": *r.pick(&[0u64, 1, 3600]),
    })
}
pub fn dbp(r: &mut Rng) -> Value {
    json!({"shards": *r.pick(&[1, 1, 1, 2]), "days": *r.pick(&[1, 2, 365]), "memcache": *r.pick(&[2_000u64, 10_000, 1 << 20]), "partitions": *r.pick(&[1, 2, 4]), "precision": *r.pick(&["NS", "NS", "MS", "US"])})
}
pub fn base(r: &mut Rng, m: &Mix) -> Value {
    let n = if m.ddl > 0 || m.ut > 0 { m.clients + 1 } else { 1 };
    let mut db = dbp(r);
    if m.ut > 0 {
        db["shards"] = json!(1);
    }
    json!({"nodes": 1, "clients": m.clients, "cfg": cfg(r), "db": db, "tables": tables(r, n), "ops": ops(r, m), "faults": [], "final": finals(r)})
}
fn finals(r: &mut Rng) -> Value {
    let all = ["flush", "flushc", "compact", "restart", "wait"];
    let n = r.below(4);
    json!((0..n).map(|_| *r.pick(&all)).collect::<Vec<_>>())
}
fn size(t: Tier) -> u64 {
    if t == Tier::Quick { 1 } else { 2 }
}

// S03: no faults; reads against flushing and compacting
fn s03(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 2 + r.below(3) as usize, ops: (20 + r.below(40)) * size(t), w: 45, d: 3, r: 30, ra: 5, tags: 3, fl: 10, cp: 8, ..Default::default() };
    base(r, &m)
}
// S05: few cells, many overwrites
fn s05(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 1 + r.below(3) as usize, ops: (20 + r.below(40)) * size(t), secs: 2 + r.below(6), days: 1 + r.below(2), w: 60, d: 4, r: 20, fl: 14, cp: 8, ..Default::default() };
    base(r, &m)
}
// S04: deletes and drops
fn s04(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 1 + r.below(3) as usize, ops: (20 + r.below(40)) * size(t), secs: 12, days: 2, w: 40, d: 20, r: 20, fl: 12, cp: 8, ddl: 8, ..Default::default() };
    base(r, &m)
}

/// A process crash at some system call on a file.
fn crash(r: &mut Rng, at: u64, paths: &[&str], torn: bool) -> Value {
    let path = *r.pick(paths);
    let ops = *r.pick(&["mutate", "mutate", "write", "meta", "any"]);
    let deep = *r.pick(&[3u64, 12, 60, 300]);
    json!({"k": "io", "at": at, "n": 0, "do": "crash", "torn": torn && r.chance(1, 2), "ops": ops, "path": path, "skip": r.below(deep)})
}
fn on_boot(mut f: Value, boot: u64) -> Value {
    f.as_object_mut().unwrap().remove("at");
    f["boot"] = json!(boot);
    f
}
const ALL: &[&str] = &["", "", "", "/wal/", "/db/data/", "/index/", "summary", ".tsm", ".delta", "raft-state", "tombstone"];
const MANIFEST: &[&str] = &["summary", "summary", ".tsm", ".delta", "/db/data/", "tombstone"];
/// One to three crashes, some of them while the node starts again.
fn crashes(r: &mut Rng, m: &Mix, paths: &[&str]) -> Vec<Value> {
    let mut fs = vec![];
    for k in 0..1 + r.below(3) {
        let at = 1 + r.below(m.ops);
        if r.chance(1, 4) {
            fs.push(json!({"k": "kill", "at": at, "n": 0, "ns": r.below(3_000_000)}));
        } else {
            fs.push(crash(r, at, paths, true));
        }
        if r.chance(1, 3) {
            let f = crash(r, 0, paths, true);
            fs.push(on_boot(f, 2 + r.below(k + 2)));
        }
    }
    fs
}
// S01: the process dies anywhere
fn s01(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 1 + r.below(3) as usize, ops: (12 + r.below(30)) * size(t), w: 60, d: 5, r: 12, fl: 10, cp: 5, ..Default::default() };
    let mut p = base(r, &m);
    let fs = crashes(r, &m, ALL);
    p["faults"] = json!(fs);
    p
}
// S08: the process dies, or the power fails, around the manifest
fn s08(r: &mut Rng, t: Tier) -> Value {
    // drops before a power failure: a known finding (findings/S08-power-drop.json)
    let powers = r.chance(1, 3);
    let m = Mix { clients: 1 + r.below(2) as usize, ops: (12 + r.below(30)) * size(t), w: 45, d: 8, r: 8, fl: 20, cp: 12, ddl: if powers { 0 } else { 2 }, ..Default::default() };
    let mut p = base(r, &m);
    p["cfg"]["summary"] = json!(*r.pick(&[300u64, 300, 1_000, 3_000]));
    p["cfg"]["compact_files"] = json!(*r.pick(&[2, 2, 3]));
    let mut fs = crashes(r, &m, MANIFEST);
    if powers {
        p["cfg"]["wal_sync"] = json!(true);
        power(r, &mut fs);
        // after a power failure the log is applied again once the group has a leader
        p["boot_read"] = json!(false);
    }
    p["faults"] = json!(fs);
    p
}
/// Turns deaths into power failures.
fn power(r: &mut Rng, fs: &mut [Value]) {
    for f in fs.iter_mut() {
        let l = *r.pick(&["all", "random", "random"]);
        match f["k"].as_str() {
            Some("kill") => {
                f["k"] = json!("power");
                f["loss"] = json!(l);
            }
            Some("io") if f["do"] == "crash" => {
                f["power"] = json!(l);
                f["torn"] = json!(false);
            }
            _ => {}
        }
    }
}
// S02: the log is synced; the power fails
fn s02(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 1 + r.below(3) as usize, ops: (12 + r.below(30)) * size(t), w: 60, d: 4, r: 8, fl: 14, cp: 5, ..Default::default() };
    let mut p = base(r, &m);
    p["cfg"]["wal_sync"] = json!(true);
    let mut fs = crashes(r, &m, ALL);
    power(r, &mut fs);
    p["boot_read"] = json!(false);
    p["faults"] = json!(fs);
    if r.chance(1, 2) {
        p["final"].as_array_mut().unwrap().push(json!("power"));
    }
    p
}
/// An error of the disk, for a while.
fn disk_error(r: &mut Rng, at: u64, paths: &[&str]) -> Value {
    let path = *r.pick(paths);
    let deep = *r.pick(&[1u64, 4, 20, 100]);
    match r.below(8) {
        0 => json!({"k": "room", "at": at, "n": 0, "bytes": r.below(3000), "ms": 1 + r.below(300)}),
        1 => json!({"k": "io", "at": at, "n": 0, "do": "short", "times": 1 + r.below(3), "ops": *r.pick(&["write", "read"]), "path": path, "skip": r.below(deep)}),
        2 => json!({"k": "io", "at": at, "n": 0, "do": "stall", "ns": 1_000_000 + r.below(2_000_000_000), "ops": "any", "path": path, "skip": r.below(deep)}),
        _ => json!({"k": "io", "at": at, "n": 0, "do": "err", "errno": *r.pick(&[5, 28]), "times": *r.pick(&[1, 1, 2, 5]), "ops": *r.pick(&["write", "write", "sync", "meta", "rename", "open", "mutate"]), "path": path, "skip": r.below(deep)}),
    }
}
// S10: the disk fails for a while
fn s10(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 1 + r.below(3) as usize, ops: (15 + r.below(30)) * size(t), w: 60, d: 4, r: 14, fl: 10, cp: 5, ..Default::default() };
    let mut p = base(r, &m);
    let mut fs = vec![];
    // A start on a failing disk opens vnodes without a part of their log: known finding.
    let boot = r.chance(1, 12);
    p["boot_errors"] = json!(boot);
    for k in 0..1 + r.below(3) {
        let at = 1 + r.below(m.ops);
        fs.push(disk_error(r, at, ALL));
        if r.chance(1, 4) {
            fs.push(json!({"k": "kill", "at": 1 + r.below(m.ops), "n": 0, "ns": r.below(3_000_000)}));
            if boot {
                let f = disk_error(r, 0, ALL);
                fs.push(on_boot(f, 2 + r.below(k + 1)));
            }
        }
    }
    p["faults"] = json!(fs);
    p["errors"] = json!(true);
    p
}
// S11: series come and go, their tags change, the process dies. That a crash after a tag update makes
// rows lost or shown under another series is a known finding (findings/S11-tag-update-replay.json):
// plans have tag updates or crashes.
fn s11(r: &mut Rng, t: Tier) -> Value {
    let dies = r.chance(1, 2);
    let m = Mix { clients: 1 + r.below(2) as usize, ops: (15 + r.below(35)) * size(t), w: 45, d: 4, r: 16, ra: 4, tags: 14, fl: 8, cp: 4, ddl: 2, ut: if dies { 0 } else { 10 }, secs: 20, days: 2, ..Default::default() };
    let mut p = base(r, &m);
    p["cfg"]["index_cache"] = json!(*r.pick(&[1u64, 2, 4, 100_000]));
    if !dies {
        let fin = p["final"].as_array().unwrap().iter().filter(|f| *f != "restart").cloned().collect::<Vec<_>>();
        p["final"] = json!(fin);
    }
    if dies {
        let fs = crashes(r, &m, &["", "/index/", "/index/", "/wal/"]);
        p["faults"] = json!(fs);
    }
    p
}
/// Three nodes, each with a replica of everything.
fn cluster(r: &mut Rng, m: &Mix) -> Value {
    let mut p = base(r, m);
    p["nodes"] = json!(3);
    p["rescue"] = json!(true);
    p["db"]["replica"] = json!(3);
    p["db"]["shards"] = json!(1);
    p["db"]["days"] = json!(*r.pick(&[2, 365]));
    p["cfg"]["heartbeat_ms"] = json!(*r.pick(&[300u64, 1000]));
    p["cfg"]["snapshot_ms"] = json!(*r.pick(&[300u64, 2_000, 600_000]));
    p["down_ms"] = json!(*r.pick(&[20u64, 2_000, 12_000]));
    p
}
fn net_fault(r: &mut Rng, at: u64) -> Value {
    match r.below(3) {
        0 => json!({"k": "weather", "at": at, "loss": *r.pick(&[0u64, 50, 200, 500]), "slow": *r.pick(&[0u64, 100, 500]), "slow_ns": *r.pick(&[20_000_000u64, 700_000_000, 6_000_000_000]), "min_ns": 0, "max_ns": 2_000_000, "ms": 500 + r.below(10_000)}),
        _ => {
            let a = r.below(3);
            json!({"k": "cut", "at": at, "n": a, "b": (a + 1 + r.below(2)) % 3, "ms": 500 + r.below(15_000)})
        }
    }
}
// R01: messages are lost and late, links are cut, processes die
fn r01(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 3, ops: (12 + r.below(20)) * size(t), w: 70, d: 6, r: 10, fl: 6, cp: 2, ..Default::default() };
    let mut p = cluster(r, &m);
    let mut fs = vec![];
    for _ in 0..1 + r.below(4) {
        let at = 1 + r.below(m.ops);
        if r.chance(2, 5) {
            fs.push(json!({"k": "kill", "at": at, "n": r.below(3), "ns": r.below(3_000_000)}));
        } else {
            fs.push(net_fault(r, at));
        }
    }
    p["faults"] = json!(fs);
    p
}
// R02: processes die at any disk operation or time, often, with small logs that are cut and purged
fn r02(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 3, ops: (12 + r.below(20)) * size(t), w: 70, d: 5, r: 5, fl: 10, cp: 1, ..Default::default() };
    let mut p = cluster(r, &m);
    p["cfg"]["logs_keep"] = json!(*r.pick(&[0u64, 2, 5, 20]));
    p["cfg"]["snapshot_ms"] = json!(*r.pick(&[50u64, 300, 2_000]));
    p["cfg"]["wal_file"] = json!(*r.pick(&[600u64, 2_000, 20_000]));
    p["down_ms"] = json!(*r.pick(&[0u64, 20, 2_000]));
    let one = r.chance(1, 3);
    if one {
        p["nodes"] = json!(1);
        p["db"]["replica"] = json!(1);
        p["witness"] = json!(true);
    }
    let mut fs = vec![];
    for _ in 0..1 + r.below(4) {
        let at = if r.chance(1, 4) { 1 } else { 5 } + r.below(m.ops);
        let n = if one { 0 } else { r.below(3) };
        match r.below(5) {
            0 | 1 => fs.push(json!({"k": "kill", "at": at, "n": n, "ns": r.below(3_000_000)})),
            2 | 3 => {
                let d = *r.pick(&[4u64, 20, 150]);
                let skip = r.below(d);
                fs.push(json!({"k": "io", "do": "crash", "at": at, "n": n, "ops": "mutate", "skip": skip, "torn": r.chance(1, 2), "path": *r.pick(&["", "wal", "data.mdb"])}));
            }
            _ if one => {}
            _ => fs.push(net_fault(r, at)),
        }
    }
    p["faults"] = json!(fs);
    p
}
// R03: a node is away while the others go on, take snapshots and purge their logs
fn r03(r: &mut Rng, t: Tier) -> Value {
    let m = Mix { clients: 3, ops: (20 + r.below(20)) * size(t), w: 70, d: 8, r: 4, fl: 16, cp: 2, ..Default::default() };
    let mut p = cluster(r, &m);
    p["cfg"]["logs_keep"] = json!(*r.pick(&[0u64, 0, 1, 3]));
    p["cfg"]["snapshot_ms"] = json!(*r.pick(&[100u64, 300, 1_000]));
    p["cfg"]["snapshot_hold_s"] = json!(*r.pick(&[0u64, 1, 3600]));
    p["down_ms"] = json!(*r.pick(&[2_000u64, 8_000, 20_000]));
    let mut fs = vec![];
    for i in 0..1 + r.below(3) {
        let at = 5 + r.below(m.ops * 2 / 3);
        let n = r.below(3);
        match r.below(4) {
            0 | 1 => fs.push(json!({"k": "kill", "at": at, "n": n, "ns": r.below(3_000_000)})),
            2 => {
                let ms = 2_000 + r.below(15_000);
                fs.push(json!({"k": "cut", "at": at, "n": n, "b": (n + 1) % 3, "ms": ms}));
                fs.push(json!({"k": "cut", "at": at, "n": n, "b": (n + 2) % 3, "ms": ms}));
            }
            _ if i > 0 => fs.push(net_fault(r, at)),
            _ => fs.push(json!({"k": "kill", "at": at, "n": n, "ns": 0})),
        }
    }
    p["faults"] = json!(fs);
    p
}
macro_rules! sc {
    ($p:expr, $n:expr, $g:expr) => {
        Scenario { property: $p, name: $n, share: 1, gen: $g, run: drive::run, rule: "writes and full checks happened", real: REAL, stub: STUB, assumptions: &[] }
    };
}
pub fn scenarios() -> Vec<Scenario> {
    vec![
        sc!("S01", "process crashes", s01),
        sc!("S02", "power failures", s02),
        sc!("S03", "reads", s03),
        sc!("S04", "deletes", s04),
        sc!("S05", "overwrites", s05),
        Scenario {
            property: "S07",
            name: "log",
            share: 1,
            gen: crate::log::plan,
            run: crate::log::run,
            rule: "entries were stored and the log was read after every operation and every restart",
            real: &["tskv (write-ahead log, vnode storage it recovers into)", "replication (node storage, state storage)", "meta (server and client)"],
            stub: STUB,
            assumptions: &["the log is used as openraft uses it: entries that are applied are not truncated, and only those are purged"],
        },
        sc!("S08", "manifest crashes", s08),
        sc!("S10", "disk errors", s10),
        sc!("S11", "series", s11),
        sc!("R01", "cluster", r01),
        sc!("R02", "restarts", r02),
        sc!("R03", "absences", r03),
    ]
}
