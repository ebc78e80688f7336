//! M02: shard buckets of several databases, with data nodes that come and go.
use crate::gen;
use crate::world::*;
use meta::store::command::WriteCommand;
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use simrt::fsx;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

const NODES: u64 = 5;
fn options(r: &mut Rng) -> Value {
    json!({
        "shards": r.below(4) + u64::from(!r.chance(1, 12)),
        "replica": r.below(4),
        "dur": *r.pick(&["1d", "1d", "10d", "1h", "365d", "INF", "1ns"]),
        "ttl": *r.pick(&["INF", "INF", "INF", "10d", "3650d"]),
        "prec": *r.pick(&["ns", "ns", "ms", "us"]),
    })
}
fn plan(r: &mut Rng, t: Tier) -> Value {
    let mut ops = vec![];
    let nodes = 1 + r.below(NODES);
    for n in 1..=nodes {
        ops.push(json!({"k": "node", "n": n}));
        ops.push(json!({"k": "metrics", "n": n, "free": r.below(3) * 10, "ok": true}));
    }
    for i in 0..1 + r.below(3) {
        ops.push(json!({"k": "db", "d": i, "o": options(r)}));
    }
    let (faults, last) = (r.chance(1, 2), r.chance(1, 20));
    for _ in 0..15 + r.below(if t == Tier::Quick { 60 } else { 200 }) {
        let d = r.below(3);
        ops.push(match r.below(34) {
            0 => json!({"k": "node", "n": 1 + r.below(NODES)}),
            1 | 2 => json!({"k": "metrics", "n": 1 + r.below(NODES), "free": r.below(4) * 10, "ok": !r.chance(1, 5)}),
            3 => json!({"k": "db", "d": d, "o": options(r)}),
            4 => json!({"k": "alter", "d": d, "o": options(r)}),
            5 => json!({"k": "dropdb", "d": d}),
            6 | 7 => json!({"k": "drop", "d": d, "i": r.below(9)}),
            8 | 9 => json!({"k": "ids", "count": r.below(5)}),
            10 if faults => json!({"k": "down", "n": 1 + r.below(NODES)}),
            11 if faults => json!({"k": "up", "n": 1 + r.below(NODES)}),
            12 if faults => json!({"k": "kill"}),
            13 if faults => json!({"k": "move"}),
            14 | 15 if faults => json!({"k": "crash", "skip": r.below(8), "torn": r.chance(1, 2)}),
            _ => {
                let back = r.below(40) as i64;
                let ts = if r.chance(1, 12) { *r.pick(&[i64::MIN, i64::MIN + 1, i64::MAX - 1, if last { i64::MAX } else { 1 }, 0, -1]) } else { gen::ts(r) };
                // around now, in the units of the database, or anything
                if r.chance(1, 2) { json!({"k": "bucket", "d": d, "days": 3 - back, "off": r.below(3) as i64 - 1}) } else { json!({"k": "bucket", "d": d, "ts": ts}) }
            }
        });
    }
    json!({"sched": simh::sched(r), "ops": ops})
}
#[derive(Clone)]
struct Db {
    o: Value,
    /// the duration was changed while there were buckets
    mixed: bool,
    buckets: BTreeMap<u64, Value>,
}
fn per_day(p: &str) -> i64 {
    match p {
        "ms" => 86_400_000,
        "us" => 86_400_000_000,
        _ => 86_400_000_000_000,
    }
}
fn unit(o: &Value) -> i64 {
    per_day(o["prec"].as_str().unwrap())
}
fn schema(d: &str, o: &Value) -> models::schema::database_schema::DatabaseSchema {
    db_schema("t1", d, o["shards"].as_u64().unwrap(), o["replica"].as_u64().unwrap(), o["dur"].as_str().unwrap(), o["ttl"].as_str().unwrap(), o["prec"].as_str().unwrap())
}
/// The earliest timestamp that is kept now, when there is one.
fn kept_from(o: &Value, now: i64) -> Option<i128> {
    let days: i128 = match o["ttl"].as_str().unwrap() {
        "10d" => 10,
        "3650d" => 3650,
        _ => return None,
    };
    Some(now as i128 / (per_day("ns") / unit(o)) as i128 - days * unit(o) as i128)
}
struct Run {
    m: Arc<Machine>,
    index: u64,
    dbs: HashMap<String, Db>,
    used: BTreeSet<u64>,
    nodes: BTreeSet<u64>,
    healthy: HashMap<u64, bool>,
    up: BTreeSet<u64>,
    crash: Option<Value>,
    made: u64,
    moves: u32,
    refused: u64,
}
impl Run {
    fn apply(&mut self, w: &WriteCommand) -> Option<Value> {
        self.index += 1;
        if let Some(o) = self.crash.take() {
            let _ = fsx::arm(self.m.disk, fsx::Fault { skip: o["skip"].as_u64().unwrap() as u32, ops: fsx::ANY, path: String::new(), kind: fsx::Kind::Crash { torn: o["torn"] == true } });
        }
        let a = self.m.apply(&cmd(w), self.index).filter(|_| !simrt::node_dead(self.m.node()));
        fsx::disarm_all(self.m.disk);
        hlog!("{}: {}", short(&cmd(w)), a.as_ref().map(short).unwrap_or("died".into()));
        if a.is_none() {
            self.m.kill();
            self.m.open();
        }
        simrt::observe(hash(&a.as_ref().map(ok)));
        a
    }
    fn stored(&self, d: &str) -> Option<(Value, BTreeMap<u64, Value>)> {
        let md = self.m.read(&meta::store::command::ReadCommand::TenantMetaData(CLUSTER.into(), "t1".into()));
        let db = md["Ok"]["dbs"].get(d)?;
        Some((db["schema"].clone(), db["buckets"].as_array().unwrap().iter().map(|b| (b["id"].as_u64().unwrap(), b.clone())).collect()))
    }
    fn fresh(&mut self, id: u64, what: &str) {
        if id == 0 || !self.used.insert(id) {
            violation("an id is handed out twice", format!("{what} {id}"));
        }
    }
    /// The buckets of a database are those known before, `new` aside.
    fn buckets(&mut self, d: &str, ts: i64) -> Vec<Value> {
        let (_, now) = self.stored(d).unwrap_or_default();
        let db = self.dbs.get_mut(d).unwrap();
        for (id, b) in &db.buckets {
            if now.get(id) != Some(b) {
                violation("a bucket is gone or changed", format!("{d}: {b} is {:?}", now.get(id)));
            }
        }
        let new: Vec<Value> = now.iter().filter(|(id, _)| !db.buckets.contains_key(id)).map(|(_, b)| b.clone()).collect();
        let (old, mixed) = (db.buckets.clone(), db.mixed);
        db.buckets = now.clone();
        for b in &new {
            let at = |k: &str| b[k].as_i64().unwrap();
            let (s, e) = (at("start_time"), at("end_time"));
            if !mixed {
                for o in old.values() {
                    if s < o["end_time"].as_i64().unwrap() && o["start_time"].as_i64().unwrap() < e && ts != i64::MAX {
                        violation("buckets overlap", format!("{d}: {b} and {o}"));
                    }
                }
            }
            if !(s <= ts && ts < e) {
                let c = if ts == i64::MAX { "the last timestamp lies in no bucket" } else { "a bucket does not hold the timestamp it was made for" };
                violation(c, format!("{ts}: {b}"));
            }
        }
        new
    }
    fn shape(&mut self, b: &Value, o: &Value, live: &BTreeSet<u64>) {
        let id = |v: &Value| v["id"].as_u64().unwrap();
        self.fresh(id(b), "bucket");
        let groups = b["shard_group"].as_array().unwrap();
        let (shards, replica) = (o["shards"].as_u64().unwrap(), o["replica"].as_u64().unwrap().max(1));
        if groups.len() as u64 != shards {
            violation("a bucket has not the configured number of shards", format!("{shards}: {b}"));
        }
        for g in groups {
            self.fresh(id(g), "replica set");
            let vn = g["vnodes"].as_array().unwrap();
            let on: BTreeSet<u64> = vn.iter().map(|v| v["node_id"].as_u64().unwrap()).collect();
            for v in vn {
                self.fresh(id(v), "vnode");
            }
            if vn.len() as u64 != replica || on.len() != vn.len() {
                violation("a shard has not the configured number of replicas on distinct nodes", format!("{replica}: {g}"));
            }
            if !on.is_subset(live) {
                violation("a vnode is placed on a node that is not live", format!("{g}, live are {live:?}"));
            }
            if !vn.iter().any(|v| v["id"] == g["leader_vnode_id"] && v["node_id"] == g["leader_node_id"]) {
                violation("the leader is none of the replicas", format!("{g}"));
            }
        }
    }
    fn op(&mut self, o: &Value) {
        let c = || CLUSTER.to_string();
        let n = o["n"].as_u64().unwrap_or(0);
        let d = format!("d{}", o["d"].as_u64().unwrap_or(0));
        match o["k"].as_str().unwrap() {
            "node" => match self.apply(&WriteCommand::AddDataNode(c(), node_info(n))) {
                Some(a) if !ok(&a) => violation("a node is refused", short(&a)),
                Some(_) => {
                    self.nodes.insert(n);
                }
                None => {
                    let md = self.m.read(&meta::store::command::ReadCommand::DataNodes(c()));
                    if md["Ok"][0].as_array().unwrap().iter().any(|x| x["id"] == n) {
                        self.nodes.insert(n);
                    }
                }
            },
            "metrics" => {
                if self.apply(&WriteCommand::ReportNodeMetrics(c(), node_metrics(n, o["free"].as_u64().unwrap(), o["ok"] == true))).is_none() {
                    let md = self.m.read(&meta::store::command::ReadCommand::NodeMetrics(c()));
                    if let Some(x) = md["Ok"].as_array().unwrap().iter().find(|x| x["id"] == n) {
                        self.healthy.insert(n, x["status"] == "Healthy");
                    }
                } else {
                    self.healthy.insert(n, o["ok"] == true);
                }
            }
            "down" => {
                if self.up.remove(&n) {
                    simrt::note("fault:data node unreachable");
                    data_down(n);
                }
            }
            "up" => {
                if self.up.insert(n) {
                    data_up(n);
                }
            }
            "kill" => {
                self.m.kill();
                self.m.open();
            }
            "move" => {
                if let Some(b) = self.m.snapshot(self.index) {
                    // the store that follows has been somewhere else before
                    self.moves += 1;
                    let other = Machine::new(self.moves);
                    other.apply(&cmd(&WriteCommand::RetainID(c(), 3)), 1);
                    if other.restore(b) != Some(true) {
                        violation("a snapshot is refused", String::new());
                    }
                    self.m = other;
                }
            }
            "crash" => self.crash = Some(o.clone()),
            "ids" => {
                let count = o["count"].as_u64().unwrap();
                match self.apply(&WriteCommand::RetainID(c(), count as u32)) {
                    Some(a) => {
                        let first = a["Ok"].as_u64().unwrap_or_else(|| violation("ids are refused", short(&a)));
                        (first..first + count).for_each(|i| self.fresh(i, "id"));
                    }
                    None => {}
                }
            }
            "db" | "alter" => {
                let sc = schema(&d, &o["o"]);
                let alter = o["k"] == "alter";
                let had = self.dbs.contains_key(&d);
                let may = self.enough(&o["o"], false) && had == alter;
                let mut opt = o["o"].clone();
                let w = if alter { WriteCommand::AlterDB(c(), "t1".into(), sc.clone()) } else { WriteCommand::CreateDB(c(), "t1".into(), sc.clone()) };
                let done = match self.apply(&w) {
                    Some(a) => {
                        if ok(&a) != may {
                            violation("a database is accepted or refused wrongly", format!("{}: {}", short(&cmd(&w)), short(&a)));
                        }
                        may
                    }
                    None => {
                        let want = serde_json::to_value(&sc).unwrap();
                        self.stored(&d).is_some_and(|(s, _)| s == want)
                    }
                };
                if done {
                    let old = self.dbs.get(&d);
                    let buckets = old.map(|x| x.buckets.clone()).unwrap_or_default();
                    let mixed = old.is_some_and(|x| x.mixed || !x.buckets.is_empty() && (x.o["dur"] != opt["dur"] || x.o["prec"] != opt["prec"]));
                    if buckets.is_empty() {
                        opt["clean"] = json!(true);
                    }
                    self.dbs.insert(d, Db { o: opt, mixed, buckets });
                }
            }
            "dropdb" => {
                if self.apply(&WriteCommand::DropDB(c(), "t1".into(), d.clone())).is_none() {
                    // again, until it is gone
                    self.apply(&WriteCommand::DropDB(c(), "t1".into(), d.clone()));
                }
                self.dbs.remove(&d);
                if self.stored(&d).is_some() {
                    violation("a dropped database is still there", d);
                }
            }
            "drop" => {
                let Some(db) = self.dbs.get(&d) else { return };
                let Some((id, _)) = db.buckets.iter().nth(o["i"].as_u64().unwrap() as usize % db.buckets.len().max(1)) else { return };
                let id = *id;
                let a = self.apply(&WriteCommand::DeleteBucket(c(), "t1".into(), d.clone(), id as u32));
                let gone = self.stored(&d).is_none_or(|(_, b)| !b.contains_key(&id));
                if a.is_some() && !gone {
                    violation("a deleted bucket is still there", format!("{id}"));
                }
                if gone {
                    self.dbs.get_mut(&d).unwrap().buckets.remove(&id);
                }
            }
            "bucket" => self.bucket(&d, o),
            k => simh::harness_error(k.to_string()),
        }
    }
    fn live(&self, pinged: bool) -> BTreeSet<u64> {
        self.nodes.iter().copied().filter(|n| self.healthy.get(n) == Some(&true) && (!pinged || self.up.contains(n))).collect()
    }
    fn enough(&self, o: &Value, pinged: bool) -> bool {
        o["shards"].as_u64().unwrap() > 0 && o["replica"].as_u64().unwrap().max(1) <= self.live(pinged).len() as u64
    }
    fn bucket(&mut self, d: &str, o: &Value) {
        let db = self.dbs.get(d).cloned();
        let now = simrt::wall_ns(self.m.node());
        let ts = match (o["ts"].as_i64(), &db) {
            (Some(t), _) => t,
            (None, Some(x)) => {
                let u = unit(&x.o);
                now / (per_day("ns") / u) / u * u + o["days"].as_i64().unwrap() * u + o["off"].as_i64().unwrap()
            }
            (None, None) => now,
        };
        let a = self.apply(&WriteCommand::CreateBucket(CLUSTER.into(), "t1".into(), d.to_string(), ts));
        let Some(db) = db else {
            if a.as_ref().is_some_and(ok) {
                violation("a bucket of no database is accepted", short(a.as_ref().unwrap()));
            }
            return;
        };
        let covered = db.buckets.values().any(|b| b["start_time"].as_i64().unwrap() <= ts && ts < b["end_time"].as_i64().unwrap());
        let new = self.buckets(d, ts);
        if covered && !new.is_empty() || new.len() > 1 {
            violation("a timestamp gets a second bucket", format!("{d} {ts}: {new:?}"));
        }
        let live = self.live(true);
        if let Some(b) = new.first() {
            self.shape(&b.clone(), &db.o, &live);
            self.made += 1;
        }
        let Some(a) = a else { return };
        let expired = kept_from(&db.o, now).map(|k| (ts as i128) < k - (unit(&db.o) / 86_400) as i128);
        let surely_kept = kept_from(&db.o, now).map(|k| ts as i128 > k + unit(&db.o) as i128 / 24).unwrap_or(true);
        let can = self.enough(&db.o, true);
        match ok(&a) {
            true if !covered && new.is_empty() => violation("an accepted bucket is not there", format!("{d} {ts}: {}", short(&a))),
            true if !covered && (!can || expired == Some(true)) => violation("a bucket is accepted that has to be refused", format!("{d} {ts}: {}", short(&a))),
            false if covered || can && surely_kept => violation("a bucket is refused that has to be accepted", format!("{d} {ts}: {}", short(&a))),
            false => {
                self.refused += 1;
                if !new.is_empty() {
                    violation("a refused bucket is there", format!("{new:?}"));
                }
            }
            true => {
                // the answer shows it as well
                let shown = a["Ok"]["dbs"][d]["buckets"].as_array().map(|x| x.iter().any(|b| b["start_time"].as_i64().unwrap() <= ts && ts < b["end_time"].as_i64().unwrap())) == Some(true);
                if !shown {
                    violation("the answer does not show the bucket", format!("{ts}: {}", short(&a)));
                }
            }
        }
    }
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        (1..=NODES).for_each(data_up);
        let m = Machine::new(0);
        let mut r = Run { m, index: 0, dbs: HashMap::new(), used: BTreeSet::new(), nodes: BTreeSet::new(), healthy: HashMap::new(), up: (1..=NODES).collect(), crash: None, made: 0, moves: 0, refused: 0 };
        r.apply(&WriteCommand::CreateTenant(CLUSTER.into(), models::schema::tenant::Tenant::new(1, "t1".into(), Default::default())));
        for o in p["ops"].as_array().unwrap() {
            r.op(o);
        }
        let mut rep = Report::default();
        rep.nontrivial = r.made > 1;
        rep.count("buckets checked", r.made);
        rep.count("buckets refused", r.refused);
        rep.state = hash(&(r.used.len(), r.made, r.refused, r.dbs.keys().collect::<BTreeSet<_>>()));
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "M02",
        name: "buckets",
        share: 1,
        gen: plan,
        run,
        rule: "every bucket holds the timestamp it was made for, overlaps no other of its duration, has its shards and replicas on distinct live nodes, and no id is handed out twice",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
