//! M03: clients that follow the stream of changes. The protocol with a small client of our
//! own, over a ring of any size, restarts and restored snapshots; and the real client on
//! several nodes, over a network.
use crate::gen;
use crate::world::*;
use meta::model::meta_admin::AdminMeta;
use meta::store::command::{CircleBuf, ReadCommand, WriteCommand};
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};

const MS: u64 = 1_000_000;

fn pause(r: &mut Rng) -> u64 {
    match r.below(10) {
        0..=5 => 0,
        6 | 7 => r.below(3) * MS,
        8 => r.below(500) * MS,
        _ => r.below(40_000) * MS,
    }
}
// ------------------------------------------------------------------ the protocol
fn plan(r: &mut Rng, t: Tier) -> Value {
    let mut n = gen::Names::new();
    n.pings = false;
    let mut ops: Vec<Value> = gen::base(r, &mut n).into_iter().map(|c| json!({"k": "c", "c": c})).collect();
    let faults = r.chance(2, 3);
    for _ in 0..10 + r.below(if t == Tier::Quick { 50 } else { 150 }) {
        let mut o = match r.below(20) {
            0 | 1 => json!({"k": "burst", "n": 1 + r.below(12), "in": r.chance(1, 2)}),
            2 if faults => json!({"k": "kill"}),
            3 if faults => json!({"k": "move", "cs": (0..r.below(8)).map(|_| gen::command(r, &mut n)).collect::<Vec<_>>()}),
            _ => json!({"k": "c", "c": gen::command(r, &mut n)}),
        };
        o["z"] = json!(pause(r));
        ops.push(o);
    }
    let mut p = json!({
        "sched": simh::sched(r),
        "ring": *r.pick(&[2, 3, 4, 8, 16, 300, 0]),
        "http": r.chance(1, 2),
        "watchers": (0..1 + r.below(3)).map(|_| match r.below(4) {
            0 => json!([""]),
            1 => json!([]),
            2 => json!(["t1"]),
            _ => json!(["t", "t2"]),
        }).collect::<Vec<_>>(),
        "ops": ops,
    });
    crate::same::strip_limits(&mut p["ops"]);
    p
}
#[derive(Default)]
struct Follower {
    tenants: HashSet<String>,
    ver: u64,
    copy: BTreeMap<String, Value>,
    applied: u64,
    syncs: u64,
    /// told to start anew, not done yet
    stop: bool,
}
/// Whether a change of this key concerns one who watches these tenants.
fn concerns(key: &str, tenants: &HashSet<String>) -> bool {
    let Some(rest) = key.strip_prefix("/c/") else { return false };
    if rest == "auto_incr_id" {
        return false;
    }
    match rest.strip_prefix("tenants/") {
        None => true,
        Some(t) => tenants.contains("") || tenants.contains(t.split('/').next().unwrap()),
    }
}
type Dump = BTreeMap<String, Value>;
fn view(d: &Dump, tenants: &HashSet<String>) -> Dump {
    d.iter().filter(|(k, _)| concerns(k, tenants)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn parse(v: String) -> Value {
    serde_json::from_str(&v).unwrap_or(Value::String(v))
}
fn version(d: &Dump) -> u64 {
    d.get("/data_version").map(|v| v.as_u64().or(v.as_str().and_then(|s| s.parse().ok())).unwrap_or_else(|| simh::harness_error(format!("version {v}")))).unwrap_or(0)
}
async fn dump(l: &Live) -> Dump {
    l.sm.read().await.backup().expect("backup").map.into_iter().map(|(k, v)| (k, parse(v))).collect()
}
fn entry(f: &mut Follower, i: usize, e: &Value) {
    let (ver, key) = (e["ver"].as_u64().unwrap(), e["key"].as_str().unwrap());
    if ver <= f.ver {
        violation("a change is delivered twice or out of order", format!("watcher {i} is at {}: {e}", f.ver));
    }
    f.ver = ver;
    f.applied += 1;
    if !concerns(key, &f.tenants) {
        return;
    }
    if e["tye"] == meta::store::command::ENTRY_LOG_TYPE_SET {
        f.copy.insert(key.to_string(), parse(e["val"].as_str().unwrap().to_string()));
    } else {
        f.copy.remove(key);
    }
}
/// One client, until the process it talks to dies.
fn follow(m: &Arc<Machine>, f: &Arc<Mutex<Follower>>, i: usize, http: bool) -> simrt::Tid {
    let (l, f, node) = (m.live(), f.clone(), m.node());
    simrt::spawn_on("watcher", node, move || {
        let rt = l.rt.clone();
        rt.block_on(async {
            while !lk(&f).stop {
                let (tenants, base) = {
                    let g = lk(&f);
                    (g.tenants.clone(), g.ver)
                };
                let req = serde_json::to_vec(&("x", CLUSTER, &tenants, base)).unwrap().into();
                let a = if http { meta::service::http::HttpServer::process_watch(req, l.sm.clone()).await } else { meta::service::single::SingleServer::process_watch(req, l.sm.clone()).await };
                let a: Value = serde_json::from_str(&a.unwrap_or_else(|e| violation("a watch request fails", e.to_string()))).expect("answer");
                let a = a["Ok"].clone();
                if a["full_sync"] == true {
                    let d = dump(&l).await;
                    let mut g = lk(&f);
                    g.ver = version(&d);
                    g.copy = view(&d, &tenants);
                    g.syncs += 1;
                    hlog!("watcher {i} at {base} starts anew at {}", g.ver);
                    drop(g);
                    // as one that asks the server for everything
                    tokio::time::sleep(std::time::Duration::from_millis(1)).await;
                } else {
                    let mut g = lk(&f);
                    let es = a["entry_logs"].as_array().unwrap();
                    for e in es {
                        entry(&mut g, i, e);
                    }
                    g.ver = a["max_ver"].as_u64().unwrap();
                    hlog!("watcher {i} at {base} is given {} changes, up to {}", es.len(), g.ver);
                }
            }
        });
        std::mem::forget(l);
    })
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let (ring, http) = (p["ring"].as_u64().unwrap() as usize, p["http"] == true);
        let mut m = Machine::new(0);
        // it applies everything, and what `m` has missed comes from it
        let other = Machine::new(1);
        let small = move |m: &Arc<Machine>| {
            if ring > 0 {
                m.on(move |l| l.rt.block_on(async { *l.sm.read().await.watch.logs.write() = CircleBuf::new(ring) }));
            }
        };
        small(&m);
        let fs: Vec<Arc<Mutex<Follower>>> = p["watchers"].as_array().unwrap().iter().map(|t| Arc::new(Mutex::new(Follower { tenants: t.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(), ..Default::default() }))).collect();
        let mut ts: Vec<simrt::Tid> = fs.iter().enumerate().map(|(i, f)| follow(&m, f, i, http)).collect();
        let mut index = 0;
        let mut both = |m: &Arc<Machine>, c: &Value| {
            index += 1;
            m.apply(c, index);
            other.apply(c, index);
        };
        for o in p["ops"].as_array().unwrap() {
            match o["k"].as_str().unwrap() {
                "c" => {
                    hlog!("{}", short(&o["c"]));
                    both(&m, &o["c"]);
                }
                "burst" => {
                    let at = if o["in"] == true { "/c/tenants/t1/x" } else { "/c/x" };
                    hlog!("burst {}", o["n"]);
                    for i in 0..o["n"].as_u64().unwrap() {
                        both(&m, &cmd(&WriteCommand::Set { key: format!("{at}{}", i % 3), value: format!("{i}") }));
                    }
                }
                "kill" => {
                    hlog!("the server is killed");
                    m.kill();
                    m.open();
                    small(&m);
                    ts = fs.iter().enumerate().map(|(i, f)| follow(&m, f, i, http)).collect();
                }
                "move" => {
                    for c in o["cs"].as_array().unwrap() {
                        index_of(&other, c);
                    }
                    let b = other.snapshot(0).unwrap();
                    hlog!("the server restores a snapshot");
                    if m.restore(b) != Some(true) {
                        violation("a snapshot is refused", String::new());
                    }
                }
                k => simh::harness_error(k.to_string()),
            }
            simrt::observe(hash(&fs.iter().map(|f| lk(f).ver).collect::<Vec<_>>()));
            simrt::sleep(o["z"].as_u64().unwrap_or(0));
        }
        // an answer takes at most half a minute
        simrt::sleep(65_000 * MS);
        let d = m.dump();
        for (i, f) in fs.iter().enumerate() {
            let g = lk(f);
            let want = view(&d, &g.tenants);
            for k in want.keys().chain(g.copy.keys()) {
                if want.get(k) != g.copy.get(k) {
                    let s = |x: Option<&Value>| x.map(short).unwrap_or("nothing".into());
                    violation("a watcher missed a change", format!("watcher {i} of {:?} at {}, the server at {}: {k} is {} and {} there", g.tenants, g.ver, version(&d), s(g.copy.get(k)), s(want.get(k))));
                }
            }
        }
        let mut rep = Report::default();
        rep.nontrivial = fs.iter().any(|f| lk(f).applied > 3);
        rep.count("changes delivered", fs.iter().map(|f| lk(f).applied).sum());
        rep.count("full syncs", fs.iter().map(|f| lk(f).syncs).sum());
        rep.state = hash(&d);
        fs.iter().for_each(|f| lk(f).stop = true);
        let _ = &mut m;
        std::mem::forget(std::mem::take(&mut ts));
        simrt::kill_node(m.node());
        rep
    })
}
fn index_of(m: &Arc<Machine>, c: &Value) {
    m.apply(c, 0);
}

// ------------------------------------------------------------------ the real client
const CLUSTER2: &str = CLUSTER;
fn clients_plan(r: &mut Rng, t: Tier) -> Value {
    let mut n = gen::Names::new();
    n.pings = true;
    let mut ops: Vec<Value> = gen::base(r, &mut n).into_iter().map(|c| json!({"k": "c", "c": c})).collect();
    let faults = r.chance(2, 3);
    for _ in 0..10 + r.below(if t == Tier::Quick { 40 } else { 120 }) {
        let n_ = r.below(3);
        let mut o = match r.below(18) {
            0..=3 => json!({"k": "use", "n": n_, "t": gen::tenant(r), "wait": r.chance(1, 3)}),
            4 if faults => json!({"k": "kill", "ms": r.below(3000)}),
            5 if faults => json!({"k": "weather", "loss": r.below(200) * r.below(2), "slow": r.below(500)}),
            6 if faults => json!({"k": "calm"}),
            _ => json!({"k": "c", "n": n_, "c": gen::command(r, &mut n)}),
        };
        o["z"] = json!(pause(r) / 4);
        o["n"] = json!(n_);
        // a first use, beside changes of what is used
        let busy = o["k"] == "use" && r.chance(1, 2);
        let t = o["t"].as_str().unwrap_or_default().to_string();
        if busy {
            o["z"] = json!(r.below(3) * MS);
        }
        ops.push(o);
        if busy {
            for i in 0..1 + r.below(3) {
                let w = if r.chance(1, 3) { WriteCommand::ReportNodeMetrics(CLUSTER.into(), node_metrics(1 + r.below(3), 10 * r.below(3), true)) } else { WriteCommand::CreateDB(CLUSTER.into(), t.clone(), db_schema(&t, &format!("x{}", ops.len()), 1, 1, "1d", "INF", "ns")) };
                ops.push(json!({"k": "c", "n": n_ + 1 + i, "c": cmd(&w), "z": r.below(3) * MS}));
            }
        }
    }
    json!({"sched": simh::sched(r), "nodes": 2 + r.below(2), "ops": ops})
}
pub struct Server {
    pub disk: usize,
    pub dir: String,
    pub inc: u32,
}
const ADDR: &str = "127.0.0.1:8901";
fn config(id: u64) -> config::tskv::Config {
    let mut c = config::tskv::Config::default();
    c.global.node_id = id;
    c.global.cluster_name = CLUSTER2.into();
    c.meta.service_addr = vec![ADDR.into()];
    c
}
impl Server {
    pub fn start(&mut self) {
        self.inc += 1;
        simrt::fsx::set_node(self.disk, self.inc);
        let (dir, done) = (self.dir.clone(), Arc::new(Mutex::new(false)));
        let d = done.clone();
        let t = simrt::spawn_on("meta", self.inc, move || {
            let rt = runtime("meta");
            rt.block_on(async {
                meta::service::single::start_singe_meta_server(dir, CLUSTER2.into(), &config(0).meta, 1 << 26).await;
            });
            std::mem::forget(rt);
            *lk(&d) = true;
        });
        wait(t, self.inc);
        if !*lk(&done) {
            violation("the metadata store does not open", format!("{:?}", simh::sut_panics()));
        }
        simrt::sleep(MS);
    }
    pub fn kill(&self) {
        simrt::note("fault:process kill");
        simrt::kill_node(self.inc);
        tonic::net::unlisten(ADDR);
        simrt::fsx::process_crash(self.disk);
    }
}
pub struct Client {
    pub node: u32,
    pub admin: Arc<AdminMeta>,
    pub http: Arc<meta::client::MetaHttpClient>,
    pub rt: Arc<tokio::runtime::Runtime>,
}
impl Client {
    pub fn new(i: u32) -> Client {
        let node = 2000 + i;
        let out: Arc<Mutex<Option<Client>>> = Arc::new(Mutex::new(None));
        let o = out.clone();
        let t = simrt::spawn_on("client", node, move || {
            let rt = runtime("client");
            let reg = Arc::new(metrics::metric_register::MetricsRegister::default());
            let admin = rt.block_on(AdminMeta::new(config(1 + i as u64), reg.clone()));
            let http = Arc::new(meta::client::MetaHttpClient::new(ADDR, reg));
            *lk(&o) = Some(Client { node, admin, http, rt });
        });
        wait(t, node);
        let c = lk(&out).take();
        c.unwrap_or_else(|| violation("a client does not start", format!("{:?}", simh::sut_panics())))
    }
    pub fn on<R: Send + 'static, F: std::future::Future<Output = R> + Send>(&self, f: impl FnOnce(Arc<AdminMeta>, Arc<meta::client::MetaHttpClient>) -> F + Send + 'static) -> R {
        let out = Arc::new(Mutex::new(None));
        let (o, a, h, rt) = (out.clone(), self.admin.clone(), self.http.clone(), self.rt.clone());
        let t = simrt::spawn_on("client", self.node, move || {
            calm(move || {
                let r = rt.block_on(f(a, h));
                *lk(&o) = Some(r);
                std::mem::forget(rt);
            })
        });
        wait(t, self.node);
        let r = lk(&out).take();
        r.unwrap_or_else(|| match simh::sut_panics().first() {
            Some(p) => violation("panic", format!("{} at {}", p.0, p.1)),
            None => simh::harness_error(format!("{:?}", simh::panics())),
        })
    }
}
fn bag(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(bag).collect();
            a.sort_by_key(|x| x.to_string());
            Value::Array(a)
        }
        Value::Object(m) => m.iter().map(|(k, v)| (k.clone(), bag(v))).collect(),
        v => v.clone(),
    }
}
fn clients_run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        tonic::net::look_every(1_000 * MS);
        (1..=4).for_each(data_up);
        let dir = mk(&format!("{}/server", simh::scratch()));
        let mut s = Server { disk: simrt::fsx::add_disk(&dir, 0), dir, inc: 1000 };
        s.start();
        let cs: Vec<Client> = (0..p["nodes"].as_u64().unwrap() as u32).map(Client::new).collect();
        let (mut sent, mut failed) = (0, 0);
        let used: Arc<Mutex<HashSet<(usize, &'static str)>>> = Default::default();
        let mut beside = vec![];
        for o in p["ops"].as_array().unwrap() {
            let c = &cs[o["n"].as_u64().unwrap_or(0) as usize % cs.len()];
            match o["k"].as_str().unwrap() {
                "c" => {
                    let w: WriteCommand = serde_json::from_str(&o["c"].to_string()).expect("command");
                    let r = c.on(move |_, h| async move { h.write::<Value>(&w).await.map_err(|e| e.to_string()) });
                    hlog!("n{} {}: {}", c.node, short(&o["c"]), r.as_ref().map(short).unwrap_or_else(|e| e.clone()));
                    sent += 1;
                    failed += r.is_err() as u64;
                }
                "use" => {
                    let t = o["t"].as_str().unwrap().to_string();
                    let i = o["n"].as_u64().unwrap_or(0) as usize % cs.len();
                    let (a, rt, done) = (c.admin.clone(), c.rt.clone(), used.clone());
                    // goes on beside what follows, or not
                    let h = simrt::spawn_on("use", c.node, move || {
                        calm(move || {
                            let r = rt.block_on(a.tenant_meta(&t)).is_some();
                            hlog!("n{i} uses {t}: {r}");
                            if let (true, Some(t)) = (r, ["t1", "t", "t2"].into_iter().find(|x| t == *x)) {
                                lk(&done).insert((i, t));
                            }
                            std::mem::forget(rt);
                        })
                    });
                    if o["wait"] == true {
                        wait(h, c.node);
                    } else {
                        beside.push((h, c.node));
                    }
                }
                "kill" => {
                    hlog!("the server is killed");
                    s.kill();
                    simrt::sleep(o["ms"].as_u64().unwrap() * MS);
                    s.start();
                }
                "weather" => tonic::net::weather(tonic::net::Weather { loss_pm: o["loss"].as_u64().unwrap(), slow_pm: o["slow"].as_u64().unwrap(), slow_ns: 3_000 * MS, min_ns: 100_000, max_ns: 5 * MS }),
                "calm" => tonic::net::calm(),
                k => simh::harness_error(k.to_string()),
            }
            simrt::sleep(o["z"].as_u64().unwrap_or(0));
        }
        tonic::net::calm();
        tonic::net::mend_all();
        beside.into_iter().for_each(|(h, n)| wait(h, n));
        simrt::sleep(200_000 * MS);
        let read = |q: ReadCommand| {
            cs[0].on(move |_, h| async move { h.read::<Value>(&q).await.map_err(|e| e.to_string()) })
        };
        let mut compared = 0;
        for (i, c) in cs.iter().enumerate() {
            for t in ["t1", "t", "t2"] {
                let Ok(want) = read(ReadCommand::TenantMetaData(CLUSTER.into(), t.into())) else { continue };
                // as the node knows it, when it has used it
                if !lk(&used).contains(&(i, t)) {
                    continue;
                }
                let got = c.on(move |a, _| async move { a.tenant_meta(t).await.map(|m| json!({"dbs": m.list_databases().unwrap()})).unwrap_or_default() });
                if got.is_null() {
                    continue;
                }
                compared += 1;
                for k in ["dbs"] {
                    let (a, b) = (bag(&got[k]), bag(&want[k]));
                    if a != b {
                        violation("a node does not learn of a change", format!("node {i}, {k} of tenant {t}: {} there and {} on the server", short(&a), short(&b)));
                    }
                }
            }
            let Ok(want) = read(ReadCommand::DataNodes(CLUSTER.into())) else { violation("a read fails without a fault", String::new()) };
            let got = c.on(|a, _| async move { serde_json::to_value(a.data_nodes().await).unwrap() });
            let want = bag(&want[0]);
            if bag(&got) != want {
                violation("a node does not learn of a change", format!("node {i}, data nodes: {} there and {} on the server", short(&bag(&got)), short(&want)));
            }
        }
        let mut rep = Report::default();
        rep.nontrivial = compared > 0;
        rep.count("tenants compared", compared);
        rep.count("commands sent", sent);
        rep.count("commands failed", failed);
        rep.state = hash(&(compared, sent, failed, simrt::now()));
        rep
    })
}

pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "M03",
        name: "protocol",
        share: 1,
        gen: plan,
        run,
        rule: "changes arrive in order and once, and half a minute after the last change every watcher's copy, kept up to date from the changes alone and renewed only when told so, equals what the server holds for it",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }, Scenario {
        property: "M03",
        name: "clients",
        share: 1,
        gen: clients_plan,
        run: clients_run,
        rule: "some time after the last change and fault every node's picture of the tenants it uses and of the data nodes equals what the server holds",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
