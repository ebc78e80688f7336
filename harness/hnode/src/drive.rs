//! Runs a plan: clients on the nodes, faults, restarts, and the checks.
use crate::cluster::*;
use crate::db::{self, Query};
use crate::model::*;
use simh::{hlog, json, Report, Value};
use simrt::fsx;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const MS: u64 = 1_000_000;
const S: u64 = 1_000 * MS;

pub struct Run {
    pub c: Arc<Cluster>,
    pub plan: Value,
    pub m: Mutex<Model>,
    st: Mutex<St>,
    pub counts: Mutex<BTreeMap<String, u64>>,
}
#[derive(Default)]
struct St {
    /// next operation of each client, and when the one it is doing began
    next: Vec<usize>,
    busy: Vec<Option<u64>>,
    total: u64,
    fired: Vec<bool>,
    epoch_end: Vec<bool>,
    power: Vec<Option<String>>,
    kills: u32,
    powered: bool,
    /// no more disk errors
    sound: bool,
    pardoned: usize,
    /// a node was started while its disk had errors
    sick_start: bool,
    faults_seen: bool,
    /// nodes restarted because a raft member of them had stopped
    rescued: std::collections::BTreeSet<usize>,
    pause: bool,
}
fn ops_of(plan: &Value, c: usize) -> Vec<Value> {
    plan["ops"].as_array().unwrap().iter().filter(|o| o["c"].as_u64() == Some(c as u64)).cloned().collect()
}

impl Run {
    pub fn new(plan: &Value) -> Arc<Run> {
        let n = plan["clients"].as_u64().unwrap_or(1) as usize;
        let f = plan["faults"].as_array().map(|f| f.len()).unwrap_or(0);
        let nodes = plan["nodes"].as_u64().unwrap_or(1) as usize;
        Arc::new(Run {
            c: Cluster::new(plan),
            plan: plan.clone(),
            m: Mutex::new(Model::new(plan)),
            st: Mutex::new(St { next: vec![0; n], busy: vec![None; n], fired: vec![false; f], epoch_end: vec![false; n], power: vec![None; nodes], ..Default::default() }),
            counts: Mutex::new(BTreeMap::new()),
        })
    }
    pub fn count(&self, k: &str) {
        *lk(&self.counts).entry(k.to_string()).or_default() += 1;
    }
    pub fn clients(&self) -> usize {
        lk(&self.st).next.len()
    }
    pub fn node_of(&self, c: usize) -> usize {
        c % self.c.nodes.len()
    }
    pub fn tables(&self) -> Vec<String> {
        self.plan["tables"].as_array().map(|t| t.iter().map(|t| t["name"].as_str().unwrap().to_string()).collect()).unwrap_or_default()
    }
    pub fn fail(&self, b: Bad) -> ! {
        hlog!("violation: {} {}", b.class, b.detail);
        // known: what happened before a tag update is not told apart when the log is applied again
        let ut = self.plan["ops"].as_array().unwrap().iter().any(|o| o["k"] == "ut");
        if ut && (0..self.c.nodes.len()).any(|i| self.c.inc(i) > 1) {
            simh::violation("a crash after a tag update", format!("{}: {}", b.class, b.detail))
        }
        // known: what happened before a drop is applied again with the columns there are today
        let drop = self.plan["ops"].as_array().unwrap().iter().any(|o| matches!(o["k"].as_str(), Some("dc" | "dt")));
        if drop && lk(&self.st).powered {
            simh::violation("a power failure after a drop", format!("{}: {}", b.class, b.detail))
        }
        // known: an error while the log is applied again ends that, and the vnode opens without the rest
        if lk(&self.st).sick_start {
            simh::violation("a start on a failing disk", format!("{}: {}", b.class, b.detail))
        }
        simh::violation(&b.class, b.detail)
    }
    /// Faults of a kind that makes operations fail may be at work.
    fn errors_expected(&self) -> bool {
        self.c.nodes.len() > 1 || self.disk_errors()
    }
    fn disk_errors(&self) -> bool {
        self.plan["errors"].as_bool().unwrap_or(false)
    }
    /// Runs `f` in a thread of node `i`. None: the node died.
    pub fn on<T: Send + 'static>(&self, i: usize, f: impl FnOnce(Arc<Live>) -> T + Send + 'static) -> Option<T> {
        let l = self.c.live(i)?;
        let out = Arc::new(Mutex::new(None));
        let o = out.clone();
        let inc = l.inc;
        let t = simrt::spawn_on("task", inc, move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(l)));
            *lk(&o) = Some(r);
        });
        let mut pause = MS / 20;
        loop {
            let r = lk(&out).take();
            match r {
                Some(Ok(v)) => return Some(v),
                Some(Err(_)) => match simh::panics().first() {
                    Some(p) => simh::violation("panic in a client call", format!("{} at {}", p.0, p.1)),
                    None => simh::harness_error("a task unwound"),
                },
                None => {}
            }
            if simrt::node_dead(inc) {
                return None;
            }
            let _ = &t;
            simrt::sleep(pause);
            pause = (pause * 2).min(5 * MS);
        }
    }

    /// Boots the nodes, creates the database and its tables.
    pub fn boot(self: &Arc<Self>) {
        for i in 0..self.c.nodes.len() {
            self.c.launch(i);
        }
        for i in 0..self.c.nodes.len() {
            match self.c.started(i) {
                Started::Up(_) => {}
                Started::Died => simh::harness_error("a node died at its first start"),
                Started::Failed(e) => simh::violation("a node does not start", e),
            }
        }
        let p = self.plan.clone();
        let r = self.on(0, move |l| {
            l.rt.clone().block_on(async move {
                db::create_db(&l, &p).await?;
                for t in p["tables"].as_array().unwrap_or(&vec![]) {
                    if t["create"].as_bool().unwrap_or(true) {
                        db::create_table(&l, t["name"].as_str().unwrap(), &t["enc"], &p).await?;
                    }
                }
                Ok::<(), String>(())
            })
        });
        match r {
            Some(Ok(())) => {}
            r => simh::violation("cannot create the database", format!("{r:?}")),
        }
        for i in 1..self.c.nodes.len() {
            let want = self.tables().len();
            for k in 0..600 {
                let ok = self.on(i, move |l| {
                    l.rt.clone().block_on(async move {
                        match l.meta.tenant_meta(TENANT).await {
                            Some(t) => t.list_tables(DB).map(|t| t.len() >= want).unwrap_or(false),
                            None => false,
                        }
                    })
                });
                if ok == Some(true) {
                    break;
                }
                if k == 599 {
                    simh::violation("a node does not learn of the database", format!("node {i}"));
                }
                simrt::sleep(100 * MS);
            }
        }
        hlog!("booted");
    }

    // ------------------------------------------------------------ faults
    fn fire(self: &Arc<Self>, at_boot: Option<(usize, u64)>) {
        let fs = self.plan["faults"].as_array().cloned().unwrap_or_default();
        let total = lk(&self.st).total;
        for (k, f) in fs.iter().enumerate() {
            let due = match (at_boot, f["boot"].as_u64()) {
                (Some((n, b)), Some(x)) => b == x && f["n"].as_u64().unwrap_or(0) as usize == n,
                (None, None) => f["at"].as_u64().unwrap_or(0) <= total,
                _ => false,
            };
            {
                let mut g = lk(&self.st);
                if !due || g.fired[k] {
                    continue;
                }
                g.fired[k] = true;
                g.faults_seen = true;
            }
            self.start_fault(f.clone());
        }
    }
    fn start_fault(self: &Arc<Self>, f: Value) {
        let n = f["n"].as_u64().unwrap_or(0) as usize;
        let disk = self.c.nodes[n].disk;
        hlog!("fault {f}");
        match f["k"].as_str().unwrap() {
            "kill" | "power" => {
                let me = self.clone();
                let ns = f["ns"].as_u64().unwrap_or(0);
                let loss = if f["k"] == "power" { Some(f["loss"].as_str().unwrap_or("random").to_string()) } else { None };
                lk(&self.st).kills += 1;
                simrt::spawn_on("fault", 0, move || {
                    simrt::sleep(ns);
                    lk(&me.st).power[n] = loss;
                    me.c.kill(n);
                    lk(&me.st).kills -= 1;
                });
            }
            "io" => {
                use fsx::Op;
                let ops = match f["ops"].as_str().unwrap_or("any") {
                    "write" => fsx::mask(&[Op::Write]),
                    "sync" => fsx::mask(&[Op::Sync]),
                    "meta" => fsx::mask(&[Op::Create, Op::Rename, Op::Unlink, Op::Trunc, Op::Mkdir, Op::Rmdir]),
                    "read" => fsx::mask(&[Op::Read]),
                    "open" => fsx::mask(&[Op::Open]),
                    "rename" => fsx::mask(&[Op::Rename]),
                    "mutate" => fsx::mask(&[Op::Write, Op::Sync, Op::Create, Op::Rename, Op::Unlink, Op::Trunc, Op::Mkdir, Op::Rmdir]),
                    _ => fsx::ANY,
                };
                let kind = match f["do"].as_str().unwrap() {
                    "crash" => fsx::Kind::Crash { torn: f["torn"].as_bool().unwrap_or(false) },
                    "err" => fsx::Kind::Err { errno: f["errno"].as_i64().unwrap_or(5) as i32, times: f["times"].as_u64().unwrap_or(1) as u32 },
                    "short" => fsx::Kind::Short { times: f["times"].as_u64().unwrap_or(1) as u32 },
                    "stall" => fsx::Kind::Stall { ns: f["ns"].as_u64().unwrap_or(MS) },
                    x => panic!("fault {x}"),
                };
                if f["do"] == "crash" && f["power"].is_string() {
                    lk(&self.st).power[n] = f["power"].as_str().map(|s| s.to_string());
                }
                fsx::arm(disk, fsx::Fault { skip: f["skip"].as_u64().unwrap_or(0) as u32, ops, path: f["path"].as_str().unwrap_or("").to_string(), kind });
            }
            "room" => {
                fsx::set_room(disk, Some(f["bytes"].as_u64().unwrap_or(0)));
                let ms = f["ms"].as_u64().unwrap_or(100);
                simrt::spawn_on("fault", 0, move || {
                    simrt::sleep(ms * MS);
                    fsx::set_room(disk, None);
                });
            }
            "cut" => {
                let (a, b, ms) = (n, f["b"].as_u64().unwrap() as usize, f["ms"].as_u64().unwrap_or(100));
                simrt::note("fault:partition");
                self.c.cut(a, b);
                let me = self.clone();
                simrt::spawn_on("fault", 0, move || {
                    simrt::sleep(ms * MS);
                    me.c.mend();
                });
            }
            "weather" => {
                let g = |k: &str| f[k].as_u64().unwrap_or(0);
                simrt::note("fault:network weather");
                tonic::net::weather(tonic::net::Weather { loss_pm: g("loss"), slow_pm: g("slow"), slow_ns: g("slow_ns"), min_ns: g("min_ns"), max_ns: g("max_ns") });
                let ms = g("ms");
                simrt::spawn_on("fault", 0, move || {
                    simrt::sleep(ms * MS);
                    tonic::net::calm();
                });
            }
            x => panic!("fault {x}"),
        }
    }
    /// From now on nothing is disturbed any more.
    pub fn calm(&self) {
        let k = lk(&self.st).fired.len();
        lk(&self.st).fired = vec![true; k];
        for n in &self.c.nodes {
            fsx::disarm_all(n.disk);
            fsx::set_room(n.disk, None);
        }
        self.c.mend();
        tonic::net::calm();
    }

    // ------------------------------------------------------------ clients
    fn launch_clients(self: &Arc<Self>, node: usize) {
        let Some(l) = self.c.live(node) else { return };
        for c in 0..self.clients() {
            if self.node_of(c) != node {
                continue;
            }
            let (me, l) = (self.clone(), l.clone());
            simrt::spawn_on(&format!("c{c}"), l.inc, move || me.client(c, l));
        }
    }
    fn client(self: &Arc<Self>, c: usize, l: Arc<Live>) {
        let ops = ops_of(&self.plan, c);
        loop {
            while lk(&self.st).pause {
                simrt::sleep(MS);
            }
            let i = lk(&self.st).next[c];
            if i >= ops.len() {
                return;
            }
            {
                let mut g = lk(&self.st);
                g.total += 1;
                g.next[c] += 1;
                g.busy[c] = Some(simrt::now());
            }
            self.fire(None);
            self.op(c, &ops[i], &l);
            lk(&self.st).busy[c] = None;
            let w = ops[i]["z"].as_u64().unwrap_or(0);
            if w > 0 {
                simrt::sleep(w * 1000);
            }
        }
    }
    fn faults_seen(&self) -> bool {
        lk(&self.st).faults_seen
    }
    fn op(self: &Arc<Self>, c: usize, op: &Value, l: &Arc<Live>) {
        let k = op["k"].as_str().unwrap();
        let t = op["t"].as_str().unwrap_or("").to_string();
        self.count(&format!("op {k}"));
        match k {
            "r" | "ra" | "tags" => self.read_op(c, op, l),
            "z" => simrt::sleep(op["ms"].as_u64().unwrap_or(1) * MS),
            _ => {
                if k == "ut" && lk(&self.m).lost(c, &t) {
                    return;
                }
                lk(&self.m).begin(c, op);
                let w = lk(&self.m).w(c);
                hlog!("c{c} {op}");
                let r = l.rt.block_on(self.exec(op, &w, l));
                hlog!("c{c} {k} -> {r:?}");
                // Nodes learn of a changed schema a moment later. Until then they use the old one, and
                // what a client does in that moment is not judged: the client waits for it.
                if matches!(k, "dt" | "dc" | "ac" | "ae") && r != Ok(false) {
                    self.informed(&t);
                }
                match r {
                    // an earlier attempt that failed goes on: the operation takes effect at some time
                    Err(e) if self.faults_seen() && e == db::RETRIED => {
                        let mut m = lk(&self.m);
                        m.uncertain(c);
                        m.next_epoch(c);
                    }
                    Ok(true) => lk(&self.m).acked(c),
                    Ok(false) => lk(&self.m).refused(c),
                    Err(e) => {
                        if !self.faults_seen() || !self.errors_expected() {
                            for l in tokio::sync::waiting() {
                                eprintln!("waiting at {l}");
                            }
                            simh::violation("an operation fails without a fault", format!("{op}: {e}"));
                        }
                        self.count("op failed");
                        let mut m = lk(&self.m);
                        m.uncertain(c);
                        m.next_epoch(c);
                    }
                }
            }
        }
    }
    /// Waits until every running node has the latest schema of the table.
    fn informed(self: &Arc<Self>, t: &str) {
        for i in 0..self.c.nodes.len() {
            for _ in 0..500 {
                let t = t.to_string();
                match self.on(i, move |l| l.rt.clone().block_on(db::fresh(&l, &t))) {
                    Some(Ok(false)) => simrt::sleep(20 * MS),
                    _ => break,
                }
            }
        }
    }
    pub async fn exec(&self, op: &Value, w: &str, l: &Arc<Live>) -> Result<bool, String> {
        let t = op["t"].as_str().unwrap_or("");
        let ws = ("w".to_string(), vec![w.to_string()]);
        let clock = Clock::of(&self.plan);
        match op["k"].as_str().unwrap() {
            "w" => {
                let mut text = String::new();
                for ((_, h, ts), v) in writes(op) {
                    let fs: Vec<String> = v.iter().map(|(f, v)| format!("{f}={}", field_text(v))).collect();
                    text.push_str(&format!("{t},w={w},h={h} {} {}\n", fs.join(","), clock.ts(ts)));
                }
                db::write(l, &self.plan, &text).await.map(|_| true)
            }
            "d" => {
                let mut f = vec![ws];
                let hs = strs(&op["h"]);
                if !hs.is_empty() {
                    f.push(("h".into(), hs));
                }
                if db::schema(l, t).await?.is_none() {
                    return Ok(false);
                }
                let nt = nums(&op["nt"]).into_iter().map(|t| clock.ts(t)).collect();
                db::delete(l, t, &f, (clock.ts(op["a"].as_i64().unwrap()), clock.ts(op["b"].as_i64().unwrap())), nt, strs(&op["nh"]), op["x"] == true, &self.plan).await.map(|_| true)
            }
            "fl" => db::flush(l, l.coord_node(), op["compact"].as_bool().unwrap_or(false)).await.map(|_| true),
            "cp" => db::compact(l).await.map(|_| true),
            "dt" => db::drop_table(l, t).await,
            "dc" => db::drop_column(l, t, op["f"].as_str().unwrap()).await,
            "ac" => db::add_column(l, t, op["f"].as_str().unwrap(), models::value_type::ValueType::Integer).await,
            "ae" => db::alter_encoding(l, t, op["f"].as_str().unwrap(), op["e"].as_str().unwrap()).await,
            "ut" => db::update_tag(l, t, "h", op["to"].as_str(), &[ws, ("h".into(), vec![op["h"].as_str().unwrap().into()])]).await,
            x => panic!("operation {x}"),
        }
    }
    fn query_of(&self, op: &Value, w: Option<&str>) -> Query {
        let clock = Clock::of(&self.plan);
        let mut q = Query { table: op["t"].as_str().unwrap_or("").into(), cols: strs(&op["f"]), batch: op["batch"].as_u64().unwrap_or(100) as usize, ..Default::default() };
        let hs = strs(&op["h"]);
        if let Some(w) = w {
            q.tags.push(("w".into(), vec![w.into()]));
        }
        if !(hs.len() == 1 && op["notags"].as_bool().unwrap_or(false)) {
            q.cols.extend(["w".to_string(), "h".to_string()]);
        }
        if !hs.is_empty() {
            q.tags.push(("h".into(), hs));
        }
        if let Some(a) = op["a"].as_i64() {
            q.ranges.push((clock.ts(a), clock.ts(op["b"].as_i64().unwrap())));
        }
        if let Some(a) = op["a2"].as_i64() {
            q.ranges.push((clock.ts(a), clock.ts(op["b2"].as_i64().unwrap())));
        }
        q.nt = nums(&op["nt"]).into_iter().map(|t| clock.ts(t)).collect();
        q.nh = strs(&op["nh"]);
        for c in op["conds"].as_array().unwrap_or(&vec![]) {
            q.conds.push((c[0].as_str().unwrap().into(), c[1].as_str().unwrap().into(), val(c[0].as_str().unwrap(), c[2].as_u64().unwrap(), c[3].as_u64().unwrap())));
        }
        q.notime = op["notime"].as_bool().unwrap_or(false) && q.ranges.is_empty() && q.nt.is_empty();
        q.limit = op["limit"].as_u64().map(|l| l as usize).filter(|_| q.nt.is_empty() && q.nh.is_empty());
        q
    }
    fn read_op(self: &Arc<Self>, c: usize, op: &Value, l: &Arc<Live>) {
        let all = op["k"] == "ra";
        let g = lk(&self.m).now[c];
        let w = lk(&self.m).w(c);
        let q = self.query_of(op, (!all).then_some(w.as_str()));
        if op["k"] == "tags" {
            return self.tags_op(g, &q, l);
        }
        let t0 = simrt::now();
        let r = l.rt.block_on(db::read(l, &q));
        let verdict = |rows: Option<&[db::Row]>| {
            let mut m = lk(&self.m);
            // A replica that does not lead any more may be asked, and does not know.
            if all || self.c.nodes.len() > 1 { m.check_any(&q, rows.unwrap_or(&[])) } else { m.check(g, &q, rows, false, false) }
        };
        match r {
            Ok(rows) => {
                hlog!("c{c} {op} -> {} rows", rows.as_ref().map(|r| r.len() as i64).unwrap_or(-1));
                if let Err(b) = verdict(rows.as_deref()) {
                    self.again(t0, self.node_of(c), &q, b, &|| l.rt.block_on(db::read(l, &q)).ok().map(|rows| verdict(rows.as_deref())));
                }
            }
            Err(e) => {
                hlog!("c{c} {op} -> {e}");
                if e.starts_with(db::NO_COLUMN) {
                    return self.count("read refused");
                }
                if !self.faults_seen() || !self.errors_expected() {
                    simh::violation("a read fails without a fault", format!("{op}: {e}"));
                }
                self.count("read failed");
            }
        }
    }
    /// A read of node `i` begun at `t0` gave a wrong answer. A wrong answer that is right again once
    /// the commit of a partial compaction (which takes the moved range out of a delta file) is over
    /// has its own name.
    pub fn again(self: &Arc<Self>, t0: u64, i: usize, q: &Query, b: Bad, read: &dyn Fn() -> Option<Result<(), Bad>>) {
        // The node planned the query with a schema that is not the table's any more: a node learns of
        // changes a moment after they are made, and only then is the answer judged.
        let (t, used) = (q.table.clone(), q.used.get());
        if let Some(Ok(true)) = self.on(i, move |l| l.rt.clone().block_on(db::outdated(&l, &t, used))) {
            self.count("read with an old schema");
            match read() {
                Some(Ok(())) | None => return,
                Some(Err(_)) => {}
            }
        }
        let commits = || fsx::renames(self.c.nodes[i].disk, "tombstone.compact");
        if !commits().iter().any(|t| *t + S / 10 >= t0) {
            self.fail(b);
        }
        for _ in 0..20 {
            simrt::sleep(S / 5);
            let t = simrt::now();
            match read() {
                Some(Ok(())) => simh::violation("a read while a partial compaction commits", format!("{}: {}", b.class, b.detail)),
                Some(Err(b)) if !commits().iter().any(|x| *x + S / 10 >= t) => self.fail(b),
                Some(Err(_)) => {}
                None => break,
            }
        }
        self.fail(b)
    }
    /// The tags of the group's series: at least those that have rows, at most those it used.
    fn tags_op(self: &Arc<Self>, g: usize, q: &Query, l: &Arc<Live>) {
        let mut q = q.clone();
        q.cols = vec!["w".into(), "h".into()];
        let r = l.rt.block_on(db::tags(l, &q));
        match r {
            Ok(ts) => {
                let m = lk(&self.m);
                let gr = &m.groups[g];
                if gr.lost.contains(&q.table) || gr.fuzzy {
                    return;
                }
                let mut got = std::collections::BTreeSet::new();
                for t in ts.unwrap_or_default() {
                    let (w, h) = (t.get("w").cloned().unwrap_or_default(), t.get("h").cloned().unwrap_or_default());
                    if w != gr.w || !gr.used.contains(&(q.table.clone(), h.clone())) {
                        simh::violation("a series that was never written", format!("{t:?} ({q:?})"));
                    }
                    if let Some((_, hs)) = q.tags.iter().find(|x| x.0 == "h") {
                        if !hs.contains(&h) {
                            simh::violation("a series that does not match the filter", format!("{t:?} ({q:?})"));
                        }
                    }
                    got.insert(h);
                }
                if self.c.nodes.len() > 1 {
                    return;
                }
                for k in gr.cands[0].iter().filter(|(k, v)| k.0 == q.table && !v.is_empty() && gr.cands.iter().all(|c| c.contains_key(*k))).map(|(k, _)| k) {
                    let inn = q.tags.iter().find(|x| x.0 == "h").map(|x| x.1.contains(&k.1)).unwrap_or(true);
                    if inn && !got.contains(&k.1) {
                        simh::violation("a series is missing", format!("w={} h={} not in {got:?} ({q:?})", gr.w, k.1));
                    }
                }
            }
            Err(e) => {
                if !self.faults_seen() || !self.errors_expected() {
                    simh::violation("a read fails without a fault", format!("tags {q:?}: {e}"));
                }
            }
        }
    }

    // ------------------------------------------------------------ the whole content
    pub fn full(&self, t: &str, w: &str) -> Query {
        let mut cols: Vec<String> = db::FIELDS.iter().map(|f| f.0.to_string()).collect();
        for x in ["x1", "x2", "w", "h"] {
            cols.push(x.into());
        }
        Query { table: t.into(), cols, tags: vec![("w".into(), vec![w.into()])], ranges: vec![], batch: 50, ..Default::default() }
    }
    /// Reads everything from node `i`. false: the node died, or reads fail where they may.
    pub fn scan(self: &Arc<Self>, i: usize, settled: bool, must: bool) -> bool {
        let n = lk(&self.m).groups.len();
        for g in 0..n {
            let w = lk(&self.m).groups[g].w.clone();
            for t in self.tables() {
                let q = self.full(&t, &w);
                let read = || {
                    let q2 = q.clone();
                    self.on(i, move |l| l.rt.clone().block_on(db::read(&l, &q2)))
                };
                let verdict = |rows: Option<&[db::Row]>| lk(&self.m).check(g, &q, rows, settled, settled);
                let t0 = simrt::now();
                match read() {
                    None => return false,
                    Some(Ok(rows)) => {
                        if let Err(b) = verdict(rows.as_deref()) {
                            self.again(t0, i, &q, b, &|| read().and_then(|r| r.ok()).map(|rows| verdict(rows.as_deref())));
                        }
                    }
                    Some(Err(e)) => {
                        hlog!("scan of {t} w={w}: {e}");
                        if must {
                            simh::violation("a read fails without a fault", format!("scan of {t} w={w}: {e}"));
                        }
                        return false;
                    }
                }
            }
        }
        true
    }
    /// Every table, all rows, no tag filter: nothing that was never written, nothing twice.
    pub fn scan_any(self: &Arc<Self>, i: usize) {
        for t in self.tables() {
            let mut q = self.full(&t, "");
            q.tags.clear();
            let read = || {
                let q2 = q.clone();
                self.on(i, move |l| l.rt.clone().block_on(db::read(&l, &q2)))
            };
            let verdict = |rows: Option<&[db::Row]>| lk(&self.m).check_any(&q, rows.unwrap_or(&[]));
            let t0 = simrt::now();
            match read() {
                Some(Ok(rows)) => {
                    if let Err(b) = verdict(rows.as_deref()) {
                        self.again(t0, i, &q, b, &|| read().and_then(|r| r.ok()).map(|rows| verdict(rows.as_deref())));
                    }
                }
                Some(Err(e)) => simh::violation("a read fails without a fault", format!("scan of {t}: {e}")),
                None => {}
            }
        }
    }
    /// Waits until every raft member of node `i` leads (alone) or follows, and has applied its log.
    pub fn ready(self: &Arc<Self>, i: usize) -> bool {
        let t0 = simrt::now();
        let mut ok = 0;
        let mut last;
        loop {
            match self.on(i, |l| l.rt.clone().block_on(db::raft_states(&l))) {
                None => return false,
                Some(Ok(v)) => {
                    // A group that is not there, or not complete because the node died, becomes so with the next write.
                    let good = v.iter().all(|(_, s)| s.as_ref().map(|s| s.begun || (s.current_leader.is_some() && s.applied == s.last_log)).unwrap_or(true));
                    last = format!("{v:?}");
                    ok = if good { ok + 1 } else { 0 };
                }
                Some(Err(e)) => {
                    self.heal(i, &e);
                    last = e;
                    ok = 0;
                }
            }
            if ok >= 2 {
                return true;
            }
            if simrt::now() - t0 > 300 * S {
                simh::violation("a node does not become ready", format!("node {i}, 300 s after it could: {last}"));
            }
            simrt::sleep(20 * MS);
        }
    }
    /// Every file the current version of each vnode of node `i` names exists.
    pub fn files_exist(self: &Arc<Self>, i: usize) {
        let r = self.on(i, |l| {
            l.rt.clone().block_on(async {
                let mut out = vec![];
                for r in db::replicas(&l).await? {
                    for v in r.vnodes {
                        if v.node_id != l.coord_node() {
                            continue;
                        }
                        if let Some(sv) = l.engine.get_db_version(TENANT, DB, v.id).await.map_err(db::es)? {
                            for lv in sv.version.levels_info().iter() {
                                for f in &lv.files {
                                    out.push((v.id, f.file_path().to_string_lossy().to_string(), f.file_id(), f.size()));
                                }
                            }
                        }
                    }
                }
                Ok::<_, String>(out)
            })
        });
        if let Some(Ok(v)) = r {
            let mut ids = std::collections::BTreeSet::new();
            for (vn, p, id, _) in v {
                self.count("file checked");
                if fsx::raw_read(&p).is_none() {
                    simh::violation("the version names a file that does not exist", format!("vnode {vn}: {p}"));
                }
                if !ids.insert((vn, id)) {
                    simh::violation("the version names a file twice", format!("vnode {vn}: {p}"));
                }
            }
        }
    }

    // ------------------------------------------------------------ restarts
    /// The process of a node is gone: settles its clients, lets the disk lose what it loses.
    fn bury(self: &Arc<Self>, i: usize) {
        self.count("node died");
        self.c.kill(i);
        let n = self.c.nodes.len();
        let cl: Vec<usize> = (0..self.clients()).filter(|c| c % n == i).collect();
        {
            let mut m = lk(&self.m);
            m.crashed(cl.iter().copied());
            if n > 1 {
                for &c in &cl {
                    m.next_epoch(c);
                }
            }
        }
        for &c in &cl {
            lk(&self.st).busy[c] = None;
        }
        let loss = lk(&self.st).power[i].take();
        if let Some(l) = loss {
            let mut rng = { let mut b = [0u8; 8]; simrt::entropy(&mut b); simh::Rng::new(u64::from_le_bytes(b) | 1) };
            hlog!("node {i} loses what was not synced ({l})");
            lk(&self.st).powered = true;
            openraft::witness::loosen();
            simrt::note("fault:power loss");
            fsx::power_loss(self.c.nodes[i].disk, if l == "all" { fsx::Loss::All } else { fsx::Loss::Random }, &mut rng);
        }
    }
    /// known: a raft member that cannot fetch a snapshot stops, until its process starts again.
    pub fn heal(self: &Arc<Self>, i: usize, e: &str) {
        if !e.contains("Restore snapshot failed") {
            return;
        }
        if !self.plan["rescue"].as_bool().unwrap_or(false) {
            simh::violation("a member stops when it cannot fetch a snapshot", format!("node {i}: {e}"));
        }
        if lk(&self.st).rescued.insert(i) {
            hlog!("node {i} is restarted because a raft member stopped: {e}");
            self.count("restarted after a failed snapshot");
            self.c.kill(i);
            self.bury(i);
            let mut boots = 2000;
            self.revive(i, &mut boots);
        }
    }
    /// Starts a dead node again and again until it is up. `boots` counts its starts.
    fn revive(self: &Arc<Self>, i: usize, boots: &mut u64) {
        let mut failed = 0;
        loop {
            *boots += 1;
            if self.disk_errors() && !self.plan["boot_errors"].as_bool().unwrap_or(false) {
                fsx::disarm_all(self.c.nodes[i].disk);
                fsx::set_room(self.c.nodes[i].disk, None);
            }
            self.fire(Some((i, *boots)));
            self.count("restart");
            if self.disk_errors() && fsx::armed(self.c.nodes[i].disk) > 0 {
                lk(&self.st).sick_start = true;
            }
            match self.c.start(i) {
                Started::Up(_) => return,
                Started::Died => {
                    hlog!("node {i} died while it started");
                    self.count("died while it started");
                    self.bury(i);
                }
                Started::Failed(e) => {
                    hlog!("node {i} failed to start: {e}");
                    if fsx::armed(self.c.nodes[i].disk) == 0 && (!self.disk_errors() || lk(&self.st).sound) || failed > 3 {
                        simh::violation("a node does not start again", e);
                    }
                    failed += 1;
                    // giving up with a panic while starting on a failing disk is a way to fail
                    lk(&self.st).pardoned = simh::sut_panics().len();
                    self.count("start failed under a fault");
                    self.bury(i);
                    fsx::disarm_all(self.c.nodes[i].disk);
                    fsx::set_room(self.c.nodes[i].disk, None);
                }
            }
            simrt::sleep(10 * MS);
        }
    }
    /// A single node that came back: its data must be there at once, and settle.
    fn settle_single(self: &Arc<Self>) -> bool {
        if self.plan["boot_read"].as_bool().unwrap_or(true) && !self.scan(0, false, false) && self.c.dead(0) {
            return false;
        }
        if self.errors_expected() {
            // the start may have met errors: it is judged at the end
            return !self.c.dead(0);
        }
        if !self.ready(0) {
            return false;
        }
        if !self.scan(0, true, true) {
            return false;
        }
        self.files_exist(0);
        true
    }
    /// Runs the clients to their end, through all faults and restarts.
    pub fn clients_to_end(self: &Arc<Self>) {
        let n = self.c.nodes.len();
        let mut boots = vec![1u64; n];
        let down = self.plan["down_ms"].as_u64().unwrap_or(20) * MS;
        let mut back: Vec<Option<u64>> = vec![None; n];
        for i in 0..n {
            self.launch_clients(i);
        }
        let limit = self.plan["op_limit_s"].as_u64().unwrap_or(600) * S;
        let mut pause = MS / 10;
        loop {
            for i in 0..n {
                if let Some(t) = back[i] {
                    if simrt::now() >= t {
                        back[i] = None;
                        self.revive(i, &mut boots[i]);
                        if n == 1 && !self.settle_single() {
                            continue;
                        }
                        self.launch_clients(i);
                    }
                } else if self.c.dead(i) {
                    self.bury(i);
                    back[i] = Some(simrt::now() + down);
                    pause = MS / 10;
                }
            }
            let (done, oldest) = {
                let g = lk(&self.st);
                let done = (0..g.next.len()).all(|c| g.busy[c].is_none() && g.next[c] >= ops_of(&self.plan, c).len());
                (done, g.busy.iter().flatten().min().copied())
            };
            if done && lk(&self.st).kills == 0 && back.iter().all(|b| b.is_none()) && (0..n).all(|i| !self.c.dead(i)) {
                return;
            }
            if let Some(o) = oldest {
                if simrt::now() - o > limit {
                    let (busy, next) = { let g = lk(&self.st); (g.busy.clone(), g.next.clone()) };
                    for l in tokio::sync::waiting() {
                        eprintln!("waiting at {l}");
                    }
                    simh::violation("an operation does not end", format!("since {} s: {:?} {:?}", (simrt::now() - o) / S, busy, next));
                }
            }
            simrt::sleep(pause);
            pause = (pause + pause / 4).min(5 * MS);
        }
    }
    /// Ends without a fault: everything settles, and stays through what `final` lists.
    pub fn finish(self: &Arc<Self>) {
        self.calm();
        let n = self.c.nodes.len();
        let steps = strs(&self.plan["final"]);
        let mut boots = vec![1000u64; n];
        for i in 0..n {
            if self.c.dead(i) {
                self.bury(i);
                self.revive(i, &mut boots[i]);
            }
        }
        if self.disk_errors() && self.faults_seen() {
            // what was acknowledged is there, in the process that met the errors and in the next one:
            // a raft group that could not store something stops until then
            if n == 1 {
                self.scan(0, false, true);
            }
            lk(&self.st).sound = true;
            for i in 0..n {
                self.c.kill(i);
                self.bury(i);
            }
            for i in 0..n {
                self.revive(i, &mut boots[i]);
            }
        }
        if n > 1 {
            crate::repl::progress(self);
        }
        self.check_all();
        for s in steps {
            hlog!("final {s}");
            match s.as_str() {
                "flush" | "flushc" => {
                    for i in 0..n {
                        let c = s == "flushc";
                        let r = self.on(i, move |l| l.rt.clone().block_on(db::flush(&l, l.coord_node(), c)));
                        if let Some(Err(e)) = r {
                            simh::violation("a flush fails without a fault", e);
                        }
                    }
                }
                "compact" => {
                    if let Some(Err(e)) = self.on(0, |l| l.rt.clone().block_on(db::compact(&l))) {
                        simh::violation("a compaction fails without a fault", e);
                    }
                }
                "restart" | "power" => {
                    for i in 0..n {
                        if s == "power" {
                            lk(&self.st).power[i] = Some("all".into());
                        }
                        self.c.kill(i);
                        self.bury(i);
                    }
                    for i in 0..n {
                        self.c.launch(i);
                    }
                    for i in 0..n {
                        match self.c.started(i) {
                            Started::Up(_) => {}
                            Started::Died => simh::harness_error("a node died without a fault"),
                            Started::Failed(e) => simh::violation("a node does not start again", e),
                        }
                    }
                    if n == 1 && self.plan["boot_read"].as_bool().unwrap_or(true) {
                        self.scan(0, false, false);
                    }
                }
                "wait" => simrt::sleep(130 * S),
                x => panic!("final {x}"),
            }
            self.check_all();
        }
    }
    pub fn check_all(self: &Arc<Self>) {
        let n = self.c.nodes.len();
        for i in 0..n {
            self.ready(i);
        }
        if n > 1 {
            crate::repl::converged(self);
        }
        for i in 0..n {
            if !self.scan(i, true, true) {
                simh::harness_error("the final scan was cut short");
            }
            self.files_exist(i);
        }
        self.scan_any(0);
        self.count("full check");
    }
    pub fn report(self: &Arc<Self>) -> Report {
        if let Some(p) = simh::sut_panics().get(lk(&self.st).pardoned) {
            if !self.plan["panics_ok"].as_bool().unwrap_or(false) {
                simh::violation(&format!("panic at {}", p.1), p.0.clone());
            }
        }
        let mut r = Report { state: lk(&self.m).digest(), ..Default::default() };
        r.counts = lk(&self.counts).clone();
        let g = |k: &str| r.counts.get(k).copied().unwrap_or(0);
        r.nontrivial = g("op w") > 0 && g("full check") > 0;
        r
    }
}
pub fn run(p: &Value) -> Report {
    let plan = p.clone();
    simh::simulate(p, move || {
        let r = Run::new(&plan);
        if r.c.nodes.len() > 1 || plan["witness"].as_bool().unwrap_or(false) {
            openraft::witness::watch(|c, d| simh::violation(c, d));
        }
        r.boot();
        r.clients_to_end();
        r.finish();
        r.report()
    })
}
#[allow(unused)]
pub fn nothing() -> Value {
    json!({})
}
