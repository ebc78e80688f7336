//! S07: the log of one vnode, used as the raft layer uses it, against a map from index to entry.
use crate::cluster::*;
use crate::db::es;
use crate::drive::Run;
use openraft::storage::{RaftLogReader, RaftStorage};
use openraft::{CommittedLeaderId, Entry, EntryPayload, LogId, SnapshotMeta};
use replication::node_store::NodeStorage;
use replication::state_store::StateStorage;
use replication::{ApplyContext, ApplyStorage, EngineMetrics, RaftNodeInfo, TypeConfig};
use replication::errors::ReplicationResult;
use simh::{hlog, json, violation, Report, Rng, Tier, Value};
use simrt::fsx;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const VNODE: u32 = 77;
const GROUP: u32 = 70;
type Ent = (u64, Vec<u8>);
type Ents = BTreeMap<u64, Ent>;

/// What the entries do when they are applied is not looked at here.
struct Nothing;
#[async_trait::async_trait]
impl ApplyStorage for Nothing {
    async fn apply(&mut self, _: &ApplyContext, _: &Vec<u8>) -> ReplicationResult<Vec<u8>> {
        Ok(vec![])
    }
    async fn get_snapshot(&mut self) -> ReplicationResult<Option<(Vec<u8>, u64)>> {
        Ok(None)
    }
    async fn create_snapshot(&mut self, at: u64) -> ReplicationResult<(Vec<u8>, u64)> {
        Ok((vec![], at))
    }
    async fn restore(&mut self, _: &[u8]) -> ReplicationResult<()> {
        Ok(())
    }
    async fn destory(&mut self) -> ReplicationResult<()> {
        Ok(())
    }
    async fn metrics(&self) -> ReplicationResult<EngineMetrics> {
        Ok(EngineMetrics::default())
    }
}

pub fn plan(r: &mut Rng, t: Tier) -> Value {
    let count = (20 + r.below(40)) * if t == Tier::Quick { 1 } else { 3 };
    let crashes = r.chance(3, 4);
    let ops: Vec<Value> = (0..count)
        .map(|_| match r.below(40) {
            0..=13 => json!({"k": "add", "n": *r.pick(&[1u64, 1, 2, 5, 30, 120]), "size": *r.pick(&[0u64, 10, 100, 1000])}),
            14..=16 => json!({"k": "over", "back": r.below(12), "n": 1 + r.below(6), "size": *r.pick(&[0u64, 10, 300]), "cut": r.chance(1, 2)}),
            17..=18 => json!({"k": "cut", "back": 1 + r.below(20)}),
            19..=22 => json!({"k": "apply", "n": *r.pick(&[1u64, 3, 10, 100])}),
            23..=25 => json!({"k": "purge", "n": *r.pick(&[1u64, 3, 10, 100, 400])}),
            26 => json!({"k": "jump", "n": 1 + r.below(30)}),
            27 => json!({"k": "sync"}),
            28..=29 => json!({"k": "kill"}),
            30..=32 if crashes => json!({"k": "crash", "skip": *r.pick(&[0u64, 0, 1, 2, 3, 5, 9, 30]), "torn": r.chance(1, 2), "path": *r.pick(&["", "wal"])}),
            _ => json!({"k": "read", "a": r.below(1 << 20), "n": *r.pick(&[0u64, 1, 2, 10, 300])}),
        })
        .collect();
    let cfg = json!({"wal_file": *r.pick(&[600u64, 2_000, 20_000, 128 << 20]), "wal_compress": *r.pick(&["zstd", "null", "gzip", "snappy"]), "wal_sync": r.chance(1, 2)});
    json!({"sched": simh::sched(r), "nodes": 1, "clients": 1, "cfg": cfg, "db": {"shards": 1, "replica": 1}, "tables": [], "faults": [], "ops": ops})
}

#[derive(Clone, Default, Debug)]
struct Log {
    ents: Ents,
    /// (term, index)
    purged: Option<(u64, u64)>,
    applied: Option<(u64, u64)>,
    term: u64,
}
impl Log {
    /// The index the next entry gets.
    fn next(&self) -> u64 {
        let a = self.ents.keys().last().map(|x| x + 1).unwrap_or(0);
        a.max(self.purged.map(|p| p.1 + 1).unwrap_or(0))
    }
    fn first(&self) -> u64 {
        self.purged.map(|p| p.1 + 1).unwrap_or(0)
    }
    fn unapplied(&self) -> u64 {
        self.applied.map(|p| p.1 + 1).unwrap_or(0)
    }
    fn last(&self) -> Option<(u64, u64)> {
        self.ents.iter().last().map(|(k, v)| (v.0, *k)).or(self.purged)
    }
}
fn id(x: (u64, u64)) -> LogId<u64> {
    LogId::new(CommittedLeaderId::new(x.0, 1), x.1)
}
fn pair(x: &LogId<u64>) -> (u64, u64) {
    (x.leader_id.get_term(), x.index)
}
fn entry(i: u64, e: &Ent) -> Entry<TypeConfig> {
    let payload = if e.1.is_empty() { EntryPayload::Blank } else { EntryPayload::Normal(e.1.clone()) };
    Entry { log_id: id((e.0, i)), payload }
}
fn back(e: &Entry<TypeConfig>) -> (u64, Ent) {
    let d = match &e.payload {
        EntryPayload::Normal(d) => d.clone(),
        _ => vec![],
    };
    (e.log_id.index, (e.log_id.leader_id.get_term(), d))
}
/// A write that says nothing, of some size and with a content of its own.
fn data(n: u64, size: u64) -> Vec<u8> {
    if size == 0 {
        return vec![];
    }
    let c = protos::kv_service::RaftWriteCommand { tenant: format!("{n}.{}", "x".repeat(size as usize)), db_name: n.to_string(), replica_id: n as u32, command: None };
    protos::models_helper::to_prost_bytes(&c)
}
type Store = Arc<NodeStorage>;
struct Vnode {
    r: Arc<Run>,
    store: Mutex<Option<Store>>,
}
/// What a call did: None if the process died on the way.
type Out<T> = Option<T>;
impl Vnode {
    fn with<T: Send + 'static, F>(&self, f: impl FnOnce(Store) -> F + Send + 'static) -> Out<T>
    where
        F: std::future::Future<Output = Result<T, String>> + Send,
    {
        let s = lk(&self.store).clone()?;
        let x = self.r.on(0, move |l| l.rt.clone().block_on(f(s)))?;
        if self.r.c.dead(0) {
            return None;
        }
        match x {
            Ok(v) => Some(v),
            Err(e) => violation("the log fails without a fault", e),
        }
    }
    /// False: the process died on the way.
    fn open(&self) -> bool {
        let n = self.r.c.nodes[0].clone();
        let cfg = self.r.c.config(&n);
        let x = self.r.on(0, move |l| {
            l.rt.clone().block_on(async {
                let state = Arc::new(StateStorage::open(format!("{}/logstate", n.path), 1 << 24).map_err(es)?);
                let mut vs = l.engine.open_tsfamily(TENANT, DB, VNODE).await.map_err(es)?;
                let owner = models::schema::database_schema::make_owner(TENANT, DB);
                let wal = tskv::wal::VnodeWal::new(Arc::new(tskv::kv_option::WalOptions::from(&cfg)), Arc::new(owner), VNODE).await.map_err(es)?;
                let mut logs = tskv::wal::wal_store::RaftEntryStorage::new(wal);
                logs.recover(state.get_last_applied_log(GROUP).map_err(es)?, &mut vs).await.map_err(es)?;
                let info = RaftNodeInfo { group_id: GROUP, address: String::new() };
                let engine = Arc::new(tokio::sync::RwLock::new(Nothing));
                let mut s = Arc::new(NodeStorage::open(VNODE as u64, info, state, engine, Arc::new(tokio::sync::RwLock::new(logs))).await.map_err(es)?);
                // as raft does when it starts
                let st = s.get_log_state().await.map_err(es)?;
                let (applied, _) = s.last_applied_state().await.map_err(es)?;
                if let Some(a) = applied.filter(|a| st.last_log_id.map_or(true, |l| l.index < a.index)) {
                    s.purge_logs_upto(a).await.map_err(es)?;
                }
                Ok::<Store, String>(s)
            })
        });
        if self.r.c.dead(0) {
            return false;
        }
        match x {
            Some(Ok(s)) => {
                std::mem::forget(lk(&self.store).replace(s));
                true
            }
            Some(Err(e)) => violation("the log does not open again", e),
            None => false,
        }
    }
    fn restart(&self) {
        loop {
            self.r.c.kill(0);
            fsx::disarm_all(self.r.c.nodes[0].disk);
            std::mem::forget(lk(&self.store).take());
            match self.r.c.start(0) {
                Started::Up(_) => {
                    if self.open() {
                        return;
                    }
                }
                Started::Died => {}
                Started::Failed(e) => violation("a node does not start again", e),
            }
        }
    }
    /// Everything the log says of itself.
    fn look(&self) -> Out<Log> {
        let (st, ap, all) = self.with(|mut s| async move {
            let st = s.get_log_state().await.map_err(es)?;
            let ap = s.last_applied_state().await.map_err(es)?.0;
            let from = st.last_purged_log_id.map(|x| x.index + 1).unwrap_or(0);
            let all = s.try_get_log_entries(from..).await.map_err(es)?;
            Ok((st, ap, all))
        })?;
        let mut l = Log { purged: st.last_purged_log_id.as_ref().map(pair), applied: ap.as_ref().map(pair), ..Default::default() };
        let mut next = None;
        for e in &all {
            let (i, e) = back(e);
            if next.is_some_and(|n| n != i) || i < l.first() {
                violation("the log has a hole or an entry out of order", format!("{i} after {next:?}, purged {:?}", l.purged));
            }
            next = Some(i + 1);
            l.ents.insert(i, e);
        }
        let last = st.last_log_id.as_ref().map(pair);
        if last != l.last() {
            violation("the log has another last entry than it says", format!("says {last:?}, has {:?}", l.last()));
        }
        Some(l)
    }
}
/// Why `now` is not what `a` (before the operation) or `b` (after it), or something between them,
/// leads to.
fn wrong(a: &Log, b: &Log, now: &Log) -> Option<String> {
    if now.purged != a.purged && now.purged != b.purged && now.purged != b.applied {
        return Some(format!("purged up to {:?}, expected {:?} or {:?}", now.purged, a.purged, b.purged));
    }
    let k = |x: Option<(u64, u64)>| x.map(|x| x.1 + 1).unwrap_or(0);
    if k(now.applied) < k(a.applied) || k(now.applied) > k(b.applied) {
        return Some(format!("applied {:?}, expected {:?} to {:?}", now.applied, a.applied, b.applied));
    }
    let f = now.first();
    let cut = |l: &Log| -> Ents { l.ents.range(f..).map(|(k, v)| (*k, v.clone())).collect() };
    let (x, y) = (cut(a), cut(b));
    // up to where both agree, the entries have to be there
    let same = x.iter().zip(y.iter()).take_while(|(p, q)| p == q).count();
    let all: Vec<_> = now.ents.iter().collect();
    if all.len() < same {
        return Some(format!("{} entries from {f}, expected {} or {}; at least {same}", all.len(), x.len(), y.len()));
    }
    // and are followed by a part of the old end or a part of the new one
    let starts = |l: &Ents| all.len() <= l.len() && all.iter().zip(l.iter()).all(|(p, q)| p.0 == q.0 && p.1 == q.1);
    if !starts(&x) && !starts(&y) {
        let d = all.iter().zip(y.iter()).find(|(p, q)| p.0 != q.0 || p.1 != q.1).map(|(p, q)| format!("{} of term {} instead of {} of term {}", p.0, p.1 .0, q.0, q.1 .0));
        return Some(format!("{} entries from {f} instead of {} or {}: {d:?}", all.len(), x.len(), y.len()));
    }
    None
}
pub fn run(p: &Value) -> Report {
    let plan = p.clone();
    simh::simulate(p, move || {
        let r = Run::new(&plan);
        r.boot();
        let v = Vnode { r: r.clone(), store: Mutex::new(None) };
        if !v.open() {
            simh::harness_error("died without a fault");
        }
        let mut m = Log { term: 1, ..Default::default() };
        let mut rep = Report::default();
        let mut n = 0;
        for o in plan["ops"].as_array().unwrap() {
            let g = |k: &str| o[k].as_u64().unwrap_or(0);
            let mut b = m.clone();
            let k = o["k"].as_str().unwrap();
            let mut fresh = |b: &mut Log, count: u64, size: u64| -> Vec<Entry<TypeConfig>> {
                (0..count)
                    .map(|_| {
                        n += 1;
                        let (i, e) = (b.next(), (b.term, data(n, size)));
                        b.ents.insert(i, e.clone());
                        entry(i, &e)
                    })
                    .collect()
            };
            let done = match k {
                "add" => {
                    let es2 = fresh(&mut b, g("n"), g("size"));
                    v.with(|mut s| async move { s.append_to_log(es2).await.map_err(es) })
                }
                "over" | "cut" => {
                    let at = m.next().saturating_sub(g("back")).max(m.unapplied()).max(m.first());
                    b.term += 1;
                    b.ents.retain(|i, _| *i < at);
                    let es2 = if k == "over" { fresh(&mut b, g("n"), g("size")) } else { vec![] };
                    let first = m.ents.get(&at).map(|e| id((e.0, at))).filter(|_| k == "cut" || o["cut"] == true);
                    v.with(move |mut s| async move {
                        if let Some(f) = first {
                            s.delete_conflict_logs_since(f).await.map_err(es)?;
                        }
                        s.append_to_log(es2).await.map_err(es)
                    })
                }
                "apply" => {
                    let es2: Vec<_> = m.ents.range(m.unapplied()..).take(g("n") as usize).map(|(i, e)| entry(*i, e)).collect();
                    let Some(l) = es2.last() else { continue };
                    b.applied = Some(pair(&l.log_id));
                    v.with(move |mut s| async move { s.apply_to_state_machine(&es2).await.map(|_| ()).map_err(es) })
                }
                "purge" => {
                    let Some((i, e)) = m.ents.range(..m.unapplied()).take(g("n") as usize).last() else { continue };
                    let to = (e.0, *i);
                    b.purged = Some(to);
                    b.ents.retain(|i, _| *i > to.1);
                    v.with(move |mut s| async move { s.purge_logs_upto(id(to)).await.map_err(es) })
                }
                // a snapshot of another member, from beyond the log
                "jump" => {
                    let to = (m.term, m.next() + g("n"));
                    b.purged = Some(to);
                    b.applied = Some(to);
                    b.ents.clear();
                    v.with(move |mut s| async move {
                        let meta = SnapshotMeta { snapshot_id: "s".into(), last_log_id: Some(id(to)), last_membership: Default::default() };
                        s.install_snapshot(&meta, Box::new(std::io::Cursor::new(vec![]))).await.map_err(es)?;
                        s.purge_logs_upto(id(to)).await.map_err(es)
                    })
                }
                "sync" => v.with(|s| async move {
                    s.sync_wal_writer().await;
                    Ok(())
                }),
                "crash" => {
                    let path = o["path"].as_str().unwrap_or("").to_string();
                    use fsx::Op;
                    let ops = fsx::mask(&[Op::Write, Op::Sync, Op::Create, Op::Rename, Op::Unlink, Op::Trunc, Op::Mkdir, Op::Rmdir]);
                    fsx::arm(r.c.nodes[0].disk, fsx::Fault { skip: g("skip") as u32, ops, path, kind: fsx::Kind::Crash { torn: o["torn"] == true } });
                    continue;
                }
                "kill" => {
                    r.c.kill(0);
                    None
                }
                "read" => {
                    let (f, e) = (m.first(), m.next() + 2);
                    let a = f + g("a") % (e - f);
                    let z = a + g("n");
                    v.with(move |mut s| async move { s.try_get_log_entries(a..z).await.map_err(es) }).map(|got| {
                        let got: Vec<_> = got.iter().map(back).collect();
                        let want: Vec<_> = m.ents.range(a..z).map(|(i, e)| (*i, e.clone())).collect();
                        if got != want {
                            let t = |x: &[(u64, Ent)]| x.iter().map(|x| (x.0, x.1 .0)).take(20).collect::<Vec<_>>();
                            violation("a range of the log is not what was stored", format!("{a}..{z}: {:?}, expected {:?}", t(&got), t(&want)));
                        }
                    })
                }
                _ => simh::harness_error(k.to_string()),
            };
            hlog!("{o}: {} first {} next {} applied {:?}", if done.is_some() { "done" } else { "died" }, b.first(), b.next(), b.applied);
            rep.count(&format!("op {k}"), 1);
            let died = done.is_none();
            if died {
                rep.count("restarts", 1);
                v.restart();
            }
            let base = if died { &m } else { &b };
            let Some(now) = v.look() else {
                simh::harness_error("died while looking");
            };
            if let Some(d) = wrong(base, &b, &now) {
                violation(if died { "the log is not what was stored, after a restart" } else { "the log is not what was stored" }, format!("{o}: {d}"));
            }
            m = Log { term: b.term, ..now };
        }
        fsx::disarm_all(r.c.nodes[0].disk);
        v.restart();
        match v.look() {
            Some(now) => {
                if let Some(d) = wrong(&m, &m, &now) {
                    violation("the log is not what was stored, after a restart", d);
                }
            }
            None => simh::harness_error("died while looking"),
        }
        if let Some(p) = simh::sut_panics().first() {
            violation(&format!("panic at {}", p.1), p.0.clone());
        }
        rep.nontrivial = rep.counts.get("op add").is_some() && m.next() > 3;
        rep.state = m.next() << 32 | m.first() << 8 | m.term & 255;
        rep
    })
}
