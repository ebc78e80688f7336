//! Several replicas: when nothing is disturbed any more they agree, and each of them holds what
//! clients were told.
use crate::cluster::lk;
use crate::db;
use crate::drive::Run;
use simh::hlog;
use std::collections::BTreeMap;
use std::sync::Arc;

const MS: u64 = 1_000_000;
const S: u64 = 1_000 * MS;

/// replica set -> node -> (applied, last log, leader)
type States = BTreeMap<u32, BTreeMap<usize, (u64, u64, Option<u64>)>>;

fn states(r: &Arc<Run>) -> Result<(States, Vec<String>), String> {
    let mut out = States::new();
    let mut lost = vec![];
    for i in 0..r.c.nodes.len() {
        let v = match r.on(i, |l| l.rt.clone().block_on(async { Ok::<_, String>((db::raft_states(&l).await?, db::replicas(&l).await?)) })) {
            Some(Ok(v)) => v,
            x => {
                let e = format!("node {i}: {x:?}");
                r.heal(i, &e);
                return Err(e);
            }
        };
        for s in v.1 {
            out.entry(s.id).or_default();
        }
        for (vn, s) in v.0 {
            match s {
                Some(s) => {
                    out.entry(s.replica).or_default().insert(i, (s.applied, s.last_log, if s.begun { Some(0) } else { s.current_leader }));
                }
                None => lost.push(format!("node {i}: vnode {vn} is not open")),
            }
        }
    }
    Ok((out, lost))
}
/// Why the members of some group do not agree yet.
fn differ(r: &Arc<Run>, (s, lost): &(States, Vec<String>)) -> Option<String> {
    let n = r.plan["db"]["replica"].as_u64().unwrap_or(1) as usize;
    for (g, m) in s {
        // A group that no node finished creating is created by the next write to it.
        if m.values().all(|x| x.2 == Some(0)) {
            continue;
        }
        if m.len() < n {
            return Some(format!("group {g} has {} members: {m:?} {lost:?}", m.len()));
        }
        let l: std::collections::BTreeSet<_> = m.values().map(|x| x.2).collect();
        if l.len() != 1 || l.contains(&None) {
            return Some(format!("group {g} has no common leader: {m:?}"));
        }
        let a: std::collections::BTreeSet<_> = m.values().flat_map(|x| [x.0, x.1]).collect();
        if a.len() != 1 {
            return Some(format!("group {g} is not applied everywhere: {m:?}"));
        }
    }
    None
}
/// Once nothing disturbs them any more, writes to all shards succeed.
pub fn progress(r: &Arc<Run>) {
    let mut days = std::collections::BTreeSet::new();
    for o in r.plan["ops"].as_array().unwrap_or(&vec![]) {
        for x in o["rows"].as_array().unwrap_or(&vec![]) {
            days.insert(x[1].as_i64().unwrap_or(0).div_euclid(1000));
        }
    }
    let rows: Vec<serde_json::Value> = days.iter().flat_map(|d| (0..4).map(move |h| serde_json::json!([format!("h{h}"), d * 1000 + 900, "i"]))).collect();
    for c in 0..r.plan["clients"].as_u64().unwrap_or(1) as usize {
        for t in r.tables() {
            let t0 = simrt::now();
            for n in 0.. {
                let op = serde_json::json!({"c": c, "k": "w", "n": 5000 + 100 * c as u64 + n, "t": t, "rows": rows});
                lk(&r.m).begin(c, &op);
                let w = lk(&r.m).w(c);
                let me = r.clone();
                hlog!("c{c} writes after the faults");
                match r.on(r.node_of(c), move |l| l.rt.clone().block_on(me.exec(&op, &w, &l))) {
                    Some(Ok(_)) => {
                        lk(&r.m).acked(c);
                        break;
                    }
                    x => {
                        hlog!("c{c} {x:?}");
                        let mut m = lk(&r.m);
                        m.uncertain(c);
                        m.next_epoch(c);
                        drop(m);
                        for i in 0..r.c.nodes.len() {
                            if let Some(Err(e)) = r.on(i, |l| l.rt.clone().block_on(db::raft_states(&l))) {
                                r.heal(i, &e);
                            }
                        }
                        if simrt::now() - t0 > 200 * S {
                            simh::violation("writes do not succeed", format!("200 s after nothing disturbs the nodes any more, on node {}: {x:?}", r.node_of(c)));
                        }
                    }
                }
                simrt::sleep(500 * MS * (n + 1).min(10));
            }
        }
    }
    r.count("wrote after the faults");
}
/// Waits until all members of all groups agree, then compares what each of them holds with what
/// clients were told.
pub fn converged(r: &Arc<Run>) {
    let t0 = simrt::now();
    let mut ok = 0;
    let mut last;
    loop {
        match states(r) {
            Ok(s) => match differ(r, &s) {
                None => {
                    ok += 1;
                    last = String::new();
                }
                Some(d) => {
                    ok = 0;
                    last = d;
                }
            },
            Err(e) => {
                ok = 0;
                last = e;
            }
        }
        if ok >= 2 {
            break;
        }
        if simrt::now() - t0 > 400 * S {
            simh::violation("replicas do not converge", format!("400 s after nothing disturbs them any more: {last}"));
        }
        simrt::sleep(100 * MS);
    }
    hlog!("converged");
    r.count("converged");
    for i in 0..r.c.nodes.len() {
        scan_local(r, i);
    }
}
/// Everything the replicas on node `i` hold.
fn scan_local(r: &Arc<Run>, i: usize) {
    let n = lk(&r.m).groups.len();
    for g in 0..n {
        let w = lk(&r.m).groups[g].w.clone();
        for t in r.tables() {
            let q = r.full(&t, &w);
            let read = || {
                let q2 = q.clone();
                let rows = r.on(i, move |l| {
                    l.rt.clone().block_on(async {
                        let mut out = None;
                        for s in db::replicas(&l).await? {
                            for v in s.vnodes.iter().filter(|v| v.node_id == l.coord_node()) {
                                if let Some(x) = db::read_local(&l, &q2, v).await? {
                                    out.get_or_insert_with(Vec::new).extend(x);
                                }
                            }
                        }
                        Ok::<_, String>(out)
                    })
                });
                match rows {
                    Some(Ok(rows)) => {
                        r.count("replica checked");
                        Some(lk(&r.m).check(g, &q, rows.as_deref(), true, true))
                    }
                    Some(Err(e)) => simh::violation("a read fails without a fault", format!("replicas of node {i}: {t} w={w}: {e}")),
                    None => simh::harness_error("a node died without a fault"),
                }
            };
            let t0 = simrt::now();
            if let Some(Err(mut b)) = read() {
                b.detail = format!("replicas of node {i}: {}", b.detail);
                r.again(t0, i, &q, b, &read);
            }
        }
    }
}
