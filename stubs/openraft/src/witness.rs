//! What the storage of each member promised, kept outside of the members: after every restart, and
//! at every read, the storage must still show it. Members are known by their node ids.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

use crate::types::*;

type Id = String;
#[derive(Default, Clone)]
struct Member {
    vote: Option<(u64, bool)>,
    /// index -> id and content of entries the storage said it has
    sure: BTreeMap<u64, (String, u64)>,
    /// entries that may be there or not: the storage did not say yet
    maybe: BTreeMap<u64, BTreeSet<(String, u64)>>,
    /// ids of entries that were removed and are not to come back
    gone: BTreeMap<u64, BTreeSet<String>>,
    applied: BTreeMap<u64, (String, u64)>,
    /// how often each entry was applied since the member started
    times: BTreeMap<u64, u32>,
    last_applied: Option<u64>,
}
static ALL: Mutex<BTreeMap<Id, Member>> = Mutex::new(BTreeMap::new());
static TELL: Mutex<Option<fn(&str, String)>> = Mutex::new(None);
static LOOSE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Where broken promises are reported. Without it nothing is watched.
pub fn watch(f: fn(&str, String)) {
    ALL.lock().unwrap().clear();
    LOOSE.store(false, std::sync::atomic::Ordering::Relaxed);
    *TELL.lock().unwrap() = Some(f);
}
/// After a power failure a member may know less than it said.
pub fn loosen() {
    LOOSE.store(true, std::sync::atomic::Ordering::Relaxed);
}
/// Applied entries of a member, by index: the id and a number standing for the content.
pub fn applied(id: u64) -> BTreeMap<u64, (String, u64)> {
    ALL.lock().unwrap().get(&id.to_string()).map(|m| m.applied.clone()).unwrap_or_default()
}
fn on() -> bool {
    TELL.lock().unwrap().is_some() && !LOOSE.load(std::sync::atomic::Ordering::Relaxed)
}
fn tell(class: &str, detail: String) {
    let f = *TELL.lock().unwrap();
    if let Some(f) = f {
        f(class, detail)
    }
}
fn with<T>(id: &impl ToString, f: impl FnOnce(&mut Member) -> T) -> T {
    f(ALL.lock().unwrap().entry(id.to_string()).or_default())
}
pub(crate) fn content<C: Cfg>(e: &Entry<C>) -> (String, u64) {
    let mut h = 0xcbf29ce484222325u64;
    let b = match &e.payload {
        EntryPayload::Blank => vec![1],
        EntryPayload::Normal(d) => bincode::serialize(d).unwrap_or_default(),
        EntryPayload::Membership(m) => format!("{m:?}").into_bytes(),
    };
    for x in b {
        h = (h ^ x as u64).wrapping_mul(0x100000001b3);
    }
    (e.log_id.to_string(), h)
}
pub(crate) fn voted<N: NodeId>(id: &N, v: &Vote<N>) {
    if on() {
        with(id, |m| m.vote = Some((v.leader_id.term, v.committed)));
    }
}
pub(crate) fn appending<C: Cfg>(id: &C::NodeId, es: &[Entry<C>]) {
    if on() {
        with(id, |m| {
            for e in es {
                m.maybe.entry(e.log_id.index).or_default().insert(content(e));
            }
        })
    }
}
pub(crate) fn appended<N: NodeId>(id: &N, es: Vec<(u64, (String, u64))>) {
    if on() {
        with(id, |m| {
            for (i, c) in es {
                m.maybe.remove(&i);
                if let Some(g) = m.gone.get_mut(&i) {
                    g.remove(&c.0);
                }
                m.sure.insert(i, c);
            }
        })
    }
}
/// Entries in the range are about to be removed.
pub(crate) fn removing<N: NodeId>(id: &N, from: u64, to: u64) {
    if on() {
        with(id, |m| {
            let out: Vec<u64> = m.sure.range(from..to).map(|x| *x.0).collect();
            for i in out {
                let c = m.sure.remove(&i).unwrap();
                m.maybe.entry(i).or_default().insert(c);
            }
        })
    }
}
pub(crate) fn removed<N: NodeId>(id: &N, from: u64, to: u64) {
    if on() {
        with(id, |m| {
            let out: Vec<u64> = m.maybe.range(from..to).map(|x| *x.0).collect();
            for i in out {
                let cs = m.maybe.remove(&i).unwrap();
                m.gone.entry(i).or_default().extend(cs.into_iter().map(|c| c.0));
            }
        })
    }
}
/// What a member that starts finds in its storage.
pub(crate) fn starts<N: NodeId>(id: &N, vote: &Vote<N>, applied: Option<u64>, purged: Option<u64>, log: &BTreeMap<u64, (String, u64)>) {
    if !on() {
        return;
    }
    let r = with(id, |m| {
        let have = (vote.leader_id.term, vote.committed);
        if let Some(v) = m.vote {
            if have < v {
                return Err(("a member forgets its vote", format!("member {id}: {v:?} was stored, {have:?} is found")));
            }
        }
        if applied < m.last_applied {
            return Err(("the applied position goes back", format!("member {id}: {:?} was applied, {applied:?} is found", m.last_applied)));
        }
        let base = purged.map(|x| x + 1).unwrap_or(0);
        for (i, c) in m.sure.range(base..) {
            match log.get(i) {
                None => return Err(("a member forgets an entry it acknowledged", format!("member {id}: {c:?} is not there (purged {purged:?}, last {:?})", log.keys().last()))),
                Some(x) if x != c && !m.maybe.get(i).map(|s| s.contains(x)).unwrap_or(false) => return Err(("a log entry changes", format!("member {id}: {c:?} was stored, {x:?} is found"))),
                _ => {}
            }
        }
        if let Some(p) = purged {
            // entries below the purged position went away without a purge
            if let Some((i, _)) = m.sure.range(..=p).next() {
                if applied < Some(p) {
                    return Err(("a member forgets an entry it acknowledged", format!("member {id}: {i} is covered by the purged position {p}, applied {applied:?}")));
                }
            }
        }
        for (i, c) in log {
            if m.sure.get(i) == Some(c) || m.maybe.get(i).map(|s| s.contains(c)).unwrap_or(false) {
                continue;
            }
            if m.gone.get(i).map(|g| g.contains(&c.0)).unwrap_or(false) {
                return Err(("a removed log entry comes back", format!("member {id}: {c:?}")));
            }
            return Err(("a log entry nobody stored", format!("member {id}: {c:?}")));
        }
        m.sure = log.clone();
        m.maybe.clear();
        m.times.clear();
        Ok(())
    });
    if let Err((c, d)) = r {
        tell(c, d);
    }
}
/// Entries read from the log of a running member.
pub(crate) fn read<C: Cfg>(id: &C::NodeId, es: &[Entry<C>]) {
    if !on() {
        return;
    }
    let r = with(id, |m| {
        for e in es {
            let c = content(e);
            if let Some(s) = m.sure.get(&e.log_id.index) {
                if *s != c && !m.maybe.get(&e.log_id.index).map(|s| s.contains(&c)).unwrap_or(false) {
                    return Err(format!("member {id}: {s:?} was stored, {c:?} is read"));
                }
            }
        }
        Ok(())
    });
    if let Err(d) = r {
        tell("a log entry changes", d);
    }
}
/// A member applied entries. `peers`: the members of its group.
pub(crate) fn applies<C: Cfg>(id: &C::NodeId, es: &[Entry<C>], peers: &[String]) {
    if !on() {
        return;
    }
    let mut all = ALL.lock().unwrap();
    let mut bad = None;
    for e in es {
        let (i, c) = (e.log_id.index, content(e));
        for p in peers {
            if let Some(o) = all.get(p).and_then(|m| m.applied.get(&i)) {
                if *o != c {
                    bad = Some(("replicas apply different commands", format!("at {i} member {p} applied {o:?}, member {id} {c:?}")));
                }
            }
        }
        let m = all.entry(id.to_string()).or_default();
        if let Some(o) = m.applied.get(&i) {
            if *o != c {
                bad = Some(("replicas apply different commands", format!("at {i} member {id} applied {o:?}, and now {c:?}")));
            }
        }
        let t = m.times.entry(i).or_default();
        *t += 1;
        if *t > 1 {
            bad = Some(("a command is applied twice", format!("member {id}: {c:?}")));
        }
        m.applied.insert(i, c);
        m.last_applied = m.last_applied.max(Some(i));
    }
    drop(all);
    if let Some((c, d)) = bad {
        tell(c, d);
    }
}
/// A member took over a snapshot.
pub(crate) fn installs<N: NodeId>(id: &N, upto: u64) {
    if on() {
        with(id, |m| m.last_applied = m.last_applied.max(Some(upto)));
    }
}
