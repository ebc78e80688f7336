//! X02: the ring of recent entries, shared under a lock as the write-ahead log shares it.
use crate::{hash, threads};
use cache::CircularKVCache;
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use simstd::sync::RwLock;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

fn gen(r: &mut Rng, t: Tier) -> Value {
    let cap = *r.pick(&[1u64, 2, 3, 4, 5, 7, 8, 16, 33]);
    let n = 10 + r.below(if t == Tier::Quick { 120 } else { 400 });
    let w = [8, 1 + r.below(2), 1 + r.below(2), 1 + r.below(3), r.below(3), r.below(2)];
    let span = cap + 3;
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let t = r.below(3);
            match r.weighted(&w) {
                0 => json!({"t": t, "op": "put", "n": 1 + r.below(3)}),
                1 => json!({"t": t, "op": "before", "back": r.below(span)}),
                2 => json!({"t": t, "op": "after", "back": r.below(span)}),
                3 => json!({"t": t, "op": "scan"}),
                4 => json!({"t": t, "op": "again", "back": r.below(span)}),
                _ => json!({"t": t, "op": "gap", "n": 1 + r.below(20)}),
            }
        })
        .collect();
    json!({"cap": cap, "start": r.below(5) * 1000, "ops": ops})
}
struct Model {
    ring: CircularKVCache<u64, u64>,
    cap: usize,
    /// what must still be there, and what may be
    held: BTreeMap<u64, u64>,
    next: u64,
    low: u64,
    serial: u64,
    wraps: u64,
}
impl Model {
    /// Compares every key ever used; what the ring dropped for room is forgotten.
    fn check(&mut self, did: &str, before: Option<usize>) {
        let mut found = BTreeMap::new();
        for k in self.low.saturating_sub(3)..self.next + 3 {
            if let Some(v) = self.ring.get(&k) {
                match self.held.get(&k) {
                    Some(w) if w == v => {
                        found.insert(k, *v);
                    }
                    Some(w) => violation("a lookup returned another entry", format!("after {did}: key {k} holds {v}, stored {w}")),
                    None => violation("a lookup returned an entry that is gone", format!("after {did}: key {k} holds {v}")),
                }
            }
        }
        match before {
            // truncation: exactly the rest stays
            None => {
                if found != self.held {
                    violation("truncation removed the wrong entries", format!("after {did}: expected {:?}, found {:?}", self.held.keys(), found.keys()));
                }
            }
            Some(n) => {
                let least = n.min(self.cap.saturating_sub(1).max(1));
                if found.len() > self.cap.max(1) || found.len() < least {
                    violation("the ring holds too many or too few entries", format!("after {did}: {} entries, capacity {}", found.len(), self.cap));
                }
                // only the oldest may go
                if let (Some(f), n) = (found.keys().next(), found.len()) {
                    if self.held.range(f..).count() != n {
                        violation("an entry other than the oldest was dropped", format!("after {did}: expected {:?}, found {:?}", self.held.keys(), found.keys()));
                    }
                }
                if found.len() < self.held.len() {
                    self.wraps += 1;
                }
                self.held = found;
            }
        }
        let want = self.held.values().next_back();
        if self.ring.last() != want {
            violation("the last entry is not the newest", format!("after {did}: last {:?}, newest {want:?}", self.ring.last()));
        }
        if let Some(k) = self.held.keys().next() {
            self.low = *k;
        }
    }
    fn op(&mut self, o: &Value) -> u64 {
        let back = o["back"].as_u64().unwrap_or(0);
        let at = (self.next + 1).saturating_sub(back);
        match o["op"].as_str().unwrap() {
            "put" => {
                for _ in 0..o["n"].as_u64().unwrap() {
                    let (k, v) = (self.next, self.serial);
                    self.next += 1;
                    self.serial += 1;
                    self.ring.put(k, v);
                    self.held.insert(k, v);
                    let n = self.held.len();
                    self.check(&format!("put {k}"), Some(n));
                }
            }
            "again" => {
                // an entry still held is stored again under the same index
                if let Some(k) = self.held.range(at..).next().map(|e| *e.0) {
                    let v = self.serial;
                    self.serial += 1;
                    self.ring.put(k, v);
                    self.held.insert(k, v);
                    self.check(&format!("put again {k}"), None);
                }
            }
            "before" => {
                self.ring.del_before(at);
                self.held = self.held.split_off(&at);
                self.check(&format!("del_before {at}"), None);
            }
            "after" => {
                self.ring.del_after(at);
                self.held.split_off(&at);
                self.next = self.next.min(at);
                self.low = self.low.min(at);
                self.check(&format!("del_after {at}"), None);
            }
            "gap" => {
                // the log goes on after a snapshot
                self.ring.del_after(0);
                self.held.clear();
                self.next += o["n"].as_u64().unwrap();
                self.check("del_after 0", None);
            }
            _ => self.check("nothing", None),
        }
        hlog!("{o} -> {:?}", self.held.keys().collect::<Vec<_>>());
        hash(&self.held.keys().cloned().collect::<Vec<_>>())
    }
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let cap = p["cap"].as_u64().unwrap() as usize;
        let start = p["start"].as_u64().unwrap();
        let m = Arc::new(RwLock::new(Model { ring: CircularKVCache::new(cap), cap, held: BTreeMap::new(), next: start, low: start, serial: 1, wraps: 0 }));
        let st = Arc::new(Mutex::new(vec![]));
        let (m2, st2) = (m.clone(), st.clone());
        threads(p["ops"].as_array().unwrap(), move |_, o| {
            let mut g = m2.write().unwrap();
            let h = g.op(o);
            st2.lock().unwrap().push(h);
        });
        let mut rep = Report::default();
        let w = m.read().unwrap().wraps;
        rep.nontrivial = w > 0;
        rep.count("overwrites of the oldest", w);
        rep.count("ops", p["ops"].as_array().unwrap().len() as u64);
        rep.state = hash(&st.lock().unwrap());
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "X02",
        name: "ring",
        share: 1,
        gen,
        run,
        rule: "three threads take turns, under one lock, to append, overwrite, truncate either end and restart after a gap, for capacities 1 to 33; after every call all indexes are looked up and compared with an ordered map. Non-trivial: the ring was full and dropped its oldest entry.",
        real: &["common/cache CircularKVCache"],
        stub: &["the lock around it (simulated)"],
        assumptions: &["new indexes are stored in ascending order, as the write-ahead log does"],
    }]
}
