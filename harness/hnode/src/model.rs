//! What reads may return. Every row belongs to one group (its tag w), which one client
//! writes, one operation after the other. An operation whose outcome is not known leaves
//! several possible states behind: for each vnode it touched, it happened or it did not.
use crate::db::{Query, Row, Val};
use simh::Value;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub const BASE_S: i64 = 1_699_920_000; // the start of a day
pub type Key = (String, String, i64); // table, h, time offset
pub type Vals = BTreeMap<String, Val>;
pub type State = BTreeMap<Key, Vals>;
const CAP: usize = 64;

pub fn val(f: &str, n: u64, r: u64) -> Val {
    let b = n * 32 + r;
    match f {
        "i" => Val::I(if n % 3 == 0 { -(b as i64) } else { b as i64 }),
        "u" => Val::U(if n % 5 == 0 { u64::MAX - b } else { b }),
        "f" => Val::F((if n % 4 == 0 { -(b as f64) - 0.25 } else { b as f64 * 1e3 + 0.125 }).to_bits()),
        "b" => Val::B((n / 2 + r) % 2 == 0),
        "s" => Val::S(format!("s{b}{}", "-".repeat(((n * 7 + r) % 5) as usize * 9))),
        _ => Val::I(b as i64 + 1_000_000),
    }
}
pub fn field_text(v: &Val) -> String {
    match v {
        Val::I(x) => format!("{x}i"),
        Val::U(x) => format!("{x}u"),
        Val::F(x) => format!("{:?}", f64::from_bits(*x)),
        Val::B(x) => format!("{x}"),
        Val::S(s) => format!("\"{s}\""),
    }
}
/// Time offsets 1000·d + s mean day d, second s.
pub struct Clock {
    pub per_s: i64,
}
impl Clock {
    pub fn of(plan: &Value) -> Clock {
        Clock { per_s: match plan["db"]["precision"].as_str().unwrap_or("NS") { "MS" => 1_000, "US" => 1_000_000, _ => 1_000_000_000 } }
    }
    pub fn ts(&self, off: i64) -> i64 {
        (BASE_S + off.div_euclid(1000) * 86_400 + off.rem_euclid(1000)) * self.per_s
    }
    pub fn off(&self, ts: i64) -> Option<i64> {
        if ts % self.per_s != 0 {
            return None;
        }
        let s = ts / self.per_s - BASE_S;
        let (d, r) = (s.div_euclid(86_400), s.rem_euclid(86_400));
        (r < 1000).then_some(d * 1000 + r)
    }
}

pub struct Group {
    pub client: usize,
    pub w: String,
    pub cands: Vec<State>,
    pub pending: Option<Value>,
    /// too much is uncertain: only the origin of values is checked
    pub fuzzy: bool,
    /// an operation failed and may have done any part of its work
    pub torn: bool,
    /// tables whose content is unknown after an uncertain change of schema
    pub lost: BTreeSet<String>,
    /// series tag values this group has used, by table
    pub used: BTreeSet<(String, String)>,
    began: u64,
    /// deletes that failed: table and range of times
    cut: Vec<(String, i64, i64)>,
}
impl Group {
    fn new(client: usize, epoch: usize) -> Group {
        Group { began: 0, cut: vec![], client, w: format!("c{client}e{epoch}"), cands: vec![State::new()], pending: None, fuzzy: false, torn: false, lost: BTreeSet::new(), used: BTreeSet::new() }
    }
}
type Ever = HashMap<(String, String, i64, String), HashSet<Val>>;
pub struct Model {
    pub groups: Vec<Group>,
    /// the group each client writes now
    pub now: Vec<usize>,
    epochs: Vec<usize>,
    ever: Ever,
    pub days: i64,
    pub shards: u64,
    pub clock: Clock,
    /// columns a table has for certain besides or in spite of `FIELDS` (true), or may lack (false),
    /// and the step at which that was learnt
    has: BTreeMap<(String, String), (bool, u64)>,
    steps: u64,
    again: BTreeSet<String>,
    /// operations fail because of the disk
    errors: bool,
}

pub struct Bad {
    pub class: String,
    pub detail: String,
}
fn bad<T>(class: &str, detail: String) -> Result<T, Bad> {
    Err(Bad { class: class.into(), detail })
}

impl Model {
    pub fn new(plan: &Value) -> Model {
        let n = plan["clients"].as_u64().unwrap_or(1) as usize;
        Model {
            groups: (0..n).map(|c| Group::new(c, 0)).collect(),
            now: (0..n).collect(),
            epochs: vec![0; n],
            ever: HashMap::new(),
            days: plan["db"]["days"].as_u64().unwrap_or(1) as i64,
            shards: plan["db"]["shards"].as_u64().unwrap_or(1),
            clock: Clock::of(plan),
            has: BTreeMap::new(),
            steps: 0,
            again: BTreeSet::new(),
            errors: plan["errors"].as_bool().unwrap_or(false),
        }
    }
    pub fn w(&self, c: usize) -> String {
        self.groups[self.now[c]].w.clone()
    }
    fn part(&self, k: &Key) -> (i64, String) {
        // buckets start at multiples of their duration since the epoch
        let day = (BASE_S / 86_400) + k.2.div_euclid(1000);
        (day.div_euclid(self.days), if self.shards > 1 { k.1.clone() } else { String::new() })
    }
    /// Applies `op` to `st`, only to the parts `only` says.
    fn effect(&self, st: &mut State, op: &Value, only: Option<&HashSet<(i64, String)>>) {
        let t = op["t"].as_str().unwrap_or("");
        let on = |k: &Key| only.map(|o| o.contains(&self.part(k))).unwrap_or(true);
        match op["k"].as_str().unwrap_or("") {
            "w" => {
                for (k, v) in writes(op) {
                    if on(&k) {
                        st.entry(k).or_default().extend(v);
                    }
                }
            }
            "d" => {
                let (a, b) = (op["a"].as_i64().unwrap(), op["b"].as_i64().unwrap());
                let (hs, nh, nt) = (strs(&op["h"]), strs(&op["nh"]), nums(&op["nt"]));
                st.retain(|k, _| !(k.0 == t && a <= k.2 && k.2 <= b && !nt.contains(&k.2) && !nh.contains(&k.1) && (hs.is_empty() || hs.contains(&k.1)) && on(k)));
            }
            "dt" => st.retain(|k, _| !(k.0 == t && on(k))),
            "dc" => {
                let f = op["f"].as_str().unwrap();
                for (k, v) in st.iter_mut() {
                    if k.0 == t && on(k) {
                        v.remove(f);
                    }
                }
            }
            "ut" => {
                let (from, to) = (op["h"].as_str().unwrap(), op["to"].as_str().unwrap());
                let ks: Vec<Key> = st.keys().filter(|k| k.0 == t && k.1 == from && on(k)).cloned().collect();
                for k in ks {
                    let v = st.remove(&k).unwrap();
                    st.insert((k.0, to.to_string(), k.2), v);
                }
            }
            _ => {}
        }
    }
    /// The parts an operation can change in any of the group's states.
    fn parts(&self, g: &Group, op: &Value) -> Vec<(i64, String)> {
        let mut ps = BTreeSet::new();
        match op["k"].as_str().unwrap_or("") {
            "w" => ps.extend(writes(op).into_iter().map(|(k, _)| self.part(&k))),
            "d" | "dt" | "dc" | "ut" => {
                for s in &g.cands {
                    ps.extend(s.keys().filter(|k| Some(k.0.as_str()) == op["t"].as_str()).map(|k| self.part(k)));
                }
            }
            _ => {}
        }
        ps.into_iter().collect()
    }
    pub fn lost(&self, c: usize, t: &str) -> bool {
        self.groups[self.now[c]].lost.contains(t)
    }
    pub fn begin(&mut self, c: usize, op: &Value) {
        let g = self.now[c];
        self.steps += 1;
        self.groups[g].began = self.steps;
        let t = op["t"].as_str().unwrap_or("").to_string();
        match op["k"].as_str() {
            Some("dc") => {
                self.has.insert((t, op["f"].as_str().unwrap().into()), (false, self.steps));
            }
            Some("dt") => {
                let now = self.steps;
                self.has.retain(|k, _| k.0 != t);
                self.has.extend(crate::db::FIELDS.iter().map(|f| ((t.clone(), f.0.to_string()), (false, now))));
            }
            _ => {}
        }
        if op["k"] == "w" {
            let w = self.groups[g].w.clone();
            for (k, v) in writes(op) {
                for (f, v) in v {
                    self.ever.entry((k.0.clone(), w.clone(), k.2, f)).or_default().insert(v);
                }
                self.groups[g].used.insert((k.0, k.1));
            }
        }
        if op["k"] == "ut" {
            self.groups[g].used.insert((op["t"].as_str().unwrap().into(), op["to"].as_str().unwrap().into()));
        }
        self.groups[g].pending = Some(op.clone());
    }
    pub fn acked(&mut self, c: usize) {
        let gi = self.now[c];
        let Some(op) = self.groups[gi].pending.take() else { return };
        let began = self.groups[gi].began;
        let t = op["t"].as_str().unwrap_or("").to_string();
        let there: BTreeSet<(String, String)> = match op["k"].as_str() {
            Some("ac") => [(t, op["f"].as_str().unwrap().to_string())].into(),
            Some("w") => writes(&op).into_iter().flat_map(|(k, v)| v.into_keys().map(move |f| (k.0.clone(), f))).collect(),
            _ => BTreeSet::new(),
        };
        for k in there {
            if self.has.get(&k).map(|h| h.1 < began).unwrap_or(true) {
                self.has.insert(k, (true, began));
            }
        }
        let mut cs = std::mem::take(&mut self.groups[gi].cands);
        for s in cs.iter_mut() {
            self.effect(s, &op, None);
        }
        self.groups[gi].cands = cs;
        dedup(&mut self.groups[gi]);
    }
    /// The operation certainly had no effect.
    pub fn refused(&mut self, c: usize) {
        self.groups[self.now[c]].pending = None;
    }
    /// It is not known whether the pending operation of the client took effect.
    pub fn uncertain(&mut self, c: usize) {
        let gi = self.now[c];
        self.uncertain_group(gi)
    }
    fn uncertain_group(&mut self, gi: usize) {
        let Some(op) = self.groups[gi].pending.take() else { return };
        if matches!(op["k"].as_str(), Some("dt" | "dc" | "ac" | "ut" | "ae")) {
            self.groups[gi].lost.insert(op["t"].as_str().unwrap_or("").into());
            if op["k"] != "ut" {
                self.again.insert(op["t"].as_str().unwrap_or("").into());
            }
        }
        if op["k"] == "d" && self.errors {
            self.groups[gi].cut.push((op["t"].as_str().unwrap_or("").into(), op["a"].as_i64().unwrap_or(i64::MIN), op["b"].as_i64().unwrap_or(i64::MAX)));
        }
        let ps = self.parts(&self.groups[gi], &op);
        if ps.is_empty() {
            return;
        }
        // Each time the log is applied again, a write that adds a column gets the values of that
        // column or not: whether the node knows of the column then decides.
        let fresh: BTreeSet<(String, String)> = if op["k"] == "w" {
            writes(&op).into_iter().flat_map(|(k, v)| v.into_keys().map(move |f| (k.0.clone(), f))).filter(|k| !self.has.get(k).map(|h| h.0).unwrap_or(crate::db::FIELDS.iter().any(|f| f.0 == k.1))).collect()
        } else {
            BTreeSet::new()
        };
        for (t, _) in fresh {
            self.groups[gi].lost.insert(t);
        }
        if ps.len() > 10 || self.groups[gi].cands.len() << ps.len() > CAP * 4 {
            self.groups[gi].fuzzy = true;
            return;
        }
        let mut out = vec![];
        for s in &self.groups[gi].cands {
            for m in 0..1usize << ps.len() {
                let pick: HashSet<(i64, String)> = ps.iter().enumerate().filter(|(i, _)| m >> *i & 1 == 1).map(|(_, p)| p.clone()).collect();
                let mut n = s.clone();
                self.effect(&mut n, &op, Some(&pick));
                out.push(n);
            }
        }
        let g = &mut self.groups[gi];
        g.torn |= self.errors;
        g.cands = out;
        dedup(g);
        if g.cands.len() > CAP {
            g.fuzzy = true;
        }
    }
    /// The client goes on with rows of its own that nothing uncertain concerns.
    pub fn next_epoch(&mut self, c: usize) {
        self.epochs[c] += 1;
        // a drop that failed is tried again later, and takes what is written until then
        let lost = self.groups[self.now[c]].lost.clone();
        self.groups.push(Group::new(c, self.epochs[c]));
        self.now[c] = self.groups.len() - 1;
        self.groups.last_mut().unwrap().lost = lost.into_iter().filter(|t| self.again.contains(t)).collect();
    }
    /// The process of these clients died: what they were doing is uncertain.
    pub fn crashed(&mut self, clients: impl Iterator<Item = usize>) {
        for c in clients {
            self.uncertain(c);
        }
    }
    fn wanted(&self, s: &State, q: &Query) -> BTreeMap<(String, i64), Vals> {
        let hs: Option<&Vec<String>> = q.tags.iter().find(|t| t.0 == "h").map(|t| &t.1);
        s.iter()
            .filter(|(k, _)| k.0 == q.table && hs.map(|h| h.contains(&k.1)).unwrap_or(true) && !q.nh.contains(&k.1) && !q.nt.contains(&self.clock.ts(k.2)))
            .filter(|(k, _)| q.ranges.is_empty() || q.ranges.iter().any(|r| r.0 <= self.clock.ts(k.2) && self.clock.ts(k.2) <= r.1))
            .filter(|(_, v)| q.conds.iter().all(|c| v.get(&c.0).map(|x| meets(x, &c.1, &c.2)).unwrap_or(false)))
            .map(|(k, v)| ((k.1.clone(), k.2), v.iter().filter(|(f, _)| q.cols.contains(f) || q.conds.iter().any(|c| c.0 == **f)).map(|(f, v)| (f.clone(), v.clone())).collect()))
            .collect()
    }
    /// Sorts the rows of a read by key; fails on a row that cannot exist or exists twice.
    fn index(&self, g: &Group, q: &Query, rows: &[Row]) -> Result<BTreeMap<(String, i64), Vals>, Bad> {
        let only_h = q.tags.iter().find(|t| t.0 == "h" && t.1.len() == 1).map(|t| t.1[0].clone());
        let mut got: BTreeMap<(String, i64), Vals> = BTreeMap::new();
        let mut last: HashMap<(String, i64), i64> = HashMap::new();
        for r in rows {
            if q.cols.iter().any(|c| c == "w") && r.tags.get("w") != Some(&g.w) {
                return bad("row of another series", format!("asked for w={}, got {r:?} ({q:?})", g.w));
            }
            let h = if q.cols.iter().any(|c| c == "h") { r.tags.get("h").cloned().unwrap_or_default() } else { only_h.clone().unwrap_or_default() };
            let Some(off) = self.clock.off(r.ts) else { return bad("row never written", format!("{r:?} has a time never written ({q:?})")) };
            if !q.ranges.is_empty() && !q.ranges.iter().any(|x| x.0 <= r.ts && r.ts <= x.1) {
                return bad("row outside the range asked for", format!("{r:?} ({q:?})"));
            }
            if q.nt.contains(&r.ts) {
                return bad("row outside the range asked for", format!("{r:?} ({q:?})"));
            }
            self.check_ever(&q.table, &g.w, off, r)?;
            let bucket = self.part(&(q.table.clone(), h.clone(), off)).0;
            if let Some(p) = last.insert((h.clone(), bucket), off) {
                if p > off {
                    return bad("rows out of order", format!("series h={h} returned time {p} before {off} ({q:?}): {:?}", rows.iter().map(|r| (r.tags.get("h"), self.clock.off(r.ts))).collect::<Vec<_>>()));
                }
            }
            if got.insert((h.clone(), off), r.vals.clone()).is_some() {
                return bad("row returned twice", format!("w={} h={h} time {off} ({q:?})", g.w));
            }
        }
        Ok(got)
    }
    fn check_ever(&self, table: &str, w: &str, off: i64, r: &Row) -> Result<(), Bad> {
        for (f, v) in &r.vals {
            let k = (table.to_string(), w.to_string(), off, f.clone());
            if !self.ever.get(&k).map(|s| s.contains(v)).unwrap_or(false) {
                return bad("value never written there", format!("table {table} w={w} time {off} column {f}: {v:?}, written were {:?}; row {r:?}", self.ever.get(&k)));
            }
        }
        Ok(())
    }
    /// Rows of any group: each must have been written, none twice.
    pub fn check_any(&self, q: &Query, rows: &[Row]) -> Result<(), Bad> {
        let mut seen = HashSet::new();
        for r in rows {
            let Some(off) = self.clock.off(r.ts) else { return bad("row never written", format!("{r:?}")) };
            let w = r.tags.get("w").cloned().unwrap_or_default();
            self.check_ever(&q.table, &w, off, r)?;
            if !seen.insert((w, r.tags.get("h").cloned(), off)) {
                return bad("row returned twice", format!("{r:?} ({q:?})"));
            }
        }
        Ok(())
    }
    /// The rows of one group. `settled`: nothing uncertain can still take effect, so one
    /// of the possible states must be the one read; it is kept if `keep`.
    pub fn check(&mut self, gi: usize, q: &Query, rows: Option<&[Row]>, settled: bool, keep: bool) -> Result<(), Bad> {
        let g = &self.groups[gi];
        if q.notime {
            return self.check_bag(g, q, rows.unwrap_or(&[]));
        }
        let got = self.index(g, q, rows.unwrap_or(&[]))?;
        if g.lost.contains(&q.table) || g.fuzzy {
            return Ok(());
        }
        let wants: Vec<BTreeMap<(String, i64), Vals>> = g.cands.iter().map(|s| self.wanted(s, q)).collect();
        let mut errs = vec![];
        let mut fit = vec![];
        for (i, w) in wants.iter().enumerate() {
            match diff(w, &got, q.limit) {
                None => fit.push(i),
                Some(e) => errs.push(e),
            }
        }
        if !fit.is_empty() {
            if keep && !g.torn {
                let g = &mut self.groups[gi];
                let mut i = 0;
                g.cands.retain(|_| {
                    i += 1;
                    fit.contains(&(i - 1))
                });
            }
            return Ok(());
        }
        if wants.len() > 1 && (!settled || g.torn) {
            return self.check_cells(g, &wants, &got, q);
        }
        let (class, d) = errs.swap_remove(0);
        let cls = if wants.len() > 1 { "no possible state is the one read".to_string() } else { class };
        bad(&cls, format!("group {} {q:?}: {d}{}", g.w, if wants.len() > 1 { format!("; {} states were possible", wants.len()) } else { String::new() }))
    }
    /// Rows without their times: as many of each as there should be.
    fn check_bag(&self, g: &Group, q: &Query, rows: &[Row]) -> Result<(), Bad> {
        if g.cands.len() != 1 || g.fuzzy || g.lost.contains(&q.table) {
            return Ok(());
        }
        let hcol = q.cols.iter().any(|c| c == "h");
        let mut want: BTreeMap<(String, Vals), i64> = BTreeMap::new();
        let mut most = 0;
        for ((h, _), v) in self.wanted(&g.cands[0], q) {
            most += 1;
            if !v.is_empty() {
                *want.entry((if hcol { h } else { String::new() }, v)).or_default() += 1;
            }
        }
        if let (Some(l), true) = (q.limit, rows.len() > most) {
            return bad("too many rows", format!("{} of {most}, limit {l} ({q:?})", rows.len()));
        }
        for r in rows {
            if !r.vals.is_empty() {
                let h = if hcol { r.tags.get("h").cloned().unwrap_or_default() } else { String::new() };
                *want.entry((h, r.vals.clone())).or_default() -= 1;
            }
        }
        for (k, n) in want {
            if n < 0 {
                return bad("row that must not exist", format!("w={} {k:?}, {} too many ({q:?})", g.w, -n));
            }
            if n > 0 && q.limit.is_none() {
                return bad("row missing", format!("w={} {k:?}, {n} too few ({q:?})", g.w));
            }
        }
        Ok(())
    }
    fn check_cells(&self, g: &Group, wants: &[BTreeMap<(String, i64), Vals>], got: &BTreeMap<(String, i64), Vals>, q: &Query) -> Result<(), Bad> {
        let mut keys: BTreeSet<&(String, i64)> = got.keys().collect();
        for w in wants {
            keys.extend(w.keys());
        }
        for k in keys {
            match got.get(k) {
                None => {
                    if q.limit.is_none() && wants.iter().all(|w| w.get(k).map(|v| !v.is_empty()).unwrap_or(false)) {
                        return bad("row missing", format!("group {} h={} time {} ({q:?})", g.w, k.0, k.1));
                    }
                }
                Some(v) => {
                    if !wants.iter().any(|w| w.contains_key(k)) {
                        return bad("row that must not exist", format!("group {} h={} time {}: {v:?} ({q:?})", g.w, k.0, k.1));
                    }
                    let fs: BTreeSet<&String> = v.keys().chain(wants.iter().flat_map(|w| w.get(k)).flat_map(|w| w.keys())).collect();
                    for f in fs {
                        if !wants.iter().any(|w| w.get(k).and_then(|w| w.get(f)) == v.get(f)) {
                            let old = v.get(f).map(|x| self.ever.get(&(q.table.clone(), g.w.clone(), k.1, f.clone())).map(|e| e.contains(x)).unwrap_or(false)).unwrap_or(false);
                            let class = if old && g.cut.iter().any(|(t, a, b)| *t == q.table && (*a..=*b).contains(&k.1)) { "an overwritten value after a delete that failed" } else { "wrong value" };
                            return bad(class, format!("group {} h={} time {} column {f}: {:?} ({q:?})", g.w, k.0, k.1, v.get(f)));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// A number standing for the state of all groups.
    pub fn digest(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = Fnv(0xcbf29ce484222325);
        for g in &self.groups {
            g.w.hash(&mut h);
            for c in &g.cands {
                c.hash(&mut h);
            }
        }
        h.finish()
    }
}
pub struct Fnv(pub u64);
impl std::hash::Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
fn dedup(g: &mut Group) {
    let mut s = HashSet::new();
    g.cands.retain(|c| s.insert(c.clone()));
}
pub fn nums(v: &Value) -> Vec<i64> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_i64()).collect()).unwrap_or_default()
}
pub fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
}
pub fn meets(x: &Val, op: &str, v: &Val) -> bool {
    use std::cmp::Ordering::*;
    let o = match (x, v) {
        (Val::F(a), Val::F(b)) => f64::from_bits(*a).partial_cmp(&f64::from_bits(*b)).unwrap(),
        _ => x.cmp(v),
    };
    match op {
        "=" => o == Equal,
        "<" => o == Less,
        "<=" => o != Greater,
        ">" => o == Greater,
        _ => o != Less,
    }
}
/// The rows of a write. Each row is [h, time offset, fields].
pub fn writes(op: &Value) -> Vec<(Key, Vals)> {
    let t = op["t"].as_str().unwrap_or("").to_string();
    let n = op["n"].as_u64().unwrap_or(0);
    let mut out = vec![];
    for (i, r) in op["rows"].as_array().unwrap_or(&vec![]).iter().enumerate() {
        let v: Vals = r[2].as_str().unwrap_or("").split(',').filter(|f| !f.is_empty()).map(|f| (f.to_string(), val(f, n, i as u64))).collect();
        out.push(((t.clone(), r[0].as_str().unwrap_or("").to_string(), r[1].as_i64().unwrap_or(0)), v));
    }
    out
}
fn diff(want: &BTreeMap<(String, i64), Vals>, got: &BTreeMap<(String, i64), Vals>, limit: Option<usize>) -> Option<(String, String)> {
    let mut d = vec![];
    let mut class = "";
    for (k, v) in got {
        match want.get(k) {
            None => {
                class = "row that must not exist";
                d.push(format!("h={} time {} should not exist: {v:?}", k.0, k.1));
            }
            Some(w) if w != v => {
                if class.is_empty() {
                    class = "wrong value";
                }
                d.push(format!("h={} time {} is {v:?}, should be {w:?}", k.0, k.1));
            }
            _ => {}
        }
    }
    if let Some(l) = limit {
        let must = want.values().filter(|v| !v.is_empty()).count();
        if got.len() < must.min(l) {
            class = "row missing";
            d.push(format!("{} rows of {must}, limit {l}", got.len()));
        }
    } else {
        for (k, w) in want {
            if !got.contains_key(k) && !w.is_empty() {
                if class.is_empty() || class == "wrong value" {
                    class = "row missing";
                }
                d.push(format!("h={} time {} is missing: {w:?}", k.0, k.1));
            }
        }
    }
    if class.is_empty() {
        return None;
    }
    let n = d.len();
    d.truncate(4);
    Some((class.to_string(), format!("{n} differences: {}", d.join("; "))))
}
