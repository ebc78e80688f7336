//! M04: metadata commands against a reference model of the catalog.
use crate::gen;
use crate::world::*;
use meta::store::command::ReadCommand;
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use simrt::fsx;
use std::collections::{BTreeMap, BTreeSet};

fn plan(r: &mut Rng, t: Tier) -> Value {
    let mut n = gen::Names::new();
    let crashes = r.chance(1, 4);
    let mut ops: Vec<Value> = gen::base(r, &mut n).into_iter().map(|c| json!({"k": "c", "c": c})).collect();
    let count = 20 + r.below(if t == Tier::Quick { 100 } else { 300 });
    for _ in 0..count {
        ops.push(match r.below(40) {
            0 => json!({"k": "kill"}),
            1 => json!({"k": "move"}),
            // dies at some write to its disk during the next command
            // on a bucket that there is by then
            8..=11 => json!({"k": "b", "w": r.below(8), "x": r.below(1 << 20), "del": r.below(3), "add": r.below(3), "node": 1 + r.below(4)}),
            2..=7 if crashes => json!({"k": "crash", "skip": r.below(8), "torn": r.chance(1, 2)}),
            _ => {
                let c = gen::command(r, &mut n);
                json!({"k": "c", "c": c})
            }
        });
    }
    json!({"sched": simh::sched(r), "ops": ops})
}
type Named = BTreeMap<String, Value>;
#[derive(Clone, Default, PartialEq, Debug)]
struct Tenant {
    info: Value,
    members: Named,
    roles: Named,
    dbs: BTreeMap<String, Db>,
}
#[derive(Clone, Default, PartialEq, Debug)]
struct Db {
    info: Value,
    tables: Named,
    buckets: Named,
}
#[derive(Clone, Default, PartialEq, Debug)]
struct Model {
    tenants: BTreeMap<String, Tenant>,
    users: Named,
    nodes: Named,
    metrics: Named,
    queries: Named,
    resources: Named,
    mark: (u64, bool),
}
/// What a command has to do.
enum Want {
    Done,
    Refused,
    /// nothing is said of this command (it refers to a tenant or user that is not there)
    Any,
}
fn s(v: &Value) -> String {
    v.as_str().map(|x| x.to_string()).unwrap_or_else(|| v.to_string())
}
impl Model {
    fn enough(&self, db: &Value) -> bool {
        let live = self.nodes.keys().filter(|k| self.metrics.get(*k).is_some_and(|m| m["status"] == "Healthy")).count() as u64;
        db["options"]["shard_num"].as_u64().unwrap() > 0 && db["options"]["replica"].as_u64().unwrap().max(1) <= live
    }
    /// The effect of a command: on this model, when it is accepted.
    fn apply(&mut self, name: &str, a: &Value) -> Want {
        use Want::*;
        let arg = |i: usize| s(&a[i]);
        macro_rules! tenant {
            ($n:expr) => {
                match self.tenants.get_mut(&$n) {
                    Some(t) => t,
                    None => return Any,
                }
            };
        }
        macro_rules! refuse_if {
            ($c:expr) => {
                if $c {
                    return Refused;
                }
            };
        }
        match name {
            "CreateTenant" => {
                let n = s(&a[1]["name"]);
                refuse_if!(self.tenants.contains_key(&n));
                self.tenants.insert(n, Tenant { info: a[1].clone(), ..Default::default() });
            }
            "AlterTenant" => {
                let Some(t) = self.tenants.get_mut(&arg(1)) else { return Refused };
                refuse_if!(t.info["options"]["tenant_is_hidden"] == true);
                t.info["options"] = a[2].clone();
            }
            "SetTenantIsHidden" => {
                let Some(t) = self.tenants.get_mut(&arg(1)) else { return Refused };
                t.info["options"]["tenant_is_hidden"] = a[2].clone();
            }
            "DropTenant" => {
                self.tenants.remove(&arg(1));
            }
            "RenameTenant" | "RenameUser" => return Refused,
            "CreateDB" => {
                let enough = self.enough(&a[2]);
                let t = tenant!(arg(1));
                let n = s(&a[2]["database"]);
                refuse_if!(t.dbs.contains_key(&n) || !enough);
                t.dbs.insert(n, Db { info: a[2].clone(), ..Default::default() });
            }
            "AlterDB" => {
                let enough = self.enough(&a[2]);
                let t = tenant!(arg(1));
                let Some(d) = t.dbs.get_mut(&s(&a[2]["database"])) else { return Refused };
                refuse_if!(!enough);
                d.info = a[2].clone();
            }
            "SetDBIsHidden" => {
                let Some(d) = tenant!(arg(1)).dbs.get_mut(&arg(2)) else { return Refused };
                d.info["is_hidden"] = a[3].clone();
            }
            "DropDB" => {
                tenant!(arg(1)).dbs.remove(&arg(2));
            }
            "CreateTable" | "UpdateTable" => {
                let sc = &a[2]["TsKvTableSchema"];
                let t = tenant!(arg(1));
                let Some(d) = t.dbs.get_mut(&s(&sc["db"])) else { return Refused };
                let n = s(&sc["name"]);
                if name == "CreateTable" {
                    refuse_if!(d.tables.contains_key(&n));
                } else {
                    let Some(old) = d.tables.get(&n) else { return Refused };
                    refuse_if!(old["TsKvTableSchema"]["schema_version"].as_u64().unwrap() + 1 != sc["schema_version"].as_u64().unwrap());
                }
                d.tables.insert(n, a[2].clone());
            }
            "DropTable" => {
                let t = tenant!(arg(1));
                let Some(d) = t.dbs.get_mut(&arg(2)) else { return Refused };
                refuse_if!(d.tables.remove(&arg(3)).is_none());
            }
            "CreateUser" => {
                let n = s(&a[1]["name"]);
                refuse_if!(self.users.contains_key(&n));
                self.users.insert(n, a[1].clone());
            }
            "AlterUser" => {
                let Some(u) = self.users.get_mut(&arg(1)) else { return Refused };
                for (k, v) in a[2].as_object().unwrap() {
                    if !v.is_null() {
                        u["options"][k] = v.clone();
                    }
                }
            }
            "DropUser" => {
                let Some(u) = self.users.remove(&arg(1)) else { return Done };
                for t in self.tenants.values_mut() {
                    t.members.remove(&s(&u["id"]));
                }
            }
            "AddMemberToTenant" | "ReasignMemberRole" => {
                if !self.users.values().any(|u| u["id"] == a[1]) {
                    return Any;
                }
                let t = tenant!(arg(3));
                refuse_if!(t.members.contains_key(&arg(1)) == (name == "AddMemberToTenant"));
                refuse_if!(a[2].get("Custom").is_some_and(|n| !t.roles.contains_key(&s(n))));
                t.members.insert(arg(1), a[2].clone());
            }
            "RemoveMemberFromTenant" => {
                refuse_if!(tenant!(arg(2)).members.remove(&arg(1)).is_none());
            }
            "CreateRole" => {
                let t = tenant!(arg(4));
                refuse_if!(t.roles.contains_key(&arg(1)));
                t.roles.insert(arg(1), json!({"name": a[1], "system_role": a[2], "additional_privileges": a[3]}));
            }
            "DropRole" => {
                refuse_if!(tenant!(arg(2)).roles.remove(&arg(1)).is_none());
            }
            "GrantPrivileges" | "RevokePrivileges" => {
                let t = tenant!(arg(3));
                let Some(old) = t.roles.get(&arg(2)) else { return Refused };
                let mut r = old.clone();
                let m = r["additional_privileges"].as_object_mut().unwrap();
                for p in a[1].as_array().unwrap() {
                    let d = s(&p[1]);
                    if name == "GrantPrivileges" {
                        refuse_if!(!t.dbs.contains_key(&d));
                        m.insert(d, p[0].clone());
                    } else {
                        refuse_if!(m.get(&d) != Some(&p[0]));
                        m.remove(&d);
                    }
                }
                t.roles.insert(arg(2), r);
            }
            "AddDataNode" => {
                refuse_if!(self.nodes.values().any(|n| n["id"] != a[1]["id"] && n["grpc_addr"] == a[1]["grpc_addr"]));
                self.nodes.insert(s(&a[1]["id"]), a[1].clone());
                // the node that comes takes the lock on the resource work, if it is free
                if !self.mark.1 {
                    self.mark = (a[1]["id"].as_u64().unwrap(), true);
                }
            }
            "ReportNodeMetrics" => {
                self.metrics.insert(s(&a[1]["id"]), a[1].clone());
            }
            "ResourceInfo" => {
                self.resources.insert(arg(1), a[2].clone());
            }
            "ResourceInfosMark" => {
                let (node, lock) = (a[1].as_u64().unwrap(), a[2] == true);
                refuse_if!(lock && self.mark.1 || !lock && self.mark.0 != node);
                self.mark = (node, lock);
            }
            "WriteQueryInfo" => {
                self.queries.insert(arg(1), a[2].clone());
            }
            "RemoveQueryInfo" => {
                self.queries.remove(&arg(1));
            }
            "MoveQueryInfo" => {
                for q in self.queries.values_mut() {
                    if q["node_id"] == a[1] {
                        q["node_id"] = a[2].clone();
                    }
                }
            }
            "DeleteBucket" => {
                if let Some(d) = tenant!(arg(1)).dbs.get_mut(&arg(2)) {
                    d.buckets.remove(&arg(3));
                }
            }
            "UpdateVnode" | "UpdateVnodeReplSet" | "ChangeReplSetLeader" => {
                let x = if name == "UpdateVnode" { &a["vnode_info"] } else { a };
                let Some(d) = tenant!(s(&x["tenant"])).dbs.get_mut(&s(&x["db_name"])) else { return Refused };
                let Some(b) = d.buckets.get_mut(&s(&x["bucket_id"])) else { return Refused };
                let id = if name == "UpdateVnode" { &x["repl_set_id"] } else { &x["repl_id"] };
                for g in b["shard_group"].as_array_mut().unwrap().iter_mut().filter(|g| g["id"] == *id) {
                    match name {
                        "UpdateVnode" => {
                            if let Some(v) = g["vnodes"].as_array_mut().unwrap().iter_mut().find(|v| v["id"] == x["vnode_id"]) {
                                v["status"] = x["status"].clone();
                            }
                        }
                        "ChangeReplSetLeader" => {
                            g["leader_node_id"] = x["leader_node_id"].clone();
                            g["leader_vnode_id"] = x["leader_vnode_id"].clone();
                        }
                        _ => {
                            let v = g["vnodes"].as_array_mut().unwrap();
                            v.retain(|v| !x["del_info"].as_array().unwrap().iter().any(|d| d["id"] == v["id"] && d["node_id"] == v["node_id"]));
                            v.extend(x["add_info"].as_array().unwrap().iter().cloned());
                        }
                    }
                }
                b["shard_group"].as_array_mut().unwrap().retain(|g| !g["vnodes"].as_array().unwrap().is_empty());
                if b["shard_group"].as_array().unwrap().is_empty() {
                    let k = s(&x["bucket_id"]);
                    d.buckets.remove(&k);
                }
            }
            // what a new bucket holds is judged by M02 and taken over here
            "CreateBucket" | "RetainID" | "Set" | "LimiterRequest" => {}
            _ => simh::harness_error(name.to_string()),
        }
        Done
    }
}
fn want(v: &Value, what: &str) -> Value {
    match v.get("Ok") {
        Some(v) => v.clone(),
        None => violation("a read fails", format!("{what}: {}", short(v))),
    }
}
/// Everything the read commands show of the names in use.
fn look(m: &std::sync::Arc<Machine>, tenants: &BTreeSet<String>) -> Model {
    let names = tenants.clone();
    m.on(move |l| l.rt.block_on(async { show(&*l.sm.read().await, &names) })).expect("look")
}
fn show(sm: &meta::store::storage::StateMachine, tenants: &BTreeSet<String>) -> Model {
    let c = || CLUSTER.to_string();
    let mut out = Model::default();
    let get = |r: ReadCommand| want(&serde_json::from_str(&sm.process_read_command(&r)).unwrap_or_default(), &format!("{r:?}"));
    for u in get(ReadCommand::Users(c())).as_array().unwrap() {
        let one = get(ReadCommand::User(c(), s(&u["name"])));
        if one != *u {
            violation("two reads differ", format!("user {one} and {u}"));
        }
        out.users.insert(s(&u["name"]), u.clone());
    }
    let shown: BTreeSet<String> = get(ReadCommand::Tenants(c())).as_array().unwrap().iter().map(|t| s(&t["name"])).collect();
    for t in tenants.iter().chain(shown.iter()) {
        let info = get(ReadCommand::Tenant(c(), t.clone(), false));
        let hidden = info["options"]["tenant_is_hidden"] == true;
        let open = get(ReadCommand::Tenant(c(), t.clone(), true));
        if shown.contains(t) != (!info.is_null() && !hidden) || open.is_null() == shown.contains(t) {
            violation("a hidden tenant shows, or one that is not hidden does not", format!("{t}: {info}, listed {}", shown.contains(t)));
        }
        let md = get(ReadCommand::TenantMetaData(c(), t.clone()));
        let mut x = Tenant { info, ..Default::default() };
        let named = |v: &Value| -> Named { v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
        x.members = named(&md["members"]);
        x.roles = named(&md["roles"]);
        for r in x.roles.values_mut() {
            let one = get(ReadCommand::CustomRole(c(), s(&r["name"]), t.clone()));
            if one != *r {
                violation("two reads differ", format!("role {one} and {r}"));
            }
            r.as_object_mut().unwrap().remove("id");
        }
        let listed: BTreeSet<String> = get(ReadCommand::CustomRoles(c(), t.clone())).as_array().unwrap().iter().map(|r| s(&r["name"])).collect();
        if listed != x.roles.keys().cloned().collect() {
            violation("two reads differ", format!("roles of {t}: {listed:?} and {:?}", x.roles.keys()));
        }
        for (id, role) in &x.members {
            let one = get(ReadCommand::MemberRole(c(), t.clone(), id.parse().unwrap()));
            if one != *role {
                violation("two reads differ", format!("member {id} of {t}: {one} and {role}"));
            }
        }
        let by_name = named(&get(ReadCommand::Members(c(), t.clone())));
        let expect: Named = x.members.iter().filter_map(|(id, r)| out.users.values().find(|u| s(&u["id"]) == *id).map(|u| (s(&u["name"]), r.clone()))).collect();
        if by_name != expect {
            violation("two reads differ", format!("members of {t}: {by_name:?} and {expect:?}"));
        }
        for (n, d) in md["dbs"].as_object().unwrap() {
            let mut y = Db { info: d["schema"].clone(), tables: named(&d["tables"]), ..Default::default() };
            for (n2, tab) in &y.tables {
                let one = get(ReadCommand::TableSchema(c(), t.clone(), n.clone(), n2.clone()));
                if one != *tab {
                    violation("two reads differ", format!("table {one} and {tab}"));
                }
            }
            for b in d["buckets"].as_array().unwrap() {
                y.buckets.insert(s(&b["id"]), b.clone());
                for g in b["shard_group"].as_array().unwrap() {
                    let one = get(ReadCommand::ReplicationSet(c(), t.clone(), n.clone(), g["id"].as_u64().unwrap() as u32));
                    if one != *g {
                        violation("two reads differ", format!("replica set {one} and {g}"));
                    }
                }
            }
            x.dbs.insert(n.clone(), y);
        }
        if x == Tenant::default() {
            continue;
        }
        out.tenants.insert(t.clone(), x);
    }
    for n in get(ReadCommand::DataNodes(c()))[0].as_array().unwrap() {
        out.nodes.insert(s(&n["id"]), n.clone());
    }
    for n in get(ReadCommand::NodeMetrics(c())).as_array().unwrap() {
        out.metrics.insert(s(&n["id"]), n.clone());
    }
    for i in 1..=4 {
        for q in get(ReadCommand::ReadQueryInfos(c(), i)).as_array().unwrap() {
            out.queries.insert(s(&q["query_id"]), q.clone());
        }
    }
    for q in get(ReadCommand::ResourceInfos(c())).as_array().unwrap() {
        out.resources.insert(s(&q["name"]), q.clone());
    }
    let mk = get(ReadCommand::ResourceInfosMark(c()));
    out.mark = (mk[0].as_u64().unwrap(), mk[1] == true);
    out
}
fn diff(a: &Model, b: &Model) -> Option<String> {
    macro_rules! part {
        ($f:ident) => {
            for k in a.$f.keys().chain(b.$f.keys()) {
                if a.$f.get(k) != b.$f.get(k) {
                    let t = |x: String| x.chars().take(500).collect::<String>();
                    return Some(format!("{} {k}: expected {}, is {}", stringify!($f), t(format!("{:?}", a.$f.get(k))), t(format!("{:?}", b.$f.get(k)))));
                }
            }
        };
    }
    part!(users);
    for k in a.tenants.keys().chain(b.tenants.keys()) {
        let e = Tenant::default();
        let (x, y) = (a.tenants.get(k).unwrap_or(&e), b.tenants.get(k).unwrap_or(&e));
        if x != y {
            for n in x.dbs.keys().chain(y.dbs.keys()) {
                if x.dbs.get(n) != y.dbs.get(n) {
                    return Some(format!("database {k}.{n}: expected {:?}, is {:?}", x.dbs.get(n), y.dbs.get(n)).chars().take(1200).collect());
                }
            }
            return Some(format!("tenant {k}: expected {:?} {:?} {:?}, is {:?} {:?} {:?}", x.info, x.members, x.roles, y.info, y.members, y.roles));
        }
    }
    part!(nodes);
    part!(metrics);
    part!(queries);
    part!(resources);
    (a.mark != b.mark).then(|| format!("lock: expected {:?}, is {:?}", a.mark, b.mark))
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        (1..=4).for_each(data_up);
        let m = Machine::new(0);
        let mut model = Model::default();
        let mut names: BTreeSet<String> = ["t", "t1", "t2"].iter().map(|x| x.to_string()).collect();
        let mut index = 0;
        let mut rep = Report::default();
        let mut armed: Option<Value> = None;
        let mut fresh = 100_000;
        for o in p["ops"].as_array().unwrap() {
            let made = match o["k"] == "b" {
                true => match aim(&model, o, &mut fresh) {
                    Some(c) => Some(json!({"k": "c", "c": c})),
                    None => continue,
                },
                false => None,
            };
            let o = made.as_ref().unwrap_or(o);
            match o["k"].as_str().unwrap() {
                "c" => {
                    let c = &o["c"];
                    index += 1;
                    let name = c.as_object().unwrap().keys().next().unwrap().clone();
                    let mut next = model.clone();
                    let w = next.apply(&name, &c[&name]);
                    if matches!(w, Want::Any) {
                        rep.count("commands on what is not there, not sent", 1);
                        continue;
                    }
                    let before = m.dump();
                    if let Some(o) = armed.take() {
                        let _ = fsx::arm(m.disk, fsx::Fault { skip: o["skip"].as_u64().unwrap() as u32, ops: fsx::ANY, path: String::new(), kind: fsx::Kind::Crash { torn: o["torn"] == true } });
                    }
                    let a = m.apply(c, index).filter(|_| !simrt::node_dead(m.node()));
                    fsx::disarm_all(m.disk);
                    simrt::observe(hash(&(name.clone(), a.as_ref().map(ok))));
                    let Some(a) = a else {
                        // died on the way: done or not done
                        rep.count("commands cut by a crash", 1);
                        m.kill();
                        m.open();
                        let now = look(&m, &names);
                        if matches!(w, Want::Refused) {
                            next = model.clone();
                        }
                        let next = take(next, &now, &name, c);
                        if let Some(d) = diff(&next, &now) {
                            if let Some(d2) = diff(&model, &now) {
                                violation(&format!("a crash cut {name} in half"), format!("{}: {d}; {d2}", short(c)));
                            }
                        } else {
                            model = next;
                        }
                        if let Some(k) = orphan(&m.dump()) {
                            violation(&format!("a crash cut {name} in half"), format!("{}: {k} is left", short(c)));
                        }
                        continue;
                    };
                    hlog!("{}: {}", short(c), short(&a).chars().take(80).collect::<String>());
                    let now = look(&m, &names);
                    match (w, ok(&a)) {
                        (Want::Done, true) => {
                            rep.count("commands accepted", 1);
                            model = take(next, &now, &name, c);
                        }
                        (Want::Refused, false) => {
                            rep.count("commands refused", 1);
                            same(&before, &m.dump(), c);
                        }
                        (Want::Done, false) if name == "CreateBucket" => same(&before, &m.dump(), c),
                        (_, yes) => violation(
                            if yes { "a command is accepted that has to be refused" } else { "a command is refused that has to be accepted" },
                            format!("{}: {}", short(c), short(&a)),
                        ),
                    }
                    if let Some(d) = diff(&model, &now) {
                        violation("the catalog is not what the commands say", format!("after {}: {d}", short(c)));
                    }
                    if let Some(k) = orphan(&m.dump()) {
                        violation("something is left without its tenant or database", format!("after {}: {k}", short(c)));
                    }
                    names.extend(now.tenants.keys().cloned());
                }
                "crash" => {
armed = Some(o.clone());
                }
                "kill" | "move" => {
                    if o["k"] == "kill" {
                        m.kill();
                        m.open();
                    } else {
                        let Some(b) = m.snapshot(index) else { continue };
                        if m.restore(b) != Some(true) {
                            violation("a snapshot is refused", String::new());
                        }
                    }
                    if let Some(d) = diff(&model, &look(&m, &names)) {
                        violation("the catalog is not what the commands say", format!("after {}: {d}", o["k"]));
                    }
                }
                k => simh::harness_error(k.to_string()),
            }
        }
        rep.nontrivial = model.tenants.values().any(|t| !t.dbs.is_empty());
        rep.state = hash(&model);
        rep
    })
}
/// Takes over what the command leaves open: what a new bucket holds, and which member leads when
/// the leader of a replica set has left it.
fn take(mut next: Model, now: &Model, name: &str, c: &Value) -> Model {
    let at = |t: &Value, d: &Value| now.tenants.get(&s(t)).and_then(|t| t.dbs.get(&s(d)));
    let a = &c[name];
    match name {
        "CreateBucket" => {
            if let (Some(x), Some(d)) = (at(&a[1], &a[2]), next.tenants.get_mut(&s(&a[1])).and_then(|t| t.dbs.get_mut(&s(&a[2])))) {
                for (k, v) in &x.buckets {
                    if d.buckets.values().all(|b| b["start_time"] != v["start_time"]) {
                        d.buckets.insert(k.clone(), v.clone());
                        break;
                    }
                }
            }
        }
        "UpdateVnodeReplSet" => {
            let k = s(&a["bucket_id"]);
            let is = at(&a["tenant"], &a["db_name"]).and_then(|d| d.buckets.get(&k));
            let b = next.tenants.get_mut(&s(&a["tenant"])).and_then(|t| t.dbs.get_mut(&s(&a["db_name"]))).and_then(|d| d.buckets.get_mut(&k));
            if let (Some(is), Some(b)) = (is, b) {
                for g in b["shard_group"].as_array_mut().unwrap() {
                    let Some(g2) = is["shard_group"].as_array().unwrap().iter().find(|x| x["id"] == g["id"]) else { continue };
                    let member = |id: &Value, n: Option<&Value>| g["vnodes"].as_array().unwrap().iter().any(|v| v["id"] == *id && n.map_or(true, |n| v["node_id"] == *n));
                    if !member(&g["leader_vnode_id"], None) {
                        let ok = member(&g2["leader_vnode_id"], Some(&g2["leader_node_id"]));
                        g["leader_vnode_id"] = if ok { g2["leader_vnode_id"].clone() } else { json!("a member") };
                        g["leader_node_id"] = g2["leader_node_id"].clone();
                    }
                }
            }
        }
        _ => {}
    }
    next
}
/// A command on one of the buckets there are.
fn aim(m: &Model, o: &Value, fresh: &mut u64) -> Option<Value> {
    let all: Vec<(&String, &String, &Value)> = m.tenants.iter().flat_map(|(t, x)| x.dbs.iter().flat_map(move |(d, y)| y.buckets.values().map(move |b| (t, d, b)))).collect();
    let x = o["x"].as_u64().unwrap() as usize;
    let (t, d, b) = all.get(x % all.len().max(1))?;
    let groups = b["shard_group"].as_array().unwrap();
    let g = &groups[x / 7 % groups.len()];
    let vs = g["vnodes"].as_array().unwrap();
    let v = &vs[x / 31 % vs.len()];
    let status = ["Running", "Copying", "Broken"][x % 3];
    Some(match o["w"].as_u64().unwrap() {
        0 => json!({"DeleteBucket": [CLUSTER, t, d, b["id"]]}),
        1 | 2 => json!({"UpdateVnode": {"cluster": CLUSTER, "vnode_info": {"vnode_id": v["id"], "node_id": v["node_id"], "repl_set_id": g["id"], "bucket_id": b["id"], "db_name": d, "tenant": t, "status": status, "start_time": 0, "end_time": 0}}}),
        3 => json!({"ChangeReplSetLeader": {"cluster": CLUSTER, "tenant": t, "db_name": d, "bucket_id": b["id"], "repl_id": g["id"], "leader_node_id": v["node_id"], "leader_vnode_id": v["id"]}}),
        _ => {
            let n = (o["del"].as_u64().unwrap() as usize).min(vs.len());
            let del: Vec<Value> = (0..n).map(|i| vs[(x / 31 + i) % vs.len()].clone()).collect();
            let add: Vec<Value> = (0..o["add"].as_u64().unwrap())
                .map(|i| {
                    *fresh += 1;
                    json!({"id": *fresh, "node_id": (o["node"].as_u64().unwrap() + i) % 4 + 1, "status": "Running"})
                })
                .collect();
            json!({"UpdateVnodeReplSet": {"cluster": CLUSTER, "tenant": t, "db_name": d, "bucket_id": b["id"], "repl_id": g["id"], "del_info": del, "add_info": add}})
        }
    })
}
/// A key under a tenant or database that is not there.
fn orphan(d: &BTreeMap<String, Value>) -> Option<String> {
    let parts = |k: &str| k.split('/').map(|x| x.to_string()).collect::<Vec<_>>();
    d.keys()
        .find(|k| {
            let p = parts(k);
            // "", cluster, "tenants", T, "dbs", D, …
            p.len() > 4 && p[2] == "tenants" && (!d.contains_key(&p[..4].join("/")) || p.len() > 6 && p[4] == "dbs" && !d.contains_key(&p[..6].join("/")))
        })
        .cloned()
}
fn same(a: &BTreeMap<String, Value>, b: &BTreeMap<String, Value>, c: &Value) {
    let skip = |k: &&String| !k.ends_with("data_version") && !k.ends_with("auto_incr_id");
    for k in a.keys().chain(b.keys()).filter(skip) {
        if a.get(k) != b.get(k) {
            violation("a refused command changed something", format!("{}: {k}", short(c)));
        }
    }
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "M04",
        name: "catalog",
        share: 1,
        gen: plan,
        run,
        rule: "after every command the read commands show what a reference model of the catalog holds; a refused command changes no key",
        real: REAL,
        stub: STUB,
        assumptions: ASSUME,
    }]
}
