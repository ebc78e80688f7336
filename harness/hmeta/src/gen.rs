//! Random metadata commands over a few names, as they are kept in plans.
use crate::world::*;
use meta::store::command::*;
use models::auth::privilege::DatabasePrivilege;
use models::auth::role::{SystemTenantRole, TenantRoleIdentifier};
use models::auth::user::{User, UserDesc, UserOptionsBuilder};
use models::meta_data::{VnodeAllInfo, VnodeInfo, VnodeStatus};
use models::schema::query_info::{QueryId, QueryInfo};
use models::schema::resource_info::{ResourceInfo, ResourceOperator};
use models::schema::tenant::{Tenant, TenantOptions};
use simh::{json, Rng, Value};
use std::collections::HashMap;

/// What the generator remembers of what it made, so that some commands fit.
pub struct Names {
    pub next: u128,
    pub users: HashMap<String, u128>,
    pub versions: HashMap<(String, String, String), u64>,
    pub buckets: u32,
    pub pings: bool,
}
impl Names {
    pub fn new() -> Names {
        Names { next: 100, users: HashMap::new(), versions: HashMap::new(), buckets: 0, pings: true }
    }
}
fn c() -> String {
    CLUSTER.into()
}
pub fn tenant(r: &mut Rng) -> String {
    // the second is a prefix of the third
    r.pick(&["t1", "t", "t2"]).to_string()
}
pub fn db(r: &mut Rng) -> String {
    r.pick(&["d1", "d", "d2"]).to_string()
}
pub fn name(r: &mut Rng) -> String {
    r.pick(&["a", "ab", "b"]).to_string()
}
fn user(r: &mut Rng) -> String {
    r.pick(&["u1", "u2", "u3"]).to_string()
}
fn role(r: &mut Rng) -> String {
    r.pick(&["r1", "r2"]).to_string()
}
fn role_id(r: &mut Rng) -> TenantRoleIdentifier {
    match r.below(4) {
        0 => TenantRoleIdentifier::System(SystemTenantRole::Owner),
        1 => TenantRoleIdentifier::System(SystemTenantRole::Member),
        _ => TenantRoleIdentifier::Custom(role(r)),
    }
}
fn privilege(r: &mut Rng) -> DatabasePrivilege {
    match r.below(3) {
        0 => DatabasePrivilege::Read,
        1 => DatabasePrivilege::Write,
        _ => DatabasePrivilege::Full,
    }
}
pub fn tenant_options(r: &mut Rng) -> TenantOptions {
    let mut o = TenantOptions::default();
    if r.chance(1, 2) {
        o.comment = Some(format!("x{}", r.below(9)));
    }
    if r.chance(1, 3) {
        o.limiter_config = Some(serde_json::from_value(json!({"object_config": null, "request_config": limits(r.below(50) + 1, r.below(20), r.below(20) + 1, 1000)})).expect("limits"));
    }
    o
}
/// Limits of the kinds that count writes.
pub fn limits(max: u64, initial: u64, refill: u64, interval_ms: u64) -> Value {
    let b = json!({"remote_bucket": {"max": max, "initial": initial, "refill": refill, "interval": interval_ms}, "local_bucket": {"max": 5, "initial": 2}});
    json!({"coord_data_in": null, "coord_data_out": null, "coord_queries": null, "coord_writes": b, "http_data_in": b, "http_data_out": null, "http_queries": null, "http_writes": null})
}
pub fn schema(r: &mut Rng, t: &str, d: &str) -> models::schema::database_schema::DatabaseSchema {
    db_schema(t, d, r.below(3) + u64::from(!r.chance(1, 8)), r.below(3), *r.pick(&["1d", "1d", "10d", "1h"]), *r.pick(&["INF", "INF", "3650d"]), *r.pick(&["ns", "ms", "us"]))
}
/// `ts` around 2023-11-14, as many units as fit the precision of no database in particular.
pub fn ts(r: &mut Rng) -> i64 {
    const DAY: i64 = 86_400_000_000_000;
    match r.below(8) {
        0 => *r.pick(&[0, -1, 1, i64::MAX - 1, -DAY, DAY - 1, DAY, 1 - DAY]),
        1 => (1_700_000_000_000 + r.below(3) as i64 * 86_400_000) * *r.pick(&[1, 1000]),
        _ => 1_700_000_000_000_000_000 + (r.below(5) as i64 - 2) * DAY + r.below(3) as i64 - 1,
    }
}
pub fn command(r: &mut Rng, n: &mut Names) -> Value {
    let (t, d, a) = (tenant(r), db(r), name(r));
    let w = match r.below(66) {
        0..=3 => {
            n.next += 1;
            WriteCommand::CreateTenant(c(), Tenant::new(n.next, t, tenant_options(r)))
        }
        4 | 5 | 65 => WriteCommand::AlterTenant(c(), t, tenant_options(r)),
        6 => WriteCommand::SetTenantIsHidden(c(), t, r.chance(1, 2)),
        7 | 64 => WriteCommand::DropTenant(c(), t),
        8..=11 => WriteCommand::CreateDB(c(), t.clone(), schema(r, &t, &d)),
        12 => WriteCommand::AlterDB(c(), t.clone(), schema(r, &t, &d)),
        13 => WriteCommand::SetDBIsHidden(c(), t, d, r.chance(1, 2)),
        14 | 62 | 63 => WriteCommand::DropDB(c(), t, d),
        15..=18 => {
            n.versions.insert((t.clone(), d.clone(), a.clone()), 0);
            WriteCommand::CreateTable(c(), t.clone(), table(&t, &d, &a, 0, 1 + r.below(3)))
        }
        19..=22 => {
            let v = n.versions.entry((t.clone(), d.clone(), a.clone())).or_insert(0);
            let w = if r.chance(3, 4) { *v + 1 } else { r.below(4) };
            if w == *v + 1 {
                *v = w;
            }
            WriteCommand::UpdateTable(c(), t.clone(), table(&t, &d, &a, w, 1 + r.below(4)))
        }
        23 => WriteCommand::DropTable(c(), t, d, a),
        24..=26 => {
            n.next += 1;
            let u = user(r);
            n.users.insert(u.clone(), n.next);
            let mut o = UserOptionsBuilder::default();
            o.hash_password(format!("h{}", r.below(9)));
            WriteCommand::CreateUser(c(), UserDesc::new(n.next, u, o.build().expect("user"), r.chance(1, 5)))
        }
        27 => {
            let mut o = UserOptionsBuilder::default();
            if r.chance(1, 2) {
                o.comment(format!("c{}", r.below(9)));
            }
            if r.chance(1, 2) {
                o.granted_admin(r.chance(1, 2));
            }
            WriteCommand::AlterUser(c(), user(r), o.build().expect("user"))
        }
        28 => WriteCommand::RenameUser(c(), user(r), user(r)),
        29 => WriteCommand::DropUser(c(), user(r)),
        30..=33 => WriteCommand::AddMemberToTenant(c(), member(r, n), role_id(r), t),
        34 => WriteCommand::RemoveMemberFromTenant(c(), member(r, n), t),
        35 => WriteCommand::ReasignMemberRole(c(), member(r, n), role_id(r), t),
        36..=38 => {
            let sys = match r.below(3) {
                0 => Some(SystemTenantRole::Owner),
                1 => Some(SystemTenantRole::Member),
                _ => None,
            };
            let p = if r.chance(1, 2) { HashMap::from([(d, privilege(r))]) } else { HashMap::new() };
            WriteCommand::CreateRole(c(), role(r), sys, p, t)
        }
        39 => WriteCommand::DropRole(c(), role(r), t),
        40..=42 => {
            let p = (0..1 + r.below(2)).map(|_| (privilege(r), db(r))).collect();
            WriteCommand::GrantPrivileges(c(), p, role(r), t)
        }
        43 | 44 => {
            let p = (0..1 + r.below(2)).map(|_| (privilege(r), db(r))).collect();
            WriteCommand::RevokePrivileges(c(), p, role(r), t)
        }
        45..=48 if n.pings => {
            n.buckets += 1;
            WriteCommand::CreateBucket(c(), t, d, ts(r))
        }
        49 => WriteCommand::RetainID(c(), r.below(4) as u32 + 1),
        50 if n.buckets > 0 => {
            let id = 1 + r.below(n.buckets as u64 * 4) as u32;
            match r.below(4) {
                0 => WriteCommand::DeleteBucket(c(), t, d, id),
                1 => WriteCommand::UpdateVnode(UpdateVnodeArgs {
                    cluster: c(),
                    vnode_info: VnodeAllInfo { vnode_id: id + 2, node_id: 1, repl_set_id: id + 1, bucket_id: id, db_name: d, tenant: t, status: VnodeStatus::Broken, start_time: 0, end_time: 0 },
                }),
                2 => WriteCommand::UpdateVnodeReplSet(UpdateVnodeReplSetArgs { cluster: c(), tenant: t, db_name: d, bucket_id: id, repl_id: id + 1, del_info: vec![VnodeInfo::new(id + 2, 1)], add_info: vec![VnodeInfo::new(id + 1000, 2)] }),
                _ => WriteCommand::ChangeReplSetLeader(ChangeReplSetLeaderArgs { cluster: c(), tenant: t, db_name: d, bucket_id: id, repl_id: id + 1, leader_node_id: 2, leader_vnode_id: id + 3 }),
            }
        }
        51 | 52 => {
            let id = 1 + r.below(4);
            // sometimes the address of another
            WriteCommand::AddDataNode(c(), models::meta_data::NodeInfo { grpc_addr: data_addr(if r.chance(1, 6) { 1 + r.below(4) } else { id }), ..node_info(id) })
        }
        53 | 54 => WriteCommand::ReportNodeMetrics(c(), node_metrics(1 + r.below(4), 10 * r.below(3), !r.chance(1, 6))),
        55 => WriteCommand::Set { key: format!("/{CLUSTER}/k{}", r.below(3)), value: format!("\"v{}\"", r.below(9)) },
        56 => WriteCommand::ResourceInfosMark(c(), 1 + r.below(3), r.chance(1, 2)),
        57 => {
            let mut v = cmd(&WriteCommand::ResourceInfo(c(), a.clone(), ResourceInfo::new((7, d), a, ResourceOperator::DropTenant(t), &None, 1 + r.below(3))));
            v["ResourceInfo"][2]["time"] = json!(5);
            return v;
        }
        58 | 59 => {
            let u = User::new(UserDesc::new(5, "u1".into(), Default::default(), false), Default::default(), None);
            let q = 1 + r.below(5);
            WriteCommand::WriteQueryInfo(c(), q, QueryInfo::new(QueryId::from(q), "select 1".into(), 5, t, d, u, 1 + r.below(3)))
        }
        60 => WriteCommand::RemoveQueryInfo(c(), 1 + r.below(5)),
        _ => WriteCommand::MoveQueryInfo(c(), 1 + r.below(3), 1 + r.below(3)),
    };
    cmd(&w)
}
fn member(r: &mut Rng, n: &Names) -> u128 {
    let u = user(r);
    *n.users.get(&u).unwrap_or(&7)
}
/// A first few commands, so that the rest finds something to work on.
pub fn base(r: &mut Rng, n: &mut Names) -> Vec<Value> {
    let mut v: Vec<WriteCommand> = vec![];
    for i in 1..=3 {
        v.push(WriteCommand::AddDataNode(c(), node_info(i)));
        v.push(WriteCommand::ReportNodeMetrics(c(), node_metrics(i, 10 * r.below(3), true)));
    }
    n.next += 1;
    v.push(WriteCommand::CreateTenant(c(), Tenant::new(n.next, "t1".into(), tenant_options(r))));
    v.push(WriteCommand::CreateDB(c(), "t1".into(), db_schema("t1", "d1", 1 + r.below(2), 1 + r.below(2), "1d", "INF", "ns")));
    v.iter().map(cmd).collect()
}
