//! Metadata state machines on simulated disks, data nodes that answer pings, and
//! commands as they are kept in a plan.
use meta::store::storage::StateMachine;
use models::meta_data::{NodeId, NodeInfo, NodeMetrics};
use models::node_info::NodeStatus;
use models::schema::database_schema::{DatabaseConfigBuilder, DatabaseOptionsBuilder, DatabaseSchema};
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema};
use models::schema::table_schema::TableSchema;
use models::ValueType;
use replication::{ApplyContext, ApplyStorage};
use simh::{hlog, json, Value};
use simrt::fsx;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex, MutexGuard};
use tokio::runtime::Runtime;
use tonic::{Request, Response, Status};

pub const CLUSTER: &str = "c";
pub const REAL: &[&str] = &["meta (state machine, commands, watch, HTTP server and client, limiters)", "models", "limiter_bucket"];
pub const STUB: &[&str] = &["heed (a log of transactions)", "HTTP and gRPC over a simulated network", "tokio, threads, locks, clock, randomness and disk (simulator)", "data nodes (answer pings only)"];
pub const ASSUME: &[&str] = &["sequentially consistent memory", "a committed LMDB transaction survives the death of the process, one that is not committed leaves nothing"];

pub fn lk<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn runtime(name: &str) -> Arc<Runtime> {
    Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(1).thread_name(name).enable_all().build().unwrap())
}
pub fn mk(p: &str) -> String {
    simrt::nested(|| std::fs::create_dir_all(p)).expect("scratch");
    p.to_string()
}

// ------------------------------------------------------------------ data nodes
struct Ping;
type St = std::pin::Pin<Box<dyn futures::Stream<Item = Result<protos::kv_service::BatchBytesResponse, Status>> + Send>>;
#[async_trait::async_trait]
impl protos::kv_service::tskv_service_server::TskvService for Ping {
    async fn ping(&self, _: Request<protos::kv_service::PingRequest>) -> Result<Response<protos::kv_service::PingResponse>, Status> {
        Ok(Response::new(protos::kv_service::PingResponse { version: 1, body: vec![] }))
    }
    type DownloadFileStream = St;
    async fn download_file(&self, _: Request<protos::kv_service::DownloadFileRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    type TagScanStream = St;
    async fn tag_scan(&self, _: Request<protos::kv_service::QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    type QueryRecordBatchStream = St;
    async fn query_record_batch(&self, _: Request<protos::kv_service::QueryRecordBatchRequest>) -> Result<Response<St>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn raft_write(&self, _: Request<protos::kv_service::RaftWriteCommand>) -> Result<Response<protos::kv_service::BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
    async fn admin_request(&self, _: Request<protos::kv_service::AdminCommand>) -> Result<Response<protos::kv_service::BatchBytesResponse>, Status> {
        Err(Status::unimplemented(""))
    }
}
pub fn data_addr(n: NodeId) -> String {
    format!("127.0.0.1:{}", 9000 + n)
}
/// The data node answers pings from now on.
pub fn data_up(n: NodeId) {
    let done = Arc::new(Mutex::new(false));
    let d = done.clone();
    let t = simrt::spawn_on("data", 50_000 + n as u32, move || {
        let rt = runtime("data");
        rt.block_on(async {
            tonic::transport::Server::builder().add_service(protos::kv_service::tskv_service_server::TskvServiceServer::new(Ping)).listen(&data_addr(n));
        });
        std::mem::forget(rt);
        *lk(&d) = true;
    });
    simrt::join(t);
}
pub fn data_down(n: NodeId) {
    tonic::net::unlisten(&data_addr(n));
}
pub fn node_info(n: NodeId) -> NodeInfo {
    NodeInfo { id: n, grpc_addr: data_addr(n), ..Default::default() }
}
pub fn node_metrics(n: NodeId, free: u64, healthy: bool) -> NodeMetrics {
    NodeMetrics { id: n, disk_free: free, time: 0, status: if healthy { NodeStatus::Healthy } else { NodeStatus::Unreachable } }
}

// ------------------------------------------------------------------ commands
pub fn cmd(c: &meta::store::command::WriteCommand) -> Value {
    serde_json::to_value(c).expect("command")
}
pub fn duration(s: &str) -> utils::duration::CnosDuration {
    utils::duration::CnosDuration::new(s).expect("duration")
}
pub fn db_schema(tenant: &str, name: &str, shards: u64, replica: u64, days: &str, ttl: &str, precision: &str) -> DatabaseSchema {
    let mut o = DatabaseOptionsBuilder::new();
    o.with_shard_num(shards).with_replica(replica).with_vnode_duration(duration(days)).with_ttl(duration(ttl));
    let mut c = DatabaseConfigBuilder::new();
    c.with_precision(precision_of(precision));
    DatabaseSchema::new(tenant, name, o.build(), Arc::new(c.build(config::tskv::Config::default())))
}
fn precision_of(p: &str) -> utils::precision::Precision {
    utils::precision::Precision::from(match p {
        "ms" => 0u8,
        "us" => 1,
        _ => 2,
    })
}
pub fn table(tenant: &str, db: &str, name: &str, version: u64, fields: u64) -> TableSchema {
    let mut cols = vec![TableColumn::new_time_column(0, models::arrow::TimeUnit::Nanosecond), TableColumn::new_tag_column(1, "host".into())];
    for i in 0..fields {
        cols.push(TableColumn::new(2 + i as u32, format!("f{i}"), ColumnType::Field(ValueType::Float), models::codec::Encoding::Default));
    }
    let mut t = TskvTableSchema::new(tenant.into(), db.into(), name.into(), cols);
    t.schema_version = version;
    TableSchema::TsKvTableSchema(Arc::new(t))
}

// ------------------------------------------------------------------ a machine
pub struct Machine {
    pub disk: usize,
    pub path: String,
    base: u32,
    pub inc: Mutex<u32>,
    skew: i64,
    live: Mutex<Option<Arc<Live>>>,
}
pub struct Live {
    pub sm: Arc<tokio::sync::RwLock<StateMachine>>,
    pub rt: Arc<Runtime>,
}
impl Machine {
    pub fn new(i: u32) -> Arc<Machine> {
        Machine::skewed(i, 0)
    }
    pub fn skewed(i: u32, skew: i64) -> Arc<Machine> {
        let path = mk(&format!("{}/m{i}", simh::scratch()));
        let m = Arc::new(Machine { disk: fsx::add_disk(&path, 0), path, base: 100 * (i + 1), inc: Mutex::new(100 * (i + 1)), skew, live: Mutex::new(None) });
        m.open();
        m
    }
    pub fn node(&self) -> u32 {
        *lk(&self.inc)
    }
    /// Starts the process of this machine (again).
    pub fn open(self: &Arc<Self>) {
        let inc = {
            let mut g = lk(&self.inc);
            *g += 1;
            assert!(*g < self.base + 99);
            *g
        };
        fsx::set_node(self.disk, inc);
        simrt::set_skew(inc, self.skew);
        let me = self.clone();
        let t = simrt::spawn_on("meta", inc, move || {
            calm(move || {
                let rt = runtime("meta");
                let sm = StateMachine::open(format!("{}/data", me.path), 1 << 26).expect("open");
                *lk(&me.live) = Some(Arc::new(Live { sm: Arc::new(tokio::sync::RwLock::new(sm)), rt }));
            })
        });
        wait(t, inc);
        if lk(&self.live).is_none() && !simrt::node_dead(inc) {
            simh::violation("the metadata store does not open", format!("{:?}", simh::sut_panics()));
        }
    }
    pub fn kill(&self) {
        let inc = self.node();
        if !simrt::node_dead(inc) {
            simrt::note("fault:process kill");
            simrt::kill_node(inc);
        }
        let old = lk(&self.live).take();
        std::mem::forget(old);
        fsx::process_crash(self.disk);
    }
    pub fn live(&self) -> Arc<Live> {
        lk(&self.live).clone().expect("machine")
    }
    /// Runs `f` in the machine's process; nothing when the process died meanwhile.
    pub fn on<R: Send + 'static>(self: &Arc<Self>, f: impl FnOnce(&Live) -> R + Send + 'static) -> Option<R> {
        let l = self.live();
        let out = Arc::new(Mutex::new(None));
        let o = out.clone();
        let t = simrt::spawn_on("meta", self.node(), move || {
            calm(move || {
                let r = f(&l);
                *lk(&o) = Some(r);
                std::mem::forget(l);
            })
        });
        wait(t, self.node());
        let r = lk(&out).take();
        if r.is_none() && !simrt::node_dead(self.node()) {
            match simh::sut_panics().first() {
                Some(p) => simh::violation("panic", format!("{} at {}", p.0, p.1)),
                None => simh::harness_error(format!("{:?}", simh::panics())),
            }
        }
        r
    }
    /// The answer to a write command, or nothing when the process died.
    pub fn apply(self: &Arc<Self>, c: &Value, index: u64) -> Option<Value> {
        let b = serde_json::to_vec(c).unwrap();
        self.on(move |l| {
            let ctx = ApplyContext { index, raft_id: 1, apply_type: replication::APPLY_TYPE_WRITE };
            let r = l.rt.block_on(async { l.sm.write().await.apply(&ctx, &b).await });
            match r {
                Ok(r) => serde_json::from_slice::<Value>(&r).unwrap_or_else(|e| simh::violation("an answer is not readable", format!("{e}"))),
                Err(e) => json!({"Err": {"apply": e.to_string()}}),
            }
        })
    }
    pub fn read(self: &Arc<Self>, c: &meta::store::command::ReadCommand) -> Value {
        let c = c.clone();
        let r = self.on(move |l| l.rt.block_on(async { l.sm.read().await.process_read_command(&c) })).unwrap_or_default();
        serde_json::from_str(&r).unwrap_or_else(|e| simh::violation("an answer is not readable", format!("{e}: {r}")))
    }
    /// All keys, with their values parsed.
    pub fn dump(self: &Arc<Self>) -> BTreeMap<String, Value> {
        let m = self.on(|l| l.rt.block_on(async { l.sm.read().await.backup().expect("backup").map })).expect("dump");
        m.into_iter().map(|(k, v)| (k, serde_json::from_str(&v).unwrap_or(Value::String(v)))).collect()
    }
    pub fn snapshot(self: &Arc<Self>, at: u64) -> Option<Vec<u8>> {
        self.on(move |l| l.rt.block_on(async { l.sm.write().await.create_snapshot(at).await.expect("snapshot").0 }))
    }
    /// The last snapshot and the index it is for, as the server hands them to another.
    pub fn last_snapshot(self: &Arc<Self>) -> Option<(Vec<u8>, u64)> {
        self.on(|l| l.rt.block_on(async { l.sm.write().await.get_snapshot().await.expect("get_snapshot") })).flatten()
    }
    pub fn restore(self: &Arc<Self>, b: Vec<u8>) -> Option<bool> {
        self.on(move |l| l.rt.block_on(async { l.sm.write().await.restore(&b).await.is_ok() }))
    }
}
pub fn ok(v: &Value) -> bool {
    v.get("Ok").is_some()
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 300 {
        format!("{}…", s.chars().take(300).collect::<String>())
    } else {
        s
    }
}
#[allow(dead_code)]
pub fn say(what: &str, v: &Value) {
    hlog!("{what} {}", short(v));
}
pub fn hash<T: std::fmt::Debug>(v: &T) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    format!("{v:?}").hash(&mut h);
    h.finish()
}
/// Until the thread is through, or its process died.
pub fn wait(t: simrt::Tid, node: u32) {
    let mut n = 0u64;
    while !simrt::is_finished(t) && !simrt::node_dead(node) {
        n += 1;
        simrt::sleep(20_000 << (n / 100).min(10));
    }
}
/// A panic ends the thread in an orderly way; the simulator has kept its message.
pub fn calm(f: impl FnOnce()) {
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
}
