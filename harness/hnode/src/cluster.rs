//! A cluster in one process: a metadata server and data nodes, each with a disk,
//! runtimes and an incarnation number that changes at every restart.
use config::tskv::Config;
use std::sync::atomic::{AtomicBool, Ordering};
use coordinator::service::CoordService;
use coordinator::Coordinator;
use meta::model::meta_admin::AdminMeta;
use meta::model::MetaRef;
use metrics::metric_register::MetricsRegister;
use simh::{hlog, Value};
use simrt::fsx;
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;
use tokio::runtime::Runtime;
use tskv::{EngineRef, TsKv};

pub const TENANT: &str = "cnosdb";
pub const DB: &str = "d";
pub const META_NODE: u32 = 1;
const MS: u64 = 1_000_000;

pub fn lk<T: ?Sized>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// What a running data node offers to the clients on it.
pub struct Live {
    pub inc: u32,
    pub coord: Arc<CoordService>,
    pub engine: EngineRef,
    pub meta: MetaRef,
    pub rt: Arc<Runtime>,
    pub pool: memory_pool::MemoryPoolRef,
    /// the metadata server knows that this node can take vnodes
    reported: Arc<AtomicBool>,
}
impl Live {
    pub fn coord_node(&self) -> u64 {
        use coordinator::Coordinator;
        self.coord.node_id()
    }
}
enum Boot {
    Off,
    Starting,
    Up(Arc<Live>),
    Failed(String),
}
pub struct Node {
    pub idx: usize,
    pub id: u64,
    pub disk: usize,
    pub path: String,
    inc: Mutex<u32>,
    boot: Mutex<Boot>,
}
pub struct Cluster {
    pub nodes: Vec<Arc<Node>>,
    pub plan: Value,
    cuts: Mutex<Vec<(usize, usize)>>,
}
pub enum Started {
    Up(Arc<Live>),
    /// the process died (an injected crash) while it started
    Died,
    Failed(String),
}

pub fn runtime(name: &str, workers: usize) -> Arc<Runtime> {
    Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(workers).thread_name(name).enable_all().build().unwrap())
}

impl Cluster {
    pub fn new(plan: &Value) -> Arc<Cluster> {
        let n = plan["nodes"].as_u64().unwrap_or(1) as usize;
        let base = simh::scratch();
        fsx::add_disk(&mk(&format!("{base}/meta")), META_NODE);
        let nodes = (0..n)
            .map(|i| {
                let path = mk(&format!("{base}/n{i}"));
                Arc::new(Node { idx: i, id: 1001 + i as u64, disk: fsx::add_disk(&path, 0), path, inc: Mutex::new(100 * (i as u32 + 1)), boot: Mutex::new(Boot::Off) })
            })
            .collect();
        let c = Arc::new(Cluster { nodes, plan: plan.clone(), cuts: Mutex::new(vec![]) });
        c.start_meta();
        c
    }
    fn start_meta(&self) {
        let cfg = self.config(&self.nodes[0]);
        let dir = format!("{}/meta", simh::scratch());
        let ready = Arc::new(Mutex::new(false));
        let r = ready.clone();
        simrt::spawn_on("meta", META_NODE, move || {
            let rt = runtime("meta", 1);
            rt.block_on(async {
                meta::service::single::start_singe_meta_server(dir, "cluster".into(), &cfg.meta, 1 << 26).await;
            });
            std::mem::forget(rt);
            *lk(&r) = true;
        });
        for _ in 0..2000 {
            if *lk(&ready) {
                break;
            }
            simrt::sleep(MS);
        }
        simrt::sleep(MS);
    }
    pub fn config(&self, n: &Node) -> Config {
        let mut c = Config::default();
        let p = &self.plan["cfg"];
        let num = |k: &str, d: u64| p[k].as_u64().unwrap_or(d);
        c.global.node_id = n.id;
        c.global.host = "127.0.0.1".into();
        c.global.cluster_name = "cluster".into();
        c.global.store_metrics = false;
        c.global.pre_create_bucket = false;
        c.deployment.mode = "query_tskv".into();
        c.deployment.cpu = 2;
        c.deployment.memory = 1;
        c.meta.service_addr = vec!["127.0.0.1:8901".into()];
        c.meta.report_time_interval = Duration::from_secs(30);
        c.storage.path = format!("{}/db", n.path);
        c.wal.path = format!("{}/wal", n.path);
        c.storage.base_file_size = num("base_file_size", 16 << 20);
        c.storage.compact_trigger_file_num = num("compact_files", 4) as u32;
        c.storage.compact_trigger_cold_duration = Duration::from_secs(num("cold_s", 3600));
        c.storage.max_datablock_size = num("datablock", 100 << 10);
        c.storage.max_summary_size = num("summary", 128 << 20);
        c.storage.max_cached_readers = num("readers", 32) as usize;
        c.storage.index_cache_capacity = num("index_cache", 100_000);
        if let Some(s) = p["meta_compress"].as_str() {
            c.storage.tsm_meta_compress = s.into();
        }
        c.wal.sync = p["wal_sync"].as_bool().unwrap_or(false);
        c.wal.max_file_size = num("wal_file", 128 << 20);
        if let Some(s) = p["wal_compress"].as_str() {
            c.wal.compress = s.into();
        }
        c.service.grpc_listen_port = Some(9000 + n.idx as u16);
        c.cluster.raft_logs_to_keep = num("logs_keep", 5000);
        c.cluster.lmdb_max_map_size = 1 << 26;
        c.cluster.heartbeat_interval = Duration::from_millis(num("heartbeat_ms", 3000));
        c.cluster.trigger_snapshot_interval = Duration::from_millis(num("snapshot_ms", 600_000));
        c.cluster.snapshot_holding_time = Duration::from_secs(num("snapshot_hold_s", 3600));
        c.cluster.send_append_entries_timeout = Duration::from_millis(num("append_ms", 5000));
        c.cluster.install_snapshot_timeout = Duration::from_millis(num("install_ms", 3_600_000));
        c
    }
    /// Starts (or restarts) a node and waits until it serves, died or failed.
    pub fn start(&self, i: usize) -> Started {
        self.launch(i);
        self.started(i)
    }
    pub fn launch(&self, i: usize) {
        let n = self.nodes[i].clone();
        let inc = {
            let mut g = lk(&n.inc);
            *g += 1;
            *g
        };
        fsx::set_node(n.disk, inc);
        self.apply_cuts();
        *lk(&n.boot) = Boot::Starting;
        let cfg = self.config(&n);
        hlog!("node {i} starts as {inc}");
        simrt::spawn_on(&format!("n{i}"), inc, move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| boot(cfg, inc)));
            let b = match r {
                Ok(Ok(l)) => Boot::Up(Arc::new(l)),
                Ok(Err(e)) => Boot::Failed(e),
                Err(_) => Boot::Failed(format!("panic: {:?}", simh::sut_panics().last().or(simh::panics().last()))),
            };
            let old = std::mem::replace(&mut *lk(&n.boot), b);
            std::mem::forget(old);
        });
    }
    pub fn started(&self, i: usize) -> Started {
        let n = &self.nodes[i];
        let inc = *lk(&n.inc);
        loop {
            if simrt::node_dead(inc) {
                return Started::Died;
            }
            match &*lk(&n.boot) {
                Boot::Up(l) if l.reported.load(Ordering::Relaxed) => return Started::Up(l.clone()),
                Boot::Failed(e) => return Started::Failed(e.clone()),
                _ => {}
            }
            simrt::sleep(MS);
        }
    }
    pub fn live(&self, i: usize) -> Option<Arc<Live>> {
        if simrt::node_dead(self.inc(i)) {
            return None;
        }
        match &*lk(&self.nodes[i].boot) {
            Boot::Up(l) => Some(l.clone()),
            _ => None,
        }
    }
    pub fn inc(&self, i: usize) -> u32 {
        *lk(&self.nodes[i].inc)
    }
    pub fn dead(&self, i: usize) -> bool {
        simrt::node_dead(self.inc(i))
    }
    /// The process of a node ends where it stands; its disk keeps what was written.
    pub fn kill(&self, i: usize) {
        let n = &self.nodes[i];
        let inc = *lk(&n.inc);
        if !simrt::node_dead(inc) {
            hlog!("node {i} is killed");
            simrt::note("fault:process kill");
            simrt::kill_node(inc);
        }
        let old = std::mem::replace(&mut *lk(&n.boot), Boot::Off);
        std::mem::forget(old);
        tonic::net::unlisten(&format!("127.0.0.1:{}", 9000 + i));
        fsx::process_crash(n.disk);
    }
    pub fn cut(&self, a: usize, b: usize) {
        lk(&self.cuts).push((a, b));
        self.apply_cuts();
    }
    pub fn mend(&self) {
        lk(&self.cuts).clear();
        tonic::net::mend_all();
    }
    fn apply_cuts(&self) {
        let l = lk(&self.cuts).clone();
        for (a, b) in l {
            tonic::net::cut(self.inc(a), self.inc(b));
        }
    }
}

fn mk(p: &str) -> String {
    fsx::raw_mkdir_all(p);
    p.to_string()
}

fn boot(cfg: Config, inc: u32) -> Result<Live, String> {
    let rt = runtime(&format!("n{inc}"), 2);
    let rt2 = rt.clone();
    rt.block_on(async move {
        let rt = rt2;
        let reg = Arc::new(MetricsRegister::default());
        let pool: memory_pool::MemoryPoolRef = Arc::new(memory_pool::GreedyMemoryPool::new(cfg.deployment.memory * 1024 * 1024 * 1024));
        let meta = AdminMeta::new(cfg.clone(), reg.clone()).await;
        meta.add_data_node().await.map_err(|e| format!("add_data_node: {e}"))?;
        let m = meta.clone();
        let every = cfg.meta.report_time_interval;
        let reported = Arc::new(AtomicBool::new(false));
        let told = reported.clone();
        tokio::spawn(async move {
            let mut t = tokio::time::interval(every);
            loop {
                t.tick().await;
                if m.report_node_metrics().await.is_ok() {
                    told.store(true, Ordering::Relaxed);
                }
            }
        });
        let kv = TsKv::open(meta.clone(), tskv::kv_option::Options::from(&cfg), rt.clone(), pool.clone(), reg.clone()).await.map_err(|e| format!("open: {e}"))?;
        let engine: EngineRef = Arc::new(kv);
        let coord = CoordService::new(rt.clone(), Some(engine.clone()), meta.clone(), cfg.clone(), pool.clone(), reg.clone()).await;
        let svc = cnosdb_rpc::rpc::tskv::TskvServiceImpl { runtime: rt.clone(), kv_inst: engine.clone(), coord: coord.clone(), metrics_register: reg.clone(), grpc_enable_gzip: false };
        let raft = replication::network_grpc::RaftCBServer::new(coord.raft_manager().multi_raft());
        let addr = format!("127.0.0.1:{}", cfg.service.grpc_listen_port.unwrap());
        tonic::transport::Server::builder()
            .add_service(protos::kv_service::tskv_service_server::TskvServiceServer::new(svc))
            .add_service(protos::raft_service::raft_service_server::RaftServiceServer::new(raft))
            .listen(&addr);
        Ok(Live { inc, coord, engine, meta, rt, pool, reported })
    })
}
