//! The simulated network between nodes.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;

use bytes::{Bytes, BytesMut};
use http::{HeaderMap, Request, Response};
use http_body::Body;
use real_tonic::body::BoxBody;
use real_tonic::{Code, Status};

use crate::transport::Error;

/// what answers the requests that reach an address
pub type Svc = std::sync::Arc<dyn Fn(Request<BoxBody>) -> std::pin::Pin<Box<dyn std::future::Future<Output = Response<BoxBody>> + Send>> + Send + Sync>;

struct Listener {
    node: u32,
    handle: tokio::runtime::Handle,
    svc: Svc,
    epoch: u64,
}
#[derive(Clone, Copy, Debug)]
pub struct Weather {
    /// per mille of messages that vanish
    pub loss_pm: u64,
    /// per mille of messages that take `slow_ns`
    pub slow_pm: u64,
    pub slow_ns: u64,
    pub min_ns: u64,
    pub max_ns: u64,
}
impl Default for Weather {
    fn default() -> Self {
        Weather { loss_pm: 0, slow_pm: 0, slow_ns: 0, min_ns: 50_000, max_ns: 500_000 }
    }
}
#[derive(Default)]
struct Net {
    at: BTreeMap<String, Listener>,
    cut: BTreeSet<(u32, u32)>,
    weather: Option<Weather>,
    epoch: u64,
}
static NET: Mutex<Option<Net>> = Mutex::new(None);
fn net<R>(f: impl FnOnce(&mut Net) -> R) -> R {
    let mut g = NET.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(Net::default))
}

/// serves `svc` at `addr` ("host:port") from now on, on the calling node
pub fn listen(addr: &str, svc: Svc) -> u64 {
    let l = Listener { node: simrt::current_node(), handle: tokio::runtime::Handle::current(), svc, epoch: 0 };
    net(|n| {
        n.epoch += 1;
        let e = n.epoch;
        n.at.insert(addr.to_string(), Listener { epoch: e, ..l });
        e
    })
}
pub fn unlisten(addr: &str) {
    let l = net(|n| n.at.remove(addr));
    std::mem::forget(l);
}
static LOOK_NS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(20_000_000);
/// how often one who waits for an answer sees whether the other side is still there
pub fn look_every(ns: u64) {
    LOOK_NS.store(ns, std::sync::atomic::Ordering::Relaxed);
}
/// nothing passes from node `a` to node `b`
pub fn cut(a: u32, b: u32) {
    net(|n| n.cut.insert((a, b)));
}
pub fn mend(a: u32, b: u32) {
    net(|n| n.cut.remove(&(a, b)));
}
pub fn mend_all() {
    net(|n| n.cut.clear());
}
pub fn weather(w: Weather) {
    net(|n| n.weather = Some(w));
}
pub fn calm() {
    net(|n| n.weather = None);
}

enum Way {
    Passes(u64),
    Lost,
}
fn way(a: u32, b: u32) -> Way {
    let w = net(|n| n.weather).unwrap_or_default();
    let d = w.min_ns + simrt::choose(w.max_ns - w.min_ns + 1);
    if w.loss_pm > 0 && simrt::choose(1000) < w.loss_pm {
        simrt::note("message lost");
        return Way::Lost;
    }
    if w.slow_pm > 0 && simrt::choose(1000) < w.slow_pm {
        simrt::note("message slow");
        return Way::Passes(d + simrt::choose(w.slow_ns + 1));
    }
    if blocked(a, b) {
        simrt::note("message partitioned");
        return Way::Lost;
    }
    Way::Passes(d)
}
pub fn blocked(a: u32, b: u32) -> bool {
    a != b && net(|n| n.cut.contains(&(a, b)))
}

struct Whole {
    data: Option<Bytes>,
    trailers: Option<HeaderMap>,
}
impl Body for Whole {
    type Data = Bytes;
    type Error = Status;
    fn poll_data(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Option<Result<Bytes, Status>>> {
        std::task::Poll::Ready(self.data.take().map(Ok))
    }
    fn poll_trailers(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<Option<HeaderMap>, Status>> {
        std::task::Poll::Ready(Ok(self.trailers.take()))
    }
}
pub fn boxed(data: Bytes, trailers: Option<HeaderMap>) -> BoxBody {
    BoxBody::new(Whole { data: if data.is_empty() { None } else { Some(data) }, trailers })
}
pub async fn collect<B: Body<Data = Bytes> + Unpin>(mut b: B) -> Result<(Bytes, Option<HeaderMap>), B::Error> {
    let mut out = BytesMut::new();
    loop {
        let c = std::future::poll_fn(|cx| std::pin::Pin::new(&mut b).poll_data(cx)).await;
        match c {
            None => break,
            Some(c) => out.extend_from_slice(&c?),
        }
    }
    let t = std::future::poll_fn(|cx| std::pin::Pin::new(&mut b).poll_trailers(cx)).await?;
    Ok((out.freeze(), t))
}

async fn pause(ns: u64) {
    tokio::time::sleep(Duration::from_nanos(ns)).await
}
/// a connection over which nothing comes back is given up after this
const GIVE_UP: u64 = 20_000_000_000;

pub fn reachable(addr: &str) -> Result<(u32, u64), Error> {
    let me = simrt::current_node();
    net(|n| match n.at.get(addr) {
        Some(l) if n.cut.contains(&(me, l.node)) || n.cut.contains(&(l.node, me)) => Err(Error("network unreachable".into())),
        Some(l) if !simrt::node_dead(l.node) => Ok((l.node, l.epoch)),
        _ => Err(Error("connection refused".into())),
    })
}

pub async fn call(addr: &str, req: Request<BoxBody>) -> Result<Response<BoxBody>, Error> {
    let me = simrt::current_node();
    pause(1000).await;
    let (to, epoch) = match net(|n| n.at.get(addr).map(|l| (l.node, l.epoch))) {
        Some(x) => x,
        None => return Err(Error("connection refused".into())),
    };
    let (head, body) = req.into_parts();
    let (data, trailers) = collect(body).await.map_err(|e| Error(e.to_string()))?;
    let lost = |why: &'static str| async move {
        // seen as a broken connection, late
        pause(GIVE_UP).await;
        Err(Error(why.into()))
    };
    match way(me, to) {
        Way::Lost => return lost("request lost").await,
        Way::Passes(d) => pause(d).await,
    }
    if blocked(me, to) {
        simrt::note("message partitioned");
        return lost("request lost in a partition").await;
    }
    let l = net(|n| n.at.get(addr).filter(|l| l.epoch == epoch && !simrt::node_dead(l.node)).map(|l| (l.handle.clone(), l.svc.clone())));
    let Some((handle, svc)) = l else {
        return Err(Error("connection reset".into()));
    };
    let (tx, mut rx) = tokio::sync::oneshot::channel();
    let req = Request::from_parts(head, boxed(data, trailers));
    handle.spawn(async move {
        let r: Response<BoxBody> = svc(req).await;
        let (head, body) = r.into_parts();
        let out = match collect(body).await {
            Ok((d, t)) => Ok((head, d, t)),
            Err(e) => Err(e),
        };
        let _ = tx.send(out);
    });
    let look = LOOK_NS.load(std::sync::atomic::Ordering::Relaxed);
    let mut waited = 0u64;
    let out = loop {
        match tokio::time::timeout(Duration::from_nanos(look), &mut rx).await {
            Ok(Ok(x)) => break x,
            Ok(Err(_)) => return Err(Error("connection reset".into())),
            Err(_) => {
                waited += look;
                if simrt::node_dead(to) || net(|n| n.at.get(addr).map(|l| l.epoch)) != Some(epoch) {
                    return Err(Error("connection reset".into()));
                }
                if waited > 6 * GIVE_UP {
                    return Err(Error("no answer".into()));
                }
            }
        }
    };
    match way(to, me) {
        Way::Lost => return lost("response lost").await,
        Way::Passes(d) => pause(d).await,
    }
    if blocked(to, me) {
        simrt::note("message partitioned");
        return lost("response lost in a partition").await;
    }
    match out {
        Ok((head, d, t)) => Ok(Response::from_parts(head, boxed(d, t))),
        Err(e) => Ok(Status::new(Code::Internal, e.to_string()).to_http()),
    }
}
