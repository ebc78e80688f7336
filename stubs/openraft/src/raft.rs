use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug};
use std::sync::Arc;
use std::time::Duration;

use serde::{Deserialize, Serialize};
use tokio::sync::{mpsc, oneshot, watch};

use crate::core::{Core, Msg};
use crate::error::*;
use crate::metrics::{RaftMetrics, ServerState, Wait};
use crate::network::RaftNetworkFactory;
use crate::storage::{Adaptor, RaftStorage};
use crate::types::*;

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct AppendEntriesRequest<C: RaftTypeConfig> {
    pub vote: Vote<C::NodeId>,
    pub prev_log_id: Option<LogId<C::NodeId>>,
    pub entries: Vec<Entry<C>>,
    pub leader_commit: Option<LogId<C::NodeId>>,
}
impl<C: RaftTypeConfig> Debug for AppendEntriesRequest<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "append {} prev {:?} entries {:?} commit {:?}", self.vote, self.prev_log_id, self.entries, self.leader_commit)
    }
}
impl<C: RaftTypeConfig> Clone for AppendEntriesRequest<C>
where
    C::D: Clone,
{
    fn clone(&self) -> Self {
        Self { vote: self.vote, prev_log_id: self.prev_log_id, entries: self.entries.clone(), leader_commit: self.leader_commit }
    }
}
impl<C: RaftTypeConfig> MessageSummary for AppendEntriesRequest<C> {
    fn summary(&self) -> String {
        format!("{self:?}")
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum AppendEntriesResponse<NID: NodeId> {
    Success,
    PartialSuccess(Option<LogId<NID>>),
    Conflict,
    HigherVote(Vote<NID>),
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VoteRequest<NID: NodeId> {
    pub vote: Vote<NID>,
    pub last_log_id: Option<LogId<NID>>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct VoteResponse<NID: NodeId> {
    pub vote: Vote<NID>,
    pub vote_granted: bool,
    pub last_log_id: Option<LogId<NID>>,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct InstallSnapshotRequest<C: RaftTypeConfig> {
    pub vote: Vote<C::NodeId>,
    pub meta: SnapshotMeta<C::NodeId, C::Node>,
    pub offset: u64,
    pub data: Vec<u8>,
    pub done: bool,
}
impl<C: RaftTypeConfig> Debug for InstallSnapshotRequest<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.summary())
    }
}
impl<C: RaftTypeConfig> MessageSummary for InstallSnapshotRequest<C> {
    fn summary(&self) -> String {
        format!("install {} {:?} offset {} len {} done {}", self.vote, self.meta, self.offset, self.data.len(), self.done)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct InstallSnapshotResponse<NID: NodeId> {
    pub vote: Vote<NID>,
}
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct ClientWriteResponse<C: RaftTypeConfig> {
    pub log_id: LogId<C::NodeId>,
    pub data: C::R,
    pub membership: Option<Membership<C::NodeId, C::Node>>,
}
impl<C: RaftTypeConfig> Debug for ClientWriteResponse<C>
where
    C::R: Debug,
{
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "ClientWriteResponse{{{} {:?} {:?}}}", self.log_id, self.data, self.membership)
    }
}

pub(crate) struct Inner<C: Cfg> {
    id: C::NodeId,
    tx: mpsc::UnboundedSender<Msg<C>>,
    metrics: watch::Receiver<RaftMetrics<C::NodeId, C::Node>>,
    cfg: Arc<Config>,
}
pub struct Raft<C: Cfg>(Arc<Inner<C>>);
impl<C: Cfg> Clone for Raft<C> {
    fn clone(&self) -> Self {
        Raft(self.0.clone())
    }
}
type E<C, X = Infallible> = RaftError<<C as RaftTypeConfig>::NodeId, X>;
type CW<C> = ClientWriteError<<C as RaftTypeConfig>::NodeId, <C as RaftTypeConfig>::Node>;

impl<C: Cfg> Raft<C> {
    pub async fn new<N: RaftNetworkFactory<C>, S: RaftStorage<C>>(
        id: C::NodeId,
        config: Arc<Config>,
        network: N,
        log_store: Adaptor<C, S>,
        _state_machine: Adaptor<C, S>,
    ) -> Result<Self, Fatal<C::NodeId>> {
        let (tx, rx) = mpsc::unbounded_channel();
        let (mtx, metrics) = watch::channel(RaftMetrics::new_initial(id));
        let core = Core::start(id, config.clone(), network, log_store, tx.clone(), mtx).await?;
        let every = Duration::from_millis((config.heartbeat_interval / 2).max(1));
        let t = tx.clone();
        if config.enable_tick {
            tokio::spawn(async move {
                loop {
                    tokio::time::sleep(every).await;
                    if t.send(Msg::Tick).is_err() {
                        return;
                    }
                }
            });
        }
        tokio::spawn(core.main(rx));
        Ok(Raft(Arc::new(Inner { id, tx, metrics, cfg: config })))
    }
    fn fatal(&self) -> Fatal<C::NodeId> {
        self.0.metrics.borrow().running_state.clone().err().unwrap_or(Fatal::Stopped)
    }
    async fn call<T>(&self, f: impl FnOnce(oneshot::Sender<T>) -> Msg<C>) -> Result<T, Fatal<C::NodeId>> {
        let (tx, rx) = oneshot::channel();
        if self.0.tx.send(f(tx)).is_err() {
            return Err(self.fatal());
        }
        rx.await.map_err(|_| self.fatal())
    }
    pub async fn append_entries(&self, rpc: AppendEntriesRequest<C>) -> Result<AppendEntriesResponse<C::NodeId>, E<C>> {
        Ok(self.call(|t| Msg::Append(rpc, t)).await?)
    }
    pub async fn vote(&self, rpc: VoteRequest<C::NodeId>) -> Result<VoteResponse<C::NodeId>, E<C>> {
        Ok(self.call(|t| Msg::Vote(rpc, t)).await?)
    }
    pub async fn install_snapshot(&self, rpc: InstallSnapshotRequest<C>) -> Result<InstallSnapshotResponse<C::NodeId>, E<C, InstallSnapshotError>> {
        self.call(|t| Msg::Snapshot(rpc, t)).await?.map_err(RaftError::APIError)
    }
    pub async fn current_leader(&self) -> Option<C::NodeId> {
        self.0.metrics.borrow().current_leader
    }
    pub async fn client_write(&self, d: C::D) -> Result<ClientWriteResponse<C>, E<C, CW<C>>> {
        self.call(|t| Msg::Write(EntryPayload::Normal(d), t)).await?.map_err(RaftError::APIError)
    }
    /// Confirms leadership with a quorum and waits until what was committed then is applied.
    pub async fn ensure_linearizable(&self) -> Result<Option<LogId<C::NodeId>>, E<C, CheckIsLeaderError<C::NodeId, C::Node>>> {
        match self.call(|t| Msg::Write(EntryPayload::Blank, t)).await? {
            Ok(r) => Ok(Some(r.log_id)),
            Err(ClientWriteError::ForwardToLeader(f)) => Err(RaftError::APIError(CheckIsLeaderError::ForwardToLeader(f))),
            Err(e) => Err(RaftError::APIError(CheckIsLeaderError::QuorumNotEnough(e.to_string()))),
        }
    }
    pub async fn initialize<T: IntoNodes<C::NodeId, C::Node>>(&self, nodes: T) -> Result<(), E<C, InitializeError<C::NodeId, C::Node>>> {
        let n = nodes.into_nodes();
        self.call(|t| Msg::Initialize(n, t)).await?.map_err(RaftError::APIError)
    }
    pub async fn is_initialized(&self) -> Result<bool, Fatal<C::NodeId>> {
        self.call(|t| Msg::IsInitialized(t)).await
    }
    pub async fn add_learner(&self, id: C::NodeId, node: C::Node, blocking: bool) -> Result<ClientWriteResponse<C>, E<C, CW<C>>> {
        let r = self.call(|t| Msg::AddLearner(id, node, t)).await?.map_err(RaftError::APIError)?;
        if !blocking || id == self.0.id {
            return Ok(r);
        }
        let lag = self.0.cfg.replication_lag_threshold;
        let mut rx = self.0.metrics.clone();
        loop {
            let m = rx.borrow_and_update().clone();
            m.running_state.clone()?;
            match &m.replication {
                None => return Ok(r),
                Some(p) => match p.get(&id) {
                    Some(matched) => {
                        if matched.is_some() && m.last_log_index.map_or(0, |l| l + 1).saturating_sub(matched.next_index()) <= lag {
                            return Ok(r);
                        }
                    }
                    None => return Ok(r),
                },
            }
            if rx.changed().await.is_err() {
                return Err(self.fatal().into());
            }
        }
    }
    pub async fn change_membership(&self, members: impl Into<BTreeSet<C::NodeId>>, retain: bool) -> Result<ClientWriteResponse<C>, E<C, CW<C>>> {
        let goal: BTreeSet<C::NodeId> = members.into();
        let r = self.call(|t| Msg::Change(goal.clone(), retain, t)).await?.map_err(RaftError::APIError)?;
        if r.membership.as_ref().map_or(1, |m| m.configs.len()) <= 1 {
            return Ok(r);
        }
        self.call(|t| Msg::Change(goal, retain, t)).await?.map_err(RaftError::APIError)
    }
    pub fn metrics(&self) -> watch::Receiver<RaftMetrics<C::NodeId, C::Node>> {
        self.0.metrics.clone()
    }
    pub fn config(&self) -> &Arc<Config> {
        &self.0.cfg
    }
    pub fn wait(&self, timeout: Option<Duration>) -> Wait<C::NodeId, C::Node> {
        Wait { timeout: timeout.unwrap_or(Duration::from_secs(86400 * 365)), rx: self.0.metrics.clone() }
    }
    pub fn trigger(&self) -> Trigger<'_, C> {
        Trigger { raft: self }
    }
    pub async fn shutdown(&self) -> Result<(), tokio::task::JoinError> {
        let _ = self.call(|t| Msg::Shutdown(t)).await;
        Ok(())
    }
    pub fn id(&self) -> C::NodeId {
        self.0.id
    }
}
pub struct Trigger<'r, C: Cfg> {
    raft: &'r Raft<C>,
}
impl<'r, C: Cfg> Trigger<'r, C> {
    pub async fn snapshot(&self) -> Result<(), Fatal<C::NodeId>> {
        self.raft.0.tx.send(Msg::TriggerSnapshot).map_err(|_| self.raft.fatal())
    }
    pub async fn elect(&self) -> Result<(), Fatal<C::NodeId>> {
        self.raft.0.tx.send(Msg::TriggerElect).map_err(|_| self.raft.fatal())
    }
    pub async fn heartbeat(&self) -> Result<(), Fatal<C::NodeId>> {
        self.raft.0.tx.send(Msg::TriggerHeartbeat).map_err(|_| self.raft.fatal())
    }
    pub async fn purge_log(&self, upto: u64) -> Result<(), Fatal<C::NodeId>> {
        self.raft.0.tx.send(Msg::TriggerPurge(upto)).map_err(|_| self.raft.fatal())
    }
}
#[allow(unused)]
pub(crate) type Repl<NID> = BTreeMap<NID, Option<LogId<NID>>>;
#[allow(unused)]
fn _unused(_: ServerState) {}
