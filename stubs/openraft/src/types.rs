use std::collections::{BTreeMap, BTreeSet};
use std::fmt::{self, Debug, Display};
use std::hash::Hash;
use std::io::Cursor;
use std::sync::Arc;

use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

pub trait OptionalSend: Send {}
impl<T: Send + ?Sized> OptionalSend for T {}
pub trait OptionalSync: Sync {}
impl<T: Sync + ?Sized> OptionalSync for T {}

pub trait AppData: Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Serialize + DeserializeOwned + Send + Sync + 'static> AppData for T {}
pub trait NodeId: Copy + Ord + Hash + Debug + Display + Default + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Copy + Ord + Hash + Debug + Display + Default + Serialize + DeserializeOwned + Send + Sync + 'static> NodeId for T {}
pub trait Node: Clone + Eq + Debug + Default + Serialize + DeserializeOwned + Send + Sync + 'static {}
impl<T: Clone + Eq + Debug + Default + Serialize + DeserializeOwned + Send + Sync + 'static> Node for T {}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct TokioRuntime;

pub trait RaftTypeConfig: Sized + Send + Sync + Debug + Clone + Copy + Default + Eq + Ord + 'static {
    type D: AppData;
    type R: AppData;
    type NodeId: NodeId;
    type Node: Node;
    type Entry: Send + Sync;
    type SnapshotData: Send + Sync + 'static;
    type AsyncRuntime;
}

/// what the core asks of a type configuration
pub trait Cfg: RaftTypeConfig<Entry = Entry<Self>, SnapshotData = Cursor<Vec<u8>>> {}
impl<C: RaftTypeConfig<Entry = Entry<C>, SnapshotData = Cursor<Vec<u8>>>> Cfg for C {}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct LeaderId<NID: NodeId> {
    pub term: u64,
    pub node_id: NID,
}
pub type CommittedLeaderId<NID> = LeaderId<NID>;
impl<NID: NodeId> LeaderId<NID> {
    pub fn new(term: u64, node_id: NID) -> Self {
        Self { term, node_id }
    }
    pub fn get_term(&self) -> u64 {
        self.term
    }
    pub fn voted_for(&self) -> Option<NID> {
        Some(self.node_id)
    }
}
impl<NID: NodeId> Display for LeaderId<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "T{}-N{}", self.term, self.node_id)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct LogId<NID: NodeId> {
    pub leader_id: CommittedLeaderId<NID>,
    pub index: u64,
}
impl<NID: NodeId> LogId<NID> {
    pub fn new(leader_id: CommittedLeaderId<NID>, index: u64) -> Self {
        Self { leader_id, index }
    }
    pub fn committed_leader_id(&self) -> &CommittedLeaderId<NID> {
        &self.leader_id
    }
}
impl<NID: NodeId> Display for LogId<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}-{}", self.leader_id, self.index)
    }
}
pub trait LogIdOptionExt {
    fn index(&self) -> Option<u64>;
    fn next_index(&self) -> u64;
}
impl<NID: NodeId> LogIdOptionExt for Option<LogId<NID>> {
    fn index(&self) -> Option<u64> {
        self.map(|l| l.index)
    }
    fn next_index(&self) -> u64 {
        self.map_or(0, |l| l.index + 1)
    }
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Vote<NID: NodeId> {
    pub leader_id: LeaderId<NID>,
    pub committed: bool,
}
impl<NID: NodeId> Vote<NID> {
    pub fn new(term: u64, node_id: NID) -> Self {
        Self { leader_id: LeaderId::new(term, node_id), committed: false }
    }
    pub fn new_committed(term: u64, node_id: NID) -> Self {
        Self { leader_id: LeaderId::new(term, node_id), committed: true }
    }
    pub fn is_committed(&self) -> bool {
        self.committed
    }
    pub fn leader_id(&self) -> &LeaderId<NID> {
        &self.leader_id
    }
    pub fn commit(&mut self) {
        self.committed = true
    }
}
impl<NID: NodeId> Display for Vote<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "<{}:{}>", self.leader_id, if self.committed { "Q" } else { "-" })
    }
}

pub trait IntoNodes<NID: NodeId, N: Node> {
    fn into_nodes(self) -> BTreeMap<NID, N>;
}
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for () {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        BTreeMap::new()
    }
}
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for BTreeSet<NID> {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        self.into_iter().map(|i| (i, N::default())).collect()
    }
}
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for Option<BTreeSet<NID>> {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        self.unwrap_or_default().into_iter().map(|i| (i, N::default())).collect()
    }
}
impl<NID: NodeId, N: Node> IntoNodes<NID, N> for BTreeMap<NID, N> {
    fn into_nodes(self) -> BTreeMap<NID, N> {
        self
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Membership<NID: NodeId, N: Node> {
    pub(crate) configs: Vec<BTreeSet<NID>>,
    pub(crate) nodes: BTreeMap<NID, N>,
}
impl<NID: NodeId, N: Node> Membership<NID, N> {
    pub fn new<T: IntoNodes<NID, N>>(configs: Vec<BTreeSet<NID>>, nodes: T) -> Self {
        let mut n = nodes.into_nodes();
        for c in &configs {
            for id in c {
                n.entry(*id).or_default();
            }
        }
        Self { configs, nodes: n }
    }
    pub fn get_joint_config(&self) -> &Vec<BTreeSet<NID>> {
        &self.configs
    }
    pub fn nodes(&self) -> impl Iterator<Item = (&NID, &N)> {
        self.nodes.iter()
    }
    pub fn get_node(&self, id: &NID) -> Option<&N> {
        self.nodes.get(id)
    }
    pub fn voter_ids(&self) -> impl Iterator<Item = NID> {
        let s: BTreeSet<NID> = self.configs.iter().flatten().copied().collect();
        s.into_iter()
    }
    pub fn learner_ids(&self) -> impl Iterator<Item = NID> + '_ {
        let s: BTreeSet<NID> = self.configs.iter().flatten().copied().collect();
        self.nodes.keys().copied().filter(move |x| !s.contains(x))
    }
    pub(crate) fn is_voter(&self, id: &NID) -> bool {
        self.configs.iter().any(|c| c.contains(id))
    }
    /// whether `acks` holds a majority of every configuration
    pub(crate) fn quorum(&self, acks: impl Fn(&NID) -> bool) -> bool {
        !self.configs.is_empty() && self.configs.iter().all(|c| c.iter().filter(|x| acks(x)).count() * 2 > c.len())
    }
}
impl<NID: NodeId, N: Node> Display for Membership<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?} of {:?}", self.configs, self.nodes.keys().collect::<Vec<_>>())
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct StoredMembership<NID: NodeId, N: Node> {
    log_id: Option<LogId<NID>>,
    membership: Membership<NID, N>,
}
impl<NID: NodeId, N: Node> StoredMembership<NID, N> {
    pub fn new(log_id: Option<LogId<NID>>, membership: Membership<NID, N>) -> Self {
        Self { log_id, membership }
    }
    pub fn log_id(&self) -> &Option<LogId<NID>> {
        &self.log_id
    }
    pub fn membership(&self) -> &Membership<NID, N> {
        &self.membership
    }
    pub fn voter_ids(&self) -> impl Iterator<Item = NID> {
        self.membership.voter_ids()
    }
    pub fn nodes(&self) -> impl Iterator<Item = (&NID, &N)> {
        self.membership.nodes()
    }
}
impl<NID: NodeId, N: Node> Display for StoredMembership<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{{log_id:{:?}, {}}}", self.log_id, self.membership)
    }
}
pub type EffectiveMembership<NID, N> = StoredMembership<NID, N>;

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub enum EntryPayload<C: RaftTypeConfig> {
    Blank,
    Normal(C::D),
    Membership(Membership<C::NodeId, C::Node>),
}
impl<C: RaftTypeConfig> Clone for EntryPayload<C>
where
    C::D: Clone,
{
    fn clone(&self) -> Self {
        match self {
            Self::Blank => Self::Blank,
            Self::Normal(d) => Self::Normal(d.clone()),
            Self::Membership(m) => Self::Membership(m.clone()),
        }
    }
}
impl<C: RaftTypeConfig> PartialEq for EntryPayload<C>
where
    C::D: PartialEq,
{
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Blank, Self::Blank) => true,
            (Self::Normal(a), Self::Normal(b)) => a == b,
            (Self::Membership(a), Self::Membership(b)) => a == b,
            _ => false,
        }
    }
}
impl<C: RaftTypeConfig> Debug for EntryPayload<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Blank => f.write_str("blank"),
            Self::Normal(_) => f.write_str("normal"),
            Self::Membership(m) => write!(f, "membership: {m}"),
        }
    }
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct Entry<C: RaftTypeConfig> {
    pub log_id: LogId<C::NodeId>,
    pub payload: EntryPayload<C>,
}
impl<C: RaftTypeConfig> Default for Entry<C> {
    fn default() -> Self {
        Self { log_id: LogId::default(), payload: EntryPayload::Blank }
    }
}
impl<C: RaftTypeConfig> Clone for Entry<C>
where
    C::D: Clone,
{
    fn clone(&self) -> Self {
        Self { log_id: self.log_id, payload: self.payload.clone() }
    }
}
impl<C: RaftTypeConfig> PartialEq for Entry<C>
where
    C::D: PartialEq,
{
    fn eq(&self, o: &Self) -> bool {
        self.log_id == o.log_id && self.payload == o.payload
    }
}
impl<C: RaftTypeConfig> Debug for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}:{:?}", self.log_id, self.payload)
    }
}
impl<C: RaftTypeConfig> Display for Entry<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}:{:?}", self.log_id, self.payload)
    }
}

pub trait MessageSummary {
    fn summary(&self) -> String;
}
impl<C: RaftTypeConfig> MessageSummary for Entry<C> {
    fn summary(&self) -> String {
        format!("{self}")
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct SnapshotMeta<NID: NodeId, N: Node> {
    pub last_log_id: Option<LogId<NID>>,
    pub last_membership: StoredMembership<NID, N>,
    pub snapshot_id: String,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum SnapshotPolicy {
    LogsSinceLast(u64),
    Never,
}

#[derive(Debug, Clone)]
pub struct Config {
    pub cluster_name: String,
    pub election_timeout_min: u64,
    pub election_timeout_max: u64,
    pub heartbeat_interval: u64,
    pub install_snapshot_timeout: u64,
    pub send_snapshot_timeout: u64,
    pub max_payload_entries: u64,
    pub replication_lag_threshold: u64,
    pub snapshot_policy: SnapshotPolicy,
    pub snapshot_max_chunk_size: u64,
    pub max_in_snapshot_log_to_keep: u64,
    pub purge_batch_size: u64,
    pub enable_tick: bool,
    pub enable_heartbeat: bool,
    pub enable_elect: bool,
}
impl Default for Config {
    fn default() -> Self {
        Self {
            cluster_name: "foo".to_string(),
            election_timeout_min: 150,
            election_timeout_max: 300,
            heartbeat_interval: 50,
            install_snapshot_timeout: 200,
            send_snapshot_timeout: 0,
            max_payload_entries: 300,
            replication_lag_threshold: 5000,
            snapshot_policy: SnapshotPolicy::LogsSinceLast(5000),
            snapshot_max_chunk_size: 3 << 20,
            max_in_snapshot_log_to_keep: 1000,
            purge_batch_size: 1,
            enable_tick: true,
            enable_heartbeat: true,
            enable_elect: true,
        }
    }
}
#[derive(Debug)]
pub struct ConfigError(pub String);
impl Display for ConfigError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for ConfigError {}
impl Config {
    pub fn validate(self) -> Result<Config, ConfigError> {
        if self.election_timeout_min >= self.election_timeout_max {
            return Err(ConfigError("election timeout: min must be < max".into()));
        }
        if self.max_payload_entries == 0 {
            return Err(ConfigError("max_payload_entries must be > 0".into()));
        }
        if self.election_timeout_min <= self.heartbeat_interval {
            return Err(ConfigError("election_timeout_min must be > heartbeat_interval".into()));
        }
        Ok(self)
    }
}
pub(crate) type Shared<T> = Arc<T>;
