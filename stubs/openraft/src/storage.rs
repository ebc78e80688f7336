use std::fmt::Debug;
use std::future::Future;
use std::ops::RangeBounds;
use std::sync::Arc;

use tokio::sync::RwLock;

use crate::error::StorageError;
use crate::types::*;

#[derive(Debug, Clone)]
pub struct LogState<C: RaftTypeConfig> {
    pub last_purged_log_id: Option<LogId<C::NodeId>>,
    pub last_log_id: Option<LogId<C::NodeId>>,
}
#[derive(Debug)]
pub struct Snapshot<C: RaftTypeConfig> {
    pub meta: SnapshotMeta<C::NodeId, C::Node>,
    pub snapshot: Box<C::SnapshotData>,
}
type R<C, T> = Result<T, StorageError<<C as RaftTypeConfig>::NodeId>>;

pub trait RaftLogReader<C: RaftTypeConfig>: Send + Sync + 'static {
    fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + Send>(&mut self, range: RB) -> impl Future<Output = R<C, Vec<C::Entry>>> + Send;
}
pub trait RaftSnapshotBuilder<C: RaftTypeConfig>: Send + Sync + 'static {
    fn build_snapshot(&mut self) -> impl Future<Output = R<C, Snapshot<C>>> + Send;
}
pub trait RaftStorage<C: RaftTypeConfig>: RaftLogReader<C> + Send + Sync + 'static {
    type LogReader: RaftLogReader<C>;
    type SnapshotBuilder: RaftSnapshotBuilder<C>;
    fn save_vote(&mut self, vote: &Vote<C::NodeId>) -> impl Future<Output = R<C, ()>> + Send;
    fn read_vote(&mut self) -> impl Future<Output = R<C, Option<Vote<C::NodeId>>>> + Send;
    fn get_log_state(&mut self) -> impl Future<Output = R<C, LogState<C>>> + Send;
    fn get_log_reader(&mut self) -> impl Future<Output = Self::LogReader> + Send;
    fn append_to_log<I>(&mut self, entries: I) -> impl Future<Output = R<C, ()>> + Send
    where
        I: IntoIterator<Item = C::Entry> + Send;
    fn delete_conflict_logs_since(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = R<C, ()>> + Send;
    fn purge_logs_upto(&mut self, log_id: LogId<C::NodeId>) -> impl Future<Output = R<C, ()>> + Send;
    #[allow(clippy::type_complexity)]
    fn last_applied_state(&mut self) -> impl Future<Output = R<C, (Option<LogId<C::NodeId>>, StoredMembership<C::NodeId, C::Node>)>> + Send;
    fn apply_to_state_machine(&mut self, entries: &[C::Entry]) -> impl Future<Output = R<C, Vec<C::R>>> + Send;
    fn get_snapshot_builder(&mut self) -> impl Future<Output = Self::SnapshotBuilder> + Send;
    fn begin_receiving_snapshot(&mut self) -> impl Future<Output = R<C, Box<C::SnapshotData>>> + Send;
    fn install_snapshot(&mut self, meta: &SnapshotMeta<C::NodeId, C::Node>, snapshot: Box<C::SnapshotData>) -> impl Future<Output = R<C, ()>> + Send;
    fn get_current_snapshot(&mut self) -> impl Future<Output = R<C, Option<Snapshot<C>>>> + Send;
}

/// As openraft's: one storage, shared by the log half and the state machine half.
pub struct Adaptor<C: RaftTypeConfig, S: RaftStorage<C>> {
    pub(crate) s: Arc<RwLock<S>>,
    _p: std::marker::PhantomData<C>,
}
impl<C: RaftTypeConfig, S: RaftStorage<C>> Clone for Adaptor<C, S> {
    fn clone(&self) -> Self {
        Self { s: self.s.clone(), _p: Default::default() }
    }
}
impl<C: RaftTypeConfig, S: RaftStorage<C>> Adaptor<C, S> {
    #[allow(clippy::new_ret_no_self)]
    pub fn new(store: S) -> (Self, Self) {
        let a = Self { s: Arc::new(RwLock::new(store)), _p: Default::default() };
        (a.clone(), a)
    }
}
