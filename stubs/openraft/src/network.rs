use std::future::Future;
use std::time::Duration;

use crate::error::{InstallSnapshotError, RPCError, RaftError};
use crate::raft::*;
use crate::types::*;

#[derive(Debug, Clone)]
pub struct RPCOption {
    hard_ttl: Duration,
}
impl RPCOption {
    pub fn new(hard_ttl: Duration) -> Self {
        Self { hard_ttl }
    }
    pub fn hard_ttl(&self) -> Duration {
        self.hard_ttl
    }
}
type E<C, X = crate::error::Infallible> = RPCError<<C as RaftTypeConfig>::NodeId, <C as RaftTypeConfig>::Node, RaftError<<C as RaftTypeConfig>::NodeId, X>>;

pub trait RaftNetwork<C: RaftTypeConfig>: Send + Sync + 'static {
    fn append_entries(&mut self, rpc: AppendEntriesRequest<C>, option: RPCOption) -> impl Future<Output = Result<AppendEntriesResponse<C::NodeId>, E<C>>> + Send;
    fn install_snapshot(&mut self, rpc: InstallSnapshotRequest<C>, option: RPCOption) -> impl Future<Output = Result<InstallSnapshotResponse<C::NodeId>, E<C, InstallSnapshotError>>> + Send;
    fn vote(&mut self, rpc: VoteRequest<C::NodeId>, option: RPCOption) -> impl Future<Output = Result<VoteResponse<C::NodeId>, E<C>>> + Send;
}
pub trait RaftNetworkFactory<C: RaftTypeConfig>: Send + Sync + 'static {
    type Network: RaftNetwork<C>;
    fn new_client(&mut self, target: C::NodeId, node: &C::Node) -> impl Future<Output = Self::Network> + Send;
}
