use std::error::Error;
use std::fmt::{self, Debug, Display};
use std::time::Duration;

use serde::{Deserialize, Serialize};

use crate::types::*;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct AnyError(pub String);
impl AnyError {
    pub fn new<E: Error + ?Sized>(e: &E) -> Self {
        AnyError(e.to_string())
    }
    pub fn error(e: impl ToString) -> Self {
        AnyError(e.to_string())
    }
}
impl Display for AnyError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl Error for AnyError {}
impl<'a, E: Error + 'static> From<&'a E> for AnyError {
    fn from(e: &'a E) -> Self {
        AnyError(e.to_string())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Infallible {}
impl Display for Infallible {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl Error for Infallible {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum ErrorSubject {
    Store,
    Vote,
    Logs,
    StateMachine,
    Snapshot,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum ErrorVerb {
    Read,
    Write,
    Seek,
    Delete,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct StorageIOError<NID: NodeId> {
    pub subject: ErrorSubject,
    pub verb: ErrorVerb,
    pub source: AnyError,
    #[serde(skip)]
    _p: std::marker::PhantomData<NID>,
}
impl<NID: NodeId> StorageIOError<NID> {
    pub fn new(subject: ErrorSubject, verb: ErrorVerb, source: impl Into<AnyError>) -> Self {
        Self { subject, verb, source: source.into(), _p: Default::default() }
    }
    pub fn read_logs(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Logs, ErrorVerb::Read, e)
    }
    pub fn write_logs(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Logs, ErrorVerb::Write, e)
    }
    pub fn read_state_machine(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::StateMachine, ErrorVerb::Read, e)
    }
    pub fn write_state_machine(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::StateMachine, ErrorVerb::Write, e)
    }
    pub fn read_vote(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Vote, ErrorVerb::Read, e)
    }
    pub fn write_vote(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Vote, ErrorVerb::Write, e)
    }
    pub fn read(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Store, ErrorVerb::Read, e)
    }
    pub fn write(e: impl Into<AnyError>) -> Self {
        Self::new(ErrorSubject::Store, ErrorVerb::Write, e)
    }
}
impl<NID: NodeId> Display for StorageIOError<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "when {:?} {:?}: {}", self.verb, self.subject, self.source)
    }
}
impl<NID: NodeId> Error for StorageIOError<NID> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum StorageError<NID: NodeId> {
    IO { source: StorageIOError<NID> },
}
impl<NID: NodeId> From<StorageIOError<NID>> for StorageError<NID> {
    fn from(source: StorageIOError<NID>) -> Self {
        StorageError::IO { source }
    }
}
impl<NID: NodeId> Display for StorageError<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            StorageError::IO { source } => write!(f, "{source}"),
        }
    }
}
impl<NID: NodeId> Error for StorageError<NID> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum Fatal<NID: NodeId> {
    StorageError(StorageError<NID>),
    Panicked,
    Stopped,
}
impl<NID: NodeId> Display for Fatal<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Fatal::StorageError(e) => write!(f, "{e}"),
            Fatal::Panicked => f.write_str("panicked"),
            Fatal::Stopped => f.write_str("raft stopped"),
        }
    }
}
impl<NID: NodeId> Error for Fatal<NID> {}
impl<NID: NodeId> From<StorageError<NID>> for Fatal<NID> {
    fn from(e: StorageError<NID>) -> Self {
        Fatal::StorageError(e)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound(serialize = "E: Serialize", deserialize = "E: for<'d> Deserialize<'d>"))]
pub enum RaftError<NID: NodeId, E = Infallible> {
    APIError(E),
    Fatal(Fatal<NID>),
}
impl<NID: NodeId, E: Display> Display for RaftError<NID, E> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            RaftError::APIError(e) => write!(f, "{e}"),
            RaftError::Fatal(e) => write!(f, "{e}"),
        }
    }
}
impl<NID: NodeId, E: Debug + Display> Error for RaftError<NID, E> {}
impl<NID: NodeId, E> From<Fatal<NID>> for RaftError<NID, E> {
    fn from(e: Fatal<NID>) -> Self {
        RaftError::Fatal(e)
    }
}
impl<NID: NodeId, E> RaftError<NID, E> {
    pub fn api_error(&self) -> Option<&E> {
        match self {
            RaftError::APIError(e) => Some(e),
            _ => None,
        }
    }
    pub fn into_api_error(self) -> Option<E> {
        match self {
            RaftError::APIError(e) => Some(e),
            _ => None,
        }
    }
    pub fn fatal(&self) -> Option<&Fatal<NID>> {
        match self {
            RaftError::Fatal(e) => Some(e),
            _ => None,
        }
    }
}
impl<NID: NodeId, N: Node> RaftError<NID, ClientWriteError<NID, N>> {
    pub fn forward_to_leader(&self) -> Option<&ForwardToLeader<NID, N>> {
        match self {
            RaftError::APIError(ClientWriteError::ForwardToLeader(f)) => Some(f),
            _ => None,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct ForwardToLeader<NID: NodeId, N: Node> {
    pub leader_id: Option<NID>,
    pub leader_node: Option<N>,
}
impl<NID: NodeId, N: Node> ForwardToLeader<NID, N> {
    pub const fn empty() -> Self {
        Self { leader_id: None, leader_node: None }
    }
}
impl<NID: NodeId, N: Node> Display for ForwardToLeader<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "has to forward request to: {:?}, {:?}", self.leader_id, self.leader_node)
    }
}
impl<NID: NodeId, N: Node> Error for ForwardToLeader<NID, N> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum ChangeMembershipError<NID: NodeId> {
    InProgress { committed: Option<LogId<NID>>, membership_log_id: Option<LogId<NID>> },
    EmptyMembership,
    LearnerNotFound { node_id: NID },
}
impl<NID: NodeId> Display for ChangeMembershipError<NID> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<NID: NodeId> Error for ChangeMembershipError<NID> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum ClientWriteError<NID: NodeId, N: Node> {
    ForwardToLeader(ForwardToLeader<NID, N>),
    ChangeMembershipError(ChangeMembershipError<NID>),
}
impl<NID: NodeId, N: Node> Display for ClientWriteError<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::ForwardToLeader(e) => write!(f, "{e}"),
            Self::ChangeMembershipError(e) => write!(f, "{e}"),
        }
    }
}
impl<NID: NodeId, N: Node> Error for ClientWriteError<NID, N> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum CheckIsLeaderError<NID: NodeId, N: Node> {
    ForwardToLeader(ForwardToLeader<NID, N>),
    QuorumNotEnough(String),
}
impl<NID: NodeId, N: Node> Display for CheckIsLeaderError<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<NID: NodeId, N: Node> Error for CheckIsLeaderError<NID, N> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct NotAllowed<NID: NodeId> {
    pub last_log_id: Option<LogId<NID>>,
    pub vote: Vote<NID>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct NotInMembers<NID: NodeId, N: Node> {
    pub node_id: NID,
    pub membership: Membership<NID, N>,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub enum InitializeError<NID: NodeId, N: Node> {
    NotAllowed(NotAllowed<NID>),
    NotInMembers(NotInMembers<NID, N>),
}
impl<NID: NodeId, N: Node> Display for InitializeError<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<NID: NodeId, N: Node> Error for InitializeError<NID, N> {}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct SnapshotMismatch {
    pub expect: u64,
    pub got: u64,
}
#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum InstallSnapshotError {
    SnapshotMismatch(SnapshotMismatch),
}
impl Display for InstallSnapshotError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl Error for InstallSnapshotError {}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct NetworkError(AnyError);
impl NetworkError {
    pub fn new<E: Error + 'static>(e: &E) -> Self {
        NetworkError(AnyError::new(e))
    }
}
impl Display for NetworkError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "NetworkError: {}", self.0)
    }
}
impl Error for NetworkError {}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Unreachable(AnyError);
impl Unreachable {
    pub fn new<E: Error + 'static>(e: &E) -> Self {
        Unreachable(AnyError::new(e))
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Timeout<NID: NodeId> {
    pub id: NID,
    pub target: NID,
    pub timeout: Duration,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct RemoteError<NID: NodeId, N: Node, T> {
    pub target: NID,
    pub target_node: Option<N>,
    pub source: T,
}
impl<NID: NodeId, N: Node, T> RemoteError<NID, N, T> {
    pub fn new(target: NID, e: T) -> Self {
        Self { target, target_node: None, source: e }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum RPCError<NID: NodeId, N: Node, T> {
    Timeout(Timeout<NID>),
    Unreachable(Unreachable),
    Network(NetworkError),
    RemoteError(RemoteError<NID, N, T>),
}
impl<NID: NodeId, N: Node, T: Debug> Display for RPCError<NID, N, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl<NID: NodeId, N: Node, T: Debug> Error for RPCError<NID, N, T> {}
impl<NID: NodeId, N: Node> RaftError<NID, CheckIsLeaderError<NID, N>> {
    pub fn forward_to_leader(&self) -> Option<&ForwardToLeader<NID, N>> {
        match self {
            RaftError::APIError(CheckIsLeaderError::ForwardToLeader(f)) => Some(f),
            _ => None,
        }
    }
}
