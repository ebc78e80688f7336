use std::collections::BTreeMap;
use std::fmt::{self, Display};
use std::sync::Arc;
use std::time::Duration;

use serde::{Deserialize, Serialize};

use crate::error::Fatal;
use crate::types::*;

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub enum ServerState {
    #[default]
    Learner,
    Follower,
    Candidate,
    Leader,
    Shutdown,
}
impl ServerState {
    pub fn is_leader(&self) -> bool {
        matches!(self, Self::Leader)
    }
    pub fn is_follower(&self) -> bool {
        matches!(self, Self::Follower)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
#[serde(bound = "")]
pub struct RaftMetrics<NID: NodeId, N: Node> {
    pub running_state: Result<(), Fatal<NID>>,
    pub id: NID,
    pub current_term: u64,
    pub vote: Vote<NID>,
    pub last_log_index: Option<u64>,
    pub last_applied: Option<LogId<NID>>,
    pub snapshot: Option<LogId<NID>>,
    pub purged: Option<LogId<NID>>,
    pub state: ServerState,
    pub current_leader: Option<NID>,
    pub millis_since_quorum_ack: Option<u64>,
    pub membership_config: Arc<StoredMembership<NID, N>>,
    pub replication: Option<BTreeMap<NID, Option<LogId<NID>>>>,
}
impl<NID: NodeId, N: Node> RaftMetrics<NID, N> {
    pub fn new_initial(id: NID) -> Self {
        Self {
            running_state: Ok(()),
            id,
            current_term: 0,
            vote: Vote::default(),
            last_log_index: None,
            last_applied: None,
            snapshot: None,
            purged: None,
            state: ServerState::Follower,
            current_leader: None,
            millis_since_quorum_ack: None,
            membership_config: Arc::new(StoredMembership::default()),
            replication: None,
        }
    }
}
impl<NID: NodeId, N: Node> Display for RaftMetrics<NID, N> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Metrics{{id:{}, {:?}, term:{}, vote:{}, last_log:{:?}, last_applied:{:?}, leader:{:?}}}", self.id, self.state, self.current_term, self.vote, self.last_log_index, self.last_applied, self.current_leader)
    }
}

#[derive(Debug)]
pub enum WaitError {
    Timeout(Duration, String),
    ShuttingDown,
}
impl Display for WaitError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            WaitError::Timeout(d, m) => write!(f, "timeout after {d:?} when {m}"),
            WaitError::ShuttingDown => f.write_str("raft is shutting down"),
        }
    }
}
impl std::error::Error for WaitError {}

pub struct Wait<NID: NodeId, N: Node> {
    pub timeout: Duration,
    pub rx: tokio::sync::watch::Receiver<RaftMetrics<NID, N>>,
}
impl<NID: NodeId, N: Node> Wait<NID, N> {
    pub async fn metrics<F: Fn(&RaftMetrics<NID, N>) -> bool + OptionalSend>(&self, f: F, msg: impl ToString) -> Result<RaftMetrics<NID, N>, WaitError> {
        let mut rx = self.rx.clone();
        let msg = msg.to_string();
        let end = tokio::time::Instant::now() + self.timeout;
        loop {
            let m = rx.borrow().clone();
            if f(&m) {
                return Ok(m);
            }
            if m.state == ServerState::Shutdown {
                return Err(WaitError::ShuttingDown);
            }
            match tokio::time::timeout_at(end, rx.changed()).await {
                Ok(Ok(())) => {}
                Ok(Err(_)) => return Err(WaitError::ShuttingDown),
                Err(_) => return Err(WaitError::Timeout(self.timeout, msg)),
            }
        }
    }
    pub async fn state(&self, want: ServerState, msg: impl ToString) -> Result<RaftMetrics<NID, N>, WaitError> {
        self.metrics(|m| m.state == want, msg).await
    }
    pub async fn current_leader(&self, id: NID, msg: impl ToString) -> Result<RaftMetrics<NID, N>, WaitError> {
        self.metrics(|m| m.current_leader == Some(id), msg).await
    }
}
