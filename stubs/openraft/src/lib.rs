//! A deterministic stand-in for openraft 0.9 (which cannot be fetched here): the same
//! types and storage/network traits, and a compact Raft core (leader election, log
//! replication, joint membership changes, snapshots) that drives RaftStorage v1 in the
//! order openraft does.
pub mod core;
pub mod error;
pub mod metrics;
pub mod network;
pub mod raft;
pub mod storage;
pub mod types;
pub mod witness;

pub use crate::error::{AnyError, ErrorSubject, ErrorVerb, StorageError, StorageIOError};
pub use crate::metrics::{RaftMetrics, ServerState};
pub use crate::network::{RaftNetwork, RaftNetworkFactory};
pub use crate::raft::Raft;
pub use crate::storage::{RaftLogReader, RaftSnapshotBuilder, RaftStorage};
pub use crate::types::*;

#[macro_export]
macro_rules! declare_raft_types {
    ( $(#[$m:meta])* $v:vis $id:ident : $( $t:ident = $ty:ty ),* $(,)? ) => {
        $(#[$m])*
        #[derive(Debug, Clone, Copy, Default, Eq, PartialEq, Ord, PartialOrd)]
        #[derive(serde::Serialize, serde::Deserialize)]
        $v struct $id {}
        impl $crate::RaftTypeConfig for $id {
            $( type $t = $ty; )*
        }
    };
}
