//! tonic itself, except for its transport: calls are routed in process, through a
//! network that the simulation can delay, cut and lose.
pub use real_tonic::*;
pub mod net;
pub mod transport;
