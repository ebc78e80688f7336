//! Stand-in for tokio: the synchronisation primitives, I/O traits and macros are
//! tokio's own; tasks, threads, timers and files are run by the simulation.
pub use real_tokio::{io, join, pin, try_join};
pub use real_tokio::select;

pub mod fs;
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;

pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
    pub mod unix {
        #[derive(Clone, Copy)]
        pub struct SignalKind;
        impl SignalKind {
            pub fn terminate() -> Self {
                SignalKind
            }
            pub fn interrupt() -> Self {
                SignalKind
            }
        }
        pub struct Signal;
        impl Signal {
            pub async fn recv(&mut self) -> Option<()> {
                std::future::pending().await
            }
        }
        pub fn signal(_: SignalKind) -> std::io::Result<Signal> {
            Ok(Signal)
        }
    }
}
