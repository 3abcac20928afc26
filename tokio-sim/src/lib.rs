//! Simulated tokio. `sync`, `select!`, `join!`, `pin!` and friends are the real
//! ones; `spawn`, `task`, `time`, `net` are backed by the simulator in `sim`.
pub mod net;
pub mod sim;
pub mod task;
pub mod time;
pub mod runtime;

pub use tokio_real::sync;
pub use tokio_real::{join, pin, select, try_join};
pub use task::spawn;
pub use tokio_sim_macros::{main, test};

pub mod io {
    pub use std::io::{Error, ErrorKind, Result, SeekFrom};
    pub use tokio_real::io::*;
}

pub mod macros {
    pub use tokio_real::macros::*;
}

#[macro_export]
macro_rules! task_local {
    ($($t:tt)*) => { ::std::compile_error!("task_local is not simulated") };
}
