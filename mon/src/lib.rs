//! Runtime monitors for static-math: reference models, workload generators and
//! the monitor (event counting, verdicts, evidence, replay).
pub mod adapt;
pub mod dd;
pub mod dict;
pub mod gen;
pub mod lin;
pub mod monitor;
pub mod qref;
pub mod refm;
pub mod rng;
pub mod spy;
pub mod sweep;

pub use adapt::*;
pub use dd::Dd;
pub use monitor::Mon;
pub use rng::Rng;
pub use spy::{W32, W64};
