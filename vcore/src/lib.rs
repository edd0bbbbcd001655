//! Shared machinery: seeded generators, the monitor/verdict report, watchdog,
//! schedule perturbation. No dependency on the code under test.
pub mod report;
pub mod rng;
#[cfg(feature = "native")]
pub mod perturb;
pub use report::*;
pub use rng::Rng;
