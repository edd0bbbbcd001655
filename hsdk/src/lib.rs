pub mod dgen;
pub mod llib;
pub mod mlib;
pub use vcore::*;
pub mod plib;
pub mod slib;
