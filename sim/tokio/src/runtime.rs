//! Only what library code may name.
pub use tokio_real::runtime::*;
