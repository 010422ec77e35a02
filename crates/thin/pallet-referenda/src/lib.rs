//! Stands in for the crate of the same name.
pub use shim::referenda::*;
