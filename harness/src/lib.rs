//! Conformance harness: runs scripts against the real code and records what is observed.
pub mod func;
pub mod net;
pub mod slot;
pub mod util;
pub mod vara;
