//! Stand-in for informalsystems-malachitebft-config; see ../../all.
pub use mbft_shim::config::*;
