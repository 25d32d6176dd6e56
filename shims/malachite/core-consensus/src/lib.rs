//! Stand-in for informalsystems-malachitebft-core-consensus; see ../../all.
pub use mbft_shim::core_consensus::*;
