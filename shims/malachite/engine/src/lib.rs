//! Stand-in for informalsystems-malachitebft-engine; see ../../all.
pub use mbft_shim::engine::*;
