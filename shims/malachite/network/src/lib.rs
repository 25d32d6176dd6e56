//! Stand-in for informalsystems-malachitebft-network; see ../../all.
pub use mbft_shim::network::*;
