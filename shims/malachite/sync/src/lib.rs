//! Stand-in for informalsystems-malachitebft-sync; see ../../all.
pub use mbft_shim::sync::*;
pub use mbft_shim::process;
