//! Stand-in for informalsystems-malachitebft-metrics; see ../../all.
pub use mbft_shim::metrics::*;
