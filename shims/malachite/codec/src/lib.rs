//! Stand-in for informalsystems-malachitebft-codec; see ../../all.
pub use mbft_shim::codec::*;
