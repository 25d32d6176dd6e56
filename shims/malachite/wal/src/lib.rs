//! Stand-in for informalsystems-malachitebft-wal; see ../../all.
pub use mbft_shim::wal::*;
