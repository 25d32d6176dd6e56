//! Shard 0: keys, channels, lends and verifications, and what the data shards make of its events (C23, C39, C40).
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_channels;
mod p_keys;
mod p_zero;
mod run;
mod shards;
mod sim;
fn main() {
    frame::main(&[("C23", "exploration", p_keys::c23), ("C39", "exploration", p_channels::c39), ("C40", "exploration", p_zero::c40)]);
}
