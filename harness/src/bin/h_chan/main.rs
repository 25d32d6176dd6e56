//! What the API answers about channels, follows and signers (C43).
#![allow(dead_code)]
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod follows;
mod reads;
#[path = "../h_block/run.rs"]
mod run;
#[path = "../h_block/shards.rs"]
mod shards;
#[path = "../h_block/sim.rs"]
mod sim;
fn c43(p: &mut frame::Prop) {
    p.sub("channels", "a channel with a member was read", 2_000, 60_000, || sim::case(reads::CHANNELS, false), reads::channels);
    p.sub("signers", "a fid had both kinds of signers", 1_500, 60_000, || sim::case(reads::KEYS, false), reads::signers);
    p.sub("follows", "a follow was taken back, superseded or pruned, and another stands", 4_000, 100_000, follows::case, follows::check);
}
fn main() {
    frame::main(&[("C43", "exploration", c43)]);
}
