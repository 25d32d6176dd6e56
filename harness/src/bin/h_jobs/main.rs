//! What runs in the background: pruning of blocks and events (C44), migrations (C45).
#![allow(dead_code)]
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod migrate;
mod prune;
#[path = "../h_engine/world.rs"]
mod world;
fn c44(p: &mut frame::Prop) {
    p.sub("prune", "something was pruned and something kept", 3_000, 100_000, prune::case, prune::check);
    p.sub("jobs", "a scheduled run pruned something and kept something", 64, 2_000, prune::job_case, prune::jobs);
}
fn c45(p: &mut frame::Prop) {
    p.sub("schema", "a legacy row was there and a block came before the end of the migration", 3_000, 100_000, migrate::case, migrate::check);
    p.sub("events", "an interrupted move of events was taken up again", 1_000, 40_000, migrate::move_case, migrate::moves);
}
fn main() {
    frame::main(&[("C44", "exploration", c44), ("C45", "exploration", c45)]);
}
