//! What a node's read API answers (C26), over data shards filled by the real engine.
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
#[path = "../h_engine/model.rs"]
#[allow(dead_code)]
mod model;
mod p_reads;
#[path = "../h_engine/world.rs"]
#[allow(dead_code)]
mod world;
fn main() {
    frame::main(&[("C26", "exploration", p_reads::c26)]);
}
