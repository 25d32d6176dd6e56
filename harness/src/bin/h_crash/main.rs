//! Crashes in the middle of a commit, and of the start after it (C25).
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_crash;
#[path = "../h_block/sim.rs"]
#[allow(dead_code)]
mod sim;
#[path = "../h_engine/world.rs"]
#[allow(dead_code)]
mod world;
fn main() {
    frame::main(&[("C25", "exploration", p_crash::c25)]);
}
