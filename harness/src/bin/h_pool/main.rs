#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_feed;
mod p_pool;
#[allow(dead_code)]
#[path = "../h_engine/world.rs"]
mod world;
fn main() {
    frame::main(&[("C33", "exploration", p_pool::c33), ("C34", "exploration", p_feed::c34)]);
}
