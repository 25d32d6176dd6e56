//! Who may call a node and what becomes of what they submit (C37, C38).
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_access;
mod p_submit;
#[path = "../h_engine/world.rs"]
#[allow(dead_code)]
mod world;
fn main() {
    frame::main(&[("C37", "exploration", p_access::c37), ("C38", "exploration", p_submit::c38)]);
}
