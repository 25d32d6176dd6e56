//! Filling a new node from other nodes' state, a page of the trie at a time (C42).
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_boot;
mod p_snaps;
mod peers;
#[path = "../h_engine/world.rs"]
mod world;
fn main() {
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    frame::main(&[("C42", "exploration", p_boot::c42)]);
}
