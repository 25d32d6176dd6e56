#[macro_use]
extern crate harness;
pub use harness::{frame, gens};
mod p_trie;
fn main() {
    frame::main(&[("C11", "exploration", p_trie::c11), ("C12", "exploration", p_trie::c12)]);
}
