#[macro_use]
extern crate harness;
pub use harness::{frame, gens};
mod p_keys;
fn main() {
    frame::main(&[("C10", "exploration", p_keys::c10)]);
}
