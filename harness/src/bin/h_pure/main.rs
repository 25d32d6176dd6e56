#[macro_use]
extern crate harness;
pub use harness::{frame, gens};
mod p_pure;
fn main() {
    frame::main(&[
        ("C13", "exploration", p_pure::c13),
        ("C14", "exploration", p_pure::c14),
        ("C15", "exploration", p_pure::c15),
        ("C16", "exploration", p_pure::c16),
        ("C17", "exploration", p_pure::c17),
    ]);
}
