#[macro_use]
extern crate harness;
pub use harness::{frame, gens};
mod model;
mod p_engine;
mod p_quota;
mod world;
fn main() {
    frame::main(&[
        ("C18", "exploration", p_engine::c18),
        ("C19", "exploration", p_engine::c19),
        ("C20", "exploration", p_engine::c20),
        ("C21", "exploration", p_engine::c21),
        ("C22", "exploration", p_quota::c22),
    ]);
}
