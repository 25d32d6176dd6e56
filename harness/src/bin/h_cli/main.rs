#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
#[path = "../h_http/fake.rs"]
mod fake;
mod p_config;
mod p_submit;
mod run;
fn main() {
    frame::main(&[("C31", "exploration", p_submit::c31), ("C32", "exploration", p_config::c32)]);
}
