#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod fake;
mod http;
mod p_ans;
mod p_req;
fn main() {
    frame::main(&[("C27", "exploration", p_req::c27), ("C28", "exploration", p_ans::c28)]);
}
