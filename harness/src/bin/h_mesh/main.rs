#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_crawl;
mod p_view;
mod world;
fn main() {
    frame::main(&[("C29", "exploration", p_view::c29), ("C30", "exploration", p_crawl::c30)]);
}
