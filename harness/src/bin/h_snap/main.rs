//! Snapshots: writing, publishing, downloading (C41).
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod bucket;
mod p_snap;
fn main() {
    // no certificates: nothing here speaks TLS, and reading them takes most of the time
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    frame::main(&[("C41", "exploration", p_snap::c41)]);
}
