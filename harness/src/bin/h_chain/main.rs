//! The connectors: events of the registry contracts (C35) and username transfers (C36), against
//! scripted servers on the loopback interface.
#[macro_use]
extern crate harness;
pub use harness::{arb, frame, gens};
mod p_chain;
mod p_fname;
mod server;
fn main() {
    // Clients load the system's certificates again and again: give them one to load.
    if let (Ok(all), Ok(exe)) = (std::fs::read_to_string("/etc/ssl/certs/ca-certificates.crt"), std::env::current_exe()) {
        const END: &str = "-----END CERTIFICATE-----";
        if let Some(n) = all.find(END) {
            let f = exe.with_file_name("one.pem");
            if std::fs::write(&f, format!("{}\n", &all[..n + END.len()])).is_ok() {
                std::env::set_var("SSL_CERT_FILE", &f);
                std::env::set_var("SSL_CERT_DIR", "/nonexistent");
            }
        }
    }
    frame::main(&[("C35", "exploration", p_chain::c35), ("C36", "exploration", p_fname::c36)]);
}
