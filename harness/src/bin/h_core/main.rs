#[macro_use]
extern crate harness;
pub use harness::{frame, gens};
mod p_cons;
mod p_core;
mod p_sig;
mod p_validate;
fn main() {
    frame::main(&[
        ("C01", "exploration", p_validate::c01),
        ("C02", "exploration", p_validate::c02),
        ("C03", "exploration", p_sig::c03),
        ("C04", "exploration", p_core::c04),
        ("C05", "exploration", p_core::c05),
        ("C06", "exploration", p_core::c06),
        ("C07", "exploration", p_core::c07),
        ("C08", "exploration", p_cons::c08),
        ("C09", "exploration", p_cons::c09),
    ]);
}
