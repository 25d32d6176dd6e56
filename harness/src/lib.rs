#[macro_use]
pub mod frame;
pub mod gens;
pub mod alloc;
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;
pub mod arb;
