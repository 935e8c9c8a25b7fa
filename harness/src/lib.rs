//! Runtime monitors for mlx9064x: simulated cameras, reference decoders and formulas, oracles.
pub mod ctx;
pub mod custom;
pub mod drv;
pub mod ee;
pub mod heap;
pub mod iv;
pub mod laws;
pub mod portable;
pub mod props;
pub mod refcalc;
pub mod rng;
pub mod scene;
pub mod sim;
pub mod wear;

#[global_allocator]
static ALLOCATOR: heap::Counting = heap::Counting;
