//! nyxmon: runtime monitors for nyx-space.
pub mod alm;
pub mod math;
pub mod mon;
pub mod gens;
