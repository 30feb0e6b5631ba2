#[macro_use]
pub mod engine;
pub mod model;
pub mod obs;
pub mod gen;
pub mod types;
pub mod generic;
pub mod extras;
pub mod diff;
pub mod spec;
pub mod spec2;
pub mod spec3;
pub mod props;
