//! Monitors, workload generators and reference models for redox-ecc.
#[macro_use]
pub mod mon;
pub mod cut;
pub mod gen;
pub mod named;
#[cfg(feature = "props")]
pub mod props;
pub mod refm;
