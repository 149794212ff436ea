//! Builds knuffel and its derive macros for the batches of lib/deriving.py
pub use knuffel;
