#![allow(unused)]
pub mod bin { }
include!("/repo/wrustatic/src/main.rs");
pub fn __mc_main() { let _ = main(); }
