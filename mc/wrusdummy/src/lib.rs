#![allow(unused)]
pub mod bin { }
include!("/repo/wrusdummy/src/main.rs");
pub fn __mc_main() { let _ = main(); }
