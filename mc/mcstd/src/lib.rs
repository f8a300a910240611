//! A façade over `std` under which the unmodified sources of wruster are compiled for model checking
//! (the crate is renamed to `std` in the dependency list of the mirror crates).
//! Everything that blocks, synchronizes, tells the time or talks to the network is replaced by a
//! version controlled by the deterministic scheduler in `rt`; the rest is the real `std`.
//! Outside an execution (no virtual thread) the replaced items behave like single-threaded versions.
#![allow(clippy::all)]
pub use ::std::*;

pub mod rt;
pub mod mc;
pub mod heapcount;
pub mod netsim;

pub mod sync;
pub mod thread;
pub mod time;
pub mod net;
pub mod collections;
pub mod env;
pub mod process;
