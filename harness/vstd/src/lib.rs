//! A modelled standard library. Everything not redefined here is the real one.
//!
//! Used as `#[macro_use] extern crate vstd as std;` in the staged crates.
#![allow(clippy::all)]

pub use ::std::*;

pub mod rt;

#[macro_use]
mod macros;
pub mod net;
pub mod process;
pub mod sync;
pub mod thread;
pub mod time;
