//! The balancer of the binary, compiled with `schedstd` instead of `std`.
//! `plain` keeps std: only if the balancer uses parts of std for which there is no stand-in.
#![allow(dead_code, unused_imports)]
#[cfg(not(feature = "plain"))]
extern crate schedstd as std;

#[path = "/repo/src/bin/osmgraphing/balancing/mod.rs"]
pub mod balancing;
