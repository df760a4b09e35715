//! Generated programs under test.
#![allow(warnings)]
include!(concat!(env!("OUT_DIR"), "/gen.rs"));
