//! Deterministic simulator for structmeta: program generator, environment
//! (field parsers under the simulator's control), scheduler, reference model.
pub mod compare;
pub mod ctx;
pub mod defs;
pub mod emit;
pub mod exec;
pub mod genrun;
pub mod genspec;
pub mod grammar;
pub mod input;
pub mod ir;
pub mod json;
pub mod look;
pub mod model;
pub mod op;
pub mod probe;
pub mod rng;
pub mod sched;
