//! Property-based checks for the `file-format` crate. See /verif/DESIGN.md.

pub mod alloc;
pub mod detect;
pub mod dict;
pub mod engine;
pub mod gens;
pub mod props;
pub mod readers;
pub mod regress;
pub mod runner;
pub mod tables;
pub mod variants;
pub mod vfile;
