//! Property-based checks for stream-download. See /verif/DESIGN.md.
pub mod death;
pub mod r#gen;
pub mod huge;
pub mod netchecks;
pub mod oracle;
pub mod procs;
pub mod regchecks;
pub mod runner;
pub mod sched;
pub mod sim;
pub mod simchecks;
pub mod storechecks;
pub mod source;
pub mod store;
pub mod trace;
pub mod web;
