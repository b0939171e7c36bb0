//! Shared parts of the harness.
pub mod common;
pub mod runner;
pub mod tiny;
