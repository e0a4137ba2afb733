//! Property-based verification harness for rust-systre.
pub mod cgd;
pub mod engine;
pub mod la;
pub mod ops;
pub mod pg;
