//! Harness library whose LLVM IR the symbolic executor reads.
mod all;
pub use all::*;
