//! Verification harnesses for hastur.
#![allow(clippy::all, dead_code)]
pub mod cmp;
pub mod h;
pub mod refmake;
pub mod sym;
