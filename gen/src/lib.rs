//! Declarations whose expansions are put under contract (tools/vx.py, source `gen`).
#![allow(dead_code)]
pub mod p;
pub mod s;
pub mod k;
pub mod t;
pub mod l;
