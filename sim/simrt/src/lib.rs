//! Simulator runtime. Never instrumented: nothing in this crate is a scheduling point by itself.
//!
//! - `alloc`: deterministic fixed-address allocator with live-byte accounting
//! - `sched`: one-at-a-time scheduler over real OS threads; every coverage callback emitted by the
//!   instrumented library code is a potential preemption point
//! - `interpose`: futex, clock, sleep, randomness and environment seams
//! - `sys`: raw system calls
pub mod alloc;
pub mod interpose;
pub mod rng;
pub mod sched;
pub mod stats;
pub mod sys;
