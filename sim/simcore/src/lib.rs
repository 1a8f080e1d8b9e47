//! A simulated operating system underneath real Rust code.
//!
//! The executable that links this crate gets the libc entry points below from
//! here instead of from glibc.  While a simulation is active in the process,
//! they act on simulated sockets, epoll instances, event fds, clocks, entropy
//! and threads; before that (and for descriptors the simulator did not make)
//! they pass straight through to the kernel.
//!
//! Exactly one thread runs at a time (it holds the baton); all state below is
//! only touched by the baton holder, hence needs no locking.
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod alloc;
pub mod interpose;
pub mod kernel;
pub mod net;
pub mod rng;
pub mod threads;
pub mod tsan;

pub use kernel::*;
pub use net::*;
pub use rng::Rng;
