//! The standard library with its concurrency primitives replaced by model-checked ones.
#![allow(clippy::all, internal_features)]
#![feature(dropck_eyepatch, coerce_unsized, unsize, dispatch_from_dyn)]
pub use ::std::*;
pub mod rt;
pub mod sync;
pub mod thread;
pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::rt::yield_();
    }
}
