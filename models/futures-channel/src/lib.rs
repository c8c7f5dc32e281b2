//! Verification model of `futures-channel` 0.3: same API and same parking rules as the original,
//! but single threaded, with a fixed-size queue instead of a lock-free list.  Filling the queue
//! panics with `VERIF-MODEL-BOUND` (reported as inconclusive).  Channel memory is never freed.
#![allow(warnings)]
#![feature(const_type_name)]
pub mod mpsc;
pub mod oneshot;
