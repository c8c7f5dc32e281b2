//! Wakers that count: waker `i` (below `N`) records how often it was woken.
#![allow(dead_code)]
use std::task::{RawWaker, RawWakerVTable, Waker};

pub const N: usize = 4;
// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut COUNT: (u64, [u32; N]) = (0x5eed0010, [0; N]);

fn vt_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
fn vt_wake(p: *const ()) {
    unsafe { COUNT.1[p as usize] += 1 }
}
fn vt_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_wake, vt_wake, vt_nop);

pub fn waker(i: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(i as *const (), &VT)) }
}
pub fn count(w: &Waker) {
    unsafe { COUNT.1[w.data() as usize] += 1 }
}
pub fn woken(i: usize) -> u32 {
    unsafe { COUNT.1[i] }
}
