//! Bounded model of `bytes` 0.5.6.
//!
//! The solver harnesses replace the real crate with this one.  The public traits (`buf/`, `fmt/`)
//! are the original sources; `Bytes` and `BytesMut` keep the original API and semantics but store
//! their content in a fixed inline array of `CAP` bytes, so that no pointer tagging, reference
//! counting or vtable dispatch reaches the solver.  Going beyond `CAP` panics with the text
//! `VERIF-MODEL-BOUND`, which the runner reports as an inconclusive run, never as a pass.
//! Counterexamples are replayed against the real crate.
#![allow(warnings)]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;

/// Straight-line repetition of a body for every index a `Store` can have, so that the content
/// copies do not depend on a harness's loop bound.
macro_rules! unroll {
    ($i:ident => $b:block) => {
        unroll!(@ $i $b 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63)
    };
    (@ $i:ident $b:block $($n:literal)*) => {
        $( { let $i: usize = $n; if $n < CAP $b } )*
    };
}

pub mod buf;
pub use crate::buf::{Buf, BufMut};

mod bytes;
mod bytes_mut;
mod fmt;
mod cmp;
pub use crate::bytes::Bytes;
pub use crate::bytes_mut::BytesMut;

/// Capacity of the model containers in bytes.
pub const CAP: usize = parse(option_env!("VERIF_BYTES_CAP"));

const fn parse(s: Option<&str>) -> usize {
    match s {
        None => 64,
        Some(s) => {
            let b = s.as_bytes();
            let mut i = 0;
            let mut n = 0;
            while i < b.len() {
                n = n * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            n
        }
    }
}

const _: () = assert!(CAP <= 64);

/// Shared representation: content is `buf[off..end]`.
#[derive(Clone, Copy)]
pub(crate) struct Store {
    buf: [u8; CAP],
    off: usize,
    end: usize,
}

impl Store {
    #[inline]
    pub(crate) const fn new() -> Self {
        Store { buf: [0; CAP], off: 0, end: 0 }
    }
    #[inline]
    pub(crate) fn len(&self) -> usize {
        self.end - self.off
    }
    #[inline]
    pub(crate) fn as_slice(&self) -> &[u8] {
        &self.buf[self.off..self.end]
    }
    #[inline]
    pub(crate) fn as_mut_slice(&mut self) -> &mut [u8] {
        &mut self.buf[self.off..self.end]
    }
    fn compact(&mut self) {
        if self.off == 0 {
            return;
        }
        let old = self.buf;
        let n = self.len();
        let off = self.off;
        unroll!(i => {
            if i < CAP && i < n {
                self.buf[i] = old[off + i];
            }
        });
        self.off = 0;
        self.end = n;
    }
    pub(crate) fn extend(&mut self, s: &[u8]) {
        let n = s.len();
        if self.end + n > CAP {
            self.compact();
        }
        assert!(self.end + n <= CAP, "VERIF-MODEL-BOUND bytes capacity");
        let end = self.end;
        unroll!(i => {
            if i < CAP && i < n {
                self.buf[end + i] = s[i];
            }
        });
        self.end = end + n;
    }
    pub(crate) fn fill(&mut self, v: u8, n: usize) {
        if self.end + n > CAP {
            self.compact();
        }
        assert!(self.end + n <= CAP, "VERIF-MODEL-BOUND bytes capacity");
        let end = self.end;
        unroll!(i => {
            if i < CAP && i < n {
                self.buf[end + i] = v;
            }
        });
        self.end = end + n;
    }
    #[inline]
    pub(crate) fn from_slice(s: &[u8]) -> Self {
        let mut st = Store::new();
        st.extend(s);
        st
    }
    #[inline]
    pub(crate) fn advance(&mut self, n: usize) {
        assert!(n <= self.len(), "cannot advance past `remaining`");
        self.off += n;
    }
    #[inline]
    pub(crate) fn split_to(&mut self, at: usize) -> Self {
        assert!(at <= self.len(), "split_to out of bounds");
        let mut o = *self;
        o.end = o.off + at;
        self.off += at;
        o
    }
    #[inline]
    pub(crate) fn split_off(&mut self, at: usize) -> Self {
        assert!(at <= self.len(), "split_off out of bounds");
        let mut o = *self;
        o.off = o.off + at;
        self.end = self.off + at;
        o
    }
    #[inline]
    pub(crate) fn truncate(&mut self, n: usize) {
        if n < self.len() {
            self.end = self.off + n;
        }
    }
    #[inline]
    pub(crate) fn clear(&mut self) {
        self.off = 0;
        self.end = 0;
    }
    pub(crate) fn spare(&mut self) -> &mut [core::mem::MaybeUninit<u8>] {
        if self.end == CAP {
            self.compact();
        }
        assert!(self.end < CAP, "VERIF-MODEL-BOUND bytes capacity");
        let n = CAP - self.end;
        unsafe {
            core::slice::from_raw_parts_mut(self.buf.as_mut_ptr().add(self.end) as *mut _, n)
        }
    }
    #[inline]
    pub(crate) fn advance_mut(&mut self, n: usize) {
        assert!(self.end + n <= CAP, "new_len > capacity");
        self.end += n;
    }
    #[inline]
    pub(crate) unsafe fn set_len(&mut self, n: usize) {
        assert!(self.off + n <= CAP, "VERIF-MODEL-BOUND bytes capacity");
        self.end = self.off + n;
    }
    #[inline]
    pub(crate) fn capacity(&self) -> usize {
        CAP - self.off
    }
    pub(crate) fn eq(&self, o: &[u8]) -> bool {
        let n = self.len();
        if n != o.len() {
            return false;
        }
        let mut same = true;
        unroll!(i => {
            if i < CAP && i < n && self.buf[self.off + i] != o[i] {
                same = false;
            }
        });
        same
    }
}

#[inline(never)]
#[cold]
fn abort() -> ! {
    std::process::abort();
}
