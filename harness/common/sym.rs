//! Symbolic inputs: solver variables under Kani, recorded values in a native replay.
#![allow(dead_code)]

#[cfg(kani)]
mod imp {
    /// A solver variable that formula slicing cannot drop: the trace of a counterexample lists
    /// every input in order.  The second variable makes the assumption hold for every value.
    macro_rules! input {
        ($($t:ident)*) => { $(
            pub fn $t() -> $t {
                let v: $t = kani::any();
                let free: u8 = kani::any();
                kani::assume(v != 0 || free != 0);
                v
            }
        )* };
    }
    input!(u8 u16 u32 u64 u128 usize);
    pub fn bool() -> bool {
        u8() & 1 == 1
    }
    pub fn assume(c: bool) {
        kani::assume(c)
    }
    /// The harness ran to its end: the witness against vacuity.
    #[inline(always)]
    pub fn end() {
        kani::cover!(true, "VERIF-END");
    }
    pub fn reset() {}
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;

    thread_local! {
        static VALUES: RefCell<(Vec<Vec<u8>>, usize)> = RefCell::new((Vec::new(), 0));
    }

    /// Exit code of a replay whose values do not fit the harness.
    pub const DIVERGED: i32 = 77;

    pub fn load(values: Vec<Vec<u8>>) {
        VALUES.with(|v| *v.borrow_mut() = (values, 0));
    }
    pub fn reset() {
        VALUES.with(|v| v.borrow_mut().1 = 0);
    }
    fn next<const N: usize>() -> [u8; N] {
        let v = value::<N>();
        value::<1>();
        v
    }
    fn value<const N: usize>() -> [u8; N] {
        VALUES.with(|v| {
            let mut v = v.borrow_mut();
            let i = v.1;
            v.1 += 1;
            let mut out = [0u8; N];
            match v.0.get(i) {
                Some(b) if b.len() == N => out.copy_from_slice(b),
                // The solver leaves values it never looked at out of the trace.
                None => (),
                Some(b) => {
                    eprintln!("replay: value {} has {} bytes, expected {}", i, b.len(), N);
                    std::process::exit(DIVERGED);
                }
            }
            out
        })
    }
    pub fn u8() -> u8 {
        next::<1>()[0]
    }
    pub fn u16() -> u16 {
        u16::from_le_bytes(next())
    }
    pub fn u32() -> u32 {
        u32::from_le_bytes(next())
    }
    pub fn u64() -> u64 {
        u64::from_le_bytes(next())
    }
    pub fn u128() -> u128 {
        u128::from_le_bytes(next())
    }
    pub fn usize() -> usize {
        usize::from_le_bytes(next())
    }
    pub fn bool() -> bool {
        u8() & 1 == 1
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("replay: assumption does not hold");
            std::process::exit(DIVERGED);
        }
    }
    pub fn end() {
        println!("VERIF-END");
    }
}

pub use imp::*;

/// A value below `n`.
pub fn below(n: u8) -> u8 {
    let v = u8();
    assume(v < n);
    v
}
