//! `utf8`: only ASCII texts are considered.  `random_state`: hash tables start with fixed keys.
use std::str::Utf8Error;

pub fn utf8(v: &[u8]) -> Result<&str, Utf8Error> {
    let mut i = 0;
    while i < v.len() {
        kani::assume(v[i] < 0x80);
        i += 1;
    }
    Ok(unsafe { std::str::from_utf8_unchecked(v) })
}

pub fn random_state() -> std::collections::hash_map::RandomState {
    unsafe { std::mem::transmute((0u64, 0u64)) }
}
