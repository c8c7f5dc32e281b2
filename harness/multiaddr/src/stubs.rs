//! `utf8`: only ASCII texts are considered.
use std::str::Utf8Error;

pub fn utf8(v: &[u8]) -> Result<&str, Utf8Error> {
    let mut i = 0;
    while i < v.len() {
        kani::assume(v[i] < 0x80);
        i += 1;
    }
    Ok(unsafe { std::str::from_utf8_unchecked(v) })
}

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut ENDS: (u64, [usize; 6]) = (0x5eed000c, [0; 6]);
static mut COUNT: (u64, usize) = (0x5eed000d, 0);
static mut NEXT: (u64, usize) = (0x5eed000e, 0);

/// The lengths of the segments of the text about to be parsed.
pub fn segments(lens: &[usize]) {
    unsafe {
        COUNT.1 = lens.len();
        NEXT.1 = 0;
        let mut i = 0;
        while i < lens.len() {
            ENDS.1[i] = lens[i];
            i += 1;
        }
    }
}

/// The segments are searched in order: the next `/` is where the current segment ends.  Any other
/// search looks at the bytes.
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    unsafe {
        if x == b'/' && NEXT.1 < COUNT.1 {
            let mut rest = COUNT.1 - NEXT.1 - 1;
            let mut i = NEXT.1;
            while i < COUNT.1 {
                rest += ENDS.1[i];
                i += 1;
            }
            if rest == text.len() {
                let n = ENDS.1[NEXT.1];
                NEXT.1 += 1;
                if NEXT.1 == COUNT.1 {
                    return None;
                }
                assert!(text[n] == b'/', "VERIF-MODEL-BOUND segments");
                return Some(n);
            }
        }
    }
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}
