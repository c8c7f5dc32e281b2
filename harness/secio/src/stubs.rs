//! Search for the comma between names of the same length.
// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut WIDTH: (u64, usize) = (0x5eed000f, 0);

pub fn width(w: usize) {
    unsafe { WIDTH.1 = w }
}

/// The harness's lists consist of names of `WIDTH` characters; a search for a comma always starts at
/// a name.  Any other search looks at the bytes.
pub fn memchr(x: u8, text: &[u8]) -> Option<usize> {
    unsafe {
        if x == b',' && WIDTH.1 != 0 {
            if text.len() <= WIDTH.1 {
                return None;
            }
            assert!(text[WIDTH.1] == b',', "VERIF-MODEL-BOUND names");
            return Some(WIDTH.1);
        }
    }
    let mut i = 0;
    while i < text.len() {
        if text[i] == x {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// One-byte numbers only.
pub fn varint(buf: &[u8]) -> Result<(u16, &[u8]), unsigned_varint::decode::Error> {
    kani::assume(buf[0] < 0x80);
    Ok((buf[0] as u16, &buf[1..]))
}

pub fn show(_: &tentacle_secio::error::SecioError, _: &mut std::fmt::Formatter) -> std::fmt::Result {
    Ok(())
}

/// Writes the whole vector: a write to the length alone, inside of an enum, hides the rest from the
/// symbolic execution.
pub unsafe fn set_len<T, A: std::alloc::Allocator + Clone>(v: &mut Vec<T, A>, n: usize) {
    let (p, c) = (v.as_mut_ptr(), v.capacity());
    let a = v.allocator().clone();
    std::ptr::write(v, Vec::from_raw_parts_in(p, n, c, a));
}

/// One at a time, which keeps the values known.
pub unsafe fn write_bytes<T>(p: *mut T, v: u8, n: usize) {
    assert!(std::mem::size_of::<T>() == 1, "VERIF-MODEL-BOUND write_bytes");
    let mut i = 0;
    while i < n {
        *(p as *mut u8).add(i) = v;
        i += 1;
    }
}
