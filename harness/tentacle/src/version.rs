//! Which version of a protocol two peers settle on.
use crate::sym;
use tentacle::protocol_select::select_version;

/// Two ascending lists: the highest common element, or nothing.
fn pick(na: usize, nb: usize) {
    let (mut a, mut b) = ([0u8; 4], [0u8; 4]);
    let mut i = 0;
    while i < na {
        a[i] = sym::u8();
        sym::assume(i == 0 || a[i - 1] <= a[i]);
        i += 1;
    }
    i = 0;
    while i < nb {
        b[i] = sym::u8();
        sym::assume(i == 0 || b[i - 1] <= b[i]);
        i += 1;
    }
    let mut want = None;
    for k in 0..na {
        for l in 0..nb {
            if a[k] == b[l] && want < Some(a[k]) {
                want = Some(a[k]);
            }
        }
    }
    let here = select_version(&a[..na], &b[..nb]);
    let there = select_version(&b[..nb], &a[..na]);
    assert!(here == want, "highest common version");
    assert!(there == want, "the same version from the other side");
}

proofs! {
    10 version_pick { cases!(usize, 0 1 2 3 4, |n| pick(n, 4)) }
    10 version_few { cases!(usize, 0 1 2 3, |n| pick(n, 2)) }
}
