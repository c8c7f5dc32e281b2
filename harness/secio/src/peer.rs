//! Peer ids.
use crate::sym;
use tentacle_secio::PeerId;

/// Bytes are a peer id exactly if they are a SHA-256 multihash.
fn bytes<const N: usize>(code: u8) {
    let mut b = [7u8; N];
    for i in 0..N {
        if i == 0 {
            b[i] = code;
        } else if i < 3 || i + 1 == N {
            b[i] = sym::u8();
        }
    }
    let good = N == 34 && b[0] == 0x12 && b[1] == 32;
    match PeerId::from_bytes(b.to_vec()) {
        Ok(id) => {
            assert!(good, "not a SHA-256 multihash");
            assert!(id.as_bytes().len() == N && id.digest().len() == 32);
            for i in 0..N {
                assert!(id.as_bytes()[i] == b[i]);
                if i >= 2 {
                    assert!(id.digest()[i - 2] == b[i]);
                }
            }
            std::mem::forget(id);
        }
        Err(()) => assert!(!good, "a SHA-256 multihash is a peer id"),
    }
}

proofs! {
    #[stub(unsigned_varint::decode::u16, crate::stubs::varint)]
    37 peer_bytes {
        cases!(u8, 0 1 2 3 4 5 6, |c| match c {
            0 => bytes::<33>(0x12),
            1 => bytes::<34>(0x12),
            2 => bytes::<35>(0x12),
            3 => bytes::<3>(0x12),
            4 => bytes::<34>(0x11),
            5 => bytes::<34>(0x13),
            _ => bytes::<1>(0x12),
        })
    }
}
