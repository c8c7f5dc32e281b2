//! The algorithms two peers settle on, from their lists.
use crate::sym;
use std::cmp::Ordering;
use tentacle_secio::{
    crypto::cipher::CipherType,
    verif_probe::{select_agreement, select_cipher, select_digest},
    Digest,
};

/// A comma separated list of `n` names of `W` arbitrary characters.
struct Names<const W: usize> {
    text: [u8; 64],
    n: usize,
}

impl<const W: usize> Names<W> {
    fn any(n: usize) -> Self {
        let mut text = [0u8; 64];
        for k in 0..n {
            for i in 0..W {
                let c = sym::u8();
                sym::assume(c < 0x80 && c != b',');
                text[k * (W + 1) + i] = c;
            }
            if k + 1 < n {
                text[k * (W + 1) + W] = b',';
            }
        }
        Names { text, n }
    }
    fn text(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.text[..self.n * (W + 1) - 1]) }
    }
    fn is(&self, k: usize, name: &[u8]) -> bool {
        let mut same = name.len() == W;
        for i in 0..W {
            same &= i < name.len() && self.text[k * (W + 1) + i] == name[i];
        }
        same
    }
    fn same(&self, k: usize, other: &Self, l: usize) -> bool {
        let mut same = true;
        for i in 0..W {
            same &= self.text[k * (W + 1) + i] == other.text[l * (W + 1) + i];
        }
        same
    }
}

/// Index into `known` of the first name of `a` that is also in `b` and known.
fn expected<const W: usize>(a: &Names<W>, b: &Names<W>, known: &[&str]) -> Option<usize> {
    let mut res = None;
    for k in 0..a.n {
        let mut shared = false;
        for l in 0..b.n {
            shared |= a.same(k, b, l);
        }
        for (i, name) in known.iter().enumerate() {
            if res.is_none() && shared && a.is(k, name.as_bytes()) {
                res = Some(i);
            }
        }
    }
    res
}

macro_rules! list {
    ($w:literal, $na:expr, $nb:expr, $select:ident, $known:expr) => {{
        #[cfg(kani)]
        crate::stubs::width($w);
        let known = $known;
        let names: Vec<&str> = known.iter().map(|k| k.0).collect();
        let first = Names::<$w>::any($na);
        let second = Names::<$w>::any($nb);
        let want = expected(&first, &second, &names);
        // The owner of the first list has the preference; the other side sees the opposite order.
        let here = $select(Ordering::Greater, first.text(), second.text());
        let there = $select(Ordering::Less, second.text(), first.text());
        match want {
            None => assert!(here.is_err() && there.is_err(), "no algorithm in common"),
            Some(i) => {
                let mut ok = false;
                for (k, (_, v)) in known.iter().enumerate() {
                    if k == i {
                        ok = matches!(&here, Ok(x) if x == v) && matches!(&there, Ok(x) if x == v);
                    }
                }
                assert!(ok, "both sides choose the same algorithm");
            }
        }
        std::mem::forget((here, there, names));
    }};
}

const AGREEMENTS: [(&str, u8); 3] =
    [("P-256", 0), ("P-384", 1), ("X25519", 2)];
const CIPHERS: [(&str, CipherType); 3] = [
    ("AES-128-GCM", CipherType::Aes128Gcm),
    ("AES-256-GCM", CipherType::Aes256Gcm),
    ("CHACHA20_POLY1305", CipherType::ChaCha20Poly1305),
];
const DIGESTS: [(&str, Digest); 2] = [("SHA256", Digest::Sha256), ("SHA512", Digest::Sha512)];

/// Concrete lists with names of different lengths, in every order.
fn mixed(order: u8) {
    const ORDERS: [[usize; 3]; 6] = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
    const A: [&str; 6] =
        ["P-256,P-384,X25519", "P-256,X25519,P-384", "P-384,P-256,X25519", "P-384,X25519,P-256", "X25519,P-256,P-384", "X25519,P-384,P-256"];
    const C: [&str; 6] = [
        "AES-128-GCM,AES-256-GCM,CHACHA20_POLY1305",
        "AES-128-GCM,CHACHA20_POLY1305,AES-256-GCM",
        "AES-256-GCM,AES-128-GCM,CHACHA20_POLY1305",
        "AES-256-GCM,CHACHA20_POLY1305,AES-128-GCM",
        "CHACHA20_POLY1305,AES-128-GCM,AES-256-GCM",
        "CHACHA20_POLY1305,AES-256-GCM,AES-128-GCM",
    ];
    let o = order as usize;
    for p in [o, (o + 1) % 6, 5 - o] {
        let first = ORDERS[o][0];
        let a = (select_agreement(Ordering::Greater, A[o], A[p]), select_agreement(Ordering::Less, A[p], A[o]));
        assert!(matches!(&a.0, Ok(x) if *x == AGREEMENTS[first].1) && matches!(&a.1, Ok(x) if *x == AGREEMENTS[first].1));
        let c = (select_cipher(Ordering::Greater, C[o], C[p]), select_cipher(Ordering::Less, C[p], C[o]));
        assert!(matches!(&c.0, Ok(x) if *x == CIPHERS[first].1) && matches!(&c.1, Ok(x) if *x == CIPHERS[first].1));
        std::mem::forget((a, c));
    }
}

proofs! {
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    8 choose_agreement {
        cases!(u8, 0 1 2 3, |c| match c {
            0 => list!(5, 2, 2, select_agreement, AGREEMENTS),
            1 => list!(5, 3, 2, select_agreement, AGREEMENTS),
            2 => list!(6, 2, 2, select_agreement, AGREEMENTS),
            _ => list!(5, 1, 3, select_agreement, AGREEMENTS),
        })
    }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    19 choose_cipher {
        cases!(u8, 0 1 2, |c| match c {
            0 => list!(11, 2, 2, select_cipher, CIPHERS),
            1 => list!(11, 1, 3, select_cipher, CIPHERS),
            _ => list!(17, 2, 1, select_cipher, CIPHERS),
        })
    }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    8 choose_digest {
        cases!(u8, 0 1 2, |c| match c {
            0 => list!(6, 2, 2, select_digest, DIGESTS),
            1 => list!(6, 1, 3, select_digest, DIGESTS),
            _ => list!(6, 3, 2, select_digest, DIGESTS),
        })
    }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    45 choose_mixed { cases!(u8, 0 1 2 3 4 5, |c| mixed(c)) }
}
