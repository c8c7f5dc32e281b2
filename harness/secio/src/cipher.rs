//! The ciphers of the channel, over ideal authenticated encryption.
use crate::sym;
use tentacle_secio::crypto::{cipher::CipherType, new_stream, BoxStreamCipher, CryptoMode};

const KEY_A: [u8; 32] = [0x3a; 32];
const KEY_B: [u8; 32] = [0xc5; 32];
/// Text and tag.
const MAX: usize = 24;

fn kind(c: u8) -> CipherType {
    match c {
        0 => CipherType::Aes128Gcm,
        1 => CipherType::Aes256Gcm,
        _ => CipherType::ChaCha20Poly1305,
    }
}
fn encoder(t: CipherType, key: &[u8; 32]) -> BoxStreamCipher {
    new_stream(t, &key[..t.key_size()], CryptoMode::Encrypt)
}
fn decoder(t: CipherType, key: &[u8; 32]) -> BoxStreamCipher {
    new_stream(t, &key[..t.key_size()], CryptoMode::Decrypt)
}

#[derive(Clone, Copy)]
struct Frame {
    b: [u8; MAX],
    n: usize,
}
fn encrypt(c: &mut BoxStreamCipher, text: &[u8]) -> Frame {
    match c.encrypt(text) {
        Ok(v) => {
            assert!(v.len() == text.len() + 16, "text and tag");
            let mut f = Frame { b: [0; MAX], n: v.len() };
            for i in 0..v.len() {
                f.b[i] = v[i];
            }
            std::mem::forget(v);
            f
        }
        Err(_) => panic!("encryption works"),
    }
}
/// Decrypts to exactly `text`.
fn accepts(c: &mut BoxStreamCipher, f: &[u8], text: &[u8]) {
    match c.decrypt(f) {
        Ok(v) => {
            assert!(v.len() == text.len(), "the text that was encrypted");
            for i in 0..text.len() {
                assert!(v[i] == text[i], "the text that was encrypted");
            }
            std::mem::forget(v);
        }
        Err(_) => panic!("a genuine frame is decrypted"),
    }
}
fn refuses(c: &mut BoxStreamCipher, f: &[u8]) {
    match c.decrypt(f) {
        Ok(_) => panic!("accepted what the peer did not send"),
        Err(e) => std::mem::forget(e),
    }
}

fn data<const N: usize>() -> [u8; N] {
    let mut d = [0; N];
    for i in 0..N {
        d[i] = sym::u8();
    }
    d
}

/// Texts come back in order.
fn order(t: CipherType) {
    let (mut e, mut d) = (encoder(t, &KEY_A), decoder(t, &KEY_A));
    let m = data::<6>();
    let f1 = encrypt(&mut e, &m[..3]);
    let f2 = encrypt(&mut e, &m[3..4]);
    accepts(&mut d, &f1.b[..f1.n], &m[..3]);
    let f3 = encrypt(&mut e, &m[4..]);
    accepts(&mut d, &f2.b[..f2.n], &m[3..4]);
    accepts(&mut d, &f3.b[..f3.n], &m[4..]);
    std::mem::forget((e, d));
}

/// A frame that is changed, in any byte, is refused.
fn changed(t: CipherType, second: bool) {
    let (mut e, mut d) = (encoder(t, &KEY_A), decoder(t, &KEY_A));
    let m = data::<3>();
    let mut f = encrypt(&mut e, &m);
    if second {
        accepts(&mut d, &f.b[..f.n], &m);
        f = encrypt(&mut e, &m);
    }
    let mut any = 0;
    for i in 0..19 {
        let mask = sym::u8();
        any |= mask;
        f.b[i] ^= mask;
    }
    sym::assume(any != 0);
    refuses(&mut d, &f.b[..f.n]);
    std::mem::forget((e, d));
}

/// A frame that is cut or extended is refused.
fn resized(t: CipherType, n: usize) {
    let (mut e, mut d) = (encoder(t, &KEY_A), decoder(t, &KEY_A));
    let m = data::<3>();
    let mut f = encrypt(&mut e, &m);
    for i in f.n..MAX {
        f.b[i] = sym::u8();
    }
    refuses(&mut d, &f.b[..n]);
    std::mem::forget((e, d));
}

/// Frames out of turn: repeated, skipped or swapped.  And a frame of the other direction.
fn misplaced(t: CipherType, what: u8) {
    let (mut e, mut d) = (encoder(t, &KEY_A), decoder(t, &KEY_A));
    let m = data::<6>();
    let f1 = encrypt(&mut e, &m[..3]);
    let f2 = encrypt(&mut e, &m[3..]);
    match what {
        0 => {
            accepts(&mut d, &f1.b[..f1.n], &m[..3]);
            refuses(&mut d, &f1.b[..f1.n]);
        }
        1 => refuses(&mut d, &f2.b[..f2.n]),
        2 => {
            refuses(&mut d, &f2.b[..f2.n]);
            refuses(&mut d, &f1.b[..f1.n]);
        }
        _ => {
            let mut other = encoder(t, &KEY_B);
            let f = encrypt(&mut other, &m[..3]);
            refuses(&mut d, &f.b[..f.n]);
            std::mem::forget(other);
        }
    }
    std::mem::forget((e, d));
}

/// The same text is never encrypted to the same frame again.
fn fresh(t: CipherType) {
    let mut e = encoder(t, &KEY_A);
    let m = [sym::u8()];
    let (f1, f2, f3) = (encrypt(&mut e, &m), encrypt(&mut e, &m), encrypt(&mut e, &m));
    assert!(!same(&f1, &f2) && !same(&f2, &f3) && !same(&f1, &f3), "the same frame again");
    std::mem::forget(e);
}
fn same(a: &Frame, b: &Frame) -> bool {
    let mut eq = a.n == b.n;
    for i in 0..17 {
        eq &= a.b[i] == b.b[i];
    }
    eq
}

/// After `k` messages the next one has a nonce of its own and is still understood.
fn late(t: CipherType) {
    let k = sym::u16();
    sym::assume(k > 0);
    let (mut e, mut d) = (encoder(t, &KEY_A), decoder(t, &KEY_A));
    late_in(k, &mut e, &mut d);
    std::mem::forget((e, d));
}
/// Lets both ends go on as after message `k`.  The nonces count the messages.  (An implementation
/// that hands out a copy of its nonce goes on with its second message.)
#[cfg(kani)]
fn late_in(k: u16, e: &mut BoxStreamCipher, d: &mut BoxStreamCipher) {
    let mut at = [0u8; 12];
    at[0] = k as u8;
    at[1] = (k >> 8) as u8;
    let number = |n: u32| {
        let s = openssl::symm::nonce();
        let mut eq = s[0] == n as u8 && s[1] == (n >> 8) as u8 && s[2] == (n >> 16) as u8;
        for i in 3..12 {
            eq &= s[i] == 0;
        }
        eq
    };
    openssl::symm::renumber(at);
    let f = encrypt(e, &[1]);
    assert!(number(1), "the first nonce");
    encrypt(e, &[2]);
    assert!(number(k as u32 + 1) || number(2), "a nonce of its own");
    openssl::symm::renumber(at);
    accepts(d, &f.b[..f.n], &[1]);
    assert!(number(1), "the first nonce");
    refuses(d, &f.b[..f.n]);
    assert!(number(k as u32 + 1) || number(2), "the nonce of the encryption");
}
#[cfg(not(kani))]
fn late_in(k: u16, e: &mut BoxStreamCipher, d: &mut BoxStreamCipher) {
    let mut seen = std::collections::HashSet::new();
    for i in 0..=k as u32 {
        let f = encrypt(e, &[1]);
        assert!(seen.insert(f.b), "a nonce of its own, message {}", i);
        accepts(d, &f.b[..f.n], &[1]);
    }
}

proofs! {
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_order { cases!(u8, 0 1 2, |c| order(kind(c))) }
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_changed { cases!(u8, 0 1 2 3, |c| changed(kind(c % 3), c == 3)) }
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_resized { cases!(u8, 0 1 2 3 4, |c| match c {
        0 => resized(kind(0), 18),
        1 => resized(kind(1), 20),
        2 => resized(kind(2), 16),
        3 => resized(kind(0), 15),
        _ => resized(kind(2), 0),
    }) }
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_misplaced { cases!(u8, 0 1 2 3, |c| misplaced(kind(c % 3), c)) }
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_fresh { cases!(u8, 0 1 2, |c| fresh(kind(c))) }
    #[stub(std::ptr::write_bytes, crate::stubs::write_bytes)]
    33 cipher_late { cases!(u8, 0 1 2, |c| late(kind(c))) }
}
