//! Ideal authenticated encryption in place of `openssl::symm`.
//!
//! Every encryption is remembered with its cipher, key, nonce and text.  The cipher text and the tag
//! depend on the nonce and say nothing about the text.  A decryption succeeds exactly if there was an
//! encryption with this cipher, key, nonce and length and neither cipher text nor tag were changed.
//! (Two texts encrypted with the same nonce, which must never happen, have the same cipher text.)
pub mod error {
    use std::fmt;
    #[derive(Debug, Clone)]
    pub struct ErrorStack(pub(crate) ());
    impl fmt::Display for ErrorStack {
        fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
            Ok(())
        }
    }
    impl std::error::Error for ErrorStack {}
}

pub mod symm {
    use crate::error::ErrorStack;

    #[derive(Copy, Clone, PartialEq, Eq)]
    pub struct Cipher(u8);
    impl Cipher {
        pub fn aes_128_gcm() -> Cipher {
            Cipher(1)
        }
        pub fn aes_256_gcm() -> Cipher {
            Cipher(2)
        }
        pub fn chacha20_poly1305() -> Cipher {
            Cipher(3)
        }
        fn key_len(self) -> usize {
            if self.0 == 1 { 16 } else { 32 }
        }
    }

    pub const LOG: usize = 6;
    pub const TEXT: usize = 20;
    const IV: usize = 12;
    const TAG: usize = 16;

    #[derive(Copy, Clone)]
    struct Entry {
        cipher: u8,
        key: [u8; 32],
        iv: [u8; IV],
        len: usize,
        text: [u8; TEXT],
    }
    // Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
    static mut ENTRIES: (u64, [Entry; LOG]) = (0x5eed0006, [Entry { cipher: 0, key: [0; 32], iv: [0; IV], len: 0, text: [0; TEXT] }; LOG]);
    static mut USED: (u64, usize) = (0x5eed0007, 0);

    /// Forgets what was encrypted: it cannot be decrypted any more.
    pub fn forget() {
        unsafe { USED.1 = 0 }
    }

    fn copy<const N: usize>(s: &[u8]) -> [u8; N] {
        assert!(s.len() <= N, "VERIF-MODEL-BOUND cipher text");
        let mut o = [0u8; N];
        let mut i = 0;
        while i < s.len() {
            o[i] = s[i];
            i += 1;
        }
        o
    }
    fn same(a: &[u8], b: &[u8], n: usize) -> bool {
        let mut eq = true;
        let mut i = 0;
        while i < n {
            eq &= a[i] == b[i];
            i += 1;
        }
        eq
    }
    fn tag_at(t: Cipher, key: &[u8], iv: &[u8], i: usize) -> u8 {
        if i < IV {
            iv[i] ^ 0xa0
        } else if i < IV + 3 {
            key[i - IV]
        } else {
            t.0
        }
    }
    fn cipher_at(key: &[u8], iv: &[u8], i: usize) -> u8 {
        iv[0] ^ key[i] ^ 0x50
    }

    // The nonce of the latest call, and the one to leave behind in its place.
    static mut SEEN: (u64, [u8; IV]) = (0x5eed0011, [0; IV]);
    static mut NEXT: (u64, bool, [u8; IV]) = (0x5eed0012, false, [0; IV]);
    pub fn nonce() -> [u8; IV] {
        unsafe { SEEN.1 }
    }
    /// The next call overwrites its nonce afterwards: the caller goes on as if it had used this one.
    pub fn renumber(iv: [u8; IV]) {
        unsafe {
            NEXT.1 = true;
            NEXT.2 = iv;
        }
    }
    fn used(iv: &[u8]) {
        unsafe {
            SEEN.1 = copy(iv);
            if NEXT.1 {
                NEXT.1 = false;
                let p = iv.as_ptr() as *mut u8;
                let mut i = 0;
                while i < IV {
                    *p.add(i) = NEXT.2[i];
                    i += 1;
                }
            }
        }
    }

    pub fn encrypt_aead(t: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8], data: &[u8], tag: &mut [u8]) -> Result<Vec<u8>, ErrorStack> {
        let iv = iv.unwrap();
        assert!(aad.is_empty(), "VERIF-MODEL-BOUND additional data");
        assert!(key.len() == t.key_len() && iv.len() == IV && tag.len() == TAG);
        unsafe {
            assert!(USED.1 < LOG, "VERIF-MODEL-BOUND encryptions");
            ENTRIES.1[USED.1] = Entry { cipher: t.0, key: copy::<32>(key), iv: copy(iv), len: data.len(), text: copy(data) };
            USED.1 += 1;
        }
        let mut i = 0;
        while i < TAG {
            tag[i] = tag_at(t, key, iv, i);
            i += 1;
        }
        let mut out = Vec::with_capacity(data.len() + TAG);
        let mut i = 0;
        while i < data.len() {
            out.push(cipher_at(key, iv, i));
            i += 1;
        }
        used(iv);
        Ok(out)
    }

    pub fn decrypt_aead(t: Cipher, key: &[u8], iv: Option<&[u8]>, aad: &[u8], data: &[u8], tag: &[u8]) -> Result<Vec<u8>, ErrorStack> {
        let iv = iv.unwrap();
        assert!(aad.is_empty(), "VERIF-MODEL-BOUND additional data");
        assert!(key.len() == t.key_len() && iv.len() == IV);
        let mut genuine = tag.len() == TAG;
        let mut i = 0;
        while i < TAG {
            genuine &= i < tag.len() && tag[i] == tag_at(t, key, iv, i);
            i += 1;
        }
        let mut i = 0;
        while i < data.len() {
            genuine &= data[i] == cipher_at(key, iv, i);
            i += 1;
        }
        let at: [u8; IV] = copy(iv);
        used(iv);
        let iv = &at;
        if !genuine {
            return Err(ErrorStack(()));
        }
        let mut i = 0;
        while i < LOG {
            let e = unsafe { &ENTRIES.1[i] };
            if i < unsafe { USED.1 } && e.cipher == t.0 && e.len == data.len() && same(&e.key, key, key.len()) && same(&e.iv, iv, IV) {
                let mut out = Vec::with_capacity(data.len());
                let mut j = 0;
                while j < e.len {
                    out.push(e.text[j]);
                    j += 1;
                }
                return Ok(out);
            }
            i += 1;
        }
        Err(ErrorStack(()))
    }
}
