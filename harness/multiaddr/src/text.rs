//! Textual form of addresses: `/keyword/value` for every keyword, all values of a given shape.
use crate::sym;
use bytes::BytesMut;
use std::{convert::TryFrom, net::Ipv4Addr};
use tentacle_multiaddr::{Multiaddr, Protocol};

/// Texts are put together from segments; the model of the search for `/` looks up where the
/// segments end (see stubs.rs) as long as it is asked for exactly that.
#[cfg(kani)]
fn segments(lens: &[usize]) {
    crate::stubs::segments(lens)
}
#[cfg(not(kani))]
fn segments(_: &[usize]) {}

struct Text {
    buf: [u8; 24],
    len: usize,
}

fn text(a: &str, b: &[u8]) -> Text {
    let mut t = Text { buf: [0; 24], len: 0 };
    t.put(b'/');
    for c in a.as_bytes() {
        t.put(*c);
    }
    if !b.is_empty() {
        t.put(b'/');
        for c in b {
            t.put(*c);
        }
        segments(&[0, a.len(), b.len()]);
    } else {
        segments(&[0, a.len()]);
    }
    t
}

impl Text {
    fn put(&mut self, b: u8) {
        self.buf[self.len] = b;
        self.len += 1;
    }
    fn str(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(&self.buf[..self.len]) }
    }
}

fn plain() -> u8 {
    let c = sym::u8();
    sym::assume(c < 0x80 && c != b'/');
    c
}

fn name(kind: u8) {
    let n = [plain(), plain()];
    let t = text(
        match kind {
            0 => "dns4",
            1 => "dns6",
            _ => "tls",
        },
        &n,
    );
    let got = t.str().parse::<Multiaddr>();
    match &got {
        Ok(a) => {
            let b: &[u8] = a.as_ref();
            let k = if kind == 2 { 2 } else { 1 };
            assert!(b.len() == k + 3, "length of a name");
            match kind {
                0 => assert!(b[0] == 54, "code"),
                1 => assert!(b[0] == 55, "code"),
                _ => assert!(b[0] == 0xc0 && b[1] == 0x03, "code"),
            }
            assert!(b[k] == 2 && b[k + 1] == n[0] && b[k + 2] == n[1], "name");
        }
        Err(_) => panic!("text refused"),
    }
    std::mem::forget(got);
}

/// `digits` characters after `/tcp/`.
fn port(digits: usize) {
    let d = [sym::u8(), sym::u8(), sym::u8(), sym::u8(), sym::u8()];
    let mut value = 0u32;
    let mut number = true;
    let mut i = 0;
    while i < digits {
        sym::assume(d[i] < 0x80 && d[i] != b'/' && d[i] != b'+' && d[i] != b'-');
        number &= b'0' <= d[i] && d[i] <= b'9';
        value = value.wrapping_mul(10).wrapping_add(d[i].wrapping_sub(b'0') as u32);
        i += 1;
    }
    let t = text("tcp", &d[..digits]);
    let got = t.str().parse::<Multiaddr>();
    match &got {
        Ok(a) => {
            assert!(number && value <= 65535, "not a port");
            let b: &[u8] = a.as_ref();
            assert!(b.len() == 3 && b[0] == 6, "code");
            assert!(b[1] == (value >> 8) as u8 && b[2] == value as u8, "port");
        }
        Err(_) => assert!(!number || value > 65535, "port refused"),
    }
    std::mem::forget(got);
}

fn flag(kind: u8) {
    let t = text(if kind == 0 { "ws" } else { "wss" }, &[]);
    let got = t.str().parse::<Multiaddr>();
    match &got {
        Ok(a) => {
            let b: &[u8] = a.as_ref();
            assert!(b.len() == 2 && b[1] == 3 && b[0] == if kind == 0 { 0xdd } else { 0xde }, "code");
        }
        Err(_) => panic!("text refused"),
    }
    std::mem::forget(got);
}

fn ip4() {
    let d = [sym::u8(), b'.', sym::u8(), b'.', sym::u8(), sym::u8(), b'.', sym::u8()];
    let t = text("ip4", &d);
    let mut i = 0;
    while i < 8 {
        if i != 1 && i != 3 && i != 6 {
            sym::assume(b'0' <= d[i] && d[i] <= b'9');
        }
        i += 1;
    }
    sym::assume(d[4] != b'0');
    let got = t.str().parse::<Multiaddr>();
    match &got {
        Ok(a) => {
            let b: &[u8] = a.as_ref();
            assert!(b.len() == 5 && b[0] == 4, "code");
            assert!(
                b[1] == d[0] - b'0' && b[2] == d[2] - b'0' && b[3] == (d[4] - b'0') * 10 + (d[5] - b'0') && b[4] == d[7] - b'0',
                "address"
            );
        }
        Err(_) => panic!("address refused"),
    }
    std::mem::forget(got);
}

/// The text of a port, compared with its decimal digits.
fn show_port() {
    let p = sym::u16();
    let addr = Multiaddr::from(Protocol::TCP(p));
    let s = addr.to_string();
    let b = s.as_bytes();
    let digits = if p > 9999 { 5 } else if p > 999 { 4 } else if p > 99 { 3 } else if p > 9 { 2 } else { 1 };
    assert!(b.len() == 5 + digits, "length");
    assert!(b[0] == b'/' && b[1] == b't' && b[2] == b'c' && b[3] == b'p' && b[4] == b'/', "keyword");
    let mut v = 0u32;
    let mut i = 0;
    while i < 5 {
        if i < digits {
            v = v * 10 + (b[5 + i] - b'0') as u32;
        }
        i += 1;
    }
    assert!(v == p as u32, "digits");
    std::mem::forget(s);
}

fn starts(b: &[u8], t: &str) -> bool {
    let t = t.as_bytes();
    let mut eq = b.len() >= t.len();
    let mut i = 0;
    while i < t.len() {
        eq = eq && b[i] == t[i];
        i += 1;
    }
    eq
}

fn show_name(kind: u8) {
    let n = [plain(), plain()];
    let code: &[u8] = match kind {
        0 => &[54, 2],
        1 => &[55, 2],
        _ => &[0xc0, 0x03, 2],
    };
    let mut bytes = BytesMut::new();
    bytes.extend_from_slice(code);
    bytes.extend_from_slice(&n);
    let addr = match Multiaddr::try_from(bytes.freeze()) {
        Ok(a) => a,
        Err(_) => panic!("valid binary form refused"),
    };
    let s = addr.to_string();
    let b = s.as_bytes();
    let key = match kind {
        0 => "/dns4/",
        1 => "/dns6/",
        _ => "/tls/",
    };
    assert!(b.len() == key.len() + 2, "length");
    assert!(starts(b, key), "keyword");
    assert!(b[key.len()] == n[0] && b[key.len() + 1] == n[1], "name");
    std::mem::forget(s);
}

fn show_flag(kind: u8) {
    let addr = Multiaddr::from(if kind == 0 { Protocol::Ws } else { Protocol::Wss });
    let s = addr.to_string();
    let key = if kind == 0 { "/ws" } else { "/wss" };
    assert!(s.len() == key.len() && starts(s.as_bytes(), key), "keyword");
    std::mem::forget(s);
}

fn show_ip4() {
    let d = [sym::below(10), sym::below(10), sym::u8(), sym::below(10)];
    sym::assume(d[2] > 99);
    let addr = Multiaddr::from(Ipv4Addr::new(d[0], d[1], d[2], d[3]));
    let s = addr.to_string();
    let b = s.as_bytes();
    assert!(b.len() == 5 + 9 && starts(b, "/ip4/"), "keyword");
    let v = |i: usize| b[5 + i] as u32 - b'0' as u32;
    assert!(b[6] == b'.' && b[8] == b'.' && b[12] == b'.', "dots");
    assert!(v(0) == d[0] as u32 && v(2) == d[1] as u32 && v(4) * 100 + v(5) * 10 + v(6) == d[2] as u32 && v(8) == d[3] as u32, "digits");
    std::mem::forget(s);
}

/// Two components in a row keep their order.
fn two() {
    let n = [plain(), plain()];
    let p = plain();
    sym::assume(b'0' <= p && p <= b'9');
    let mut t = text("dns4", &n);
    for c in b"/tcp/" {
        t.put(*c);
    }
    t.put(p);
    segments(&[0, 4, 2, 3, 1]);
    let got = t.str().parse::<Multiaddr>();
    match &got {
        Ok(a) => {
            let b: &[u8] = a.as_ref();
            assert!(b.len() == 7, "length");
            assert!(b[0] == 54 && b[1] == 2 && b[2] == n[0] && b[3] == n[1], "first");
            assert!(b[4] == 6 && b[5] == 0 && b[6] == p - b'0', "second");
        }
        Err(_) => panic!("text refused"),
    }
    std::mem::forget(got);
}

fn bad(kind: u8) {
    let c = plain();
    let t = match kind {
        // a value is missing
        0 => text("tcp", &[]),
        1 => text("dns4", &[]),
        // an unknown keyword
        2 => text("tcq", &[c]),
        3 => text("", &[]),
        // no leading slash
        _ => {
            let mut t = Text { buf: [0; 24], len: 0 };
            for c in b"tcp/1" {
                t.put(*c);
            }
            segments(&[3, 1]);
            t
        }
    };
    let got = t.str().parse::<Multiaddr>();
    assert!(got.is_err(), "malformed text accepted");
    std::mem::forget(got);
}

proofs! {
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    9 text_name { cases!(u8, 0 1 2, |k| name(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    9 text_flag { cases!(u8, 0 1, |k| flag(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    9 text_port { cases!(usize, 1 4 5, |k| port(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 text_ip4 { ip4() }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    9 text_two { two() }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    9 text_bad { cases!(u8, 0 1 2 3 4, |k| bad(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 text_show_port { show_port() }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 text_show_name { cases!(u8, 0 1 2, |k| show_name(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 text_show_flag { cases!(u8, 0 1, |k| show_flag(k)) }
    #[stub(core::slice::memchr::memchr, crate::stubs::memchr)]
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 text_show_ip4 { show_ip4() }
}
