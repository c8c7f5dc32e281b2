//! Binary form of addresses: components, lists of components, and arbitrary bytes.
use crate::sym;
use bytes::Bytes;
use std::{
    borrow::Cow,
    convert::TryFrom,
    net::{Ipv4Addr, Ipv6Addr},
};
use tentacle_multiaddr::{Multiaddr, Protocol};

const MAX: usize = 40;

/// The binary form as the multiaddr specification defines it, written independently.
struct Out {
    buf: [u8; MAX],
    len: usize,
}

impl Out {
    fn new() -> Out {
        Out { buf: [0; MAX], len: 0 }
    }
    fn put(&mut self, b: u8) {
        self.buf[self.len] = b;
        self.len += 1;
    }
    fn code(&mut self, code: u16) {
        if code < 0x80 {
            self.put(code as u8);
        } else {
            self.put(code as u8 | 0x80);
            self.put((code >> 7) as u8);
        }
    }
    fn all(&mut self, s: &[u8]) {
        for b in s {
            self.put(*b);
        }
    }
    fn is(&self, s: &[u8]) -> bool {
        s.len() == self.len && same(s, &self.buf[..self.len])
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    let mut eq = a.len() == b.len();
    let mut i = 0;
    while i < a.len() && i < b.len() {
        eq &= a[i] == b[i];
        i += 1;
    }
    eq
}

/// Symbolic data of a component: a port, an address, a name of `N` characters, a hash.
struct Data {
    port: u16,
    ip: [u8; 16],
    name: [u8; 2],
    hash: [u8; 34],
}

fn data() -> Data {
    let mut d = Data { port: sym::u16(), ip: sym::u128().to_le_bytes(), name: [sym::u8(), sym::u8()], hash: [0; 34] };
    sym::assume(d.name[0] < 0x80 && d.name[1] < 0x80);
    d.hash[0] = 0x12;
    d.hash[1] = 0x20;
    d.hash[2] = sym::u8();
    d.hash[33] = sym::u8();
    d
}

fn component(d: &Data, kind: u8) -> Protocol<'_> {
    let name = unsafe { std::str::from_utf8_unchecked(&d.name) };
    match kind {
        0 => Protocol::IP4(Ipv4Addr::new(d.ip[0], d.ip[1], d.ip[2], d.ip[3])),
        1 => Protocol::TCP(d.port),
        2 => Protocol::DNS4(Cow::Borrowed(name)),
        3 => Protocol::Ws,
        4 => Protocol::Wss,
        5 => Protocol::DNS6(Cow::Borrowed(name)),
        6 => Protocol::TLS(Cow::Borrowed(name)),
        7 => Protocol::IP6(Ipv6Addr::from(d.ip)),
        _ => Protocol::P2P(Cow::Borrowed(&d.hash)),
    }
}

fn encode(d: &Data, kind: u8, out: &mut Out) {
    match kind {
        0 => {
            out.code(4);
            out.all(&d.ip[..4]);
        }
        1 => {
            out.code(6);
            out.put((d.port >> 8) as u8);
            out.put(d.port as u8);
        }
        2 | 5 | 6 => {
            out.code(match kind {
                2 => 54,
                5 => 55,
                _ => 448,
            });
            out.put(2);
            out.all(&d.name);
        }
        3 => out.code(477),
        4 => out.code(478),
        7 => {
            out.code(41);
            out.all(&d.ip);
        }
        _ => {
            out.code(421);
            out.put(34);
            out.all(&d.hash);
        }
    }
}

/// Equality that does not depend on the crate's own `PartialEq`.
fn is(p: &Protocol, d: &Data, kind: u8) -> bool {
    match (p, kind) {
        (Protocol::IP4(a), 0) => same(&a.octets(), &d.ip[..4]),
        (Protocol::TCP(p), 1) => *p == d.port,
        (Protocol::DNS4(s), 2) | (Protocol::DNS6(s), 5) | (Protocol::TLS(s), 6) => same(s.as_bytes(), &d.name),
        (Protocol::Ws, 3) | (Protocol::Wss, 4) => true,
        (Protocol::IP6(a), 7) => same(&a.octets(), &d.ip),
        (Protocol::P2P(h), 8) => same(h, &d.hash),
        _ => false,
    }
}

fn written(kind: u8) {
    let d = data();
    let mut want = Out::new();
    encode(&d, kind, &mut want);
    let addr = Multiaddr::from(component(&d, kind));
    assert!(want.is(addr.as_ref()), "binary form of a component");
}

fn one(kind: u8) {
    let d = data();
    let mut want = Out::new();
    encode(&d, kind, &mut want);
    let got = Multiaddr::try_from(Bytes::copy_from_slice(&want.buf[..want.len]));
    match &got {
        Ok(addr) => {
            assert!(want.is(addr.as_ref()), "bytes kept as they are");
            let mut it = addr.iter();
            let back = it.next().expect("component");
            assert!(is(&back, &d, kind), "component read back");
            assert!(it.next().is_none(), "nothing follows");
            std::mem::forget(back);
        }
        Err(_) => panic!("valid binary form refused"),
    }
    std::mem::forget(got);
    // No proper prefix is an address, except the empty one.
    let mut cut = 1;
    while cut < want.len {
        let got = Multiaddr::try_from(Bytes::copy_from_slice(&want.buf[..cut]));
        assert!(got.is_err(), "truncated component accepted");
        std::mem::forget(got);
        cut += if 5 < cut && cut + 2 < want.len { want.len - 2 - cut } else { 1 };
    }
}

fn pair(a: u8, b: u8) {
    let (d, e) = (data(), data());
    let mut want = Out::new();
    encode(&d, a, &mut want);
    let first = want.len;
    encode(&e, b, &mut want);
    let mut addr = match Multiaddr::try_from(Bytes::copy_from_slice(&want.buf[..want.len])) {
        Ok(addr) => addr,
        Err(_) => panic!("valid binary form refused"),
    };
    {
        let mut it = addr.iter();
        let (p, q) = (it.next().expect("first"), it.next().expect("second"));
        assert!(is(&p, &d, a), "first component");
        assert!(is(&q, &e, b), "second component");
        assert!(it.next().is_none(), "two components");
        std::mem::forget((p, q));
    }
    let last = addr.pop().expect("last component");
    assert!(is(&last, &e, b), "pop yields the last component");
    assert!(addr.len() == first && same(addr.as_ref(), &want.buf[..first]), "pop leaves the rest");
    std::mem::forget(last);
    let last = addr.pop().expect("first component");
    assert!(is(&last, &d, a), "pop yields the first component");
    assert!(addr.is_empty() && addr.pop().is_none(), "nothing left");
    std::mem::forget(last);
}

fn replace(a: u8, b: u8) {
    let (d, e) = (data(), data());
    let addr: Multiaddr = [component(&d, a), component(&e, b)].into_iter().collect();
    let mut want = Out::new();
    encode(&d, a, &mut want);
    encode(&e, b, &mut want);
    assert!(want.is(addr.as_ref()), "the components in a row");
    let mut want = Out::new();
    encode(&d, a, &mut want);
    encode(&e, 1, &mut want);
    match addr.replace(1, |_| Some(Protocol::TCP(e.port))) {
        Some(r) => assert!(want.is(r.as_ref()), "second component replaced"),
        None => panic!("nothing replaced"),
    }
    let mut want = Out::new();
    encode(&d, 1, &mut want);
    encode(&e, b, &mut want);
    match addr.replace(0, |_| Some(Protocol::TCP(d.port))) {
        Some(r) => assert!(want.is(r.as_ref()), "first component replaced"),
        None => panic!("nothing replaced"),
    }
    assert!(addr.replace(2, |_| Some(Protocol::Ws)).is_none(), "replace out of bounds");
    assert!(addr.replace(1, |_| None).is_none(), "replace without replacement");
}

fn push(a: u8, b: u8) {
    let (d, e) = (data(), data());
    let mut want = Out::new();
    encode(&d, a, &mut want);
    encode(&e, b, &mut want);
    let mut addr = Multiaddr::from(component(&d, a));
    addr.push(component(&e, b));
    assert!(want.is(addr.as_ref()), "push appends");
}

/// What the specification says about the first component of arbitrary bytes: how many bytes it
/// takes, or `Err` for malformed, or `None` where an over-long integer or a name that is not ASCII
/// leaves it open.
fn judge(b: &[u8]) -> Option<Result<usize, ()>> {
    let mut i = 1;
    if b.len() < i {
        return Some(Err(()));
    }
    let mut code = b[0] as u16;
    if code >= 0x80 {
        if b.len() < 2 {
            return Some(Err(()));
        }
        if b[1] >= 0x80 || b[1] == 0 {
            return None;
        }
        code = code & 0x7f | (b[1] as u16) << 7;
        i = 2;
    }
    let len = match code {
        4 => 4,
        6 => 2,
        41 => 16,
        477 | 478 => 0,
        54 | 55 | 448 | 421 => {
            if i == b.len() {
                return Some(Err(()));
            }
            if b[i] >= 0x80 {
                return None;
            }
            i += 1;
            b[i - 1] as usize
        }
        _ => return Some(Err(())),
    };
    if b.len() - i < len {
        return Some(Err(()));
    }
    if code == 421 {
        // No hash fits in the bytes the harness looks at.
        return Some(Err(()));
    }
    if code == 54 || code == 55 || code == 448 {
        let mut k = 0;
        while k < b.len() {
            if i <= k && k < i + len && b[k] >= 0x80 {
                return None;
            }
            k += 1;
        }
    }
    Some(Ok(i + len))
}

fn any_bytes(n: usize) {
    let mut b = [0u8; 6];
    let mut i = 0;
    while i < n {
        b[i] = sym::u8();
        i += 1;
    }
    let got = Protocol::from_bytes(&b[..n]);
    match judge(&b[..n]) {
        Some(Ok(used)) => match &got {
            Ok((_, rest)) => assert!(rest.len() == n - used, "bytes taken by a component"),
            Err(_) => panic!("valid component refused"),
        },
        Some(Err(())) => assert!(got.is_err(), "malformed component accepted"),
        None => (),
    }
    std::mem::forget(got);
}

fn peer(n: usize) {
    let mut b = [0u8; 40];
    b[0] = 0xa5;
    b[1] = 0x03;
    b[2] = n as u8;
    let (h0, h1) = (sym::u8(), sym::u8());
    b[3] = h0;
    b[4] = h1;
    b[5] = sym::u8();
    b[2 + n] = sym::u8();
    sym::assume(h0 < 0x80);
    let got = Protocol::from_bytes(&b[..3 + n]);
    assert!(got.is_ok() == (n == 34 && h0 == 0x12 && h1 == 0x20), "only sha-256 hashes are peers");
    std::mem::forget(got);
}

proofs! {
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    18 addr_write { cases!(u8, 0 1 2 3 4 5 6 7, |k| written(k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    41 addr_write_p2p { written(8) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    20 addr_ip4_tcp { cases!(u8, 0 1, |k| one(k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    12 addr_names { cases!(u8, 2 5 6, |k| one(k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    20 addr_ws_ip6 { cases!(u8, 3 4 7, |k| one(k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    41 addr_p2p { one(8) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_pair_a { cases!(u8, 0 1 2 3, |k| pair(0, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_pair_b { cases!(u8, 0 1 2 3, |k| pair(1, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_pair_c { cases!(u8, 0 1 2 3, |k| pair(2, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_pair_d { cases!(u8, 0 1 2 3, |k| pair(3, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_replace_a { cases!(u8, 0 1 3, |k| replace(0, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_replace_b { cases!(u8, 0 1 3, |k| replace(3, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    14 addr_push { cases!(u8, 0 1 3, |k| push(1, k)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    10 addr_bytes_2 { cases!(usize, 0 1 2, |n| any_bytes(n)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    10 addr_bytes_4 { any_bytes(4) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    10 addr_bytes_6 { any_bytes(6) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    10 addr_peer { cases!(usize, 33 34 35, |n| peer(n)) }
}
