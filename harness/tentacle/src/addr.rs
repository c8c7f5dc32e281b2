//! Which addresses count as reachable, and socket addresses and peer ids in multiaddrs.
use crate::sym;
use bytes::Bytes;
use std::{
    convert::TryFrom,
    net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr},
};
use tentacle::{
    multiaddr::Multiaddr,
    utils::{extract_peer_id, is_reachable, multiaddr_to_socketaddr, socketaddr_to_multiaddr},
};

/// `ip` starts with the `len` bits of `net`.
fn in4(ip: u32, net: u32, len: u32) -> bool {
    (ip ^ net) >> (32 - len) == 0
}

fn in6(ip: u128, net: u128, len: u32) -> bool {
    (ip ^ net) >> (128 - len) == 0
}

fn v4() {
    let ip = sym::u32();
    let special = in4(ip, 0x0a000000, 8)
        || in4(ip, 0xac100000, 12)
        || in4(ip, 0xc0a80000, 16)
        || in4(ip, 0x7f000000, 8)
        || in4(ip, 0xa9fe0000, 16)
        || ip == 0xffffffff
        || in4(ip, 0xc0000200, 24)
        || in4(ip, 0xc6336400, 24)
        || in4(ip, 0xcb007100, 24)
        || ip == 0;
    assert!(is_reachable(IpAddr::V4(Ipv4Addr::from(ip))) == !special, "reachable IPv4 address");
}

fn v6() {
    let ip = sym::u128();
    let want = if in6(ip, 0xff << 120, 8) {
        ip >> 112 & 0xf == 0xe
    } else {
        !(ip == 0
            || ip == 1
            || in6(ip, 0xfe80 << 112, 10)
            || in6(ip, 0xfec0 << 112, 10)
            || in6(ip, 0xfc00 << 112, 7)
            || in6(ip, 0x20010db8 << 96, 32))
    };
    assert!(is_reachable(IpAddr::V6(Ipv6Addr::from(ip))) == want, "reachable IPv6 address");
}

fn ip(v6: bool) -> IpAddr {
    if v6 {
        Ipv6Addr::from(sym::u128()).into()
    } else {
        Ipv4Addr::from(sym::u32()).into()
    }
}

fn there_and_back(v6: bool) {
    let a = SocketAddr::new(ip(v6), sym::u16());
    let m = socketaddr_to_multiaddr(a);
    let b = multiaddr_to_socketaddr(&m);
    assert!(b == Some(a), "socket address read back");
    assert!(extract_peer_id(&m).is_none(), "no peer id");
}

/// The binary form of an address of the given components: whether it names a socket address.
fn shape(kinds: &[u8], v6: bool, socket: bool) {
    let a = SocketAddr::new(ip(v6), sym::u16());
    let (h0, h31) = (sym::u8(), sym::u8());
    let mut raw = [0u8; 64];
    let mut n = 0;
    let mut peer = None;
    for kind in kinds {
        match kind {
            b'i' => match a.ip() {
                IpAddr::V4(ip) => {
                    raw[n] = 4;
                    raw[n + 1..n + 5].copy_from_slice(&ip.octets());
                    n += 5;
                }
                IpAddr::V6(ip) => {
                    raw[n] = 41;
                    raw[n + 1..n + 17].copy_from_slice(&ip.octets());
                    n += 17;
                }
            },
            b't' => {
                raw[n] = 6;
                raw[n + 1] = (a.port() >> 8) as u8;
                raw[n + 2] = a.port() as u8;
                n += 3;
            }
            b'd' => {
                raw[n..n + 4].copy_from_slice(b"\x36\x02ab");
                n += 4;
            }
            b'w' => {
                raw[n..n + 2].copy_from_slice(b"\xdd\x03");
                n += 2;
            }
            _ => {
                raw[n..n + 5].copy_from_slice(b"\xa5\x03\x22\x12\x20");
                raw[n + 5] = h0;
                raw[n + 36] = h31;
                peer = Some(n + 3);
                n += 37;
            }
        }
    }
    let m = match Multiaddr::try_from(Bytes::copy_from_slice(&raw[..n])) {
        Ok(m) => m,
        Err(_) => panic!("address refused"),
    };
    let got = multiaddr_to_socketaddr(&m);
    assert!(got == if socket { Some(a) } else { None }, "socket address of a multiaddr");
    let id = extract_peer_id(&m);
    match (&id, peer) {
        (None, None) => (),
        (Some(id), Some(at)) => {
            let mut i = 0;
            let id = id.as_bytes();
            assert!(id.len() == 34, "peer id of the address");
            while i < 34 {
                assert!(id[i] == raw[at + i], "peer id of the address");
                i += 1;
            }
        }
        _ => panic!("peer id of the address"),
    }
    std::mem::forget((m, id));
}

proofs! {
    8 addr_v4 { v4() }
    8 addr_v6 { v6() }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    18 addr_back { cases!(u8, 0 1, |k: u8| there_and_back(k == 1)) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    18 addr_shape { cases!(u8, 0 1 2 3 4, |k| match k {
        0u8 => shape(b"itw", false, true),
        1 => shape(b"dit", false, true),
        2 => shape(b"iwt", false, false),
        3 => shape(b"dt", false, false),
        _ => shape(b"wi", true, false),
    }) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    41 addr_peer_last { shape(b"itp", false, true) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    41 addr_peer_first { shape(b"pit", false, true) }
    #[stub(core::str::from_utf8, crate::stubs::utf8)]
    41 addr_peer_between { shape(b"ipt", false, false) }
}
