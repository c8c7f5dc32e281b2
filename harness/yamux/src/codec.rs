//! Frame codec: every byte string against an independent reading of the wire format, every frame
//! through encode and decode, every way of cutting the input into two chunks.
use crate::{sym, wire::flags};
use bytes::{Bytes, BytesMut};
use tokio_util::codec::{Decoder, Encoder};
use tokio_yamux::frame::{Flag, Flags, Frame, FrameCodec, GoAwayCode, Type};

const HEADER: usize = 12;
/// Bytes offered after the header.
const TAIL: usize = 5;
const ALL: usize = HEADER + TAIL;

struct Expect {
    ty: u8,
    flags: u16,
    id: u32,
    length: u32,
}

enum Reading {
    Incomplete,
    Invalid,
    Frame(Expect, usize),
}

/// The wire format, read off its description: version, type, flags, stream id, length, all big
/// endian, then `length` bytes if the frame carries data.
fn read(b: &[u8; ALL], n: usize, max: u32) -> Reading {
    if n < HEADER {
        return Reading::Incomplete;
    }
    let e = Expect {
        ty: b[1],
        flags: (b[2] as u16) * 256 + b[3] as u16,
        id: u32::from_be_bytes([b[4], b[5], b[6], b[7]]),
        length: u32::from_be_bytes([b[8], b[9], b[10], b[11]]),
    };
    if b[0] != 0 || e.ty > 3 || (e.ty == 0 && e.length > max) {
        return Reading::Invalid;
    }
    let body = if e.ty == 0 { e.length as usize } else { 0 };
    if body > n - HEADER {
        return Reading::Incomplete;
    }
    Reading::Frame(e, body)
}

fn bytes() -> ([u8; ALL], usize) {
    let w = sym::u128().to_le_bytes();
    let last = sym::u8();
    let mut b = [0u8; ALL];
    b[..16].copy_from_slice(&w);
    b[16] = last;
    let n = sym::below(ALL as u8 + 1) as usize;
    (b, n)
}

fn ty_of(f: &Frame) -> u8 {
    match f.ty() {
        Type::Data => 0,
        Type::WindowUpdate => 1,
        Type::Ping => 2,
        Type::GoAway => 3,
    }
}

/// Compares a decoded frame with the expected reading of `b`.
fn same(f: Frame, e: &Expect, body: usize, b: &[u8; ALL]) {
    assert!(ty_of(&f) == e.ty && f.flags().value() == e.flags);
    assert!(f.stream_id() == e.id && f.length() == e.length);
    assert!(f.size() == HEADER + body);
    let (_, data) = f.into_parts();
    match data {
        Some(data) => {
            assert!(e.ty == 0 && data.len() == body);
            let mut i = 0;
            while i < TAIL {
                if i < body {
                    assert!(data[i] == b[HEADER + i]);
                }
                i += 1;
            }
        }
        None => assert!(e.ty != 0),
    }
}

fn frame() -> Frame {
    let k = sym::below(4);
    let fl = flags(sym::below(16));
    let v = sym::u32();
    let id = sym::u32();
    let body = sym::u32().to_le_bytes();
    let n = sym::below(4) as usize;
    match k {
        0 => Frame::new_data(fl, id, Bytes::copy_from_slice(&body[..n])),
        1 => Frame::new_window_update(fl, id, v),
        2 => Frame::new_ping(fl, v),
        _ => Frame::new_go_away(GoAwayCode::from(v)),
    }
}


proofs! {
    // One buffer of any content and length, any frame size limit.
    8 codec_bytes {
        let (b, n) = bytes();
        let max = sym::u32();
        let mut c = FrameCodec::default().max_frame_size(max);
        let mut src = BytesMut::from(&b[..n]);
        match (read(&b, n, max), c.decode(&mut src)) {
            (Reading::Incomplete, Ok(None)) => (),
            (Reading::Invalid, Err(e)) => assert!(e.kind() == std::io::ErrorKind::InvalidData),
            (Reading::Frame(e, body), Ok(Some(f))) => {
                same(f, &e, body, &b);
                let left = n - HEADER - body;
                assert!(src.len() == left);
                let mut i = 0;
                while i < TAIL {
                    if i < left {
                        assert!(src[i] == b[HEADER + body + i]);
                    }
                    i += 1;
                }
            }
            _ => panic!("decoder disagrees with the wire format"),
        }
    }

    // The same bytes in two chunks, cut anywhere.
    8 codec_chunks {
        let (b, n) = bytes();
        let cut = sym::below(ALL as u8 + 1) as usize;
        sym::assume(cut <= n);
        let max = sym::u32();
        let mut c = FrameCodec::default().max_frame_size(max);
        let mut src = BytesMut::from(&b[..cut]);
        let first = c.decode(&mut src);
        match (read(&b, cut, max), first) {
            (Reading::Incomplete, Ok(None)) => {
                src.extend_from_slice(&b[cut..n]);
                match (read(&b, n, max), c.decode(&mut src)) {
                    (Reading::Incomplete, Ok(None)) => (),
                    (Reading::Invalid, Err(_)) => (),
                    (Reading::Frame(e, body), Ok(Some(f))) => {
                        same(f, &e, body, &b);
                        assert!(src.len() == n - HEADER - body);
                    }
                    _ => panic!("decoder depends on chunking"),
                }
            }
            (Reading::Invalid, Err(_)) => (),
            (Reading::Frame(..), Ok(Some(_))) => (),
            _ => panic!("decoder disagrees with the wire format"),
        }
    }

    // A decoded frame encodes to the bytes it came from.
    8 codec_reencode {
        let (b, n) = bytes();
        let mut c = FrameCodec::default().max_frame_size(TAIL as u32);
        let mut src = BytesMut::from(&b[..n]);
        if let Ok(Some(f)) = c.decode(&mut src) {
            let used = f.size();
            let mut out = BytesMut::new();
            assert!(c.encode(f, &mut out).is_ok());
            assert!(out.len() == used && used + src.len() == n);
            let mut i = 0;
            while i < TAIL {
                assert!(out.len() <= HEADER + i || out[HEADER + i] == b[HEADER + i]);
                i += 1;
            }
            assert!(out[0] == b[0] && out[1] == b[1] && out[2] == b[2] && out[3] == b[3]);
            assert!(out[4] == b[4] && out[5] == b[5] && out[6] == b[6] && out[7] == b[7]);
            assert!(out[8] == b[8] && out[9] == b[9] && out[10] == b[10] && out[11] == b[11]);
        }
    }

    // Two frames in a row come back as they were sent.
    8 codec_roundtrip {
        let mut c = FrameCodec::default();
        let mut wire = BytesMut::new();
        let (a, b) = (frame(), frame());
        let (size_a, size_b) = (a.size(), b.size());
        let (ka, fa, ia, la) = (ty_of(&a), a.flags(), a.stream_id(), a.length());
        let (kb, fb, ib, lb) = (ty_of(&b), b.flags(), b.stream_id(), b.length());
        assert!(c.encode(a, &mut wire).is_ok());
        assert!(wire.len() == size_a);
        assert!(c.encode(b, &mut wire).is_ok());
        assert!(wire.len() == size_a + size_b);
        let a = c.decode(&mut wire).unwrap().unwrap();
        assert!(wire.len() == size_b);
        assert!(ty_of(&a) == ka && a.flags() == fa && a.stream_id() == ia && a.length() == la && a.size() == size_a);
        let b = c.decode(&mut wire).unwrap().unwrap();
        assert!(wire.is_empty());
        assert!(ty_of(&b) == kb && b.flags() == fb && b.stream_id() == ib && b.length() == lb && b.size() == size_b);
        assert!(c.decode(&mut wire).unwrap().is_none());
    }

    // Flags behave as a set.
    4 codec_flags {
        let start = sym::below(16);
        let mut f = flags(start);
        assert!(f.value() == start as u16);
        let k = sym::below(4);
        let flag = match k { 0 => Flag::Syn, 1 => Flag::Ack, 2 => Flag::Fin, _ => Flag::Rst };
        let bit = 1u16 << k;
        assert!(f.contains(flag) == (start as u16 & bit != 0));
        if sym::bool() {
            f.add(flag);
            assert!(f.contains(flag) && f.value() == start as u16 | bit);
        } else {
            f.remove(flag);
            assert!(!f.contains(flag) && f.value() == start as u16 & !bit);
        }
        assert!(Flags::from(flag).value() == bit);
    }
}
