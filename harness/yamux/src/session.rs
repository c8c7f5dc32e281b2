//! A whole session over a transport: what reaches the remote, what reaches the application.
use crate::{
    sym,
    wake::{waker, woken},
    wire::{advance, flags, storage, Wire, BULK},
};
use bytes::Bytes;
use futures::Stream;
use std::{
    pin::Pin,
    task::{Context, Poll},
    time::Duration,
};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{
    frame::{Flag, Frame, GoAwayCode, Type},
    stream::StreamHandle,
    Config, Session,
};

const SYN: u8 = 1;
const ACK: u8 = 2;

fn config() -> Config {
    let mut c = Config::default();
    c.enable_keepalive = false;
    c.max_stream_window_size = 4;
    storage();
    c
}

enum Next {
    Stream(StreamHandle),
    Pending,
    Ended,
    Failed,
}
fn next<T: AsyncRead + AsyncWrite + Unpin>(s: &mut Session<T>) -> Next {
    let wk = waker(0);
    let mut cx = Context::from_waker(&wk);
    match Pin::new(s).poll_next(&mut cx) {
        Poll::Ready(Some(Ok(st))) => Next::Stream(st),
        Poll::Ready(Some(Err(_))) => Next::Failed,
        Poll::Ready(None) => Next::Ended,
        Poll::Pending => Next::Pending,
    }
}
/// Polls a session from which nothing is expected.
fn idle<T: AsyncRead + AsyncWrite + Unpin>(s: &mut Session<T>) {
    assert!(matches!(next(s), Next::Pending));
}
fn is(f: Option<Frame>, ty: Type, fl: u8, id: u32, len: u32) -> bool {
    match f {
        Some(f) => f.ty() == ty && f.flags() == flags(fl) && f.stream_id() == id && f.length() == len,
        None => false,
    }
}
fn is_reset(f: Option<Frame>, id: u32) -> bool {
    match f {
        Some(f) => f.flags().contains(Flag::Rst) && f.stream_id() == id,
        None => false,
    }
}
fn is_go_away(f: Option<Frame>, code: u32) -> bool {
    match f {
        Some(f) => f.ty() == Type::GoAway && f.length() == code,
        None => false,
    }
}
fn read(st: &mut StreamHandle) -> Poll<std::io::Result<u8>> {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    let mut buf = [0u8; 1];
    match Pin::new(st).poll_read(&mut cx, &mut buf) {
        Poll::Ready(Ok(n)) => {
            assert!(n == 1);
            Poll::Ready(Ok(buf[0]))
        }
        Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
        Poll::Pending => Poll::Pending,
    }
}
fn announce(data: bool, id: u32) -> Frame {
    if data {
        Frame::new_data(flags(SYN), id, Bytes::copy_from_slice(&[1]))
    } else {
        Frame::new_window_update(flags(SYN), id, 0)
    }
}

/// Two requests for streams: limits, duplicates, the first given up in between or not.
fn admit(max: usize, backlog: usize, give_up: bool, dup: bool) {
    let mut wire = Wire::new();
    let mut cfg = config();
    cfg.max_stream_count = max;
    cfg.accept_backlog = backlog;
    let mut s = Session::new_server(wire.io(), cfg);
    let (a, b) = if dup { (5, 5) } else { (5, 9) };
    wire.push(announce(max == 1, a));
    let mut open = None;
    match next(&mut s) {
        Next::Stream(st) => {
            assert!(max > 0 && backlog > 0, "beyond the limit");
            assert!(st.id() == a);
            idle(&mut s);
            assert!(is(wire.pop(), Type::WindowUpdate, ACK, a, 0));
            open = Some(st);
        }
        Next::Pending => {
            assert!(max == 0 || backlog == 0, "a stream within the limits is accepted");
            assert!(is_reset(wire.pop(), a));
        }
        _ => panic!(),
    }
    assert!(wire.pop().is_none());
    if give_up {
        open = None;
        idle(&mut s);
        if max > 0 && backlog > 0 {
            assert!(is_reset(wire.pop(), a));
        }
        assert!(wire.pop().is_none());
    }
    let n = open.is_some() as usize;
    wire.push(announce(max == 2, b));
    match next(&mut s) {
        Next::Stream(st) => {
            assert!(n < max && backlog > 0, "beyond the limit");
            assert!(st.id() == b && !(n == 1 && a == b));
            idle(&mut s);
            assert!(is(wire.pop(), Type::WindowUpdate, ACK, b, 0));
            std::mem::forget(st);
        }
        Next::Pending => {
            if n == max || backlog == 0 {
                assert!(is_reset(wire.pop(), b));
            } else {
                assert!(n == 1 && a == b, "a stream within the limits is accepted");
                assert!(is_go_away(wire.pop(), 1));
            }
        }
        _ => panic!(),
    }
    assert!(wire.pop().is_none());
    std::mem::forget((s, open));
}

/// Streams opened here have fresh ids of the right parity, announced to the remote.
fn open(server: bool, give_up: bool) {
    let mut wire = Wire::new();
    let mut s = if server { Session::new_server(wire.io(), config()) } else { Session::new_client(wire.io(), config()) };
    let a = s.open_stream().ok().unwrap();
    let ia = a.id();
    let mut a = Some(a);
    if give_up {
        a = None;
    }
    let b = s.open_stream().ok().unwrap();
    let ib = b.id();
    assert!(ia % 2 == !server as u32 && ib % 2 == !server as u32);
    assert!(ia > 0 && ib > ia);
    idle(&mut s);
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, ia, 0));
    if give_up {
        assert!(is_reset(wire.pop(), ia));
    }
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, ib, 0));
    assert!(wire.pop().is_none());
    std::mem::forget((s, a, b));
}

/// The remote goes away: one farewell, then the session is over.
fn remote_away(how: u8) {
    let mut wire = Wire::new();
    let mut s = Session::new_client(wire.io(), config());
    let mut st = s.open_stream().ok().unwrap();
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 1, 0));
    assert!(read(&mut st).is_pending());
    match how {
        0 => wire.push(Frame::new_go_away(GoAwayCode::Normal)),
        1 => wire.push(Frame::new_go_away(GoAwayCode::ProtocolError)),
        2 => wire.push(Frame::new_go_away(GoAwayCode::InternalError)),
        3 => wire.set_eof(),
        _ => wire.set_fail(),
    }
    if how < 4 {
        assert!(matches!(next(&mut s), Next::Ended));
        if how < 3 {
            assert!(is_go_away(wire.pop(), 0));
        }
        assert!(wire.pop().is_none());
        assert!(s.open_stream().is_err());
        assert!(matches!(next(&mut s), Next::Ended));
    } else {
        assert!(matches!(next(&mut s), Next::Failed));
    }
    assert!(wire.pop().is_none());
    // The application learns about it from its streams.
    let before = woken(1);
    drop(s);
    assert!(woken(1) > before);
    assert!(matches!(read(&mut st), Poll::Ready(Err(_))));
    std::mem::forget(st);
}

/// The local side goes away: new streams are refused, what exists keeps working, and the session
/// ends when the remote answers or the time is up.
fn local_away(how: u8, data: bool, keepalive: bool) {
    let wk = waker(0);
    let mut cx = Context::from_waker(&wk);
    let mut wire = Wire::new();
    let mut cfg = config();
    cfg.connection_write_timeout = Duration::from_millis(5000);
    cfg.enable_keepalive = keepalive;
    cfg.keepalive_interval = Duration::from_millis(3000);
    let mut s = Session::new_client(wire.io(), cfg);
    let mut st = s.open_stream().ok().unwrap();
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 1, 0));
    assert!(s.shutdown(&mut cx).is_ok());
    assert!(is_go_away(wire.pop(), 0));
    let id = if data { 2 } else { 6 };
    let x = sym::u8();
    wire.push(announce(data, id));
    wire.push(Frame::new_data(flags(0), 1, Bytes::copy_from_slice(&[x])));
    idle(&mut s);
    assert!(is_reset(wire.pop(), id));
    assert!(wire.pop().is_none());
    assert!(matches!(read(&mut st), Poll::Ready(Ok(y)) if y == x));
    match how {
        0 => wire.push(Frame::new_go_away(GoAwayCode::Normal)),
        1 => {
            advance(4980);
            idle(&mut s);
            assert!(wire.pop().is_none());
            advance(40);
        }
        _ => wire.set_eof(),
    }
    assert!(matches!(next(&mut s), Next::Ended));
    assert!(wire.pop().is_none(), "no second farewell");
    assert!(s.open_stream().is_err());
    std::mem::forget((s, st));
}

/// Frames reach the stream they are for, in order; frames for nobody reach nobody.
fn route(x: u32, y: u32) {
    let mut wire = Wire::new();
    let mut s = Session::new_client(wire.io(), config());
    let mut a = s.open_stream().ok().unwrap();
    let mut b = s.open_stream().ok().unwrap();
    idle(&mut s);
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 1, 0));
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 3, 0));
    let (p, q) = (sym::u8(), sym::u8());
    wire.push(Frame::new_data(flags(0), x, Bytes::copy_from_slice(&[p])));
    wire.push(Frame::new_data(flags(0), y, Bytes::copy_from_slice(&[q])));
    idle(&mut s);
    assert!(wire.pop().is_none());
    expect(&mut a, x == 1, p, y == 1, q);
    expect(&mut b, x == 3, p, y == 3, q);
    std::mem::forget((s, a, b));
}

fn expect(st: &mut StreamHandle, first: bool, p: u8, second: bool, q: u8) {
    if first {
        assert!(matches!(read(st), Poll::Ready(Ok(c)) if c == p));
    }
    if second {
        assert!(matches!(read(st), Poll::Ready(Ok(c)) if c == q));
    }
    assert!(read(st).is_pending());
}

/// A stream whose reader is slow: its frames wait, in order, and those of another do not.
fn slow(third: u8) {
    let mut wire = Wire::new();
    let mut cfg = config();
    cfg.max_stream_window_size = 40;
    let mut s = Session::new_client(wire.io(), cfg);
    let mut a = s.open_stream().ok().unwrap();
    let mut b = s.open_stream().ok().unwrap();
    idle(&mut s);
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 1, 0));
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 3, 0));
    let (p, q) = (sym::u8(), sym::u8());
    let mut i = 0;
    while i < 3 {
        let mut j = 0;
        while j < 3 {
            wire.push(Frame::new_data(flags(0), 1, Bytes::copy_from_slice(&[3 * i + j])));
            j += 1;
        }
        idle(&mut s);
        i += 1;
    }
    // The queue of the first stream is full.
    wire.push(Frame::new_data(flags(0), 1, Bytes::copy_from_slice(&[p])));
    wire.push(Frame::new_data(flags(0), 3, Bytes::copy_from_slice(&[q])));
    idle(&mut s);
    assert!(matches!(read(&mut b), Poll::Ready(Ok(c)) if c == q), "one stream holds up another");
    // Meanwhile more arrives, a byte is read, or both.
    let more = third & 1 == 1;
    if more {
        wire.push(Frame::new_data(flags(0), 1, Bytes::copy_from_slice(&[q])));
        idle(&mut s);
        if third & 4 == 4 {
            idle(&mut s);
        }
    }
    let before = woken(0);
    assert!(matches!(read(&mut a), Poll::Ready(Ok(0))));
    assert!(woken(0) > before, "room is announced to the session");
    if third & 2 == 2 {
        idle(&mut s);
    }
    let mut i = 1;
    while i < 9 {
        assert!(matches!(read(&mut a), Poll::Ready(Ok(c)) if c == i));
        i += 1;
        if i == 5 {
            idle(&mut s);
        }
    }
    assert!(matches!(read(&mut a), Poll::Ready(Ok(c)) if c == p));
    if more {
        assert!(matches!(read(&mut a), Poll::Ready(Ok(c)) if c == q));
    }
    assert!(read(&mut a).is_pending());
    assert!(read(&mut b).is_pending());
    std::mem::forget((s, a, b));
}

/// The transport takes data only now and then: what is sent leaves in order, once.
fn blocked(when: u8, sends: u8, polls: u8) {
    let mut wire = Wire::new();
    let mut cfg = config();
    cfg.max_stream_window_size = 5 * BULK as u32;
    let mut s = Session::new_client(wire.io(), cfg);
    let mut a = s.open_stream().ok().unwrap();
    idle(&mut s);
    assert!(is(wire.pop(), Type::WindowUpdate, SYN, 1, 0));
    let x = sym::u8();
    let mut got = 0;
    let mut i = 0;
    while i < sends {
        wire.block(when >> i & 1 == 1);
        write(&mut a, x.wrapping_add(i));
        let mut j = 0;
        while j < polls {
            idle(&mut s);
            j += 1;
        }
        while got <= i && take(&mut wire, x.wrapping_add(got)) {
            got += 1;
        }
        assert!(when >> i & 1 == 1 || got == i + 1, "what can leave leaves");
        i += 1;
    }
    wire.block(false);
    idle(&mut s);
    while got < sends && take(&mut wire, x.wrapping_add(got)) {
        got += 1;
    }
    assert!(got == sends, "lost");
    assert!(wire.pop().is_none());
    std::mem::forget((s, a));
}
fn write(st: &mut StreamHandle, x: u8) {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    assert!(matches!(Pin::new(st).poll_write(&mut cx, &[x; BULK]), Poll::Ready(Ok(BULK))));
}
fn take(wire: &mut Wire, x: u8) -> bool {
    match wire.pop() {
        Some(f) => {
            assert!(f.ty() == Type::Data && f.stream_id() == 1 && f.length() as usize == BULK);
            let (_, body) = f.into_parts();
            assert!(body.unwrap()[0] == x, "order");
            true
        }
        None => false,
    }
}

proofs! {
    4 session_admit { cases!(usize, 0 1 2 3 4 5, |c| admit(c % 3, 1, c > 2, false)) }
    4 session_admit_dup { cases!(usize, 0 1 2 3 4 5, |c| admit(c % 3, 1, c > 2, true)) }
    4 session_backlog { cases!(u8, 0 1, |c| admit(1, 0, false, c == 1)) }
    5 session_open { cases!(u8, 0 1 2 3, |c| open(c & 1 == 1, c & 2 == 2)) }
    5 session_remote_away { cases!(u8, 0 1 2 3 4, remote_away) }
    4 session_local_away { cases!(u8, 0 1 2, |c| local_away(c, false, false)) }
    4 session_local_away2 { cases!(u8, 0 1 2, |c| local_away(c, true, false)) }
    4 session_away_keep { cases!(u8, 0 1, |c| local_away(c, false, true)) }
    4 session_route_a { cases!(u32, 0 1 2, |c| route(1, 1 + 2 * c)) }
    4 session_route_b { cases!(u32, 0 1 2, |c| route(3, 1 + 2 * c)) }
    4 session_route_x { cases!(u32, 0 1 2, |c| route(5, 1 + 2 * c)) }

    10 session_slow_a { cases!(u8, 0 1, |c| slow(c)) }
    10 session_slow_b { cases!(u8, 2 3, |c| slow(c)) }
    10 session_slow_c { cases!(u8, 5 7, |c| slow(c)) }
    5 session_blocked { cases!(u8, 0 1 2 3 4 5 6 7, |c| blocked(c, 3, 1)) }
    6 session_blocked4 { cases!(u8, 15 7 14 6, |c| blocked(c, 4, 1)) }
    5 session_blocked2 { cases!(u8, 7 3 6, |c| blocked(c, 3, 2)) }

    // A ping request is answered with the same id; an answer is not answered.
    4 session_ping {
        let mut wire = Wire::new();
        let mut s = Session::new_server(wire.io(), config());
        let fl = sym::below(4);
        let (id, id2) = (sym::u32(), sym::u32());
        wire.push(Frame::new_ping(flags(fl), id));
        wire.push(Frame::new_ping(flags(SYN), id2));
        idle(&mut s);
        if fl & SYN != 0 {
            assert!(is(wire.pop(), Type::Ping, ACK, 0, id));
        }
        assert!(is(wire.pop(), Type::Ping, ACK, 0, id2));
        assert!(wire.pop().is_none());
        std::mem::forget(s);
    }
}
