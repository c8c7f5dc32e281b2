//! One stream, seen from its two sides: the application and the session.
use crate::{
    sym,
    wake::{waker, woken},
    wire::{flags, storage},
};
use bytes::Bytes;
use std::{
    io::ErrorKind,
    pin::Pin,
    task::{Context, Poll},
};
use tokio::io::{AsyncRead, AsyncWrite};
use tokio_yamux::{
    frame::{Flag, Frame, Type},
    stream::StreamHandle,
    verif_probe::{stream, ProbeEvent, StreamProbe},
};

const ID: u32 = 5;
/// Window both sides start with.
const W: u32 = 4;
const SYN: u8 = 1;
const ACK: u8 = 2;
const FIN: u8 = 4;
const RST: u8 = 8;

fn open(by_remote: bool) -> (StreamHandle, StreamProbe) {
    storage();
    let (st, mut pr) = stream(ID, by_remote, W);
    // The opening announcement: a window update with SYN or ACK.
    match pr.event() {
        Some(ProbeEvent::Frame(f)) => {
            assert!(f.ty() == Type::WindowUpdate && f.stream_id() == ID && f.length() == 0);
            assert!(f.flags() == flags(if by_remote { ACK } else { SYN }));
        }
        _ => panic!("a stream announces itself"),
    }
    (st, pr)
}

/// `n` bytes of the sequence 0, 1, 2, ... from position `from`.
fn piece(from: u8, n: usize) -> Bytes {
    let d = [from, from + 1, from + 2, from + 3, from + 4];
    Bytes::copy_from_slice(&d[..n])
}

/// A data frame, and what became of it.
struct Recv {
    st: StreamHandle,
    pr: StreamProbe,
    /// What the remote may still send.
    credit: u32,
    sent: u8,
    got: u8,
    fin: bool,
    dead: bool,
}

enum Got {
    Data(u8),
    Pending,
    Failed(ErrorKind),
}

impl Recv {
    fn new(by_remote: bool) -> Recv {
        let (st, pr) = open(by_remote);
        Recv { st, pr, credit: W, sent: 0, got: 0, fin: false, dead: false }
    }
    /// The remote sends `n` bytes of data.
    fn push(&mut self, n: u8, fl: u8) {
        assert!(self.pr.push(Frame::new_data(flags(fl), ID, piece(self.sent, n as usize))));
        self.sent += n;
        self.fin |= fl & FIN != 0;
    }
    /// The application reads up to `n` bytes; bytes must continue the sequence.
    fn read(&mut self, n: usize) -> Got {
        let wk = waker(0);
        let mut cx = Context::from_waker(&wk);
        let mut buf = [0xffu8; 5];
        match Pin::new(&mut self.st).poll_read(&mut cx, &mut buf[..n]) {
            Poll::Ready(Ok(k)) => {
                assert!(k <= n && k <= (self.sent - self.got) as usize, "bytes out of nowhere");
                assert!(k < 1 || buf[0] == self.got, "order");
                assert!(k < 2 || buf[1] == self.got + 1, "order");
                assert!(k < 3 || buf[2] == self.got + 2, "order");
                assert!(k < 4 || buf[3] == self.got + 3, "order");
                assert!(k < 5 || buf[4] == self.got + 4, "order");
                self.got += k as u8;
                Got::Data(k as u8)
            }
            Poll::Ready(Err(e)) => Got::Failed(e.kind()),
            Poll::Pending => Got::Pending,
        }
    }
    /// Window updates the remote has received meanwhile.
    fn collect(&mut self) {
        match self.pr.event() {
            Some(ProbeEvent::Frame(f)) => {
                assert!(f.ty() == Type::WindowUpdate && f.stream_id() == ID);
                assert!(f.flags() == flags(0) && f.length() > 0);
                self.credit += f.length();
            }
            None => (),
            _ => panic!("only window updates are due"),
        }
        assert!(self.pr.event().is_none());
    }
    fn unread(&self) -> u32 {
        (self.sent - self.got) as u32
    }
    /// One round: the remote sends `n` bytes (possibly more than it may), the application reads.
    fn round(&mut self, n: u8, k: usize) {
        if self.dead {
            return;
        }
        let before = self.unread();
        self.push(n, 0);
        let over = n as u32 > self.credit;
        if !over {
            self.credit -= n as u32;
        }
        match self.read(k) {
            Got::Data(d) => {
                assert!(d > 0, "an empty read means end of stream");
                // Bytes of an excessive frame are never delivered.
                assert!(!over || before > 0);
            }
            Got::Pending => assert!(before == 0 && n == 0, "there is something to read"),
            Got::Failed(e) => {
                assert!(over && e == ErrorKind::InvalidData, "only an excess is an error");
                assert!(matches!(self.pr.event(), Some(ProbeEvent::GoAway)));
                self.dead = true;
                return;
            }
        }
        if over {
            // Found out as soon as the earlier data is consumed.
            self.sent -= n;
            self.dead = true;
            return;
        }
        self.collect();
        // The remote may never have more in flight than fits, and whenever the application has
        // caught up it may send at least half a window.
        assert!(self.credit + self.unread() <= W, "more announced than agreed");
        assert!(self.unread() > 0 || self.credit > W / 2, "window not replenished");
    }
}

fn done(r: Recv) {
    std::mem::forget(r);
}

proofs! {
    // Receive window and order over rounds of sends and reads.
    4 stream_recv2 {
        let mut r = Recv::new(sym::bool());
        let (n, k) = (sym::below(6), 1 + sym::below(4) as usize);
        r.round(n, k);
        let (n, k) = (sym::below(6), 1 + sym::below(4) as usize);
        r.round(n, k);
        done(r);
    }
    4 stream_recv3 {
        let mut r = Recv::new(true);
        let (n, k) = (sym::below(6), 1 + sym::below(4) as usize);
        r.round(n, k);
        let (n, k) = (sym::below(6), 1 + sym::below(4) as usize);
        r.round(n, k);
        let (n, k) = (sym::below(6), 1 + sym::below(4) as usize);
        r.round(n, k);
        done(r);
    }

    // Everything sent before the end is read before the end is reported.
    5 stream_eof { eof(false) }
    5 stream_eof_shut { eof(true) }

    // What is written goes out in order, in frames that respect the window.
    4 stream_send {
        let by_remote = sym::bool();
        let (mut st, mut pr) = open(by_remote);
        let mut credit = W as u64;
        let mut sent = 0u8;
        let mut i = 0;
        while i < 2 {
            let n = 1 + sym::below(5);
            let d = [sent, sent + 1, sent + 2, sent + 3, sent + 4];
            let before = woken(1);
            match write(&mut st, &d[..n as usize]) {
                Poll::Ready(Ok(k)) => {
                    assert!(k as u64 == std::cmp::min(credit, n as u64), "as much as the window allows");
                    match pr.event() {
                        Some(ProbeEvent::Frame(f)) => {
                            assert!(f.ty() == Type::Data && f.stream_id() == ID);
                            assert!(!f.flags().contains(Flag::Syn) && !f.flags().contains(Flag::Fin) && !f.flags().contains(Flag::Rst));
                            assert!(f.length() as usize == k);
                            let (_, body) = f.into_parts();
                            let body = body.unwrap();
                            assert!(body.len() == k && body[0] == sent && body[k - 1] == sent + k as u8 - 1);
                            assert!(k < 3 || body[1] == sent + 1);
                        }
                        _ => panic!("written data goes out"),
                    }
                    credit -= k as u64;
                    sent += k as u8;
                }
                Poll::Ready(Err(_)) => panic!("the stream is open"),
                Poll::Pending => assert!(credit == 0),
            }
            let blocked = credit == 0 && woken(1) == before;
            assert!(pr.event().is_none());
            assert!(st.send_window() as u64 == credit);
            // The remote may widen the window by any amount.
            let delta = sym::u32();
            let fl = if sym::bool() { ACK } else { 0 };
            assert!(pr.push(Frame::new_window_update(flags(fl), ID, delta)));
            let read = poll_read(&mut st);
            if credit + delta as u64 > u32::MAX as u64 {
                assert!(matches!(read, Poll::Ready(Err(ref e)) if e.kind() == ErrorKind::InvalidData));
                assert!(matches!(pr.event(), Some(ProbeEvent::GoAway)));
                break;
            }
            assert!(read.is_pending());
            credit += delta as u64;
            assert!(st.send_window() as u64 == credit);
            let _ = blocked;
            i += 1;
        }
        std::mem::forget((st, pr));
    }

    // A writer that found the window closed is woken when the window opens.
    4 stream_wake {
        let (mut st, mut pr) = open(sym::bool());
        let n = sym::below(4) as usize;
        let d = [7u8; 4];
        assert!(matches!(write(&mut st, &d), Poll::Ready(Ok(4))));
        assert!(matches!(pr.event(), Some(ProbeEvent::Frame(_))));
        assert!(write(&mut st, &d[..1 + n]).is_pending());
        assert!(pr.event().is_none() && woken(1) == 0);
        let delta = sym::u32();
        assert!(pr.push(Frame::new_window_update(flags(0), ID, delta)));
        assert!(poll_read(&mut st).is_pending());
        assert!(woken(1) == 1);
        match write(&mut st, &d[..1 + n]) {
            Poll::Ready(Ok(k)) => assert!(k as u64 == std::cmp::min(delta as u64, 1 + n as u64)),
            Poll::Pending => assert!(delta == 0),
            _ => panic!(),
        }
        std::mem::forget((st, pr));
    }

    // Life cycle: any three operations on a stream, then it is dropped.
    5 stream_life_in { life(true) }
    5 stream_life_out { life(false) }
}

/// The remote sends data and ends the stream in some way; everything is read.
fn eof(local_fin: bool) {
    let mut r = Recv::new(true);
    if local_fin {
        shutdown(&mut r.st);
        assert!(is_frame(r.pr.event(), FIN));
    }
    let (n, m) = (sym::below(3), sym::below(3));
    // The end: a flag on the last data frame, an update after it, a reset, or a lost session.
    let end = sym::below(4);
    r.push(n, 0);
    r.push(m, if end == 0 { FIN } else { 0 });
    match end {
        0 => (),
        1 => assert!(r.pr.push(Frame::new_window_update(flags(FIN), ID, 0))),
        2 => assert!(r.pr.push(Frame::new_window_update(flags(RST), ID, 0))),
        _ => r.pr.disconnect(),
    }
    let k = 1 + sym::below(2) as usize;
    let mut i = 0;
    while i < 3 {
        match r.read(k) {
            Got::Data(d) => assert!(d > 0),
            Got::Pending => panic!("data or the end is there"),
            Got::Failed(_) => {
                assert!(r.got == r.sent, "the end hides data");
                break;
            }
        }
        i += 1;
    }
    assert!(k < 2 || n > 1 || m > 1 || i < 3 || r.got == r.sent);
    done(r);
}

fn life(by_remote: bool) {
    let (mut st, mut pr) = open(by_remote);
    let mut l = Life::default();
    let (a, b, c) = (sym::below(7), sym::below(7), sym::below(7));
    l.by_remote = by_remote;
    l.step(&mut st, &mut pr, a);
    l.step(&mut st, &mut pr, b);
    l.step(&mut st, &mut pr, c);
    drop(st);
    l.observe(&mut pr);
    assert!(l.closed, "the session learns that the stream is gone");
    assert!(l.fin || l.rst || l.seen_rst, "the remote learns that the stream is gone");
    std::mem::forget(pr);
}

/// What has been seen of a stream's life.
#[derive(Default)]
struct Life {
    by_remote: bool,
    /// Finishing, resetting and ending announced by the stream.
    fin: bool,
    rst: bool,
    closed: bool,
    /// Asked for by the application.
    shut: bool,
    /// Sent by the remote, read by the stream.
    sent_fin: bool,
    sent_rst: bool,
    seen_rst: bool,
    error: bool,
}

impl Life {
    fn step(&mut self, st: &mut StreamHandle, pr: &mut StreamProbe, op: u8) {
        match op {
            0 => {
                let r = write(st, &[1]);
                if self.shut || self.error || self.seen_rst {
                    assert!(matches!(r, Poll::Ready(Err(_))), "no writing after the end");
                }
            }
            1 => {
                self.shut = true;
                assert!(shutdown(st), "closing a stream of a live session");
            }
            2 => {
                pr.push(Frame::new_window_update(flags(FIN), ID, 0));
                self.sent_fin = true;
            }
            3 => {
                pr.push(Frame::new_window_update(flags(RST), ID, 0));
                self.sent_rst = true;
            }
            // A stream opened here can be acknowledged; one opened by the remote cannot.
            4 => {
                let fl = if self.by_remote { 0 } else { ACK };
                pr.push(Frame::new_data(flags(fl), ID, Bytes::copy_from_slice(&[9])));
            }
            5 => {
                pr.push(Frame::new_data(flags(FIN), ID, Bytes::copy_from_slice(&[9])));
                self.sent_fin = true;
            }
            _ => {
                let r = poll_read(st);
                if matches!(r, Poll::Ready(Err(_))) {
                    assert!(self.sent_fin || self.sent_rst || self.shut, "an error needs a reason");
                    self.error = true;
                    self.seen_rst |= self.sent_rst;
                }
            }
        }
        self.observe(pr);
    }
    fn observe(&mut self, pr: &mut StreamProbe) {
        let mut i = 0;
        while i < 4 {
            match pr.event() {
                Some(ProbeEvent::Frame(f)) => {
                    assert!(f.stream_id() == ID);
                    let fl = f.flags();
                    assert!(!fl.contains(Flag::Syn), "announced once");
                    assert!(f.ty() == Type::Data || f.ty() == Type::WindowUpdate);
                    assert!(f.ty() == Type::WindowUpdate || !(self.fin || self.rst), "no data after the end");
                    assert!(!self.rst, "nothing after a reset");
                    self.fin |= fl.contains(Flag::Fin);
                    self.rst |= fl.contains(Flag::Rst);
                }
                Some(ProbeEvent::Closed(id)) => {
                    assert!(id == ID);
                    self.closed = true;
                }
                Some(ProbeEvent::GoAway) => assert!(self.sent_fin, "no protocol error happened"),
                None => break,
            }
            i += 1;
        }
        assert!(pr.event().is_none());
    }
}

fn is_frame(e: Option<ProbeEvent>, fl: u8) -> bool {
    match e {
        Some(ProbeEvent::Frame(f)) => f.flags() == flags(fl),
        _ => false,
    }
}
fn shutdown(st: &mut StreamHandle) -> bool {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    matches!(Pin::new(st).poll_shutdown(&mut cx), Poll::Ready(Ok(())))
}
fn write(st: &mut StreamHandle, d: &[u8]) -> Poll<std::io::Result<usize>> {
    let wk = waker(1);
    let mut cx = Context::from_waker(&wk);
    Pin::new(st).poll_write(&mut cx, d)
}
fn poll_read(st: &mut StreamHandle) -> Poll<std::io::Result<usize>> {
    let wk = waker(0);
    let mut cx = Context::from_waker(&wk);
    let mut buf = [0u8; 2];
    Pin::new(st).poll_read(&mut cx, &mut buf)
}
