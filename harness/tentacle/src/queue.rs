//! The queue between a control handle, the service, its sessions and their protocols: two
//! priorities, a capacity, an end.
use crate::{sym, wake};
use futures::Stream;
use std::{
    pin::Pin,
    task::{Context, Poll},
};
use tentacle::verif_probe::{channel, PriorityBuffer, Receiver, SendResult, Sender};

/// What was sent and not received yet, in order.
struct Sent {
    items: [(bool, u8); 8],
    n: usize,
}

impl Sent {
    fn new() -> Sent {
        Sent { items: [(false, 0); 8], n: 0 }
    }
    fn add(&mut self, high: bool, v: u8) {
        self.items[self.n] = (high, v);
        self.n += 1;
    }
    /// The next one to be received: the oldest urgent one, else the oldest one.
    fn next(&mut self) -> (bool, u8) {
        let mut at = 0;
        let mut k = self.n;
        while k > 0 {
            k -= 1;
            if self.items[k].0 {
                at = k;
            }
        }
        let item = self.items[at];
        while at + 1 < self.n {
            self.items[at] = self.items[at + 1];
            at += 1;
        }
        self.n -= 1;
        item
    }
}

fn send(tx: &Sender<u8>, high: bool, v: u8) -> bool {
    let r = if high { tx.try_quick_send(v) } else { tx.try_send(v) };
    match r {
        Ok(()) => true,
        Err(e) => {
            assert!(e.is_full() != e.is_disconnected(), "reason of a refusal");
            assert!(e.into_inner() == v, "refused message handed back");
            false
        }
    }
}

fn recv(rx: &mut Receiver<u8>, waker: usize) -> Poll<Option<(bool, u8)>> {
    let w = wake::waker(waker);
    let mut cx = Context::from_waker(&w);
    match Pin::new(rx).poll_next(&mut cx) {
        Poll::Ready(Some((p, v))) => Poll::Ready(Some((p.is_high(), v))),
        Poll::Ready(None) => Poll::Ready(None),
        Poll::Pending => Poll::Pending,
    }
}

fn expect(rx: &mut Receiver<u8>, sent: &mut Sent) {
    let want = sent.next();
    match recv(rx, 0) {
        Poll::Ready(Some(got)) => assert!(got == want, "order of messages"),
        _ => panic!("message lost"),
    }
}

/// Four messages of any priority from two senders, some received in between.
fn order(urgent: u8, early: u8) {
    let (tx, mut rx) = channel::<u8>(8);
    let other = tx.clone();
    let mut sent = Sent::new();
    let mut k = 0;
    while k < 4 {
        let (high, v) = (urgent >> k & 1 == 1, sym::u8());
        assert!(send(if k % 2 == 0 { &tx } else { &other }, high, v), "message refused");
        sent.add(high, v);
        if early >> k & 1 == 1 {
            expect(&mut rx, &mut sent);
        }
        k += 1;
    }
    while sent.n > 0 {
        expect(&mut rx, &mut sent);
    }
    assert!(recv(&mut rx, 0).is_pending(), "message out of nowhere");
    std::mem::forget((tx, other, rx));
}

fn ready(tx: &Sender<u8>, waker: usize) -> Poll<bool> {
    let w = wake::waker(waker);
    let mut cx = Context::from_waker(&w);
    tx.poll_ready(&mut cx).map(|r| r.is_ok())
}

/// A full queue: the sender is told, and told again when there is room.
fn full(room: usize, urgent: u8, by_poll: bool) {
    let (tx, mut rx) = channel::<u8>(room);
    let mut sent = Sent::new();
    let mut k = 0;
    // Each sender has a place of its own.
    while k <= room {
        let v = sym::u8();
        assert!(matches!(ready(&tx, 1), Poll::Ready(true)), "room for a message");
        assert!(send(&tx, urgent >> k & 1 == 1, v), "message refused");
        sent.add(urgent >> k & 1 == 1, v);
        k += 1;
    }
    let v = sym::u8();
    if by_poll {
        assert!(ready(&tx, 1).is_pending(), "capacity exceeded");
    }
    assert!(!send(&tx, false, v) && !send(&tx, true, v), "capacity exceeded");
    if by_poll {
        assert!(ready(&tx, 1).is_pending(), "capacity exceeded");
    }
    expect(&mut rx, &mut sent);
    assert!(!by_poll || wake::woken(1) == 1, "waiting sender woken");
    assert!(matches!(ready(&tx, 1), Poll::Ready(true)), "room for a message");
    assert!(send(&tx, true, v), "room for a message");
    sent.add(true, v);
    assert!(!send(&tx, false, v), "capacity exceeded");
    while sent.n > 0 {
        expect(&mut rx, &mut sent);
    }
    assert!(recv(&mut rx, 2).is_pending(), "message out of nowhere");
    assert!(wake::woken(2) == 0, "nothing to tell");
    let (u, v) = (sym::bool(), sym::u8());
    if u {
        assert!(send(&tx, true, v), "room for a message");
    } else {
        assert!(send(&tx, false, v), "room for a message");
    }
    assert!(wake::woken(2) == 1, "waiting receiver woken");
    std::mem::forget((tx, rx));
}

/// The end of the queue, from either side, with two messages in it.
fn end(urgent: u8, how: u8) {
    let (tx, mut rx) = channel::<u8>(8);
    let mut sent = Sent::new();
    let mut k = 0;
    while k < 2 {
        let v = sym::u8();
        assert!(send(&tx, urgent >> k & 1 == 1, v), "message refused");
        sent.add(urgent >> k & 1 == 1, v);
        k += 1;
    }
    let mut tx = tx;
    match how {
        0 => rx.close(),
        1 => tx.close_channel(),
        _ => {
            let other = tx.clone();
            drop(tx);
            assert!(!other.is_closed() && send(&other, true, 7), "another sender remains");
            sent.add(true, 7);
            tx = other;
            tx.disconnect();
        }
    }
    assert!(tx.is_closed(), "closed");
    assert!(!send(&tx, false, 1) && !send(&tx, true, 1), "sent to a closed queue");
    assert!(matches!(ready(&tx, 1), Poll::Ready(false)), "closed, not full");
    while sent.n > 0 {
        expect(&mut rx, &mut sent);
    }
    assert!(matches!(recv(&mut rx, 0), Poll::Ready(None)), "end of the queue");
    std::mem::forget((tx, rx));
}

/// Messages kept back while the queue is full: none lost, none twice, none overtaken by one of
/// the same priority.
fn kept(urgent: u8) {
    let (tx, mut rx) = channel::<u8>(1);
    let mut buf = PriorityBuffer::new(tx);
    let mut sent = Sent::new();
    let w = wake::waker(1);
    let mut cx = Context::from_waker(&w);
    let mut k = 0;
    while k < 4 {
        let (high, v) = (urgent >> k & 1 == 1, sym::u8());
        if high {
            buf.push_high(v);
        } else {
            buf.push_normal(v);
        }
        sent.add(high, v);
        k += 1;
    }
    // The order among the two that fit is that of their priorities, too.
    assert!(matches!(buf.try_send(&mut cx), SendResult::Pending), "the queue is full");
    assert!(buf.len() == 2 && !buf.is_empty(), "kept messages");
    expect(&mut rx, &mut sent);
    assert!(wake::woken(1) == 1, "waiting sender woken");
    assert!(matches!(buf.try_send(&mut cx), SendResult::Pending), "the queue is full");
    assert!(buf.len() == 1, "kept messages");
    expect(&mut rx, &mut sent);
    expect(&mut rx, &mut sent);
    assert!(matches!(buf.try_send(&mut cx), SendResult::Ok), "everything sent");
    assert!(buf.is_empty(), "everything sent");
    expect(&mut rx, &mut sent);
    buf.push_normal(sym::u8());
    rx.close();
    assert!(matches!(buf.try_send(&mut cx), SendResult::Disconnect), "the queue has ended");
    std::mem::forget((buf, rx));
}

proofs! {
    10 queue_order_a { cases!(u8, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15, |u| order(u, 0)) }
    10 queue_order_b { cases!(u8, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15, |u| order(u, 2)) }
    10 queue_order_c { cases!(u8, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15, |u| order(u, 6)) }
    10 queue_full { cases!(u8, 0 1 2 3 4 5 6 7, |u: u8| full(1 + (u >> 2) as usize, u & 3, u & 1 == 0)) }
    10 queue_none { cases!(u8, 0 1, |u: u8| full(0, 1, u == 0)) }
    10 queue_end_a { cases!(u8, 0 1 2 3, |u| end(u, 0)) }
    10 queue_end_b { cases!(u8, 0 1 2 3, |u| end(u, 1)) }
    10 queue_end_c { cases!(u8, 0 1 2 3, |u| end(u, 2)) }
    10 queue_kept { cases!(u8, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15, |u| kept(u)) }
}
