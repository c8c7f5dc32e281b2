//! One protocol of a session: what is sent and what is received.
use crate::{sym, wake};
use bytes::Bytes;
use futures::{channel::mpsc::Receiver, Stream};
use std::{
    convert::TryFrom,
    task::{Context, Poll},
};
use tentacle::{
    multiaddr::Multiaddr,
    service::SessionType,
    verif_probe::{session, substream, write_part, ServiceProtocolEvent, SessionProtocolEvent, Sub},
    yamux::verif_probe::{stream, StreamProbe},
};

pub use remote::Remote;

/// The other end of the stream, message by message.
#[cfg(kani)]
mod remote {
    use super::*;
    use bytes::BytesMut;
    use tokio_util::codec::{In, Out};

    pub const SIZE: usize = 1;
    pub const EXTRA: usize = 1;
    pub const MORE: usize = 1;
    static mut IN: (u64, Option<In<BytesMut>>) = (0x5eed0024, None);
    static mut OUT: (u64, Option<Out<Bytes>>) = (0x5eed0025, None);

    pub struct Remote {
        taken: usize,
        #[allow(dead_code)]
        probe: StreamProbe,
    }
    fn input() -> &'static mut In<BytesMut> {
        unsafe { (*std::ptr::addr_of_mut!(IN.1)).as_mut().unwrap() }
    }
    fn output() -> &'static mut Out<Bytes> {
        unsafe { (*std::ptr::addr_of_mut!(OUT.1)).as_mut().unwrap() }
    }
    pub fn prepare(blocked: bool) {
        unsafe {
            IN.1 = Some(In::new());
            let mut out = Out::new();
            out.high_water = 1;
            out.blocked = blocked;
            OUT.1 = Some(out);
        }
        tokio_util::codec::bind(input(), output());
        tentacle::verif_probe::storage();
        tentacle::yamux::verif_probe::storage();
    }
    pub fn message(v: u8) -> Bytes {
        Bytes::copy_from_slice(&[v])
    }
    impl Remote {
        pub fn new(probe: StreamProbe) -> Remote {
            Remote { taken: 0, probe }
        }
        pub fn unblock(&mut self) {
            output().blocked = false;
        }
        pub fn say(&mut self, v: u8) {
            let mut b = BytesMut::with_capacity(1);
            b.extend_from_slice(&[v]);
            input().push(b);
        }
        /// The next message that arrived.
        pub fn hear(&mut self) -> Option<u8> {
            if self.taken == output().flushed {
                return None;
            }
            let m = output().q[self.taken].as_ref().unwrap();
            assert!(m.len() == 1, "message as sent");
            self.taken += 1;
            Some(m[0])
        }
    }
}

#[cfg(not(kani))]
mod remote {
    use super::*;
    use tentacle::yamux::{
        frame::{Flags, Frame, Type},
        verif_probe::ProbeEvent,
    };

    /// More than the encoder buffers before it wants to write.
    pub const SIZE: usize = 20_000;
    /// How many polls the transport needs for something differs from the model: try a few.
    pub const EXTRA: usize = 3;
    /// So may the number of waiting messages that it takes to show something.
    pub const MORE: usize = 4;

    pub struct Remote {
        probe: StreamProbe,
        got: Vec<u8>,
    }
    pub fn prepare(_: bool) {}
    pub fn message(v: u8) -> Bytes {
        Bytes::from(vec![v; SIZE])
    }
    impl Remote {
        pub fn new(probe: StreamProbe) -> Remote {
            Remote { probe, got: Vec::new() }
        }
        fn push(&mut self, frame: Frame) {
            assert!(self.probe.push(frame));
        }
        pub fn unblock(&mut self) {
            self.push(Frame::new_window_update(Flags::default(), 1, 1 << 24));
        }
        pub fn say(&mut self, v: u8) {
            self.push(Frame::new_data(Flags::default(), 1, Bytes::copy_from_slice(&[0, 0, 0, 1, v])));
        }
        fn collect(&mut self) {
            while let Some(event) = self.probe.event() {
                if let ProbeEvent::Frame(f) = event {
                    if f.ty() == Type::Data {
                        self.got.extend_from_slice(&f.into_parts().1.unwrap());
                    }
                }
            }
        }
        pub fn hear(&mut self) -> Option<u8> {
            self.collect();
            if self.got.len() < SIZE + 4 {
                return None;
            }
            let m: Vec<u8> = self.got.drain(..SIZE + 4).collect();
            assert!(m[..4] == (SIZE as u32).to_be_bytes(), "message as sent");
            assert!(m[4..].iter().all(|b| *b == m[4]), "message as sent");
            Some(m[4])
        }
    }
}

struct Story<S> {
    sub: Sub<S>,
    remote: Remote,
    /// Polls more than necessary.
    extra: usize,
}

fn context() -> tentacle::context::SessionContext {
    session(1.into(), Multiaddr::try_from(Bytes::new()).unwrap(), SessionType::Inbound, None).0
}

/// A protocol stream whose handlers each have room for `room` events more than one.
fn whole(blocked: bool, room: usize) -> Story<impl Stream<Item = ()> + Unpin> {
    remote::prepare(blocked);
    let (io, probe) = stream(1, true, 4096);
    Story { sub: substream(io, context(), 3.into(), room), remote: Remote::new(probe), extra: 0 }
}

/// The writing part of a protocol stream.
fn writer(blocked: bool) -> Story<impl Stream<Item = ()> + Unpin> {
    remote::prepare(blocked);
    let (io, probe) = stream(1, true, 4096);
    Story { sub: write_part(io, context(), 3.into(), 8), remote: Remote::new(probe), extra: 0 }
}

impl<S: Stream<Item = ()> + Unpin> Story<S> {
    /// Polls until there is nothing more to do.
    fn run(&mut self) {
        let w = wake::waker(1);
        let mut k = 0;
        loop {
            let before = wake::woken(1);
            match self.sub.poll(&mut Context::from_waker(&w)) {
                Poll::Ready(r) => assert!(r.is_some(), "ended by itself"),
                Poll::Pending if wake::woken(1) == before => break,
                Poll::Pending => (),
            }
            k += 1;
            assert!(k < 12, "never done");
        }
        k = 0;
        while k < self.extra {
            let _ = self.sub.poll(&mut Context::from_waker(&w));
            k += 1;
        }
    }

    /// `n` messages have not arrived, at most one of which the transport has.
    fn waiting(&self, n: usize) {
        let size = self.sub.waiting();
        assert!(size <= n * remote::SIZE && (n == 0 || size >= (n - 1) * remote::SIZE), "size of the waiting messages");
    }

    /// Messages of the given priorities, those after the third like the third; if `blocked` the transport takes nothing at first;
    /// if `eager` the stream runs after each.
    fn send(&mut self, v: &[u8], urgent: u8, blocked: bool, eager: bool) {
        let n = v.len();
        let urgent = |k: usize| urgent >> k.min(2) & 1;
        if !blocked {
            self.remote.unblock();
        }
        let mut k = 0;
        while k < n {
            let sent = self.sub.send(urgent(k) == 1, remote::message(v[k]));
            assert!(sent, "message refused");
            if eager {
                self.run();
                self.waiting(if blocked { k + 1 } else { 0 });
            }
            k += 1;
        }
        self.run();
        self.waiting(if blocked { n } else { 0 });
        if blocked {
            assert!(self.remote.hear().is_none(), "nothing gets through");
            self.remote.unblock();
            self.run();
            self.waiting(0);
        }
        if eager && !blocked {
            k = 0;
            while k < n {
                assert!(self.remote.hear() == Some(v[k]), "order of messages");
                k += 1;
            }
        } else {
            // the first message is already on its way when the others come
            let first = if eager { 1 } else { 0 };
            if first == 1 {
                assert!(self.remote.hear() == Some(v[0]), "first message");
            }
            let mut high = 2;
            while high > 0 {
                high -= 1;
                k = first;
                while k < n {
                    if urgent(k) == high {
                        assert!(self.remote.hear() == Some(v[k]), "order of messages");
                    }
                    k += 1;
                }
            }
        }
        assert!(self.remote.hear().is_none(), "message twice");
    }
}

fn next<T>(r: &mut Receiver<T>) -> Option<T> {
    match r.try_next() {
        Ok(Some(v)) => Some(v),
        _ => None,
    }
}

/// Whether the handlers have the next message, and it is `v`.
fn heard<S: Stream<Item = ()> + Unpin>(s: &mut Story<S>, v: u8, who: u8) -> bool {
    let data = match who {
        0 => match next(&mut s.sub.service_events) {
            Some(ServiceProtocolEvent::Received { data, .. }) => data,
            Some(_) => panic!("not a message"),
            None => return false,
        },
        1 => match next(&mut s.sub.session_events) {
            Some(SessionProtocolEvent::Received { data }) => data,
            Some(_) => panic!("not a message"),
            None => return false,
        },
        _ => match s.sub.message() {
            Some(data) => data,
            None => return false,
        },
    };
    assert!(data.len() == 1 && data[0] == v, "messages in order");
    std::mem::forget(data);
    true
}

/// The remote says `n` things while the handler `slow` does not listen and has room for few.
fn receive(n: u8, extra: usize, slow: u8, outgoing: bool) {
    let mut s = whole(outgoing, 0);
    s.extra = extra;
    if outgoing {
        let sent = s.sub.send(false, remote::message(99));
        assert!(sent, "message refused");
    }
    s.run();
    let opened = next(&mut s.sub.service_events);
    assert!(matches!(opened, Some(ServiceProtocolEvent::Connected { .. })), "connected first");
    std::mem::forget(opened);
    let opened = next(&mut s.sub.session_events);
    assert!(matches!(opened, Some(SessionProtocolEvent::Opened { .. })), "opened first");
    std::mem::forget(opened);
    let mut k = 0;
    while k < n {
        s.remote.say(k + 7);
        s.run();
        let mut who = 0;
        while who < 3 {
            if who != slow {
                assert!(heard(&mut s, k + 7, who), "message lost");
            }
            who += 1;
        }
        k += 1;
    }
    if slow < 3 {
        k = 0;
        while k < n {
            if !heard(&mut s, k + 7, slow) {
                s.run();
                assert!(heard(&mut s, k + 7, slow), "message lost");
            }
            k += 1;
        }
    }
    s.run();
    assert!(next(&mut s.sub.service_events).is_none(), "told twice");
    assert!(next(&mut s.sub.session_events).is_none(), "told twice");
    assert!(s.sub.message().is_none(), "told twice");
    std::mem::forget(s);
}

fn listen(slow: u8, outgoing: bool) {
    let mut more = 0;
    while more < remote::MORE {
        let mut extra = 0;
        while extra < remote::EXTRA {
            receive(4 + more as u8, extra, slow, outgoing);
            extra += 1;
        }
        more += 1;
    }
}

fn all(urgent: u8, blocked: bool, eager: bool) {
    let v = [sym::u8(), sym::u8(), sym::u8(), 201, 202, 203];
    let mut more = 0;
    while more < remote::MORE {
        let mut extra = 0;
        while extra < remote::EXTRA {
            let mut s = whole(blocked, 8);
            s.extra = extra;
            s.send(&v[..3 + more], urgent, blocked, eager);
            std::mem::forget(s);
            extra += 1;
        }
        more += 1;
    }
}
fn part(urgent: u8, blocked: bool, eager: bool) {
    let v = [sym::u8(), sym::u8(), sym::u8(), 201, 202, 203];
    let mut more = 0;
    while more < remote::MORE {
        let mut extra = 0;
        while extra < remote::EXTRA {
            let mut s = writer(blocked);
            s.extra = extra;
            s.send(&v[..3 + more], urgent, blocked, eager);
            std::mem::forget(s);
            extra += 1;
        }
        more += 1;
    }
}

macro_rules! random {
    ($($n:literal $name:ident $body:block)*) => { proofs! { $(
        #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
        $n $name $body
    )* } };
}

random! {
    14 send_late_a { cases!(u8, 0 1 2 3, |c| all(c, true, true)) }
    14 send_late_b { cases!(u8, 4 5 6 7, |c| all(c, true, true)) }
    14 send_idle_a { cases!(u8, 0 1 2 3, |c| all(c, true, false)) }
    14 send_idle_b { cases!(u8, 4 5 6 7, |c| all(c, true, false)) }
    14 send_free { cases!(u8, 0 2 5, |c| all(c, false, true)) }
    14 part_late { cases!(u8, 1 4 6, |c| part(c, true, true)) }
    14 part_idle { cases!(u8, 2 4 3, |c| part(c, true, false)) }
    14 part_free { cases!(u8, 2 5, |c| part(c, false, true)) }
    14 receive_a { cases!(u8, 0 1, |c| listen(c, false)) }
    14 receive_b { cases!(u8, 2 3, |c| listen(c, false)) }
    14 receive_c { cases!(u8, 1 3, |c| listen(c, true)) }
}
