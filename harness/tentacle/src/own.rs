//! What the handler that a session has for a protocol gets to see.
use crate::wake;
use bytes::Bytes;
use futures::Stream;
use std::{
    convert::TryFrom,
    pin::Pin,
    sync::atomic::Ordering,
    task::{Context, Poll},
};
use tentacle::{
    context::ProtocolContextMutRef,
    multiaddr::Multiaddr,
    service::SessionType,
    traits::SessionProtocol,
    verif_probe::{session, session_protocol, SessionProtocolEvent},
};

const CONNECTED: u16 = 0x100;
const DISCONNECTED: u16 = 0x200;

/// The calls: a byte received, or one of the above.
struct Calls {
    of: [u16; 10],
    n: usize,
}

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut CALLS: (u64, Calls) = (0x5eed0040, Calls { of: [0; 10], n: 0 });

fn call(what: u16) {
    let calls = unsafe { &mut *std::ptr::addr_of_mut!(CALLS.1) };
    calls.of[calls.n] = what;
    calls.n += 1;
}

struct Recorder;

impl SessionProtocol for Recorder {
    fn connected(&mut self, context: ProtocolContextMutRef, _: &str) {
        assert!(context.session.id == 1.into(), "its own session");
        call(CONNECTED)
    }
    fn disconnected(&mut self, context: ProtocolContextMutRef) {
        assert!(context.session.id == 1.into(), "its own session");
        call(DISCONNECTED)
    }
    fn received(&mut self, _: ProtocolContextMutRef, data: Bytes) {
        assert!(data.len() == 1, "message as sent");
        call(data[0] as u16)
    }
}

fn store() {
    #[cfg(kani)]
    {
        use futures::channel::mpsc::{offer, Store, QCAP};
        static mut EVENTS: (u64, Store<SessionProtocolEvent>) = (0x5eed0041, [const { None }; QCAP]);
        unsafe { offer(0, std::ptr::addr_of_mut!(EVENTS.1)) };
    }
}

/// `o`pened, `r`eceived, `c`losed, `x` the session is closed, `s` the service shuts down; upper
/// case: not handled before the next event comes.
fn story(steps: &[u8]) {
    store();
    let address = Multiaddr::try_from(Bytes::new()).unwrap();
    let (context, closed) = session(1.into(), address, SessionType::Inbound, None);
    let mut h = session_protocol(Recorder, 1.into(), context);
    let w = wake::waker(0);
    let mut cx = Context::from_waker(&w);
    let mut want = Calls { of: [0; 10], n: 0 };
    let (mut gone, mut shut, mut v) = (false, false, 7);
    let mut waiting = 0;
    for step in steps {
        let (event, expected) = match step | 0x20 {
            b'o' => (SessionProtocolEvent::Opened { version: String::new() }, CONNECTED),
            b'r' => {
                v += 1;
                (SessionProtocolEvent::Received { data: Bytes::copy_from_slice(&[v]) }, v as u16)
            }
            b'c' => (SessionProtocolEvent::Closed, DISCONNECTED),
            b'x' => {
                closed.store(true, Ordering::SeqCst);
                gone = true;
                continue;
            }
            _ => {
                h.shutdown.store(true, Ordering::SeqCst);
                shut = true;
                continue;
            }
        };
        if !gone && (!shut || expected == DISCONNECTED) {
            want.of[want.n] = expected;
            want.n += 1;
        }
        std::mem::forget(h.events.try_send(event));
        waiting += 1;
        if *step >= b'a' {
            while waiting > 0 {
                let r = Pin::new(&mut h.stream).poll_next(&mut cx);
                assert!(gone || r == Poll::Ready(Some(())), "event not handled");
                waiting -= 1;
            }
        }
    }
    let calls = unsafe { &*std::ptr::addr_of!(CALLS.1) };
    // after a shutdown the end may or may not be told
    let least = if shut && want.n > 0 && want.of[want.n - 1] == DISCONNECTED { want.n - 1 } else { want.n };
    assert!(calls.n <= want.n && calls.n >= least, "number of calls");
    for k in 0..calls.n {
        assert!(calls.of[k] == want.of[k], "calls in order");
    }
    std::mem::forget((h, closed));
}

macro_rules! random {
    ($($n:literal $name:ident $body:block)*) => { proofs! { $(
        #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
        $n $name $body
    )* } };
}

random! {
    14 own_open { cases!(u8, 0 1 2 3, |k| match k {
        0u8 => story(b"orrc"),
        1 => story(b"ORRc"),
        2 => story(b"orcorc"),
        _ => story(b"oRrCorc"),
    }) }
    14 own_closed { cases!(u8, 0 1 2 3 4, |k| match k {
        0u8 => story(b"xorc"),
        1 => story(b"oxrc"),
        2 => story(b"orxrc"),
        3 => story(b"orcxor"),
        _ => story(b"orxRc"),
    }) }
    14 own_shutdown { cases!(u8, 0 1 2 3, |k| match k {
        0u8 => story(b"sor"),
        1 => story(b"osrr"),
        2 => story(b"orsrc"),
        _ => story(b"orcsor"),
    }) }
}
