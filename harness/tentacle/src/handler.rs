//! What the handler of a protocol gets to see of its sessions.
use crate::wake;
use bytes::Bytes;
use futures::Stream;
use std::{
    convert::TryFrom,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    task::{Context, Poll},
};
use tentacle::{
    context::{ProtocolContext, ProtocolContextMutRef, SessionContext},
    multiaddr::Multiaddr,
    service::SessionType,
    traits::ServiceProtocol,
    verif_probe::{service_protocol, session, Handler, ServiceProtocolEvent},
};

const CONNECTED: u16 = 0x100;
const DISCONNECTED: u16 = 0x200;

/// The calls about the two sessions: a byte received, or one of the above.
struct Calls {
    of: [[u16; 6]; 2],
    n: [usize; 2],
}

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut CALLS: (u64, Calls) = (0x5eed0020, Calls { of: [[0; 6]; 2], n: [0; 2] });

fn call(session: &SessionContext, what: u16) {
    let calls = unsafe { &mut *std::ptr::addr_of_mut!(CALLS.1) };
    let s = session.id.value() - 1;
    calls.of[s][calls.n[s]] = what;
    calls.n[s] += 1;
}

struct Recorder;

impl ServiceProtocol for Recorder {
    fn init(&mut self, _: &mut ProtocolContext) {}
    fn connected(&mut self, context: ProtocolContextMutRef, _: &str) {
        call(context.session, CONNECTED)
    }
    fn disconnected(&mut self, context: ProtocolContextMutRef) {
        call(context.session, DISCONNECTED)
    }
    fn received(&mut self, context: ProtocolContextMutRef, data: Bytes) {
        assert!(data.len() == 1, "message as sent");
        call(context.session, data[0] as u16)
    }
}

struct Peer {
    context: Arc<SessionContext>,
    closed: Arc<AtomicBool>,
    /// Bytes sent while the session was open for messages.
    sent: [u8; 4],
    n: usize,
    open: bool,
    seen: bool,
}

fn peer(id: usize) -> Peer {
    let address = Multiaddr::try_from(Bytes::new()).unwrap();
    let (context, closed) = session(id.into(), address, SessionType::Inbound, None);
    Peer { context: Arc::new(context), closed, sent: [0; 4], n: 0, open: false, seen: false }
}

fn feed(h: &mut Handler<Recorder>, event: ServiceProtocolEvent) {
    let w = wake::waker(0);
    let mut cx = Context::from_waker(&w);
    let r = h.events.try_send(event);
    assert!(r.is_ok(), "event refused");
    std::mem::forget(r);
    match Pin::new(&mut h.stream).poll_next(&mut cx) {
        Poll::Ready(Some(())) => (),
        _ => panic!("event not handled"),
    }
}

fn store() {
    #[cfg(kani)]
    {
        use futures::channel::mpsc::{offer, Store, QCAP};
        static mut EVENTS: (u64, Store<ServiceProtocolEvent>) = (0x5eed0021, [const { None }; QCAP]);
        unsafe { offer(0, std::ptr::addr_of_mut!(EVENTS.1)) };
    }
}

/// `c`onnected, `r`eceived, `d`isconnected, `x` session closed before its protocols; upper case for
/// the second session.
fn story(steps: &[u8]) {
    store();
    let mut h = service_protocol(Recorder, 1.into());
    let mut peers = [peer(1), peer(2)];
    for step in steps {
        let p = &mut peers[(*step < b'a') as usize];
        let id = p.context.id;
        match step | 0x20 {
            b'c' => {
                p.open = !p.closed.load(Ordering::SeqCst);
                p.seen = true;
                feed(&mut h, ServiceProtocolEvent::Connected { session: p.context.clone(), version: String::new() });
            }
            b'r' => {
                let v = 7 + p.n as u8 + 16 * id.value() as u8;
                if p.open {
                    p.sent[p.n] = v;
                    p.n += 1;
                }
                feed(&mut h, ServiceProtocolEvent::Received { id, data: Bytes::copy_from_slice(&[v]) });
            }
            b'x' => {
                p.open = false;
                p.closed.store(true, Ordering::SeqCst);
            }
            _ => {
                p.open = false;
                feed(&mut h, ServiceProtocolEvent::Disconnected { id });
            }
        }
    }
    let calls = unsafe { &*std::ptr::addr_of!(CALLS.1) };
    for s in 0..2 {
        let p = &peers[s];
        let (c, n) = (&calls.of[s], calls.n[s]);
        if !p.seen {
            assert!(n == 0, "calls about a session that never connected");
            continue;
        }
        assert!(n == p.n + 2, "calls about a session");
        assert!(c[0] == CONNECTED, "connected first");
        for k in 0..p.n {
            assert!(c[k + 1] == p.sent[k] as u16, "messages in order");
        }
        assert!(c[n - 1] == DISCONNECTED, "disconnected last");
    }
    std::mem::forget((h, peers));
}

/// Nothing is called once the service has shut down, even with events left.
fn shutdown(after: u8) {
    store();
    let mut h = service_protocol(Recorder, 1.into());
    let p = peer(1);
    let w = wake::waker(0);
    let mut cx = Context::from_waker(&w);
    let id = p.context.id;
    let events = [
        ServiceProtocolEvent::Connected { session: p.context.clone(), version: String::new() },
        ServiceProtocolEvent::Received { id, data: Bytes::copy_from_slice(&[7]) },
        ServiceProtocolEvent::Received { id, data: Bytes::copy_from_slice(&[8]) },
    ];
    for (k, event) in events.iter().enumerate() {
        if k == after as usize {
            h.shutdown.store(true, Ordering::SeqCst);
        }
        let r = h.events.try_send(event.clone());
        assert!(r.is_ok(), "event refused");
        std::mem::forget(r);
        match Pin::new(&mut h.stream).poll_next(&mut cx) {
            Poll::Ready(Some(())) => assert!(k < after as usize, "runs after shutdown"),
            Poll::Ready(None) => assert!(k >= after as usize, "ends before shutdown"),
            Poll::Pending => panic!("event not handled"),
        }
    }
    let calls = unsafe { &*std::ptr::addr_of!(CALLS.1) };
    assert!(calls.n[0] == after as usize && calls.n[1] == 0, "calls after shutdown");
    std::mem::forget((h, p, events));
}

proofs! {
    #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
    14 handler_two_a { cases!(u8, 0 1 2 3, |k| match k {
        0u8 => story(b"crrdCRD"),
        1 => story(b"cCrRrDd"),
        2 => story(b"CcRrrdD"),
        _ => story(b"CRDcrrd"),
    }) }
    #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
    14 handler_two_b { cases!(u8, 0 1 2 3, |k| match k {
        0u8 => story(b"crCrRdD"),
        1 => story(b"CcrrdRD"),
        2 => story(b"cCRDrrd"),
        _ => story(b"CRcrrDd"),
    }) }
    #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
    14 handler_stray { cases!(u8, 0 1 2 3, |k| match k {
        0u8 => story(b"rcrdr"),
        1 => story(b"cRrdD"),
        2 => story(b"crdd"),
        _ => story(b"cCrdrRdD"),
    }) }
    #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
    14 handler_closed { cases!(u8, 0 1 2 3 4, |k| match k {
        0u8 => story(b"xcrd"),
        1 => story(b"cxrd"),
        2 => story(b"crxrd"),
        3 => story(b"cCrxRdD"),
        _ => story(b"cCrxXRrDd"),
    }) }
    #[stub(std::collections::hash_map::RandomState::new, crate::stubs::random_state)]
    14 handler_shutdown { cases!(u8, 0 1 2, |k| shutdown(k)) }
}
