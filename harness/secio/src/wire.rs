//! The transport under a secure channel.  Under Kani it carries whole frames (the modelled
//! `Framed`); natively the bytes the real length-delimited codec makes of them.
#![allow(dead_code)]
use std::task::Context;

/// Length of a frame that fills the transport: no other is taken before it left.
#[cfg(kani)]
pub const FULL: usize = 1;
#[cfg(not(kani))]
pub const FULL: usize = 9000;
/// Content of one frame.
pub const MAX: usize = 40 + FULL;
#[derive(Clone, Copy)]
pub struct Raw {
    pub b: [u8; MAX],
    pub n: usize,
}
impl Raw {
    pub fn new(s: &[u8]) -> Raw {
        assert!(s.len() <= MAX, "VERIF-MODEL-BOUND raw frame");
        let mut b = [0; MAX];
        for i in 0..s.len() {
            b[i] = s[i];
        }
        Raw { b, n: s.len() }
    }
}

#[cfg(kani)]
mod imp {
    use super::*;
    use bytes::{Bytes, BytesMut};
    use std::{io, pin::Pin, task::Poll};
    use tokio::io::{AsyncRead, AsyncWrite};
    use tokio_util::codec::{bind, In, Out};

    pub struct Io;
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context, _: &mut [u8]) -> Poll<io::Result<usize>> {
            unreachable!()
        }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, _: &[u8]) -> Poll<io::Result<usize>> {
            unreachable!()
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            unreachable!()
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            unreachable!()
        }
    }

    pub struct Wire {
        input: In<BytesMut>,
        output: Out<Bytes>,
        taken: usize,
    }
    impl Wire {
        pub fn new() -> Wire {
            Wire { input: In::new(), output: Out::new(), taken: 0 }
        }
        /// The transport to hand over; the wire must not move afterwards.
        pub fn io(&mut self) -> Io {
            bind(&mut self.input, &mut self.output);
            Io
        }
        pub fn push(&mut self, f: &Raw) {
            self.input.push(BytesMut::from(&f.b[..f.n]))
        }
        pub fn set_eof(&mut self) {
            self.input.eof = true
        }
        /// The transport takes no data; with `full` what is queued fills it.
        pub fn block(&mut self, b: bool, full: bool) {
            self.output.blocked = b;
            self.output.high_water = if full { 1 } else { usize::MAX };
        }
        /// Next frame that reached the transport.
        pub fn pop(&mut self) -> Option<Raw> {
            if self.taken < self.output.flushed {
                self.taken += 1;
                let f = self.output.q[self.taken - 1].take()?;
                Some(Raw::new(&f))
            } else {
                None
            }
        }
    }
}

#[cfg(not(kani))]
mod imp {
    use super::*;
    use bytes::{Buf, Bytes, BytesMut};
    use std::{cell::RefCell, io, pin::Pin, rc::Rc, task::Poll};
    use tokio::io::{AsyncRead, AsyncWrite};
    use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Decoder, Encoder};

    #[derive(Default)]
    struct State {
        input: BytesMut,
        output: BytesMut,
        eof: bool,
        blocked: bool,
    }
    pub struct Io(Rc<RefCell<State>>);
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let mut s = self.0.borrow_mut();
            let n = s.input.len().min(buf.len());
            if n == 0 {
                return if s.eof { Poll::Ready(Ok(0)) } else { Poll::Pending };
            }
            buf[..n].copy_from_slice(&s.input[..n]);
            s.input.advance(n);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
            let mut s = self.0.borrow_mut();
            if s.blocked {
                return Poll::Pending;
            }
            s.output.extend_from_slice(buf);
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }

    pub struct Wire(Rc<RefCell<State>>);
    impl Wire {
        pub fn new() -> Wire {
            Wire(Default::default())
        }
        pub fn io(&mut self) -> Io {
            Io(self.0.clone())
        }
        pub fn push(&mut self, f: &Raw) {
            let mut s = self.0.borrow_mut();
            LengthDelimitedCodec::new().encode(Bytes::copy_from_slice(&f.b[..f.n]), &mut s.input).unwrap();
        }
        pub fn set_eof(&mut self) {
            self.0.borrow_mut().eof = true
        }
        pub fn block(&mut self, b: bool, _: bool) {
            self.0.borrow_mut().blocked = b
        }
        pub fn pop(&mut self) -> Option<Raw> {
            let mut s = self.0.borrow_mut();
            LengthDelimitedCodec::new().decode(&mut s.output).unwrap().map(|f| Raw::new(&f))
        }
    }
}

pub use imp::*;
