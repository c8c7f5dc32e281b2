//! The transport under a session.  Under Kani it carries whole frames (the modelled `Framed`);
//! natively it carries the bytes the real codec makes of them.
#![allow(dead_code)]
use std::task::Context;
use tokio_yamux::frame::{Flag, Flags, Frame};

pub fn flags(bits: u8) -> Flags {
    let mut f = Flags::default();
    if bits & 1 != 0 {
        f.add(Flag::Syn)
    }
    if bits & 2 != 0 {
        f.add(Flag::Ack)
    }
    if bits & 4 != 0 {
        f.add(Flag::Fin)
    }
    if bits & 8 != 0 {
        f.add(Flag::Rst)
    }
    f
}

#[cfg(kani)]
mod imp {
    use super::*;
    use std::{io, pin::Pin, task::Poll};
    use tokio::io::{AsyncRead, AsyncWrite};
    use tokio_util::codec::{bind, In, Out};

    /// Typed memory for the channels of a session and two streams.
    pub fn storage() {
        use futures::channel::mpsc::{offer, Store, QCAP};
        static mut A: Store<Frame> = [const { None }; QCAP];
        static mut B: Store<Frame> = [const { None }; QCAP];
        tokio_yamux::verif_probe::storage();
        unsafe {
            offer(1, std::ptr::addr_of_mut!(A));
            offer(2, std::ptr::addr_of_mut!(B));
        }
    }

    pub struct Io;
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context, _: &mut [u8]) -> Poll<io::Result<usize>> {
            unreachable!()
        }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, _: &[u8]) -> Poll<io::Result<usize>> {
            unreachable!()
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            unreachable!()
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            unreachable!()
        }
    }

    pub struct Wire {
        input: In<Frame>,
        output: Out<Frame>,
        taken: usize,
    }
    impl Wire {
        pub fn new() -> Wire {
            Wire { input: In::new(), output: Out::new(), taken: 0 }
        }
        /// The transport to hand to the session; the wire must not move afterwards.
        pub fn io(&mut self) -> Io {
            bind(&mut self.input, &mut self.output);
            Io
        }
        pub fn push(&mut self, f: Frame) {
            self.input.push(f)
        }
        pub fn unread(&self) -> usize {
            self.input.len()
        }
        pub fn set_eof(&mut self) {
            self.input.eof = true
        }
        pub fn set_fail(&mut self) {
            self.input.fail = true
        }
        pub fn block(&mut self, b: bool) {
            self.output.blocked = b;
            self.output.high_water = 1;
        }
        /// Next frame that reached the transport.
        pub fn pop(&mut self) -> Option<Frame> {
            if self.taken < self.output.flushed {
                self.taken += 1;
                self.output.q[self.taken - 1].take()
            } else {
                None
            }
        }
    }
    /// Size of a frame body that fills the send buffer of a blocked transport.
    pub const BULK: usize = 1;
    pub fn advance(ms: u64) {
        tokio::time::model_advance(ms)
    }
}

#[cfg(not(kani))]
mod imp {
    use super::*;
    use bytes::{Buf, BytesMut};
    use std::{cell::RefCell, io, pin::Pin, rc::Rc, task::Poll};
    use tokio::io::{AsyncRead, AsyncWrite};
    use tokio_util::codec::{Decoder, Encoder};
    use tokio_yamux::frame::FrameCodec;

    #[derive(Default)]
    struct State {
        input: BytesMut,
        frames: usize,
        output: BytesMut,
        eof: bool,
        fail: bool,
        blocked: bool,
    }
    pub struct Io(Rc<RefCell<State>>);
    impl AsyncRead for Io {
        fn poll_read(self: Pin<&mut Self>, _: &mut Context, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let mut s = self.0.borrow_mut();
            let n = s.input.len().min(buf.len());
            if n == 0 {
                if s.fail {
                    return Poll::Ready(Err(io::ErrorKind::InvalidData.into()));
                }
                return if s.eof { Poll::Ready(Ok(0)) } else { Poll::Pending };
            }
            buf[..n].copy_from_slice(&s.input[..n]);
            s.input.advance(n);
            Poll::Ready(Ok(n))
        }
    }
    impl AsyncWrite for Io {
        fn poll_write(self: Pin<&mut Self>, _: &mut Context, buf: &[u8]) -> Poll<io::Result<usize>> {
            let mut s = self.0.borrow_mut();
            if s.blocked {
                return Poll::Pending;
            }
            s.output.extend_from_slice(buf);
            Poll::Ready(Ok(buf.len()))
        }
        fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context) -> Poll<io::Result<()>> {
            Poll::Ready(Ok(()))
        }
    }

    pub struct Wire(Rc<RefCell<State>>);
    impl Wire {
        pub fn new() -> Wire {
            Wire(Default::default())
        }
        pub fn io(&mut self) -> Io {
            Io(self.0.clone())
        }
        pub fn push(&mut self, f: Frame) {
            let mut s = self.0.borrow_mut();
            s.frames += 1;
            FrameCodec::default().encode(f, &mut s.input).unwrap();
        }
        pub fn unread(&self) -> usize {
            self.0.borrow().input.len()
        }
        pub fn set_eof(&mut self) {
            self.0.borrow_mut().eof = true
        }
        pub fn set_fail(&mut self) {
            self.0.borrow_mut().fail = true
        }
        pub fn block(&mut self, b: bool) {
            self.0.borrow_mut().blocked = b
        }
        pub fn pop(&mut self) -> Option<Frame> {
            let mut s = self.0.borrow_mut();
            FrameCodec::default().max_frame_size(u32::MAX).decode(&mut s.output).unwrap()
        }
    }

    pub fn storage() {}
    pub const BULK: usize = 9000;
    thread_local! {
        static RT: RefCell<tokio::runtime::Runtime> = RefCell::new(
            tokio::runtime::Builder::new().basic_scheduler().enable_time().build().unwrap(),
        );
    }
    pub fn in_runtime<R>(f: impl FnOnce() -> R) -> R {
        let h = RT.with(|rt| rt.borrow().handle().clone());
        RT.with(|rt| rt.borrow_mut().block_on(async { tokio::time::pause() }));
        h.enter(f)
    }
    pub fn advance(ms: u64) {
        RT.with(|rt| rt.borrow_mut().block_on(tokio::time::advance(std::time::Duration::from_millis(ms))))
    }
}

pub use imp::*;
