use crate::codec::{Decoder, Encoder};
use bytes::BytesMut;
use futures_core::Stream;
use futures_sink::Sink;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::{fmt, io, mem, ptr};

pub const LINK_CAP: usize = 16;

/// Items on their way in, as the harness scripts them.
pub struct In<I> {
    q: [Option<I>; LINK_CAP],
    head: usize,
    len: usize,
    /// After the queued items the transport reports end of stream.
    pub eof: bool,
    /// After the queued items the transport reports an error.
    pub fail: bool,
}

/// Items sent out.
pub struct Out<O> {
    pub q: [Option<O>; LINK_CAP],
    /// Items accepted by `start_send`.
    pub sent: usize,
    /// Items that reached the transport.
    pub flushed: usize,
    /// The transport does not take data at the moment.
    pub blocked: bool,
    /// Number of buffered items that makes `poll_ready` insist on flushing.
    pub high_water: usize,
    pub closed: bool,
}

impl<I> In<I> {
    pub fn new() -> Self {
        In { q: [None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None], head: 0, len: 0, eof: false, fail: false }
    }
    pub fn push(&mut self, item: I) {
        let at = self.head + self.len;
        assert!(at < LINK_CAP, "VERIF-MODEL-BOUND link in");
        self.q[at] = Some(item);
        self.len += 1;
    }
    pub fn len(&self) -> usize {
        self.len
    }
    fn take(&mut self) -> Option<I> {
        if self.len == 0 {
            return None;
        }
        let item = self.q[self.head].take();
        self.head += 1;
        self.len -= 1;
        item
    }
}

impl<O> Out<O> {
    pub fn new() -> Self {
        Out {
            q: [None, None, None, None, None, None, None, None, None, None, None, None, None, None, None, None],
            sent: 0,
            flushed: 0,
            blocked: false,
            high_water: usize::MAX,
            closed: false,
        }
    }
    fn push(&mut self, item: O) {
        assert!(self.sent < LINK_CAP, "VERIF-MODEL-BOUND link out");
        self.q[self.sent] = Some(item);
        self.sent += 1;
    }
    fn flush(&mut self) -> Poll<()> {
        if self.flushed < self.sent {
            if self.blocked {
                return Poll::Pending;
            }
            self.flushed = self.sent;
        }
        Poll::Ready(())
    }
}

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut CUR_IN: (u64, *mut ()) = (0x5eed0008, ptr::null_mut());
static mut CUR_OUT: (u64, *mut ()) = (0x5eed0009, ptr::null_mut());

/// Every `Framed` created from now on talks to these two.
pub fn bind<I, O>(input: &mut In<I>, output: &mut Out<O>) {
    unsafe {
        CUR_IN.1 = input as *mut In<I> as *mut ();
        CUR_OUT.1 = output as *mut Out<O> as *mut ();
    }
}

fn poll_in<U: Decoder>(link: *mut ()) -> Poll<Option<Result<U::Item, U::Error>>> {
    let link = unsafe { &mut *(link as *mut In<U::Item>) };
    match link.take() {
        Some(item) => Poll::Ready(Some(Ok(item))),
        None if link.fail => Poll::Ready(Some(Err(io::Error::from(io::ErrorKind::InvalidData).into()))),
        None if link.eof => Poll::Ready(None),
        None => Poll::Pending,
    }
}

macro_rules! framed {
    ($name:ident) => {
        pub struct $name<T, U> {
            io: T,
            codec: U,
            input: *mut (),
            output: *mut (),
            buffer: BytesMut,
        }
        unsafe impl<T: Send, U: Send> Send for $name<T, U> {}
        unsafe impl<T: Sync, U: Sync> Sync for $name<T, U> {}
        impl<T, U> Unpin for $name<T, U> {}

        impl<T, U> $name<T, U> {
            pub fn new(io: T, codec: U) -> Self {
                $name { io, codec, input: unsafe { CUR_IN.1 }, output: unsafe { CUR_OUT.1 }, buffer: BytesMut::new() }
            }
            pub fn get_ref(&self) -> &T {
                &self.io
            }
            pub fn get_mut(&mut self) -> &mut T {
                &mut self.io
            }
            pub fn into_inner(self) -> T {
                self.io
            }
            pub fn read_buffer(&self) -> &BytesMut {
                &self.buffer
            }
        }
        impl<T, U> fmt::Debug for $name<T, U> {
            fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
    };
}
framed!(Framed);
framed!(FramedRead);
framed!(FramedWrite);

macro_rules! stream_half {
    ($name:ident) => {
        impl<T, U: Decoder> Stream for $name<T, U> {
            type Item = Result<U::Item, U::Error>;
            fn poll_next(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
                poll_in::<U>(self.input)
            }
        }
    };
}
stream_half!(Framed);
stream_half!(FramedRead);

macro_rules! sink_half {
    ($name:ident) => {
        impl<T, I, U: Encoder<I>> Sink<I> for $name<T, U> {
            type Error = U::Error;
            fn poll_ready(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
                let link = unsafe { &mut *(self.output as *mut Out<I>) };
                if link.sent - link.flushed >= link.high_water && link.flush().is_pending() {
                    return Poll::Pending;
                }
                Poll::Ready(Ok(()))
            }
            fn start_send(self: Pin<&mut Self>, item: I) -> Result<(), Self::Error> {
                let link = unsafe { &mut *(self.output as *mut Out<I>) };
                link.push(item);
                Ok(())
            }
            fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
                let link = unsafe { &mut *(self.output as *mut Out<I>) };
                link.flush().map(Ok)
            }
            fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
                let link = unsafe { &mut *(self.output as *mut Out<I>) };
                if link.flush().is_pending() {
                    return Poll::Pending;
                }
                link.closed = true;
                Poll::Ready(Ok(()))
            }
        }
    };
}
sink_half!(Framed);
sink_half!(FramedWrite);

pub struct FramedParts<T, U> {
    pub io: T,
    pub codec: U,
    pub read_buf: BytesMut,
    pub write_buf: BytesMut,
    input: *mut (),
    output: *mut (),
}

impl<T, U> FramedParts<T, U> {
    pub fn new<I>(io: T, codec: U) -> FramedParts<T, U>
    where
        U: Encoder<I>,
    {
        FramedParts {
            io,
            codec,
            read_buf: BytesMut::new(),
            write_buf: BytesMut::new(),
            input: unsafe { CUR_IN.1 },
            output: unsafe { CUR_OUT.1 },
        }
    }
}

impl<T, U> Framed<T, U> {
    pub fn from_parts(parts: FramedParts<T, U>) -> Framed<T, U> {
        Framed { io: parts.io, codec: parts.codec, input: parts.input, output: parts.output, buffer: parts.read_buf }
    }
    pub fn into_parts(self) -> FramedParts<T, U> {
        FramedParts {
            io: self.io,
            codec: self.codec,
            read_buf: self.buffer,
            write_buf: BytesMut::new(),
            input: self.input,
            output: self.output,
        }
    }
}
