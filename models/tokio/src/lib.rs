//! Verification model of tokio 0.2.
//!
//! `io` is the upstream source (traits, `split`, the `*Ext` combinators).  Everything that
//! needs a reactor, a thread pool or a real clock is replaced: `time` runs on a virtual clock
//! the harness moves, `net` has no sockets, `spawn` hands the future to the harness.
#![allow(dead_code, unused_imports, deprecated, unknown_lints, missing_docs, clippy::all)]

macro_rules! ready {
    ($e:expr $(,)?) => {
        match $e {
            std::task::Poll::Ready(t) => t,
            std::task::Poll::Pending => return std::task::Poll::Pending,
        }
    };
}
macro_rules! cfg_io_util { ($($item:item)*) => { $($item)* } }
macro_rules! cfg_stream { ($($item:item)*) => { $($item)* } }
macro_rules! cfg_not_io_util { ($($item:item)*) => { } }
macro_rules! cfg_process { ($($item:item)*) => { } }

pub mod future {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};

    pub(crate) struct PollFn<F> {
        f: F,
    }
    impl<F> Unpin for PollFn<F> {}
    pub(crate) fn poll_fn<T, F>(f: F) -> PollFn<F>
    where
        F: FnMut(&mut Context<'_>) -> Poll<T>,
    {
        PollFn { f }
    }
    impl<T, F> Future for PollFn<F>
    where
        F: FnMut(&mut Context<'_>) -> Poll<T>,
    {
        type Output = T;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
            (&mut self.f)(cx)
        }
    }
}
pub mod io;
pub mod net;
pub mod prelude {
    pub use crate::io::{self, AsyncBufRead, AsyncRead, AsyncWrite};
    #[doc(no_inline)]
    pub use crate::io::{
        AsyncBufReadExt as _, AsyncReadExt as _, AsyncSeekExt as _, AsyncWriteExt as _,
    };
}
pub mod stream {
    pub use futures_core::Stream;
}
pub mod task;
pub mod time;
pub use task::spawn;
