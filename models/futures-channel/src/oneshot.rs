use core::fmt;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use futures_core::future::FusedFuture;

struct Inner<T> {
    complete: bool,
    data: Option<T>,
    rx: Option<Waker>,
    tx: Option<Waker>,
}
impl<T> Inner<T> {
    fn finish(&mut self) {
        self.complete = true;
        if let Some(w) = self.rx.take() {
            w.wake();
        }
        if let Some(w) = self.tx.take() {
            w.wake();
        }
    }
}
pub struct Sender<T>(*mut Inner<T>);
pub struct Receiver<T>(*mut Inner<T>);
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
impl<T> Unpin for Sender<T> {}
impl<T> Unpin for Receiver<T> {}

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let p = Box::into_raw(Box::new(Inner {
        complete: false,
        data: None,
        rx: None,
        tx: None,
    }));
    (Sender(p), Receiver(p))
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Canceled;
impl fmt::Display for Canceled {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("oneshot canceled")
    }
}
impl std::error::Error for Canceled {}

impl<T> Sender<T> {
    fn inner(&self) -> &mut Inner<T> {
        unsafe { &mut *self.0 }
    }
    pub fn send(self, t: T) -> Result<(), T> {
        if self.inner().complete {
            return Err(t);
        }
        self.inner().data = Some(t);
        Ok(())
    }
    pub fn poll_canceled(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        if self.inner().complete {
            Poll::Ready(())
        } else {
            self.inner().tx = Some(cx.waker().clone());
            Poll::Pending
        }
    }
    pub fn is_canceled(&self) -> bool {
        self.inner().complete
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.inner().finish();
    }
}
impl<T> Receiver<T> {
    fn inner(&self) -> &mut Inner<T> {
        unsafe { &mut *self.0 }
    }
    pub fn close(&mut self) {
        self.inner().finish();
    }
    pub fn try_recv(&mut self) -> Result<Option<T>, Canceled> {
        if self.inner().complete {
            match self.inner().data.take() {
                Some(t) => Ok(Some(t)),
                None => Err(Canceled),
            }
        } else {
            Ok(None)
        }
    }
}
impl<T> Future for Receiver<T> {
    type Output = Result<T, Canceled>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.inner().complete {
            match self.inner().data.take() {
                Some(t) => Poll::Ready(Ok(t)),
                None => Poll::Ready(Err(Canceled)),
            }
        } else {
            self.inner().rx = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}
impl<T> FusedFuture for Receiver<T> {
    fn is_terminated(&self) -> bool {
        self.inner().complete && self.inner().data.is_none()
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.inner().finish();
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
