use core::fmt;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, Waker};
use futures_core::stream::{FusedStream, Stream};
#[cfg(feature = "sink")]
use futures_sink::Sink;

pub const QCAP: usize = 12;
const PARKED: usize = 4;

struct Task {
    is_parked: bool,
    task: Option<Waker>,
}
impl Task {
    fn notify(&mut self) {
        self.is_parked = false;
        if let Some(t) = self.task.take() {
            t.wake();
        }
    }
}

/// Channel state.  Not generic (items are boxed), so that channels can live in typed statics,
/// which the model checker handles far better than untyped heap blocks.
struct Inner {
    store: *mut (),
    buf: [*mut (); QCAP],
    head: usize,
    len: usize,
    bound: Option<usize>,
    open: bool,
    senders: usize,
    parked: [*mut Task; PARKED],
    nparked: usize,
    recv: Option<Waker>,
}

const POOL: usize = 12;
const EMPTY: Inner = Inner {
    store: core::ptr::null_mut(),
    buf: [core::ptr::null_mut(); QCAP],
    head: 0,
    len: 0,
    bound: None,
    open: true,
    senders: 1,
    parked: [core::ptr::null_mut(); PARKED],
    nparked: 0,
    recv: None,
};
static mut CHANNELS: [Inner; POOL] = [EMPTY; POOL];
// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut NCHANNELS: (u64, usize) = (0x5eed0002, 0);
const NOTASK: Task = Task { is_parked: false, task: None };
static mut TASKS: [Task; POOL] = [NOTASK; POOL];
static mut NTASKS: (u64, usize) = (0x5eed0003, 0);

/// Typed storage for the items of one channel.  A crate under verification may offer it for item
/// types whose copies through untyped heap memory the model checker cannot follow precisely.
pub type Store<T> = [Option<T>; QCAP];
const STORES: usize = 12;
static mut STORE_KEY: (u64, [u64; STORES]) = (0x5eed0004, [0; STORES]);
static mut STORE_PTR: (u64, [*mut (); STORES]) = (0x5eed0005, [core::ptr::null_mut(); STORES]);

struct Key<T>(core::marker::PhantomData<T>);
impl<T> Key<T> {
    const VALUE: u64 = {
        let name = core::any::type_name::<T>().as_bytes();
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        let mut i = 0;
        while i < name.len() {
            h = (h ^ name[i] as u64).wrapping_mul(0x0100_0000_01b3);
            i += 1;
        }
        h
    };
}
/// Offers storage number `at` for the next channel of `T`.
pub unsafe fn offer<T>(at: usize, p: *mut Store<T>) {
    STORE_KEY.1[at] = Key::<T>::VALUE;
    STORE_PTR.1[at] = p as *mut ();
}
/// Takes storage offered for `T`; null if there is none.
pub unsafe fn claim<T>() -> *mut () {
    macro_rules! slots {
        ($($i:literal)*) => { $(
            if STORE_KEY.1[$i] == Key::<T>::VALUE {
                STORE_KEY.1[$i] = 0;
                return STORE_PTR.1[$i];
            }
        )* };
    }
    slots!(0 1 2 3 4 5 6 7 8 9 10 11);
    core::ptr::null_mut()
}

impl Inner {
    fn new<T>(bound: Option<usize>) -> *mut Inner {
        unsafe {
            let i = NCHANNELS.1;
            NCHANNELS.1 += 1;
            assert!(i < POOL, "VERIF-MODEL-BOUND number of channels");
            CHANNELS[i].bound = bound;
            CHANNELS[i].store = claim::<T>();
            core::ptr::addr_of_mut!(CHANNELS[i])
        }
    }
    fn push<T>(&mut self, t: T) {
        assert!(self.len < QCAP, "VERIF-MODEL-BOUND channel capacity");
        let i = (self.head + self.len) % QCAP;
        if self.store.is_null() {
            self.buf[i] = Box::into_raw(Box::new(t)) as *mut ();
        } else {
            unsafe { core::ptr::write(&mut (*(self.store as *mut Store<T>))[i], Some(t)) };
        }
        self.len += 1;
        if let Some(w) = self.recv.take() {
            w.wake();
        }
    }
    fn pop<T>(&mut self) -> Option<T> {
        if self.len == 0 {
            return None;
        }
        let t = if self.store.is_null() {
            Some(unsafe { core::ptr::read(self.buf[self.head] as *mut T) })
        } else {
            unsafe { core::ptr::read(&(*(self.store as *mut Store<T>))[self.head]) }
        };
        self.head = (self.head + 1) % QCAP;
        self.len -= 1;
        if self.len == 0 {
            self.head = 0;
        }
        t
    }
    fn park(&mut self, t: *mut Task) {
        assert!(self.nparked < PARKED, "VERIF-MODEL-BOUND parked senders");
        self.parked[self.nparked] = t;
        self.nparked += 1;
    }
    fn unpark_one(&mut self) {
        if self.nparked > 0 {
            let t = self.parked[0];
            self.parked[0] = self.parked[1];
            self.parked[1] = self.parked[2];
            self.parked[2] = self.parked[3];
            self.nparked -= 1;
            unsafe { (*t).notify() };
        }
    }
    fn close(&mut self) {
        self.open = false;
        if let Some(w) = self.recv.take() {
            w.wake();
        }
    }
    fn next_message<T>(&mut self) -> Poll<Option<T>> {
        match self.pop() {
            Some(t) => {
                if self.bound.is_some() {
                    self.unpark_one();
                }
                Poll::Ready(Some(t))
            }
            None => {
                if !self.open {
                    Poll::Ready(None)
                } else {
                    Poll::Pending
                }
            }
        }
    }
}

pub struct Sender<T> {
    inner: Option<*mut Inner>,
    item: core::marker::PhantomData<T>,
    task: *mut Task,
    maybe_parked: bool,
}
pub struct UnboundedSender<T> {
    inner: Option<*mut Inner>,
    item: core::marker::PhantomData<T>,
}
pub struct Receiver<T> {
    inner: Option<*mut Inner>,
    item: core::marker::PhantomData<T>,
}
pub struct UnboundedReceiver<T> {
    inner: Option<*mut Inner>,
    item: core::marker::PhantomData<T>,
}
unsafe impl<T: Send> Send for Sender<T> {}
unsafe impl<T: Send> Sync for Sender<T> {}
unsafe impl<T: Send> Send for UnboundedSender<T> {}
unsafe impl<T: Send> Sync for UnboundedSender<T> {}
unsafe impl<T: Send> Send for Receiver<T> {}
unsafe impl<T: Send> Sync for Receiver<T> {}
unsafe impl<T: Send> Send for UnboundedReceiver<T> {}
unsafe impl<T: Send> Sync for UnboundedReceiver<T> {}
impl<T> Unpin for Sender<T> {}
impl<T> Unpin for UnboundedSender<T> {}
impl<T> Unpin for Receiver<T> {}
impl<T> Unpin for UnboundedReceiver<T> {}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct SendError {
    full: bool,
}
#[derive(Clone, PartialEq, Eq)]
pub struct TrySendError<T> {
    err: SendError,
    val: T,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Closed,
}
impl fmt::Display for SendError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for SendError {}
impl SendError {
    pub fn is_full(&self) -> bool {
        self.full
    }
    pub fn is_disconnected(&self) -> bool {
        !self.full
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<T: core::any::Any> std::error::Error for TrySendError<T> {}
impl<T> TrySendError<T> {
    pub fn is_full(&self) -> bool {
        self.err.full
    }
    pub fn is_disconnected(&self) -> bool {
        !self.err.full
    }
    pub fn into_inner(self) -> T {
        self.val
    }
    pub fn into_send_error(self) -> SendError {
        self.err
    }
}
impl fmt::Display for TryRecvError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for TryRecvError {}

fn new_task() -> *mut Task {
    unsafe {
        let i = NTASKS.1;
        NTASKS.1 += 1;
        assert!(i < POOL, "VERIF-MODEL-BOUND number of senders");
        core::ptr::addr_of_mut!(TASKS[i])
    }
}

pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
    let inner = Inner::new::<T>(Some(buffer));
    (
        Sender {
            inner: Some(inner), item: core::marker::PhantomData,
            task: new_task(),
            maybe_parked: false,
        },
        Receiver { inner: Some(inner), item: core::marker::PhantomData },
    )
}
pub fn unbounded<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
    let inner = Inner::new::<T>(None);
    (
        UnboundedSender { inner: Some(inner), item: core::marker::PhantomData },
        UnboundedReceiver { inner: Some(inner), item: core::marker::PhantomData },
    )
}

impl<T> Sender<T> {
    fn poll_unparked(&mut self, cx: Option<&mut Context<'_>>) -> Poll<()> {
        if self.maybe_parked {
            let t = unsafe { &mut *self.task };
            if !t.is_parked {
                self.maybe_parked = false;
                return Poll::Ready(());
            }
            t.task = cx.map(|cx| cx.waker().clone());
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
    pub fn try_send(&mut self, msg: T) -> Result<(), TrySendError<T>> {
        if let Some(p) = self.inner {
            if !self.poll_unparked(None).is_ready() {
                return Err(TrySendError {
                    err: SendError { full: true },
                    val: msg,
                });
            }
            let inner = unsafe { &mut *p };
            if !inner.open {
                return Err(TrySendError {
                    err: SendError { full: false },
                    val: msg,
                });
            }
            let park = inner.len + 1 > inner.bound.unwrap_or(0);
            if park {
                let t = unsafe { &mut *self.task };
                t.task = None;
                t.is_parked = true;
                inner.park(self.task);
                self.maybe_parked = true;
            }
            inner.push(msg);
            Ok(())
        } else {
            Err(TrySendError {
                err: SendError { full: false },
                val: msg,
            })
        }
    }
    pub fn start_send(&mut self, msg: T) -> Result<(), SendError> {
        self.try_send(msg).map_err(|e| e.err)
    }
    pub fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        match self.inner {
            None => Poll::Ready(Err(SendError { full: false })),
            Some(p) => {
                if !unsafe { &*p }.open {
                    return Poll::Ready(Err(SendError { full: false }));
                }
                match self.poll_unparked(Some(cx)) {
                    Poll::Ready(()) => Poll::Ready(Ok(())),
                    Poll::Pending => Poll::Pending,
                }
            }
        }
    }
    pub fn is_closed(&self) -> bool {
        match self.inner {
            None => true,
            Some(p) => !unsafe { &*p }.open,
        }
    }
    pub fn close_channel(&mut self) {
        if let Some(p) = self.inner {
            unsafe { &mut *p }.close()
        }
    }
    pub fn disconnect(&mut self) {
        self.release();
    }
    fn release(&mut self) {
        if let Some(p) = self.inner.take() {
            let inner = unsafe { &mut *p };
            inner.senders -= 1;
            if inner.senders == 0 {
                inner.close();
            }
        }
    }
    pub fn same_receiver(&self, other: &Self) -> bool {
        self.inner == other.inner && self.inner.is_some()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        if let Some(p) = self.inner {
            unsafe { &mut *p }.senders += 1;
        }
        Sender {
            inner: self.inner, item: core::marker::PhantomData,
            task: new_task(),
            maybe_parked: false,
        }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.release();
    }
}
impl<T> UnboundedSender<T> {
    pub fn poll_ready(&self, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        if self.is_closed() {
            Poll::Ready(Err(SendError { full: false }))
        } else {
            Poll::Ready(Ok(()))
        }
    }
    pub fn is_closed(&self) -> bool {
        match self.inner {
            None => true,
            Some(p) => !unsafe { &*p }.open,
        }
    }
    pub fn close_channel(&self) {
        if let Some(p) = self.inner {
            unsafe { &mut *p }.close()
        }
    }
    pub fn disconnect(&mut self) {
        self.release();
    }
    fn release(&mut self) {
        if let Some(p) = self.inner.take() {
            let inner = unsafe { &mut *p };
            inner.senders -= 1;
            if inner.senders == 0 {
                inner.close();
            }
        }
    }
    pub fn start_send(&mut self, msg: T) -> Result<(), SendError> {
        self.unbounded_send(msg).map_err(|e| e.err)
    }
    pub fn unbounded_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        if let Some(p) = self.inner {
            let inner = unsafe { &mut *p };
            if inner.open {
                inner.push(msg);
                return Ok(());
            }
        }
        Err(TrySendError {
            err: SendError { full: false },
            val: msg,
        })
    }
    pub fn same_receiver(&self, other: &Self) -> bool {
        self.inner == other.inner && self.inner.is_some()
    }
    pub fn len(&self) -> usize {
        match self.inner {
            None => 0,
            Some(p) => unsafe { &*p }.len,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<T> Clone for UnboundedSender<T> {
    fn clone(&self) -> Self {
        if let Some(p) = self.inner {
            unsafe { &mut *p }.senders += 1;
        }
        UnboundedSender { inner: self.inner, item: core::marker::PhantomData }
    }
}
impl<T> Drop for UnboundedSender<T> {
    fn drop(&mut self) {
        self.release();
    }
}
macro_rules! receiver {
    ($r:ident) => {
        impl<T> $r<T> {
            pub fn close(&mut self) {
                if let Some(p) = self.inner {
                    let inner = unsafe { &mut *p };
                    inner.open = false;
                    inner.unpark_one();
                    inner.unpark_one();
                    inner.unpark_one();
                    inner.unpark_one();
                }
            }
            pub fn try_next(&mut self) -> Result<Option<T>, TryRecvError> {
                match self.next_message() {
                    Poll::Ready(m) => Ok(m),
                    Poll::Pending => Err(TryRecvError::Empty),
                }
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                match self.next_message() {
                    Poll::Ready(Some(m)) => Ok(m),
                    Poll::Ready(None) => Err(TryRecvError::Closed),
                    Poll::Pending => Err(TryRecvError::Empty),
                }
            }
            fn next_message(&mut self) -> Poll<Option<T>> {
                match self.inner {
                    None => Poll::Ready(None),
                    Some(p) => {
                        let r = unsafe { &mut *p }.next_message();
                        if let Poll::Ready(None) = r {
                            self.inner = None;
                        }
                        r
                    }
                }
            }
        }
        impl<T> FusedStream for $r<T> {
            fn is_terminated(&self) -> bool {
                self.inner.is_none()
            }
        }
        impl<T> Stream for $r<T> {
            type Item = T;
            fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
                match self.next_message() {
                    Poll::Ready(m) => Poll::Ready(m),
                    Poll::Pending => {
                        if let Some(p) = self.inner {
                            unsafe { &mut *p }.recv = Some(cx.waker().clone());
                        }
                        Poll::Pending
                    }
                }
            }
        }
        impl<T> Drop for $r<T> {
            fn drop(&mut self) {
                self.close();
                if core::mem::needs_drop::<T>() {
                    if let Some(p) = self.inner {
                        let inner = unsafe { &mut *p };
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                        drop(inner.pop::<T>());
                    }
                }
            }
        }
        impl<T> fmt::Debug for $r<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
        }
    };
}
receiver!(Receiver);
receiver!(UnboundedReceiver);
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl<T> fmt::Debug for UnboundedSender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

#[cfg(feature = "sink")]
impl<T> Sink<T> for Sender<T> {
    type Error = SendError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        (*self).poll_ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, msg: T) -> Result<(), SendError> {
        (*self).start_send(msg)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        match (*self).poll_ready(cx) {
            Poll::Ready(Err(ref e)) if e.is_disconnected() => Poll::Ready(Ok(())),
            x => x,
        }
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        self.disconnect();
        Poll::Ready(Ok(()))
    }
}
#[cfg(feature = "sink")]
impl<T> Sink<T> for UnboundedSender<T> {
    type Error = SendError;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        Self::poll_ready(&*self, cx)
    }
    fn start_send(mut self: Pin<&mut Self>, msg: T) -> Result<(), SendError> {
        Self::start_send(&mut *self, msg)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), SendError>> {
        self.disconnect();
        Poll::Ready(Ok(()))
    }
}
