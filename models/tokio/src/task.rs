//! Tasks: `spawn` leaks the future into a harness-visible counter instead of running it.
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::task::{Context, Poll};

#[derive(Debug)]
pub struct JoinError(());
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("join error")
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(_: JoinError) -> std::io::Error {
        std::io::ErrorKind::Other.into()
    }
}

#[derive(Debug)]
pub struct JoinHandle<T>(PhantomData<fn() -> T>);
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Pending
    }
}

// Kani keeps constants with the same bytes as a static in that static: the tag makes them differ.
static mut SPAWNED: (u64, usize) = (0x5eed000a, 0);
/// Harness view: how many futures have been handed to the executor.
pub fn model_spawned() -> usize {
    unsafe { SPAWNED.1 }
}
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    std::mem::forget(future);
    unsafe { SPAWNED.1 += 1 };
    JoinHandle(PhantomData)
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    std::mem::forget(f);
    unsafe { SPAWNED.1 += 1 };
    JoinHandle(PhantomData)
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
