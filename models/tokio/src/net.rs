//! No sockets in the model: constructors fail, streams never become ready.
use crate::io::{AsyncRead, AsyncWrite};
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};

fn none<T>() -> io::Result<T> {
    Err(io::ErrorKind::Other.into())
}

#[derive(Debug)]
pub struct TcpListener(());
impl TcpListener {
    pub async fn bind(_a: &SocketAddr) -> io::Result<TcpListener> {
        none()
    }
    pub fn from_std(_l: std::net::TcpListener) -> io::Result<TcpListener> {
        none()
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        none()
    }
    pub fn poll_accept(&mut self, _cx: &mut Context<'_>) -> Poll<io::Result<(TcpStream, SocketAddr)>> {
        Poll::Pending
    }
}
#[derive(Debug)]
pub struct TcpStream(());
impl TcpStream {
    pub async fn connect_std(_s: std::net::TcpStream, _a: &SocketAddr) -> io::Result<TcpStream> {
        none()
    }
    pub async fn connect(_a: SocketAddr) -> io::Result<TcpStream> {
        none()
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        none()
    }
}
impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, _cx: &mut Context<'_>, _b: &mut [u8]) -> Poll<io::Result<usize>> {
        Poll::Pending
    }
}
impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, _cx: &mut Context<'_>, _b: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Pending
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
    fn poll_shutdown(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Pending
    }
}
