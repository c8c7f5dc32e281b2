//! The encrypted channel over a transport that delivers, delays, cuts and changes frames.  The cipher
//! is the harness's own: it counts the frames, so that bytes decrypted out of turn do not match.
use crate::{
    sym, wake,
    wire::{Io, Wire, FULL},
};
use bytes::BytesMut;
use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};
use tentacle_secio::{
    codec::secure_stream::SecureStream,
    crypto::{BoxStreamCipher, StreamCipher},
    error::SecioError,
    verif_probe,
};
use tokio::io::{AsyncRead, AsyncWrite};

/// Refuses frame number `bad`.
struct Counted {
    n: u8,
    bad: u8,
    in_place: bool,
}
impl Counted {
    fn mask(&self) -> u8 {
        self.n * 37 + 11
    }
}
impl StreamCipher for Counted {
    fn encrypt(&mut self, input: &[u8]) -> Result<Vec<u8>, SecioError> {
        self.n += 1;
        let mut out = Vec::with_capacity(input.len() + 1);
        let mut i = 0;
        while i < input.len() {
            out.push(input[i] ^ self.mask());
            i += 1;
        }
        out.push(self.n);
        Ok(out)
    }
    fn decrypt(&mut self, input: &[u8]) -> Result<Vec<u8>, SecioError> {
        self.n += 1;
        if self.n == self.bad {
            return Err(SecioError::FrameTooShort);
        }
        let len = input.len() - 1;
        let mut out = Vec::with_capacity(len);
        let mut i = 0;
        while i < len {
            out.push(input[i] ^ self.mask());
            i += 1;
        }
        Ok(out)
    }
    fn is_in_place(&self) -> bool {
        self.in_place
    }
    fn decrypt_in_place(&mut self, input: &mut BytesMut) -> Result<(), SecioError> {
        self.n += 1;
        if self.n == self.bad {
            return Err(SecioError::FrameTooShort);
        }
        let len = input.len() - 1;
        input.truncate(len);
        let mut i = 0;
        while i < len {
            input[i] ^= self.mask();
            i += 1;
        }
        Ok(())
    }
}

/// One end of a channel.
fn end(w: &mut Wire, in_place: bool, bad: u8, nonce: &[u8]) -> SecureStream<Io> {
    let cipher = |bad| -> BoxStreamCipher { Box::new(Counted { n: 0, bad, in_place }) };
    verif_probe::secure_stream(w.io(), cipher(bad), cipher(0), nonce.to_vec())
}

fn data<const N: usize>() -> [u8; N] {
    let mut d = [0; N];
    for i in 0..N {
        d[i] = sym::u8();
    }
    d
}

/// `None`: pending.  `Some(None)`: an error.
fn read(s: &mut SecureStream<Io>, buf: &mut [u8]) -> Option<Option<usize>> {
    let w = wake::waker(0);
    match Pin::new(s).poll_read(&mut Context::from_waker(&w), buf) {
        Poll::Pending => None,
        Poll::Ready(Ok(n)) => Some(Some(n)),
        Poll::Ready(Err(e)) => {
            std::mem::forget(e);
            Some(None)
        }
    }
}
fn write(s: &mut SecureStream<Io>, buf: &[u8]) -> Option<Option<usize>> {
    let w = wake::waker(0);
    match Pin::new(s).poll_write(&mut Context::from_waker(&w), buf) {
        Poll::Pending => None,
        Poll::Ready(Ok(n)) => Some(Some(n)),
        Poll::Ready(Err(e)) => {
            std::mem::forget(e);
            Some(None)
        }
    }
}

/// Messages of `n1` and `n2` bytes arrive as written, whatever the size of the reader's buffer.
/// With `late` the second one arrives after the first has been read in part.
fn deliver(n1: usize, n2: usize, buf: usize, in_place: bool, late: bool) {
    let (mut wa, mut wb) = (Wire::new(), Wire::new());
    let mut a = end(&mut wa, in_place, 0, &[]);
    let mut b = end(&mut wb, in_place, 0, &[]);
    let all = data::<6>();
    assert!(write(&mut a, &all[..n1]) == Some(Some(n1)), "write");
    assert!(write(&mut a, &all[n1..n1 + n2]) == Some(Some(n2)), "write");
    let first = wa.pop().expect("a frame per write");
    let second = wa.pop().expect("a frame per write");
    assert!(wa.pop().is_none(), "a frame per write");
    wb.push(&first);
    if !late {
        wb.push(&second);
    }
    let mut got = 0;
    for step in 0..n1 + n2 {
        if got < n1 + n2 {
            if late && step > 0 && got <= n1 && got + buf >= n1 {
                wb.push(&second);
            }
            let mut out = [0u8; 6];
            match read(&mut b, &mut out[..buf]) {
                Some(Some(n)) => {
                    assert!(n > 0 && n <= buf && got + n <= n1 + n2, "read size");
                    for i in 0..n {
                        assert!(out[i] == all[got + i], "bytes in order");
                    }
                    got += n;
                }
                _ => panic!("data that has arrived is read"),
            }
        }
    }
    assert!(got == n1 + n2, "everything arrives");
    let mut out = [0u8; 6];
    assert!(read(&mut b, &mut out[..buf]).is_none(), "nothing more to read");
    wb.set_eof();
    assert!(read(&mut b, &mut out[..buf]) == Some(None), "the end of the transport is an error");
    std::mem::forget((a, b));
}

/// The transport refuses data for a while: what was accepted arrives, what was refused does not.
fn blocked(in_place: bool, full: bool) {
    let (mut wa, mut wb) = (Wire::new(), Wire::new());
    let mut a = end(&mut wa, in_place, 0, &[]);
    let mut b = end(&mut wb, in_place, 0, &[]);
    let d = data::<3>();
    let mut fill = [0u8; FULL];
    fill[0] = d[0];
    let first = if full { FULL } else { 1 };
    wa.block(true, full);
    assert!(write(&mut a, &fill[..first]) == Some(Some(first)), "write");
    let second = write(&mut a, &d[1..2]);
    assert!(second == if full { None } else { Some(Some(1)) }, "write to a blocked transport");
    assert!(wa.pop().is_none(), "the transport was blocked");
    wa.block(false, full);
    assert!(write(&mut a, &d[2..]) == Some(Some(1)), "write");
    let mut out = [0u8; FULL];
    for i in 0..3 {
        if i != 1 || !full {
            let n = if i == 0 { first } else { 1 };
            match wa.pop() {
                Some(f) => wb.push(&f),
                None => panic!("what was written reaches the transport"),
            }
            let mut got = 0;
            for _ in 0..4 {
                if got < n {
                    match read(&mut b, &mut out[got..n]) {
                        Some(Some(k)) => got += k,
                        _ => panic!("data that has arrived is read"),
                    }
                }
            }
            assert!(got == n && out[0] == d[i], "bytes in order");
        }
    }
    assert!(wa.pop().is_none(), "nothing else was written");
    std::mem::forget((a, b));
}

/// The cipher refuses frame `bad`: the reader gets an error and no byte of it.
fn refused(bad: u8, n: usize, buf: usize, in_place: bool) {
    let (mut wa, mut wb) = (Wire::new(), Wire::new());
    let mut a = end(&mut wa, in_place, 0, &[]);
    let mut b = end(&mut wb, in_place, bad, &[]);
    let d = data::<6>();
    let mut out = [0u8; 6];
    for k in 1..bad + 1 {
        assert!(write(&mut a, &d[..n]) == Some(Some(n)), "write");
        match wa.pop() {
            Some(f) => wb.push(&f),
            None => panic!("a frame per write"),
        }
        if k == bad {
            assert!(read(&mut b, &mut out[..buf]) == Some(None), "a bad frame is an error");
            assert!(read(&mut b, &mut out[..buf]).is_none(), "no byte of a bad frame");
        } else {
            let mut got = 0;
            for _ in 0..n {
                if got < n {
                    match read(&mut b, &mut out[..buf]) {
                        Some(Some(m)) => {
                            for i in 0..m {
                                assert!(out[i] == d[got + i], "bytes in order");
                            }
                            got += m;
                        }
                        _ => panic!("data that has arrived is read"),
                    }
                }
            }
        }
    }
    std::mem::forget((a, b));
}

const NONCE: [u8; 4] = [0x51, 0xc3, 0x0e, 0x99];

/// The peer answers with `n1` and then `n2` bytes: accepted exactly if they begin with the nonce.
/// What follows the nonce is left for the reader.
fn nonce(n1: usize, n2: usize, in_place: bool) {
    let (mut wa, mut wb) = (Wire::new(), Wire::new());
    let mut a = end(&mut wa, in_place, 0, &[]);
    let mut b = end(&mut wb, in_place, 0, &NONCE);
    let d = data::<6>();
    let mut send = |part: &[u8]| {
        if part.len() > 0 {
            assert!(write(&mut a, part) == Some(Some(part.len())), "write");
            match wa.pop() {
                Some(f) => wb.push(&f),
                None => panic!("a frame per write"),
            }
        }
    };
    send(&d[..n1]);
    send(&d[n1..n1 + n2]);
    wb.set_eof();
    let echoed = n1 + n2 >= 4 && d[0] == NONCE[0] && d[1] == NONCE[1] && d[2] == NONCE[2] && d[3] == NONCE[3];
    let answer = {
        let w = wake::waker(0);
        let mut f = std::pin::pin!(verif_probe::verify_nonce(&mut b));
        match f.as_mut().poll(&mut Context::from_waker(&w)) {
            Poll::Pending => panic!("the transport has ended"),
            Poll::Ready(Ok(())) => true,
            Poll::Ready(Err(e)) => {
                std::mem::forget(e);
                false
            }
        }
    };
    assert!(answer == echoed, "accepted exactly if the whole nonce came back");
    if answer && n1 + n2 > 4 {
        let mut out = [0u8; 6];
        let n = n1 + n2 - 4;
        assert!(read(&mut b, &mut out[..n]) == Some(Some(n)), "what follows the nonce");
        for i in 0..n {
            assert!(out[i] == d[4 + i], "what follows the nonce");
        }
    }
    std::mem::forget((a, b));
}

proofs! {
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_vec {
        cases!(u8, 0 1 2 3 4, |c| match c {
            0 => deliver(2, 1, 1, false, false),
            1 => deliver(1, 2, 2, false, true),
            2 => deliver(3, 2, 2, false, false),
            3 => deliver(3, 3, 6, false, true),
            _ => deliver(3, 1, 3, false, false),
        })
    }
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_in_place {
        cases!(u8, 0 1 2 3 4, |c| match c {
            0 => deliver(2, 1, 1, true, false),
            1 => deliver(1, 2, 2, true, true),
            2 => deliver(3, 2, 2, true, false),
            3 => deliver(3, 3, 6, true, true),
            _ => deliver(3, 1, 3, true, false),
        })
    }
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_blocked {
        cases!(u8, 0 1 2 3, |c| match c {
            0 => blocked(false, false),
            1 => blocked(false, true),
            2 => blocked(true, false),
            _ => blocked(true, true),
        })
    }
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_refused {
        cases!(u8, 0 1 2 3 4, |c| match c {
            0 => refused(1, 3, 2, false),
            1 => refused(1, 2, 6, true),
            2 => refused(2, 3, 2, false),
            3 => refused(2, 3, 2, true),
            _ => refused(2, 2, 2, false),
        })
    }
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_nonce {
        cases!(u8, 0 1 2 3 4, |c| match c {
            0 => nonce(4, 0, false),
            1 => nonce(3, 0, false),
            2 => nonce(2, 2, false),
            3 => nonce(6, 0, false),
            _ => nonce(0, 0, false),
        })
    }
    #[stub(<tentacle_secio::error::SecioError as std::fmt::Display>::fmt, crate::stubs::show)]
    #[stub(std::vec::Vec::set_len, crate::stubs::set_len)]
    9 channel_nonce_in_place {
        cases!(u8, 0 1 2 3, |c| match c {
            0 => nonce(4, 0, true),
            1 => nonce(1, 0, true),
            2 => nonce(1, 3, true),
            _ => nonce(3, 3, true),
        })
    }
}
