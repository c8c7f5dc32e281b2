use crate::{buf::IntoIter, Buf, BufMut, Bytes, Store};
use core::borrow::{Borrow, BorrowMut};
use core::iter::FromIterator;
use core::ops::{Deref, DerefMut};
use core::{fmt, hash, mem};

/// Model of `bytes::BytesMut`.
pub struct BytesMut {
    pub(crate) st: Store,
}

impl BytesMut {
    pub fn with_capacity(_capacity: usize) -> BytesMut {
        BytesMut { st: Store::new() }
    }
    pub fn new() -> BytesMut {
        BytesMut { st: Store::new() }
    }
    pub fn len(&self) -> usize {
        self.st.len()
    }
    pub fn is_empty(&self) -> bool {
        self.st.len() == 0
    }
    pub fn capacity(&self) -> usize {
        self.st.capacity()
    }
    pub fn freeze(self) -> Bytes {
        Bytes { st: self.st }
    }
    pub fn split_off(&mut self, at: usize) -> BytesMut {
        BytesMut { st: self.st.split_off(at) }
    }
    pub fn split(&mut self) -> BytesMut {
        let n = self.len();
        self.split_to(n)
    }
    pub fn split_to(&mut self, at: usize) -> BytesMut {
        BytesMut { st: self.st.split_to(at) }
    }
    pub fn truncate(&mut self, len: usize) {
        self.st.truncate(len)
    }
    pub fn clear(&mut self) {
        self.st.clear()
    }
    pub fn resize(&mut self, new_len: usize, value: u8) {
        let len = self.len();
        if new_len > len {
            self.st.fill(value, new_len - len);
        } else {
            self.truncate(new_len);
        }
    }
    pub unsafe fn set_len(&mut self, len: usize) {
        self.st.set_len(len)
    }
    pub fn reserve(&mut self, _additional: usize) {}
    pub fn extend_from_slice(&mut self, extend: &[u8]) {
        self.st.extend(extend)
    }
    pub fn unsplit(&mut self, other: BytesMut) {
        self.st.extend(other.st.as_slice())
    }
}

impl Buf for BytesMut {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn bytes(&self) -> &[u8] {
        self.st.as_slice()
    }
    fn advance(&mut self, cnt: usize) {
        self.st.advance(cnt)
    }
    fn to_bytes(&mut self) -> Bytes {
        self.split().freeze()
    }
}
impl BufMut for BytesMut {
    fn remaining_mut(&self) -> usize {
        usize::MAX - self.len()
    }
    unsafe fn advance_mut(&mut self, cnt: usize) {
        self.st.advance_mut(cnt)
    }
    fn bytes_mut(&mut self) -> &mut [mem::MaybeUninit<u8>] {
        self.st.spare()
    }
    fn put<T: Buf>(&mut self, mut src: T)
    where
        Self: Sized,
    {
        // Every source used here is contiguous, so one copy is enough.
        let s = src.bytes();
        let l = s.len();
        self.extend_from_slice(s);
        src.advance(l);
        if src.has_remaining() {
            panic!("VERIF-MODEL-BOUND bytes put")
        }
    }
    fn put_slice(&mut self, src: &[u8]) {
        self.extend_from_slice(src);
    }
    fn put_u8(&mut self, n: u8) {
        self.extend_from_slice(&[n])
    }
    fn put_u16(&mut self, n: u16) {
        self.extend_from_slice(&n.to_be_bytes())
    }
    fn put_u32(&mut self, n: u32) {
        self.extend_from_slice(&n.to_be_bytes())
    }
}
impl AsRef<[u8]> for BytesMut {
    fn as_ref(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl Deref for BytesMut {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl AsMut<[u8]> for BytesMut {
    fn as_mut(&mut self) -> &mut [u8] {
        self.st.as_mut_slice()
    }
}
impl DerefMut for BytesMut {
    fn deref_mut(&mut self) -> &mut [u8] {
        self.st.as_mut_slice()
    }
}
impl<'a> From<&'a [u8]> for BytesMut {
    fn from(s: &'a [u8]) -> BytesMut {
        BytesMut { st: Store::from_slice(s) }
    }
}
impl<'a> From<&'a str> for BytesMut {
    fn from(s: &'a str) -> BytesMut {
        BytesMut { st: Store::from_slice(s.as_bytes()) }
    }
}
impl From<BytesMut> for Bytes {
    fn from(s: BytesMut) -> Bytes {
        s.freeze()
    }
}
impl Default for BytesMut {
    fn default() -> BytesMut {
        BytesMut::new()
    }
}
impl hash::Hash for BytesMut {
    fn hash<H: hash::Hasher>(&self, state: &mut H) {
        self.st.as_slice().hash(state);
    }
}
impl Borrow<[u8]> for BytesMut {
    fn borrow(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl BorrowMut<[u8]> for BytesMut {
    fn borrow_mut(&mut self) -> &mut [u8] {
        self.st.as_mut_slice()
    }
}
impl fmt::Write for BytesMut {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.extend_from_slice(s.as_bytes());
        Ok(())
    }
}
impl Clone for BytesMut {
    fn clone(&self) -> BytesMut {
        BytesMut { st: self.st }
    }
}
impl IntoIterator for BytesMut {
    type Item = u8;
    type IntoIter = IntoIter<BytesMut>;
    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}
impl<'a> IntoIterator for &'a BytesMut {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;
    fn into_iter(self) -> Self::IntoIter {
        self.st.as_slice().iter()
    }
}
impl Extend<u8> for BytesMut {
    fn extend<T: IntoIterator<Item = u8>>(&mut self, it: T) {
        for b in it {
            self.st.extend(&[b]);
        }
    }
}
impl<'a> Extend<&'a u8> for BytesMut {
    fn extend<T: IntoIterator<Item = &'a u8>>(&mut self, it: T) {
        for b in it {
            self.st.extend(&[*b]);
        }
    }
}
impl FromIterator<u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = u8>>(it: T) -> Self {
        let mut b = BytesMut::new();
        b.extend(it);
        b
    }
}
impl<'a> FromIterator<&'a u8> for BytesMut {
    fn from_iter<T: IntoIterator<Item = &'a u8>>(it: T) -> Self {
        let mut b = BytesMut::new();
        b.extend(it);
        b
    }
}
