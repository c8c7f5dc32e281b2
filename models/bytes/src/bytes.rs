use crate::{buf::IntoIter, Buf, Store};
use alloc::{boxed::Box, string::String, vec::Vec};
use core::iter::FromIterator;
use core::ops::{Bound, Deref, RangeBounds};
use core::{borrow::Borrow, hash};

/// Model of `bytes::Bytes`.
pub struct Bytes {
    pub(crate) st: Store,
}

impl Bytes {
    pub const fn new() -> Bytes {
        Bytes { st: Store::new() }
    }
    pub fn from_static(b: &'static [u8]) -> Bytes {
        Bytes { st: Store::from_slice(b) }
    }
    pub fn len(&self) -> usize {
        self.st.len()
    }
    pub fn is_empty(&self) -> bool {
        self.st.len() == 0
    }
    pub fn copy_from_slice(d: &[u8]) -> Self {
        Bytes { st: Store::from_slice(d) }
    }
    pub fn slice(&self, range: impl RangeBounds<usize>) -> Bytes {
        let len = self.len();
        let begin = match range.start_bound() {
            Bound::Included(&n) => n,
            Bound::Excluded(&n) => n + 1,
            Bound::Unbounded => 0,
        };
        let end = match range.end_bound() {
            Bound::Included(&n) => n.checked_add(1).expect("out of range"),
            Bound::Excluded(&n) => n,
            Bound::Unbounded => len,
        };
        assert!(begin <= end, "range start must not be greater than end");
        assert!(end <= len, "range end out of bounds");
        let mut st = self.st;
        st.truncate(end);
        st.advance(begin);
        Bytes { st }
    }
    pub fn slice_ref(&self, subset: &[u8]) -> Bytes {
        if subset.is_empty() {
            return Bytes::new();
        }
        let sub = subset.as_ptr() as usize - self.st.as_slice().as_ptr() as usize;
        self.slice(sub..sub + subset.len())
    }
    pub fn split_off(&mut self, at: usize) -> Bytes {
        Bytes { st: self.st.split_off(at) }
    }
    pub fn split_to(&mut self, at: usize) -> Bytes {
        Bytes { st: self.st.split_to(at) }
    }
    pub fn truncate(&mut self, len: usize) {
        self.st.truncate(len)
    }
    pub fn clear(&mut self) {
        self.st.truncate(0)
    }
}

impl Clone for Bytes {
    fn clone(&self) -> Bytes {
        Bytes { st: self.st }
    }
}
impl Buf for Bytes {
    fn remaining(&self) -> usize {
        self.len()
    }
    fn bytes(&self) -> &[u8] {
        self.st.as_slice()
    }
    fn advance(&mut self, cnt: usize) {
        self.st.advance(cnt)
    }
    fn to_bytes(&mut self) -> Bytes {
        core::mem::replace(self, Bytes::new())
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl hash::Hash for Bytes {
    fn hash<H: hash::Hasher>(&self, state: &mut H) {
        self.st.as_slice().hash(state);
    }
}
impl Borrow<[u8]> for Bytes {
    fn borrow(&self) -> &[u8] {
        self.st.as_slice()
    }
}
impl IntoIterator for Bytes {
    type Item = u8;
    type IntoIter = IntoIter<Bytes>;
    fn into_iter(self) -> Self::IntoIter {
        IntoIter::new(self)
    }
}
impl<'a> IntoIterator for &'a Bytes {
    type Item = &'a u8;
    type IntoIter = core::slice::Iter<'a, u8>;
    fn into_iter(self) -> Self::IntoIter {
        self.st.as_slice().iter()
    }
}
impl FromIterator<u8> for Bytes {
    fn from_iter<T: IntoIterator<Item = u8>>(it: T) -> Self {
        let mut st = Store::new();
        for b in it {
            st.extend(&[b]);
        }
        Bytes { st }
    }
}
impl Default for Bytes {
    fn default() -> Bytes {
        Bytes::new()
    }
}
impl From<&'static [u8]> for Bytes {
    fn from(s: &'static [u8]) -> Self {
        Bytes::from_static(s)
    }
}
impl From<&'static str> for Bytes {
    fn from(s: &'static str) -> Self {
        Bytes::from_static(s.as_bytes())
    }
}
impl From<Vec<u8>> for Bytes {
    fn from(v: Vec<u8>) -> Bytes {
        Bytes { st: Store::from_slice(&v) }
    }
}
impl From<Box<[u8]>> for Bytes {
    fn from(v: Box<[u8]>) -> Bytes {
        Bytes { st: Store::from_slice(&v) }
    }
}
impl From<String> for Bytes {
    fn from(s: String) -> Bytes {
        Bytes { st: Store::from_slice(s.as_bytes()) }
    }
}
