//! Comparison impls of both model types.
use crate::{Bytes, BytesMut};
use alloc::{string::String, vec::Vec};
use core::cmp::Ordering;

macro_rules! cmps {
    ($t:ident) => {
        impl PartialEq for $t {
            fn eq(&self, o: &$t) -> bool {
                self.st.eq(o.st.as_slice())
            }
        }
        impl Eq for $t {}
        impl PartialOrd for $t {
            fn partial_cmp(&self, o: &$t) -> Option<Ordering> {
                self.st.as_slice().partial_cmp(o.st.as_slice())
            }
        }
        impl Ord for $t {
            fn cmp(&self, o: &$t) -> Ordering {
                self.st.as_slice().cmp(o.st.as_slice())
            }
        }
        cmps!(@ $t, [u8], |x: &[u8]| x);
        cmps!(@ $t, str, |x: &str| x.as_bytes());
        cmps!(@ $t, Vec<u8>, |x: &Vec<u8>| &x[..]);
        cmps!(@ $t, String, |x: &String| x.as_bytes());
        impl<'a, T: ?Sized> PartialEq<&'a T> for $t
        where
            $t: PartialEq<T>,
        {
            fn eq(&self, o: &&'a T) -> bool {
                *self == **o
            }
        }
        impl PartialEq<$t> for &[u8] {
            fn eq(&self, o: &$t) -> bool {
                o.st.eq(self)
            }
        }
        impl PartialEq<$t> for &str {
            fn eq(&self, o: &$t) -> bool {
                o.st.eq(self.as_bytes())
            }
        }
    };
    (@ $t:ident, $o:ty, $f:expr) => {
        impl PartialEq<$o> for $t {
            fn eq(&self, o: &$o) -> bool {
                fn conv<'a>(x: &'a $o) -> &'a [u8] { x.as_ref() }
                self.st.eq(conv(o))
            }
        }
        impl PartialEq<$t> for $o {
            fn eq(&self, o: &$t) -> bool {
                fn conv<'a>(x: &'a $o) -> &'a [u8] { x.as_ref() }
                o.st.eq(conv(self))
            }
        }
    };
}
cmps!(Bytes);
cmps!(BytesMut);
impl PartialEq<BytesMut> for Bytes {
    fn eq(&self, o: &BytesMut) -> bool {
        self.st.eq(o.st.as_slice())
    }
}
impl PartialEq<Bytes> for BytesMut {
    fn eq(&self, o: &Bytes) -> bool {
        self.st.eq(o.st.as_slice())
    }
}
