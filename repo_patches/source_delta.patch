From 3cf40724914898efc54a86ffa985973e259382f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:37 +0000
Subject: [PATCH 01/11] Add verification hooks to yamux

Under cfg(kani) the session uses fixed-size collections, and under cfg(kani)
or cfg(p2p_verif) a module gives access to a stream without its session.
Neither flag is set in a normal build.
---
 yamux/src/lib.rs               |   4 +
 yamux/src/session.rs           |   5 +-
 yamux/src/verif_collections.rs | 794 +++++++++++++++++++++++++++++++++
 yamux/src/verif_probe.rs       |  78 ++++
 4 files changed, 880 insertions(+), 1 deletion(-)
 create mode 100644 yamux/src/verif_collections.rs
 create mode 100644 yamux/src/verif_probe.rs

diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index bf9b464..7066a10 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -15,6 +15,10 @@ pub mod session;
 // Stream module
 mod control;
 pub mod stream;
+#[cfg(kani)]
+mod verif_collections;
+#[cfg(any(kani, p2p_verif))]
+pub mod verif_probe;
 
 // Stream ID type
 pub(crate) type StreamId = u32;
diff --git a/yamux/src/session.rs b/yamux/src/session.rs
index ecf7ea0..407c685 100644
--- a/yamux/src/session.rs
+++ b/yamux/src/session.rs
@@ -2,8 +2,9 @@
 
 #[cfg(not(target_arch = "wasm32"))]
 use std::time::Instant;
+#[cfg(not(kani))]
+use std::collections::{hash_map::Entry, BTreeMap, HashMap, HashSet, VecDeque};
 use std::{
-    collections::{hash_map::Entry, BTreeMap, HashMap, HashSet, VecDeque},
     io,
     pin::Pin,
     task::{Context, Poll},
@@ -20,6 +21,8 @@ use log::{debug, log_enabled, trace};
 use tokio::prelude::{AsyncRead, AsyncWrite};
 use tokio_util::codec::Framed;
 
+#[cfg(kani)]
+use crate::verif_collections::{hash_map::Entry, BTreeMap, HashMap, HashSet, VecDeque};
 use crate::{
     config::Config,
     control::{Command, Control},
diff --git a/yamux/src/verif_collections.rs b/yamux/src/verif_collections.rs
new file mode 100644
index 0000000..21af54e
--- /dev/null
+++ b/yamux/src/verif_collections.rs
@@ -0,0 +1,794 @@
+//! Fixed-capacity collections with the part of the `std::collections` API this workspace uses.
+//!
+//! Only compiled under `cfg(kani)`, where symbolic execution of the real hash tables and heap
+//! buffers is out of reach. Exceeding a capacity panics with `VERIF-MODEL-BOUND`.
+#![allow(dead_code, missing_docs)]
+
+use std::{borrow::Borrow, fmt, iter::FromIterator, mem, ops::Index};
+
+const CAP: usize = 4;
+
+pub struct HashMap<K, V> {
+    slots: [Option<(K, V)>; CAP],
+    len: usize,
+}
+
+impl<K, V> HashMap<K, V> {
+    pub fn new() -> Self {
+        HashMap {
+            slots: [None, None, None, None],
+            len: 0,
+        }
+    }
+
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+
+    pub fn capacity(&self) -> usize {
+        CAP
+    }
+
+    pub fn len(&self) -> usize {
+        self.len
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.len == 0
+    }
+
+    pub fn shrink_to_fit(&mut self) {}
+
+    pub fn reserve(&mut self, _additional: usize) {}
+
+    pub fn clear(&mut self) {
+        *self = Self::new();
+    }
+
+    pub fn iter(&self) -> Iter<'_, K, V> {
+        Iter(&self.slots, 0)
+    }
+
+    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
+        IterMut(self.slots.iter_mut())
+    }
+
+    pub fn keys(&self) -> impl Iterator<Item = &K> {
+        self.iter().map(|(k, _)| k)
+    }
+
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.iter().map(|(_, v)| v)
+    }
+
+    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
+        self.iter_mut().map(|(_, v)| v)
+    }
+
+    pub fn drain(&mut self) -> IntoIter<K, V> {
+        mem::replace(self, Self::new()).into_iter()
+    }
+
+    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
+        for slot in self.slots.iter_mut() {
+            let keep = match slot {
+                Some((k, v)) => f(k, v),
+                None => true,
+            };
+            if !keep {
+                *slot = None;
+                self.len -= 1;
+            }
+        }
+    }
+}
+
+impl<K: Eq, V> HashMap<K, V> {
+    fn pos<Q: ?Sized + Eq>(&self, key: &Q) -> usize
+    where
+        K: Borrow<Q>,
+    {
+        let hit = |i: usize| match &self.slots[i] {
+            Some((k, _)) => k.borrow() == key,
+            None => false,
+        };
+        if hit(0) {
+            0
+        } else if hit(1) {
+            1
+        } else if hit(2) {
+            2
+        } else if hit(3) {
+            3
+        } else {
+            CAP
+        }
+    }
+
+    fn free(&self) -> usize {
+        let free = |i: usize| self.slots[i].is_none();
+        if free(0) {
+            0
+        } else if free(1) {
+            1
+        } else if free(2) {
+            2
+        } else if free(3) {
+            3
+        } else {
+            panic!("VERIF-MODEL-BOUND map capacity")
+        }
+    }
+
+    pub fn get<Q: ?Sized + Eq>(&self, key: &Q) -> Option<&V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.pos(key) {
+            CAP => None,
+            i => self.slots[i].as_ref().map(|(_, v)| v),
+        }
+    }
+
+    pub fn get_mut<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<&mut V>
+    where
+        K: Borrow<Q>,
+    {
+        match self.pos(key) {
+            CAP => None,
+            i => self.slots[i].as_mut().map(|(_, v)| v),
+        }
+    }
+
+    pub fn contains_key<Q: ?Sized + Eq>(&self, key: &Q) -> bool
+    where
+        K: Borrow<Q>,
+    {
+        self.pos(key) != CAP
+    }
+
+    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+        match self.pos(&key) {
+            CAP => {
+                let i = self.free();
+                self.slots[i] = Some((key, value));
+                self.len += 1;
+                None
+            }
+            i => self.slots[i].replace((key, value)).map(|(_, v)| v),
+        }
+    }
+
+    pub fn remove<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<V>
+    where
+        K: Borrow<Q>,
+    {
+        self.remove_entry(key).map(|(_, v)| v)
+    }
+
+    pub fn remove_entry<Q: ?Sized + Eq>(&mut self, key: &Q) -> Option<(K, V)>
+    where
+        K: Borrow<Q>,
+    {
+        match self.pos(key) {
+            CAP => None,
+            i => {
+                self.len -= 1;
+                self.slots[i].take()
+            }
+        }
+    }
+
+    pub fn entry(&mut self, key: K) -> hash_map::Entry<'_, K, V> {
+        match self.pos(&key) {
+            CAP => hash_map::Entry::Vacant(hash_map::VacantEntry { map: self, key }),
+            at => hash_map::Entry::Occupied(hash_map::OccupiedEntry { map: self, at }),
+        }
+    }
+}
+
+pub mod hash_map {
+    use super::HashMap;
+
+    pub enum Entry<'a, K, V> {
+        Occupied(OccupiedEntry<'a, K, V>),
+        Vacant(VacantEntry<'a, K, V>),
+    }
+
+    pub struct OccupiedEntry<'a, K, V> {
+        pub(super) map: &'a mut HashMap<K, V>,
+        pub(super) at: usize,
+    }
+
+    pub struct VacantEntry<'a, K, V> {
+        pub(super) map: &'a mut HashMap<K, V>,
+        pub(super) key: K,
+    }
+
+    impl<'a, K: Eq, V> OccupiedEntry<'a, K, V> {
+        pub fn get(&self) -> &V {
+            &self.map.slots[self.at].as_ref().unwrap().1
+        }
+
+        pub fn get_mut(&mut self) -> &mut V {
+            &mut self.map.slots[self.at].as_mut().unwrap().1
+        }
+
+        pub fn into_mut(self) -> &'a mut V {
+            &mut self.map.slots[self.at].as_mut().unwrap().1
+        }
+
+        pub fn insert(&mut self, value: V) -> V {
+            std::mem::replace(self.get_mut(), value)
+        }
+
+        pub fn remove(self) -> V {
+            self.map.len -= 1;
+            self.map.slots[self.at].take().unwrap().1
+        }
+    }
+
+    impl<'a, K: Eq, V> VacantEntry<'a, K, V> {
+        pub fn insert(self, value: V) -> &'a mut V {
+            let i = self.map.free();
+            self.map.slots[i] = Some((self.key, value));
+            self.map.len += 1;
+            &mut self.map.slots[i].as_mut().unwrap().1
+        }
+    }
+
+    impl<'a, K: Eq, V> Entry<'a, K, V> {
+        pub fn or_insert(self, default: V) -> &'a mut V {
+            self.or_insert_with(|| default)
+        }
+
+        pub fn or_insert_with<F: FnOnce() -> V>(self, default: F) -> &'a mut V {
+            match self {
+                Entry::Occupied(e) => e.into_mut(),
+                Entry::Vacant(e) => e.insert(default()),
+            }
+        }
+
+        pub fn or_default(self) -> &'a mut V
+        where
+            V: Default,
+        {
+            self.or_insert_with(Default::default)
+        }
+
+        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
+            if let Entry::Occupied(e) = &mut self {
+                f(e.get_mut());
+            }
+            self
+        }
+    }
+}
+
+pub struct Iter<'a, K, V>(&'a [Option<(K, V)>; CAP], usize);
+
+impl<'a, K, V> Iterator for Iter<'a, K, V> {
+    type Item = (&'a K, &'a V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        while self.1 < CAP {
+            let slot = &self.0[self.1];
+            self.1 += 1;
+            if let Some((k, v)) = slot {
+                return Some((k, v));
+            }
+        }
+        None
+    }
+}
+
+pub struct IterMut<'a, K, V>(std::slice::IterMut<'a, Option<(K, V)>>);
+
+impl<'a, K, V> Iterator for IterMut<'a, K, V> {
+    type Item = (&'a K, &'a mut V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        loop {
+            match self.0.next() {
+                Some(Some((k, v))) => return Some((k, v)),
+                Some(None) => (),
+                None => return None,
+            }
+        }
+    }
+}
+
+pub struct IntoIter<K, V>([Option<(K, V)>; CAP], usize);
+
+impl<K, V> Iterator for IntoIter<K, V> {
+    type Item = (K, V);
+
+    fn next(&mut self) -> Option<Self::Item> {
+        while self.1 < CAP {
+            let slot = self.0[self.1].take();
+            self.1 += 1;
+            if slot.is_some() {
+                return slot;
+            }
+        }
+        None
+    }
+}
+
+impl<K, V> IntoIterator for HashMap<K, V> {
+    type Item = (K, V);
+    type IntoIter = IntoIter<K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        IntoIter(self.slots, 0)
+    }
+}
+
+impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
+    type Item = (&'a K, &'a V);
+    type IntoIter = Iter<'a, K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter()
+    }
+}
+
+impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
+    type Item = (&'a K, &'a mut V);
+    type IntoIter = IterMut<'a, K, V>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        self.iter_mut()
+    }
+}
+
+impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> {
+    fn from_iter<I: IntoIterator<Item = (K, V)>>(iter: I) -> Self {
+        let mut map = Self::new();
+        map.extend(iter);
+        map
+    }
+}
+
+impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> {
+    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, iter: I) {
+        for (k, v) in iter {
+            self.insert(k, v);
+        }
+    }
+}
+
+impl<K, V> Default for HashMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<K: Clone, V: Clone> Clone for HashMap<K, V> {
+    fn clone(&self) -> Self {
+        HashMap {
+            slots: self.slots.clone(),
+            len: self.len,
+        }
+    }
+}
+
+impl<K, V> fmt::Debug for HashMap<K, V> {
+    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        Ok(())
+    }
+}
+
+impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
+    fn eq(&self, other: &Self) -> bool {
+        self.len == other.len && self.iter().all(|(k, v)| other.get(k) == Some(v))
+    }
+}
+
+impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
+
+impl<K: Eq + Borrow<Q>, Q: ?Sized + Eq, V> Index<&Q> for HashMap<K, V> {
+    type Output = V;
+
+    fn index(&self, key: &Q) -> &V {
+        self.get(key).expect("no entry found for key")
+    }
+}
+
+pub struct HashSet<T>(HashMap<T, ()>);
+
+impl<T> HashSet<T> {
+    pub fn new() -> Self {
+        HashSet(HashMap::new())
+    }
+
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+
+    pub fn capacity(&self) -> usize {
+        CAP
+    }
+
+    pub fn len(&self) -> usize {
+        self.0.len
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.0.len == 0
+    }
+
+    pub fn shrink_to_fit(&mut self) {}
+
+    pub fn clear(&mut self) {
+        self.0.clear()
+    }
+
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        self.0.keys()
+    }
+
+    pub fn drain(&mut self) -> impl Iterator<Item = T> {
+        self.0.drain().map(|(k, _)| k)
+    }
+}
+
+impl<T: Eq> HashSet<T> {
+    pub fn insert(&mut self, value: T) -> bool {
+        if self.0.contains_key(&value) {
+            return false;
+        }
+        self.0.insert(value, ()).is_none()
+    }
+
+    pub fn contains<Q: ?Sized + Eq>(&self, value: &Q) -> bool
+    where
+        T: Borrow<Q>,
+    {
+        self.0.contains_key(value)
+    }
+
+    pub fn remove<Q: ?Sized + Eq>(&mut self, value: &Q) -> bool
+    where
+        T: Borrow<Q>,
+    {
+        self.0.remove(value).is_some()
+    }
+}
+
+impl<T> Default for HashSet<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T: Clone> Clone for HashSet<T> {
+    fn clone(&self) -> Self {
+        HashSet(self.0.clone())
+    }
+}
+
+impl<T> fmt::Debug for HashSet<T> {
+    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        Ok(())
+    }
+}
+
+impl<T: Eq> PartialEq for HashSet<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.0 == other.0
+    }
+}
+
+impl<T: Eq> Eq for HashSet<T> {}
+
+impl<T> IntoIterator for HashSet<T> {
+    type Item = T;
+    type IntoIter = SetIntoIter<T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        SetIntoIter(self.0.into_iter())
+    }
+}
+
+pub struct SetIntoIter<T>(IntoIter<T, ()>);
+
+impl<T> Iterator for SetIntoIter<T> {
+    type Item = T;
+
+    fn next(&mut self) -> Option<T> {
+        self.0.next().map(|(k, _)| k)
+    }
+}
+
+impl<'a, T> IntoIterator for &'a HashSet<T> {
+    type Item = &'a T;
+    type IntoIter = SetIter<'a, T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        SetIter(self.0.iter())
+    }
+}
+
+pub struct SetIter<'a, T>(Iter<'a, T, ()>);
+
+impl<'a, T> Iterator for SetIter<'a, T> {
+    type Item = &'a T;
+
+    fn next(&mut self) -> Option<&'a T> {
+        self.0.next().map(|(k, _)| k)
+    }
+}
+
+impl<T: Eq> FromIterator<T> for HashSet<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
+        let mut set = Self::new();
+        set.extend(iter);
+        set
+    }
+}
+
+impl<T: Eq> Extend<T> for HashSet<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
+        for v in iter {
+            self.insert(v);
+        }
+    }
+}
+
+const QCAP: usize = 4;
+
+/// Ring buffer; an empty one always starts at slot 0.
+pub struct VecDeque<T> {
+    slots: [Option<T>; QCAP],
+    head: usize,
+    len: usize,
+}
+
+impl<T> VecDeque<T> {
+    pub fn new() -> Self {
+        VecDeque {
+            slots: [None, None, None, None],
+            head: 0,
+            len: 0,
+        }
+    }
+
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+
+    pub fn capacity(&self) -> usize {
+        QCAP
+    }
+
+    pub fn reserve(&mut self, _additional: usize) {}
+
+    pub fn shrink_to_fit(&mut self) {}
+
+    pub fn len(&self) -> usize {
+        self.len
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.len == 0
+    }
+
+    pub fn clear(&mut self) {
+        if self.len != 0 {
+            *self = Self::new();
+        }
+    }
+
+    fn at(&self, i: usize) -> usize {
+        (self.head + i) % QCAP
+    }
+
+    pub fn front(&self) -> Option<&T> {
+        if self.len == 0 {
+            None
+        } else {
+            self.slots[self.head].as_ref()
+        }
+    }
+
+    fn put(&mut self, at: usize, value: T) {
+        unsafe { std::ptr::write(&mut self.slots[at], Some(value)) }
+    }
+
+    fn pick(&mut self, at: usize) -> Option<T> {
+        self.len -= 1;
+        if self.len == 0 {
+            self.head = 0;
+        }
+        mem::replace(&mut self.slots[at], None)
+    }
+
+    pub fn push_back(&mut self, value: T) {
+        assert!(self.len < QCAP, "VERIF-MODEL-BOUND deque capacity");
+        self.put(self.at(self.len), value);
+        self.len += 1;
+    }
+
+    pub fn push_front(&mut self, value: T) {
+        assert!(self.len < QCAP, "VERIF-MODEL-BOUND deque capacity");
+        if self.len != 0 {
+            self.head = (self.head + QCAP - 1) % QCAP;
+        }
+        self.put(self.head, value);
+        self.len += 1;
+    }
+
+    pub fn pop_front(&mut self) -> Option<T> {
+        if self.len == 0 {
+            return None;
+        }
+        let at = self.head;
+        self.head = (at + 1) % QCAP;
+        self.pick(at)
+    }
+
+    pub fn pop_back(&mut self) -> Option<T> {
+        if self.len == 0 {
+            return None;
+        }
+        let at = self.at(self.len - 1);
+        self.pick(at)
+    }
+
+    pub fn iter(&self) -> DequeIter<'_, T> {
+        DequeIter(self, 0)
+    }
+
+    pub fn append(&mut self, other: &mut Self) {
+        while let Some(value) = other.pop_front() {
+            self.push_back(value);
+        }
+    }
+
+    pub fn drain(&mut self, _range: std::ops::RangeFull) -> DequeIntoIter<T> {
+        DequeIntoIter(mem::replace(self, Self::new()))
+    }
+
+    pub fn split_off(&mut self, at: usize) -> Self {
+        assert!(at <= self.len, "`at` out of bounds");
+        let mut head = Self::new();
+        while head.len < at {
+            match self.pop_front() {
+                Some(value) => head.push_back(value),
+                None => break,
+            }
+        }
+        mem::replace(self, head)
+    }
+}
+
+pub struct DequeIter<'a, T>(&'a VecDeque<T>, usize);
+
+impl<'a, T> Iterator for DequeIter<'a, T> {
+    type Item = &'a T;
+
+    fn next(&mut self) -> Option<&'a T> {
+        if self.1 < self.0.len {
+            let at = self.0.at(self.1);
+            self.1 += 1;
+            self.0.slots[at].as_ref()
+        } else {
+            None
+        }
+    }
+}
+
+pub struct DequeIntoIter<T>(VecDeque<T>);
+
+impl<T> Iterator for DequeIntoIter<T> {
+    type Item = T;
+
+    fn next(&mut self) -> Option<T> {
+        self.0.pop_front()
+    }
+}
+
+impl<T> IntoIterator for VecDeque<T> {
+    type Item = T;
+    type IntoIter = DequeIntoIter<T>;
+
+    fn into_iter(self) -> Self::IntoIter {
+        DequeIntoIter(self)
+    }
+}
+
+impl<T> Default for VecDeque<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T> Extend<T> for VecDeque<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
+        for value in iter {
+            self.push_back(value);
+        }
+    }
+}
+
+impl<T> FromIterator<T> for VecDeque<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
+        let mut deque = Self::new();
+        deque.extend(iter);
+        deque
+    }
+}
+
+impl<T> fmt::Debug for VecDeque<T> {
+    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        Ok(())
+    }
+}
+
+/// Iterates in slot order, not in key order.
+pub struct BTreeMap<K, V>(HashMap<K, V>);
+
+impl<K: Eq + Ord, V> BTreeMap<K, V> {
+    pub fn new() -> Self {
+        BTreeMap(HashMap::new())
+    }
+
+    pub fn len(&self) -> usize {
+        self.0.len()
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.0.is_empty()
+    }
+
+    pub fn get(&self, key: &K) -> Option<&V> {
+        self.0.get(key)
+    }
+
+    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+        self.0.insert(key, value)
+    }
+
+    pub fn remove(&mut self, key: &K) -> Option<V> {
+        self.0.remove(key)
+    }
+
+    pub fn clear(&mut self) {
+        self.0.clear()
+    }
+
+    pub fn iter(&self) -> Iter<'_, K, V> {
+        self.0.iter()
+    }
+
+    pub fn values(&self) -> impl Iterator<Item = &V> {
+        self.0.values()
+    }
+
+    pub fn split_off(&mut self, key: &K) -> Self {
+        let mut tail = HashMap::new();
+        let mut step = |i: usize| {
+            let moved = match &self.0.slots[i] {
+                Some((k, _)) => k >= key,
+                None => false,
+            };
+            if moved {
+                tail.slots[i] = self.0.slots[i].take();
+                tail.len += 1;
+                self.0.len -= 1;
+            }
+        };
+        step(0);
+        step(1);
+        step(2);
+        step(3);
+        BTreeMap(tail)
+    }
+}
+
+impl<K: Eq + Ord, V> Default for BTreeMap<K, V> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
diff --git a/yamux/src/verif_probe.rs b/yamux/src/verif_probe.rs
new file mode 100644
index 0000000..0958977
--- /dev/null
+++ b/yamux/src/verif_probe.rs
@@ -0,0 +1,78 @@
+//! Access to one stream without a session around it, for checking stream behaviour in isolation.
+//!
+//! Only compiled under `cfg(kani)` or `cfg(p2p_verif)`.
+#![allow(missing_docs)]
+
+use futures::channel::mpsc::{channel, unbounded, Sender, UnboundedReceiver};
+
+use crate::{
+    frame::Frame,
+    stream::{StreamEvent, StreamHandle, StreamState},
+};
+
+/// The session's end of a stream
+pub struct StreamProbe {
+    frames: Option<Sender<Frame>>,
+    events: UnboundedReceiver<StreamEvent>,
+}
+
+/// What a stream tells its session
+#[derive(Debug)]
+pub enum ProbeEvent {
+    Frame(Frame),
+    Closed(u32),
+    GoAway,
+}
+
+/// Typed memory for the channels whose items are private
+#[cfg(kani)]
+pub fn storage() {
+    use futures::channel::mpsc::{offer, Store};
+    static mut EVENTS: Store<StreamEvent> = [None, None, None, None, None, None, None, None];
+    unsafe { offer(0, std::ptr::addr_of_mut!(EVENTS)) };
+}
+
+/// A stream as a session creates it, opened by the remote or by the local side
+pub fn stream(id: u32, by_remote: bool, window: u32) -> (StreamHandle, StreamProbe) {
+    let (event_sender, events) = unbounded();
+    let (frames, frame_receiver) = channel(8);
+    let state = if by_remote {
+        StreamState::SynReceived
+    } else {
+        StreamState::Init
+    };
+    let mut stream = StreamHandle::new(id, event_sender, frame_receiver, state, window, window);
+    let _ignore = stream.send_window_update();
+    (
+        stream,
+        StreamProbe {
+            frames: Some(frames),
+            events,
+        },
+    )
+}
+
+impl StreamProbe {
+    /// Hand a frame to the stream
+    pub fn push(&mut self, frame: Frame) -> bool {
+        match self.frames {
+            Some(ref mut frames) => frames.try_send(frame).is_ok(),
+            None => false,
+        }
+    }
+
+    /// The session forgets the stream
+    pub fn disconnect(&mut self) {
+        self.frames = None;
+    }
+
+    /// Next event of the stream, if any
+    pub fn event(&mut self) -> Option<ProbeEvent> {
+        match self.events.try_next() {
+            Ok(Some(StreamEvent::Frame(frame))) => Some(ProbeEvent::Frame(frame)),
+            Ok(Some(StreamEvent::Closed(id))) => Some(ProbeEvent::Closed(id)),
+            Ok(Some(StreamEvent::GoAway)) => Some(ProbeEvent::GoAway),
+            _ => None,
+        }
+    }
+}
-- 
2.43.0


From 55c358f9551057a0fb2f18dc9499c6330f8cc987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:37 +0000
Subject: [PATCH 02/11] fix: apply the yamux frame size limit to data frames
 only

The length field of a ping frame is the ping id and that of a window update
is the delta. Decoding refused them when they exceeded the maximum frame
size, which ended the session, for example at the 262145th keepalive ping.
---
 yamux/src/frame.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index 25686df..aa87918 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -293,7 +293,9 @@ impl Decoder for FrameCodec {
                 let flags = Flags(header_data.get_u16());
                 let stream_id = header_data.get_u32();
                 let length = header_data.get_u32();
-                if length > self.max_frame_size {
+                // Only a data frame's length is a size, in the other frames it is a ping id,
+                // a window delta or a go away code
+                if ty == Type::Data && length > self.max_frame_size {
                     let err = io::Error::new(
                         io::ErrorKind::InvalidData,
                         format!("yamux.length={}", length),
-- 
2.43.0


From 93abbba3e0dc644a703d9d6a1cbc67669a74ff78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:37 +0000
Subject: [PATCH 03/11] fix: removing an absent yamux flag must not add it

---
 yamux/src/frame.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yamux/src/frame.rs b/yamux/src/frame.rs
index aa87918..204e648 100644
--- a/yamux/src/frame.rs
+++ b/yamux/src/frame.rs
@@ -193,7 +193,7 @@ impl Flags {
 
     /// Remove a flag
     pub fn remove(&mut self, flag: Flag) {
-        self.0 ^= flag as u16;
+        self.0 &= !(flag as u16);
     }
 
     /// Check if contains a target flag
-- 
2.43.0


From 37b710e4e3d4f7816ad3aab7c9a908469a17ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:20:44 +0000
Subject: [PATCH 04/11] fix: keep reading from a yamux stream whose write side
 is shut down

The first read after a local shutdown closed the stream entirely, so frames
the remote sent after the first one were lost.
---
 yamux/src/stream.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/yamux/src/stream.rs b/yamux/src/stream.rs
index 0c27408..4de5cfe 100644
--- a/yamux/src/stream.rs
+++ b/yamux/src/stream.rs
@@ -368,11 +368,6 @@ impl AsyncRead for StreamHandle {
         buf[..n].copy_from_slice(&b);
         match self.state {
             StreamState::RemoteClosing | StreamState::Closed | StreamState::Reset => (),
-            StreamState::LocalClosing => {
-                if self.close().is_err() {
-                    return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-                }
-            }
             _ => {
                 if self.send_window_update().is_err() {
                     return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
-- 
2.43.0


From 7313740a3894ebb7a8659e8668a9672740205358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:26 +0000
Subject: [PATCH 05/11] Size the yamux event storage hook from the channel
 capacity

---
 yamux/src/verif_probe.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yamux/src/verif_probe.rs b/yamux/src/verif_probe.rs
index 0958977..7013211 100644
--- a/yamux/src/verif_probe.rs
+++ b/yamux/src/verif_probe.rs
@@ -27,8 +27,8 @@ pub enum ProbeEvent {
 /// Typed memory for the channels whose items are private
 #[cfg(kani)]
 pub fn storage() {
-    use futures::channel::mpsc::{offer, Store};
-    static mut EVENTS: Store<StreamEvent> = [None, None, None, None, None, None, None, None];
+    use futures::channel::mpsc::{offer, Store, QCAP};
+    static mut EVENTS: Store<StreamEvent> = [const { None }; QCAP];
     unsafe { offer(0, std::ptr::addr_of_mut!(EVENTS)) };
 }
 
-- 
2.43.0


From e3767f3bbf05bedfc6e00f4e79170c3a8aa8e311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:03 +0000
Subject: [PATCH 06/11] Add verification hooks to secio

---
 secio/src/lib.rs         |  4 ++++
 secio/src/verif_probe.rs | 44 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+)
 create mode 100644 secio/src/verif_probe.rs

diff --git a/secio/src/lib.rs b/secio/src/lib.rs
index e9fef86..37cd4bb 100644
--- a/secio/src/lib.rs
+++ b/secio/src/lib.rs
@@ -21,6 +21,10 @@ mod secp256k1_compat;
 mod sha256_compat;
 /// Supported algorithms
 mod support;
+/// Access to private items for verification harnesses
+#[cfg(any(kani, p2p_verif))]
+#[doc(hidden)]
+pub mod verif_probe;
 
 /// Public key generated temporarily during the handshake
 pub type EphemeralPublicKey = Vec<u8>;
diff --git a/secio/src/verif_probe.rs b/secio/src/verif_probe.rs
new file mode 100644
index 0000000..4e57028
--- /dev/null
+++ b/secio/src/verif_probe.rs
@@ -0,0 +1,44 @@
+//! Entry points for verification harnesses to items that are not public.
+#![allow(missing_docs)]
+use crate::{
+    codec::secure_stream::SecureStream,
+    crypto::{cipher::CipherType, BoxStreamCipher},
+    dh_compat::KeyAgreement,
+    error::SecioError,
+    Digest,
+};
+use std::{cmp::Ordering, future::Future};
+use tokio::prelude::{AsyncRead, AsyncWrite};
+use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed};
+
+pub fn secure_stream<T: AsyncRead + AsyncWrite + Unpin>(
+    socket: T,
+    decode: BoxStreamCipher,
+    encode: BoxStreamCipher,
+    nonce: Vec<u8>,
+) -> SecureStream<T> {
+    let socket = Framed::new(socket, LengthDelimitedCodec::new());
+    SecureStream::new(socket, decode, encode, nonce)
+}
+
+pub fn verify_nonce<'a, T: AsyncRead + AsyncWrite + Unpin>(
+    stream: &'a mut SecureStream<T>,
+) -> impl Future<Output = Result<(), SecioError>> + 'a {
+    stream.verify_nonce()
+}
+
+pub fn select_agreement(r: Ordering, ours: &str, theirs: &str) -> Result<u8, SecioError> {
+    crate::support::select_agreement(r, ours, theirs).map(|a| match a {
+        KeyAgreement::EcdhP256 => 0,
+        KeyAgreement::EcdhP384 => 1,
+        KeyAgreement::X25519 => 2,
+    })
+}
+
+pub fn select_cipher(r: Ordering, ours: &str, theirs: &str) -> Result<CipherType, SecioError> {
+    crate::support::select_cipher(r, ours, theirs)
+}
+
+pub fn select_digest(r: Ordering, ours: &str, theirs: &str) -> Result<Digest, SecioError> {
+    crate::support::select_digest(r, ours, theirs)
+}
-- 
2.43.0


From f4bd19ddbd24e73657749199ccd8a9c3ee9d4f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:22:03 +0000
Subject: [PATCH 07/11] fix: require the whole nonce in the secio handshake

A single read accepted any prefix of the expected nonce, including none at all,
because the rest of the buffer already held the expected bytes.
---
 secio/src/codec/secure_stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secio/src/codec/secure_stream.rs b/secio/src/codec/secure_stream.rs
index fe8df5a..2a303ff 100644
--- a/secio/src/codec/secure_stream.rs
+++ b/secio/src/codec/secure_stream.rs
@@ -112,7 +112,7 @@ where
     pub(crate) async fn verify_nonce(&mut self) -> Result<(), SecioError> {
         if !self.nonce.is_empty() {
             let mut nonce = self.nonce.clone();
-            self.read(&mut nonce).await?;
+            self.read_exact(&mut nonce).await?;
 
             trace!(
                 "received nonce={}, my_nonce={}",
-- 
2.43.0


From d53be4b57c9693f81b1b27cbe41b3078a3553a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:11:36 +0000
Subject: [PATCH 08/11] Add verification hooks to tentacle

---
 tentacle/src/buffer.rs                 |   9 +-
 tentacle/src/lib.rs                    |   5 +-
 tentacle/src/protocol_handle_stream.rs |   3 +
 tentacle/src/substream.rs              |   5 +-
 tentacle/src/verif_probe.rs            | 123 +++++++++++++++++++++++++
 yamux/src/lib.rs                       |   3 +-
 6 files changed, 141 insertions(+), 7 deletions(-)
 create mode 100644 tentacle/src/verif_probe.rs

diff --git a/tentacle/src/buffer.rs b/tentacle/src/buffer.rs
index 93589ad..88d7a90 100644
--- a/tentacle/src/buffer.rs
+++ b/tentacle/src/buffer.rs
@@ -1,9 +1,10 @@
 use crate::channel::mpsc::Sender as PrioritySender;
+#[cfg(kani)]
+use crate::yamux::verif_collections::VecDeque;
 use futures::channel::mpsc::Sender;
-use std::{
-    collections::VecDeque,
-    task::{Context, Poll},
-};
+#[cfg(not(kani))]
+use std::collections::VecDeque;
+use std::task::{Context, Poll};
 
 /// If the buffer unused capacity is greater than u8 max, shrink it
 const BUF_SHRINK_THRESHOLD: usize = u8::max_value() as usize;
diff --git a/tentacle/src/lib.rs b/tentacle/src/lib.rs
index 76ad14e..72c6c5d 100644
--- a/tentacle/src/lib.rs
+++ b/tentacle/src/lib.rs
@@ -81,7 +81,7 @@
 //! [`Service`]: crate::service::Service
 //!
 
-#![deny(missing_docs)]
+#![cfg_attr(not(any(kani, p2p_verif)), deny(missing_docs))]
 #![cfg_attr(
     target_arch = "wasm32",
     allow(dead_code, unused_variables, unused_imports)
@@ -132,6 +132,9 @@ pub(crate) mod upnp;
 
 use std::{fmt, ops::AddAssign};
 
+#[cfg(any(kani, p2p_verif))]
+pub mod verif_probe;
+
 pub use substream::SubstreamReadPart;
 
 /// Index of sub/protocol stream
diff --git a/tentacle/src/protocol_handle_stream.rs b/tentacle/src/protocol_handle_stream.rs
index 3926f42..13c2182 100644
--- a/tentacle/src/protocol_handle_stream.rs
+++ b/tentacle/src/protocol_handle_stream.rs
@@ -1,5 +1,6 @@
 use futures::{channel::mpsc, SinkExt, Stream};
 use log::{debug, trace};
+#[cfg(not(kani))]
 use std::collections::HashMap;
 use std::{
     pin::Pin,
@@ -11,6 +12,8 @@ use std::{
     time::Duration,
 };
 
+#[cfg(kani)]
+use crate::yamux::verif_collections::HashMap;
 use crate::{
     context::{ProtocolContext, ServiceContext, SessionContext},
     error::ProtocolHandleErrorKind,
diff --git a/tentacle/src/substream.rs b/tentacle/src/substream.rs
index a97bb55..f78555d 100644
--- a/tentacle/src/substream.rs
+++ b/tentacle/src/substream.rs
@@ -1,7 +1,8 @@
 use futures::{channel::mpsc, prelude::*, stream::iter, SinkExt, StreamExt};
 use log::debug;
+#[cfg(not(kani))]
+use std::collections::VecDeque;
 use std::{
-    collections::VecDeque,
     io::{self, ErrorKind},
     pin::Pin,
     sync::{atomic::Ordering, Arc},
@@ -10,6 +11,8 @@ use std::{
 use tokio::prelude::{AsyncRead, AsyncWrite};
 use tokio_util::codec::{length_delimited::LengthDelimitedCodec, Framed, FramedRead, FramedWrite};
 
+#[cfg(kani)]
+use crate::yamux::verif_collections::VecDeque;
 use crate::{
     buffer::{Buffer, SendResult},
     builder::BeforeReceive,
diff --git a/tentacle/src/verif_probe.rs b/tentacle/src/verif_probe.rs
new file mode 100644
index 0000000..b0651c0
--- /dev/null
+++ b/tentacle/src/verif_probe.rs
@@ -0,0 +1,123 @@
+//! Entry points for verification harnesses to items that are not public.
+#![allow(missing_docs)]
+use bytes::Bytes;
+use std::{
+    collections::HashMap,
+    sync::{atomic::AtomicBool, Arc},
+};
+
+pub use crate::{
+    buffer::{PriorityBuffer, SendResult},
+    channel::mpsc::{channel, Priority, Receiver, Sender},
+    protocol_handle_stream::{ServiceProtocolEvent, ServiceProtocolStream},
+};
+use crate::{
+    context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext},
+    multiaddr::Multiaddr,
+    secio::PublicKey,
+    service::{
+        config::BlockingFlag, event::ServiceTask, future_task::BoxedFutureTask, SessionType,
+        TargetSession,
+    },
+    session::SessionEvent,
+    traits::ServiceProtocol,
+    ProtocolId, SessionId,
+};
+
+/// What a protocol handler asked its service to do
+pub enum Task {
+    Message(SessionId, ProtocolId, Bytes),
+    Disconnect(SessionId),
+    Other,
+}
+
+/// The service's end of a protocol handler
+pub struct Tasks(Receiver<ServiceTask>);
+
+impl Tasks {
+    pub fn next(&mut self) -> Option<(bool, Task)> {
+        let (priority, task) = self.0.try_next().ok()??;
+        let task = match task {
+            ServiceTask::ProtocolMessage {
+                target: TargetSession::Single(id),
+                proto_id,
+                data,
+            } => Task::Message(id, proto_id, data),
+            ServiceTask::Disconnect { session_id } => Task::Disconnect(session_id),
+            _ => Task::Other,
+        };
+        Some((priority.is_high(), task))
+    }
+}
+
+fn service() -> (ServiceContext, Tasks) {
+    let (sender, receiver) = channel(8);
+    let closed = Arc::new(AtomicBool::new(false));
+    let context = ServiceContext::new(sender, HashMap::default(), None, closed);
+    (context, Tasks(receiver))
+}
+
+/// The context a service hands to the handler of a protocol
+pub fn protocol_context(id: ProtocolId) -> (ProtocolContext, Tasks) {
+    let (context, tasks) = service();
+    (ProtocolContext::new(context, id), tasks)
+}
+
+/// The same, about a session
+pub fn with_session<'a, 'b: 'a>(
+    context: &'b mut ProtocolContext,
+    session: &'a SessionContext,
+) -> ProtocolContextMutRef<'a> {
+    context.as_mut(session)
+}
+
+/// A session and the flag that says it is closed
+pub fn session(
+    id: SessionId,
+    address: Multiaddr,
+    ty: SessionType,
+    key: Option<PublicKey>,
+) -> (SessionContext, Arc<AtomicBool>) {
+    let closed = Arc::new(AtomicBool::new(false));
+    let context =
+        SessionContext::new(id, address, ty, key, closed.clone(), Default::default());
+    (context, closed)
+}
+
+/// A handler as a service runs it
+pub struct Handler<T> {
+    pub stream: ServiceProtocolStream<T>,
+    pub events: futures::channel::mpsc::Sender<ServiceProtocolEvent>,
+    pub shutdown: Arc<AtomicBool>,
+    pub tasks: Tasks,
+    _service: (
+        futures::channel::mpsc::Receiver<SessionEvent>,
+        futures::channel::mpsc::Receiver<BoxedFutureTask>,
+    ),
+}
+
+pub fn service_protocol<T: ServiceProtocol + Send + Unpin>(
+    handle: T,
+    id: ProtocolId,
+) -> Handler<T> {
+    let shutdown = Arc::new(AtomicBool::new(false));
+    let (events, receiver) = futures::channel::mpsc::channel(8);
+    let (context, tasks) = service();
+    let (panics, panic_events) = futures::channel::mpsc::channel(8);
+    let (timers, timer_tasks) = futures::channel::mpsc::channel(8);
+    let stream = ServiceProtocolStream::new(
+        handle,
+        context,
+        receiver,
+        (id, BlockingFlag::default()),
+        panics,
+        (shutdown.clone(), timers),
+    );
+    Handler {
+        stream,
+        events,
+        shutdown,
+        tasks,
+        _service: (panic_events, timer_tasks),
+    }
+}
diff --git a/yamux/src/lib.rs b/yamux/src/lib.rs
index 7066a10..fc1b35c 100644
--- a/yamux/src/lib.rs
+++ b/yamux/src/lib.rs
@@ -16,7 +16,8 @@ pub mod session;
 mod control;
 pub mod stream;
 #[cfg(kani)]
-mod verif_collections;
+#[allow(missing_docs)]
+pub mod verif_collections;
 #[cfg(any(kani, p2p_verif))]
 pub mod verif_probe;
 
-- 
2.43.0


From e36f8728f8d4166159fc349c77a8b0ef25b446fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:09:38 +0000
Subject: [PATCH 09/11] Add verification hooks for protocol streams

---
 tentacle/src/buffer.rs            |   2 +-
 tentacle/src/lib.rs               |   2 +
 tentacle/src/verif_collections.rs |  90 +++++++++++++++++
 tentacle/src/verif_probe.rs       | 157 +++++++++++++++++++++++++++++-
 4 files changed, 249 insertions(+), 2 deletions(-)
 create mode 100644 tentacle/src/verif_collections.rs

diff --git a/tentacle/src/buffer.rs b/tentacle/src/buffer.rs
index 88d7a90..88f993b 100644
--- a/tentacle/src/buffer.rs
+++ b/tentacle/src/buffer.rs
@@ -1,6 +1,6 @@
 use crate::channel::mpsc::Sender as PrioritySender;
 #[cfg(kani)]
-use crate::yamux::verif_collections::VecDeque;
+use crate::verif_collections::VecDeque;
 use futures::channel::mpsc::Sender;
 #[cfg(not(kani))]
 use std::collections::VecDeque;
diff --git a/tentacle/src/lib.rs b/tentacle/src/lib.rs
index 72c6c5d..b3267e4 100644
--- a/tentacle/src/lib.rs
+++ b/tentacle/src/lib.rs
@@ -132,6 +132,8 @@ pub(crate) mod upnp;
 
 use std::{fmt, ops::AddAssign};
 
+#[cfg(kani)]
+pub mod verif_collections;
 #[cfg(any(kani, p2p_verif))]
 pub mod verif_probe;
 
diff --git a/tentacle/src/verif_collections.rs b/tentacle/src/verif_collections.rs
new file mode 100644
index 0000000..e192c8e
--- /dev/null
+++ b/tentacle/src/verif_collections.rs
@@ -0,0 +1,90 @@
+//! Bounded stand-in for a `std` collection under model checking: a queue whose items live in
+//! typed memory of their own, so that it can be moved into a future cheaply.
+use futures::channel::mpsc::{claim, Store, QCAP};
+use std::ptr;
+
+pub struct VecDeque<T> {
+    slots: *mut Store<T>,
+    head: usize,
+    len: usize,
+}
+
+unsafe impl<T: Send> Send for VecDeque<T> {}
+unsafe impl<T: Sync> Sync for VecDeque<T> {}
+
+impl<T> VecDeque<T> {
+    pub fn new() -> Self {
+        VecDeque {
+            slots: ptr::null_mut(),
+            head: 0,
+            len: 0,
+        }
+    }
+
+    pub fn capacity(&self) -> usize {
+        QCAP
+    }
+
+    pub fn shrink_to_fit(&mut self) {}
+
+    pub fn len(&self) -> usize {
+        self.len
+    }
+
+    pub fn is_empty(&self) -> bool {
+        self.len == 0
+    }
+
+    /// Leaks the items.
+    pub fn clear(&mut self) {
+        self.head = 0;
+        self.len = 0;
+    }
+
+    fn put(&mut self, at: usize, value: T) {
+        assert!(self.len < QCAP, "VERIF-MODEL-BOUND deque capacity");
+        if self.slots.is_null() {
+            self.slots = unsafe { claim::<T>() } as *mut Store<T>;
+            if self.slots.is_null() {
+                self.slots = Box::into_raw(Box::new([const { None }; QCAP]));
+            }
+        }
+        unsafe { ptr::write(&mut (*self.slots)[at], Some(value)) };
+        self.len += 1;
+    }
+
+    pub fn push_back(&mut self, value: T) {
+        self.put((self.head + self.len) % QCAP, value);
+    }
+
+    pub fn push_front(&mut self, value: T) {
+        if self.len != 0 {
+            self.head = (self.head + QCAP - 1) % QCAP;
+        }
+        self.put(self.head, value);
+    }
+
+    pub fn pop_front(&mut self) -> Option<T> {
+        if self.len == 0 {
+            return None;
+        }
+        let at = self.head;
+        self.len -= 1;
+        self.head = if self.len == 0 { 0 } else { (at + 1) % QCAP };
+        unsafe { ptr::read(&(*self.slots)[at]) }
+    }
+}
+
+impl<T> Default for VecDeque<T> {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl<T> Iterator for VecDeque<T> {
+    type Item = T;
+
+    fn next(&mut self) -> Option<T> {
+        self.pop_front()
+    }
+}
diff --git a/tentacle/src/verif_probe.rs b/tentacle/src/verif_probe.rs
index b0651c0..989e466 100644
--- a/tentacle/src/verif_probe.rs
+++ b/tentacle/src/verif_probe.rs
@@ -1,17 +1,25 @@
 //! Entry points for verification harnesses to items that are not public.
 #![allow(missing_docs)]
 use bytes::Bytes;
+use futures::Stream;
 use std::{
     collections::HashMap,
+    pin::Pin,
     sync::{atomic::AtomicBool, Arc},
+    task::{Context, Poll},
 };
+use tokio::io::AsyncRead;
+use tokio_util::codec::{Framed, FramedWrite, LengthDelimitedCodec};
 
 pub use crate::{
     buffer::{PriorityBuffer, SendResult},
     channel::mpsc::{channel, Priority, Receiver, Sender},
-    protocol_handle_stream::{ServiceProtocolEvent, ServiceProtocolStream},
+    protocol_handle_stream::{
+        ServiceProtocolEvent, ServiceProtocolStream, SessionProtocolEvent,
+    },
 };
 use crate::{
+    buffer::Buffer,
     context::{ProtocolContext, ProtocolContextMutRef, ServiceContext, SessionContext},
     multiaddr::Multiaddr,
     secio::PublicKey,
@@ -20,7 +28,9 @@ use crate::{
         TargetSession,
     },
     session::SessionEvent,
+    substream::{ProtocolEvent, SubstreamBuilder, SubstreamWritePartBuilder},
     traits::ServiceProtocol,
+    yamux::StreamHandle,
     ProtocolId, SessionId,
 };
 
@@ -121,3 +131,148 @@ pub fn service_protocol<T: ServiceProtocol + Send + Unpin>(
         _service: (panic_events, timer_tasks),
     }
 }
+
+/// A protocol stream and everything around it
+pub struct Sub<S> {
+    stream: S,
+    /// What the user of the reading part does
+    reader: Option<Box<dyn FnMut(&mut Context)>>,
+    tasks: Sender<ProtocolEvent>,
+    events: futures::channel::mpsc::Receiver<ProtocolEvent>,
+    pub service_events: futures::channel::mpsc::Receiver<ServiceProtocolEvent>,
+    pub session_events: futures::channel::mpsc::Receiver<SessionProtocolEvent>,
+    context: Arc<SessionContext>,
+    id: ProtocolId,
+}
+
+/// Typed memory for the channels and queues whose items are private
+#[cfg(kani)]
+pub fn storage() {
+    use futures::channel::mpsc::{offer, Store, QCAP};
+    macro_rules! room {
+        ($($at:literal $magic:literal $type:ty,)*) => { $({
+            static mut ITEMS: (u64, Store<$type>) = ($magic, [const { None }; QCAP]);
+            unsafe { offer($at, std::ptr::addr_of_mut!(ITEMS.1)) };
+        })* };
+    }
+    room! {
+        1 0x5eed_0030 ProtocolEvent,
+        2 0x5eed_0031 ServiceProtocolEvent,
+        3 0x5eed_0032 SessionProtocolEvent,
+        4 0x5eed_0033 ProtocolEvent,
+        5 0x5eed_0034 ServiceProtocolEvent,
+        6 0x5eed_0035 SessionProtocolEvent,
+        7 0x5eed_0036 ProtocolEvent,
+        8 0x5eed_0037 ServiceProtocolEvent,
+        9 0x5eed_0038 SessionProtocolEvent,
+    }
+}
+
+/// A protocol stream with handlers for all sessions and for its own, as a session creates it
+pub fn substream(
+    io: StreamHandle,
+    context: SessionContext,
+    id: ProtocolId,
+    room: usize,
+) -> Sub<impl Stream<Item = ()> + Unpin> {
+    let context = Arc::new(context);
+    let (tasks, task_receiver) = channel(8);
+    let (event_sender, events) = futures::channel::mpsc::channel(room);
+    let (service_sender, service_events) = futures::channel::mpsc::channel(room);
+    let (session_sender, session_events) = futures::channel::mpsc::channel(room);
+    let mut stream = SubstreamBuilder::new(event_sender, task_receiver, context.clone())
+        .proto_id(id)
+        .stream_id(1)
+        .event(true)
+        .service_proto_sender(Some(Buffer::new(service_sender)))
+        .session_proto_sender(Some(Buffer::new(session_sender)))
+        .build(Framed::new(io, LengthDelimitedCodec::new()));
+    stream.proto_open(String::new());
+    Sub {
+        stream,
+        reader: None,
+        tasks,
+        events,
+        service_events,
+        session_events,
+        context,
+        id,
+    }
+}
+
+/// The writing part of a protocol stream that the user reads directly
+pub fn write_part(
+    io: StreamHandle,
+    context: SessionContext,
+    id: ProtocolId,
+    room: usize,
+) -> Sub<impl Stream<Item = ()> + Unpin> {
+    let context = Arc::new(context);
+    let (tasks, task_receiver) = channel(8);
+    let (event_sender, events) = futures::channel::mpsc::channel(room);
+    let (_, service_events) = futures::channel::mpsc::channel(room);
+    let (_, session_events) = futures::channel::mpsc::channel(room);
+    let (mut read, write) = crate::runtime::split(io);
+    let stream = SubstreamWritePartBuilder::new(event_sender, task_receiver, context.clone())
+        .proto_id(id)
+        .stream_id(1)
+        .build(FramedWrite::new(write, LengthDelimitedCodec::new()));
+    Sub {
+        stream,
+        reader: Some(Box::new(move |cx| {
+            let mut data = [0; 8];
+            let _ignore = Pin::new(&mut read).poll_read(cx, &mut data);
+        })),
+        tasks,
+        events,
+        service_events,
+        session_events,
+        context,
+        id,
+    }
+}
+
+impl<S: Stream<Item = ()> + Unpin> Sub<S> {
+    /// Send a message as the service does
+    pub fn send(&mut self, high: bool, data: Bytes) -> bool {
+        let size = data.len();
+        let event = ProtocolEvent::Message {
+            id: 1,
+            proto_id: self.id,
+            data,
+        };
+        let sent = if high {
+            self.tasks.try_quick_send(event).is_ok()
+        } else {
+            self.tasks.try_send(event).is_ok()
+        };
+        if sent {
+            self.context.incr_pending_data_size(size);
+        }
+        sent
+    }
+
+    /// Bytes accepted and not given to the transport
+    pub fn waiting(&self) -> usize {
+        self.context.pending_data_size()
+    }
+
+    pub fn poll(&mut self, cx: &mut Context) -> Poll<Option<()>> {
+        #[cfg(not(kani))]
+        if let Some(ref mut read) = self.reader {
+            read(cx);
+        }
+        Pin::new(&mut self.stream).poll_next(cx)
+    }
+
+    /// Next message for the session, if any
+    pub fn message(&mut self) -> Option<Bytes> {
+        match self.events.try_next().ok()?? {
+            ProtocolEvent::Message { data, .. } => Some(data),
+            event => {
+                std::mem::forget(event);
+                None
+            }
+        }
+    }
+}
-- 
2.43.0


From 4729eca2383b2808f31f72536f740ef59c17f7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:23:46 +0000
Subject: [PATCH 10/11] Add verification hooks for session handlers

---
 tentacle/src/verif_probe.rs | 43 +++++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/tentacle/src/verif_probe.rs b/tentacle/src/verif_probe.rs
index 989e466..7a0d17c 100644
--- a/tentacle/src/verif_probe.rs
+++ b/tentacle/src/verif_probe.rs
@@ -15,7 +15,7 @@ pub use crate::{
     buffer::{PriorityBuffer, SendResult},
     channel::mpsc::{channel, Priority, Receiver, Sender},
     protocol_handle_stream::{
-        ServiceProtocolEvent, ServiceProtocolStream, SessionProtocolEvent,
+        ServiceProtocolEvent, ServiceProtocolStream, SessionProtocolEvent, SessionProtocolStream,
     },
 };
 use crate::{
@@ -29,7 +29,7 @@ use crate::{
     },
     session::SessionEvent,
     substream::{ProtocolEvent, SubstreamBuilder, SubstreamWritePartBuilder},
-    traits::ServiceProtocol,
+    traits::{ServiceProtocol, SessionProtocol},
     yamux::StreamHandle,
     ProtocolId, SessionId,
 };
@@ -132,6 +132,45 @@ pub fn service_protocol<T: ServiceProtocol + Send + Unpin>(
     }
 }
 
+/// A handler as a session runs it
+pub struct SessionHandler<T> {
+    pub stream: SessionProtocolStream<T>,
+    pub events: futures::channel::mpsc::Sender<SessionProtocolEvent>,
+    pub shutdown: Arc<AtomicBool>,
+    _service: (
+        Tasks,
+        futures::channel::mpsc::Receiver<SessionEvent>,
+        futures::channel::mpsc::Receiver<BoxedFutureTask>,
+    ),
+}
+
+pub fn session_protocol<T: SessionProtocol + Send + Unpin>(
+    handle: T,
+    id: ProtocolId,
+    session: SessionContext,
+) -> SessionHandler<T> {
+    let shutdown = Arc::new(AtomicBool::new(false));
+    let (events, receiver) = futures::channel::mpsc::channel(8);
+    let (context, tasks) = service();
+    let (panics, panic_events) = futures::channel::mpsc::channel(8);
+    let (timers, timer_tasks) = futures::channel::mpsc::channel(8);
+    let stream = SessionProtocolStream::new(
+        handle,
+        context,
+        Arc::new(session),
+        receiver,
+        (id, BlockingFlag::default()),
+        panics,
+        (shutdown.clone(), timers),
+    );
+    SessionHandler {
+        stream,
+        events,
+        shutdown,
+        _service: (tasks, panic_events, timer_tasks),
+    }
+}
+
 /// A protocol stream and everything around it
 pub struct Sub<S> {
     stream: S,
-- 
2.43.0


From 7af0bc804037a1c65f4e9f967fbd8dbc70208597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:31:22 +0000
Subject: [PATCH 11/11] Complete the queues of the verification hooks

---
 tentacle/src/verif_collections.rs | 75 ++++++++++++++++++++++++++++++-
 yamux/src/verif_collections.rs    | 16 +++++++
 2 files changed, 90 insertions(+), 1 deletion(-)

diff --git a/tentacle/src/verif_collections.rs b/tentacle/src/verif_collections.rs
index e192c8e..ddb4b24 100644
--- a/tentacle/src/verif_collections.rs
+++ b/tentacle/src/verif_collections.rs
@@ -1,7 +1,7 @@
 //! Bounded stand-in for a `std` collection under model checking: a queue whose items live in
 //! typed memory of their own, so that it can be moved into a future cheaply.
 use futures::channel::mpsc::{claim, Store, QCAP};
-use std::ptr;
+use std::{fmt, iter::FromIterator, ptr};
 
 pub struct VecDeque<T> {
     slots: *mut Store<T>,
@@ -21,6 +21,12 @@ impl<T> VecDeque<T> {
         }
     }
 
+    pub fn with_capacity(_capacity: usize) -> Self {
+        Self::new()
+    }
+
+    pub fn reserve(&mut self, _additional: usize) {}
+
     pub fn capacity(&self) -> usize {
         QCAP
     }
@@ -73,6 +79,73 @@ impl<T> VecDeque<T> {
         self.head = if self.len == 0 { 0 } else { (at + 1) % QCAP };
         unsafe { ptr::read(&(*self.slots)[at]) }
     }
+
+    pub fn pop_back(&mut self) -> Option<T> {
+        if self.len == 0 {
+            return None;
+        }
+        self.len -= 1;
+        let at = (self.head + self.len) % QCAP;
+        unsafe { ptr::read(&(*self.slots)[at]) }
+    }
+
+    pub fn get(&self, i: usize) -> Option<&T> {
+        if i >= self.len {
+            return None;
+        }
+        unsafe { (*self.slots)[(self.head + i) % QCAP].as_ref() }
+    }
+
+    pub fn front(&self) -> Option<&T> {
+        self.get(0)
+    }
+
+    pub fn front_mut(&mut self) -> Option<&mut T> {
+        if self.len == 0 {
+            return None;
+        }
+        unsafe { (*self.slots)[self.head].as_mut() }
+    }
+
+    pub fn back(&self) -> Option<&T> {
+        self.get(self.len.wrapping_sub(1))
+    }
+
+    pub fn iter(&self) -> impl Iterator<Item = &T> {
+        (0..self.len).filter_map(move |i| self.get(i))
+    }
+
+    pub fn append(&mut self, other: &mut Self) {
+        while let Some(value) = other.pop_front() {
+            self.push_back(value);
+        }
+    }
+
+    pub fn drain(&mut self, _range: std::ops::RangeFull) -> Self {
+        std::mem::take(self)
+    }
+}
+
+impl<T> Extend<T> for VecDeque<T> {
+    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {
+        for value in iter {
+            self.push_back(value);
+        }
+    }
+}
+
+impl<T> FromIterator<T> for VecDeque<T> {
+    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {
+        let mut queue = Self::new();
+        queue.extend(iter);
+        queue
+    }
+}
+
+impl<T> fmt::Debug for VecDeque<T> {
+    fn fmt(&self, _f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        Ok(())
+    }
 }
 
 impl<T> Default for VecDeque<T> {
diff --git a/yamux/src/verif_collections.rs b/yamux/src/verif_collections.rs
index 21af54e..674289b 100644
--- a/yamux/src/verif_collections.rs
+++ b/yamux/src/verif_collections.rs
@@ -592,6 +592,22 @@ impl<T> VecDeque<T> {
         }
     }
 
+    pub fn front_mut(&mut self) -> Option<&mut T> {
+        if self.len == 0 {
+            None
+        } else {
+            self.slots[self.head].as_mut()
+        }
+    }
+
+    pub fn back(&self) -> Option<&T> {
+        if self.len == 0 {
+            None
+        } else {
+            self.slots[self.at(self.len - 1)].as_ref()
+        }
+    }
+
     fn put(&mut self, at: usize, value: T) {
         unsafe { std::ptr::write(&mut self.slots[at], Some(value)) }
     }
-- 
2.43.0

