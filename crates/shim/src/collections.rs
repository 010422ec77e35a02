//! Fixed-capacity vector and map: no heap, so that symbolic execution stays cheap.
use crate::codec::{self, Decode, Encode, EncodeLike, Input, MaxEncodedLen, Output};
use crate::sp_runtime::traits::Get;
use core::cmp::Ordering;
use core::marker::PhantomData;
use core::mem::MaybeUninit;

#[cfg(not(feature = "wide"))]
pub const CAP: usize = 4;
#[cfg(feature = "wide")]
pub const CAP: usize = 32;

/// `Vec` with room for `CAP` elements. Elements are not dropped.
pub struct Vec<T> {
    buf: [MaybeUninit<T>; CAP],
    len: usize,
}

impl<T> Vec<T> {
    pub const fn new() -> Self {
        Vec { buf: [const { MaybeUninit::uninit() }; CAP], len: 0 }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    pub fn push(&mut self, t: T) {
        if self.len >= CAP {
            crate::out_of_bounds("vector longer than the harness allows");
        }
        self.buf[self.len] = MaybeUninit::new(t);
        self.len += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.len == 0 {
            return None;
        }
        self.len -= 1;
        Some(unsafe { self.buf[self.len].assume_init_read() })
    }
    pub fn insert(&mut self, at: usize, t: T) {
        assert!(at <= self.len);
        if self.len >= CAP {
            crate::out_of_bounds("vector longer than the harness allows");
        }
        let mut i = self.len;
        while i > at {
            self.buf[i] = MaybeUninit::new(unsafe { self.buf[i - 1].assume_init_read() });
            i -= 1;
        }
        self.buf[at] = MaybeUninit::new(t);
        self.len += 1;
    }
    pub fn remove(&mut self, at: usize) -> T {
        assert!(at < self.len);
        let t = unsafe { self.buf[at].assume_init_read() };
        let mut i = at;
        while i + 1 < self.len {
            self.buf[i] = MaybeUninit::new(unsafe { self.buf[i + 1].assume_init_read() });
            i += 1;
        }
        self.len -= 1;
        t
    }
    pub fn as_slice(&self) -> &[T] {
        self
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        self
    }
    pub fn clear(&mut self) {
        self.len = 0
    }
    pub fn truncate(&mut self, n: usize) {
        if n < self.len {
            self.len = n
        }
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        let mut out = Vec::new();
        let n = self.len;
        let mut i = 0;
        while i < n {
            let t = unsafe { self.buf[i].assume_init_read() };
            if f(&t) {
                out.push(t)
            }
            i += 1;
        }
        *self = out;
    }
    pub fn extend_from_slice(&mut self, s: &[T])
    where
        T: Clone,
    {
        for t in s {
            self.push(t.clone())
        }
    }
    pub fn append(&mut self, other: &mut Self) {
        let mut i = 0;
        while i < other.len {
            self.push(unsafe { other.buf[i].assume_init_read() });
            i += 1;
        }
        other.len = 0;
    }
}
impl<T> core::ops::Deref for Vec<T> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        unsafe { core::slice::from_raw_parts(self.buf.as_ptr() as *const T, self.len) }
    }
}
impl<T> core::ops::DerefMut for Vec<T> {
    fn deref_mut(&mut self) -> &mut [T] {
        unsafe { core::slice::from_raw_parts_mut(self.buf.as_mut_ptr() as *mut T, self.len) }
    }
}
impl<T> AsRef<[T]> for Vec<T> {
    fn as_ref(&self) -> &[T] {
        self
    }
}
impl<T: Clone> Clone for Vec<T> {
    fn clone(&self) -> Self {
        if !core::mem::needs_drop::<T>() {
            return unsafe { core::ptr::read(self) };
        }
        let mut v = Vec::new();
        for t in self.iter() {
            v.push(t.clone())
        }
        v
    }
}
impl<T> Default for Vec<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: PartialEq> PartialEq for Vec<T> {
    fn eq(&self, o: &Self) -> bool {
        if self.len != o.len {
            return false;
        }
        let mut same = true;
        let mut i = 0;
        while i < CAP && i < self.len {
            same &= self[i] == o[i];
            i += 1;
        }
        same
    }
}
impl<T: Eq> Eq for Vec<T> {}
impl<T: core::fmt::Debug> core::fmt::Debug for Vec<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}
impl<T> FromIterator<T> for Vec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut v = Vec::new();
        for t in it {
            v.push(t)
        }
        v
    }
}
impl<T> Extend<T> for Vec<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.push(t)
        }
    }
}
impl<T, const N: usize> From<[T; N]> for Vec<T> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
impl<T: Clone> From<&[T]> for Vec<T> {
    fn from(a: &[T]) -> Self {
        a.iter().cloned().collect()
    }
}

pub struct IntoIter<T> {
    v: Vec<T>,
    at: usize,
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        // the capacity bounds the loop for symbolic execution
        if self.at < CAP && self.at < self.v.len {
            self.at += 1;
            Some(unsafe { self.v.buf[self.at - 1].assume_init_read() })
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}
impl<T> IntoIterator for Vec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter { v: self, at: 0 }
    }
}
pub struct Iter<'a, T> {
    v: &'a [T],
    at: usize,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.at < CAP && self.at < self.v.len() {
            self.at += 1;
            Some(&self.v[self.at - 1])
        } else {
            None
        }
    }
}
impl<'a, T> IntoIterator for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter { v: self, at: 0 }
    }
}
impl<T> Vec<T> {
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { v: self, at: 0 }
    }
}

/// `BoundedVec` over the vector above.
pub struct BoundedVec<T, S>(pub Vec<T>, PhantomData<S>);
impl<T, S: Get<u32>> BoundedVec<T, S> {
    pub fn new() -> Self {
        BoundedVec(Vec::new(), PhantomData)
    }
    pub fn bound() -> usize {
        S::get() as usize
    }
    pub fn try_push(&mut self, t: T) -> Result<(), T> {
        if self.0.len >= Self::bound() {
            return Err(t);
        }
        self.0.push(t);
        Ok(())
    }
    pub fn try_insert(&mut self, at: usize, t: T) -> Result<(), ()> {
        if self.0.len >= Self::bound() || at > self.0.len {
            return Err(());
        }
        self.0.insert(at, t);
        Ok(())
    }
    pub fn truncate_from(v: impl IntoIterator<Item = T>) -> Self {
        let mut b = Self::new();
        for t in v {
            if b.0.len < Self::bound() {
                b.0.push(t)
            }
        }
        b
    }
    pub fn as_slice(&self) -> &[T] {
        &self.0
    }
    pub fn iter(&self) -> Iter<'_, T> {
        self.0.iter()
    }
    pub fn into_inner(self) -> Vec<T> {
        self.0
    }
    pub fn is_full(&self) -> bool {
        self.0.len >= Self::bound()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.0.retain(f)
    }
    pub fn remove(&mut self, at: usize) -> T {
        self.0.remove(at)
    }
}
impl<T, S> core::ops::Deref for BoundedVec<T, S> {
    type Target = [T];
    fn deref(&self) -> &[T] {
        &self.0
    }
}
impl<T, S> AsRef<[T]> for BoundedVec<T, S> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T: Clone, S> Clone for BoundedVec<T, S> {
    fn clone(&self) -> Self {
        BoundedVec(self.0.clone(), PhantomData)
    }
}
impl<T, S> Default for BoundedVec<T, S> {
    fn default() -> Self {
        BoundedVec(Vec::new(), PhantomData)
    }
}
impl<T: PartialEq, S> PartialEq for BoundedVec<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq, S> Eq for BoundedVec<T, S> {}
impl<T: core::fmt::Debug, S> core::fmt::Debug for BoundedVec<T, S> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T, S: Get<u32>> TryFrom<Vec<T>> for BoundedVec<T, S> {
    type Error = Vec<T>;
    fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> {
        if v.len <= Self::bound() {
            Ok(BoundedVec(v, PhantomData))
        } else {
            Err(v)
        }
    }
}
impl<T, S: Get<u32>> TryFrom<std::vec::Vec<T>> for BoundedVec<T, S> {
    type Error = ();
    fn try_from(v: std::vec::Vec<T>) -> Result<Self, ()> {
        if v.len() <= Self::bound() {
            Ok(BoundedVec(v.into_iter().collect(), PhantomData))
        } else {
            Err(())
        }
    }
}
impl<T, S> IntoIterator for BoundedVec<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        self.0.into_iter()
    }
}
impl<'a, T, S> IntoIterator for &'a BoundedVec<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.0.iter()
    }
}

impl<T: Encode> Encode for Vec<T> {
    fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
        codec::Compact(self.len as u32).encode_to(out);
        for t in self.iter() {
            t.encode_to(out)
        }
    }
}
impl<T: Encode> EncodeLike for Vec<T> {}
impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
        let n = codec::Compact::<u32>::decode(i)?.0;
        let mut v = Vec::new();
        for _ in 0..n {
            v.push(T::decode(i)?)
        }
        Ok(v)
    }
}
impl<T: Encode, S> Encode for BoundedVec<T, S> {
    fn encode_to<O: Output + ?Sized>(&self, out: &mut O) {
        self.0.encode_to(out)
    }
}
impl<T: Encode, S> EncodeLike for BoundedVec<T, S> {}
impl<T: Decode, S> Decode for BoundedVec<T, S> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, codec::Error> {
        Ok(BoundedVec(Vec::decode(i)?, PhantomData))
    }
}
impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for BoundedVec<T, S> {
    fn max_encoded_len() -> usize {
        5 + S::get() as usize * T::max_encoded_len()
    }
}
impl<T: 'static, S: 'static> scale_info::TypeInfo for BoundedVec<T, S> {
    type Identity = Self;
    fn type_info() -> scale_info::Type {
        crate::opaque_type("BoundedVec")
    }
}
impl<T: 'static> scale_info::TypeInfo for Vec<T> {
    type Identity = Self;
    fn type_info() -> scale_info::Type {
        crate::opaque_type("Vec")
    }
}

/// `BTreeMap` over the vector above: sorted by key.
pub struct BTreeMap<K, V> {
    v: Vec<(K, V)>,
}
impl<K: Ord, V> BTreeMap<K, V> {
    pub fn new() -> Self {
        BTreeMap { v: Vec::new() }
    }
    fn find(&self, k: &K) -> Result<usize, usize> {
        let mut i = 0;
        while i < CAP && i < self.v.len {
            match self.v[i].0.cmp(k) {
                Ordering::Equal => return Ok(i),
                Ordering::Greater => return Err(i),
                Ordering::Less => {}
            }
            i += 1;
        }
        Err(i)
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        self.find(k).ok().map(|i| &self.v[i].1)
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        match self.find(k) {
            Ok(i) => Some(&mut self.v.as_mut_slice()[i].1),
            Err(_) => None,
        }
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.find(k).is_ok()
    }
    pub fn insert(&mut self, k: K, val: V) -> Option<V> {
        match self.find(&k) {
            Ok(i) => Some(core::mem::replace(&mut self.v.as_mut_slice()[i].1, val)),
            Err(i) => {
                self.v.insert(i, (k, val));
                None
            }
        }
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        self.find(k).ok().map(|i| self.v.remove(i).1)
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        Entry { m: self, k }
    }
    pub fn len(&self) -> usize {
        self.v.len
    }
    pub fn is_empty(&self) -> bool {
        self.v.len == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.v.iter().map(|e| (&e.0, &e.1))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.v.iter().map(|e| &e.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.v.iter().map(|e| &e.1)
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.v.into_iter().map(|e| e.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.v.into_iter().map(|e| e.0)
    }
}
impl<K: Ord, V> Default for BTreeMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Ord, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<(K, V)>;
    fn into_iter(self) -> IntoIter<(K, V)> {
        self.v.into_iter()
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::new();
        for (k, v) in it {
            m.insert(k, v);
        }
        m
    }
}
pub struct Entry<'a, K, V> {
    m: &'a mut BTreeMap<K, V>,
    k: K,
}
impl<'a, K: Ord, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        let i = match self.m.find(&self.k) {
            Ok(i) => i,
            Err(i) => {
                self.m.v.insert(i, (self.k, f()));
                i
            }
        };
        &mut self.m.v.as_mut_slice()[i].1
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self {
        if let Ok(i) = self.m.find(&self.k) {
            f(&mut self.m.v.as_mut_slice()[i].1)
        }
        self
    }
}
