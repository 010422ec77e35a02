//! Storage items over fixed-capacity maps.
use crate::codec::{Decode, Encode, EncodeLike};
use crate::sp_runtime::traits::Get;
use core::marker::PhantomData;

/// Entries per storage map.
pub const ENTRIES: usize = 4;

/// Where a storage item lives.
pub trait Slot {
    fn slot() -> &'static mut *mut ();
}

/// Conversion of anything that encodes like `V` into `V`; what FRAME does by encoding.
pub trait Conv<V> {
    fn conv(self) -> V;
}
impl<X, V> Conv<V> for X
where
    X: EncodeLike<V>,
    V: Encode + Decode,
{
    default fn conv(self) -> V {
        self.conv2()
    }
}
impl<V: Encode + Decode + EncodeLike> Conv<V> for V {
    fn conv(self) -> V {
        self
    }
}
impl<'a, V: Encode + Decode + EncodeLike> Conv<V> for &'a V {
    fn conv(self) -> V {
        dup(self)
    }
}
trait Conv2<V> {
    fn conv2(self) -> V;
}
impl<X: EncodeLike<V>, V: Encode + Decode> Conv2<V> for X {
    default fn conv2(self) -> V {
        V::decode(&mut &self.encode()[..]).expect("encodes alike")
    }
}
impl<A: Encode + Decode, B: Encode + Decode, X: EncodeLike<A>, Y: EncodeLike<B>> Conv2<(A, B)> for (X, Y) {
    fn conv2(self) -> (A, B) {
        (self.0.conv(), self.1.conv())
    }
}
impl<'a, 'b, V: Encode + Decode + EncodeLike> Conv2<V> for &'a &'b V {
    fn conv2(self) -> V {
        dup(*self)
    }
}

/// A copy, also of types that are not `Clone`.
pub fn dup<V: Encode + Decode>(v: &V) -> V {
    if !core::mem::needs_drop::<V>() {
        unsafe { core::ptr::read(v) }
    } else {
        v.dup2()
    }
}
trait Dup {
    fn dup2(&self) -> Self;
}
impl<V: Encode + Decode> Dup for V {
    default fn dup2(&self) -> V {
        V::decode(&mut &self.encode()[..]).expect("decodes what it encodes")
    }
}
impl<V: Encode + Decode + Clone> Dup for V {
    fn dup2(&self) -> V {
        self.clone()
    }
}

pub trait QueryKind<V> {
    type Query;
    fn query(v: Option<V>) -> Self::Query;
    fn value(q: Self::Query) -> Option<V>;
}
pub struct OptionQuery;
impl<V> QueryKind<V> for OptionQuery {
    type Query = Option<V>;
    fn query(v: Option<V>) -> Option<V> {
        v
    }
    fn value(q: Option<V>) -> Option<V> {
        q
    }
}
pub struct ValueQuery;
impl<V: Default> QueryKind<V> for ValueQuery {
    type Query = V;
    fn query(v: Option<V>) -> V {
        v.unwrap_or_default()
    }
    fn value(q: V) -> Option<V> {
        Some(q)
    }
}
pub struct ResultQuery<E, G>(PhantomData<(E, G)>);
impl<V, E, G: Get<E>> QueryKind<V> for ResultQuery<E, G> {
    type Query = Result<V, E>;
    fn query(v: Option<V>) -> Result<V, E> {
        v.ok_or_else(G::get)
    }
    fn value(q: Result<V, E>) -> Option<V> {
        q.ok()
    }
}

/// Names the types of a storage item for generated getters.
pub trait Queried {
    type Query;
    type Key1;
    type Key2;
}

pub struct Table<K, V> {
    pub e: [Option<(K, V)>; ENTRIES],
}
impl<K: PartialEq, V: Encode + Decode> Table<K, V> {
    fn new() -> Self {
        Table { e: [const { None }; ENTRIES] }
    }
    pub fn get(&self, k: &K) -> Option<V> {
        let mut found = None;
        let mut i = 0;
        while i < ENTRIES {
            if let Some((key, v)) = &self.e[i] {
                if key == k {
                    found = Some(dup(v));
                }
            }
            i += 1;
        }
        found
    }
    pub fn has(&self, k: &K) -> bool {
        let mut found = false;
        let mut i = 0;
        while i < ENTRIES {
            if let Some((key, _)) = &self.e[i] {
                found |= key == k;
            }
            i += 1;
        }
        found
    }
    pub fn set(&mut self, k: K, v: Option<V>) {
        let mut at = ENTRIES;
        let mut i = 0;
        while i < ENTRIES {
            match &self.e[i] {
                Some((key, _)) if *key == k => {
                    at = i;
                    break;
                }
                _ => {}
            }
            i += 1;
        }
        if at == ENTRIES && v.is_some() {
            let mut i = 0;
            while i < ENTRIES {
                if self.e[i].is_none() {
                    at = i;
                    break;
                }
                i += 1;
            }
            if at == ENTRIES {
                crate::out_of_bounds("more storage entries than the harness allows");
            }
        }
        if at == ENTRIES {
            return;
        }
        // one write per slot keeps indices concrete
        let mut e = v.map(|v| (k, v));
        let mut i = 0;
        while i < ENTRIES {
            if i == at {
                self.e[i] = e.take();
            }
            i += 1;
        }
    }
}

fn table<P: Slot, K: 'static, V: 'static>() -> &'static mut Table<K, V> {
    unsafe { &mut *(*P::slot() as *mut Table<K, V>) }
}

pub struct StorageMap<P, H, K, V, Q = OptionQuery, G = (), M = ()>(PhantomData<(P, H, K, V, Q, G, M)>);
pub type CountedStorageMap<P, H, K, V, Q = OptionQuery> = StorageMap<P, H, K, V, Q>;

pub trait Key: Encode + Decode + PartialEq + 'static {}
impl<K: Encode + Decode + PartialEq + 'static> Key for K {}
pub trait Val: Encode + Decode + 'static {}
impl<V: Encode + Decode + 'static> Val for V {}

impl<P: Slot, H, K: Key, V: Val, Q: QueryKind<V>, G, M> Queried for StorageMap<P, H, K, V, Q, G, M> {
    type Query = Q::Query;
    type Key1 = K;
    type Key2 = ();
}
impl<P: Slot, H, K: Key, V: Val, Q: QueryKind<V>, G, M> StorageMap<P, H, K, V, Q, G, M> {
    pub fn __fresh() -> Table<K, V> {
        Table::new()
    }
    pub fn __install(t: &mut Table<K, V>) {
        *P::slot() = t as *mut _ as *mut ();
    }
    pub fn __table() -> &'static mut Table<K, V> {
        table::<P, K, V>()
    }
    pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query {
        Q::query(Self::__table().get(&k.conv()))
    }
    pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> {
        Self::__table().get(&k.conv()).ok_or(())
    }
    pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool {
        Self::__table().has(&k.conv())
    }
    pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) {
        Self::__table().set(k.conv(), Some(v.conv()))
    }
    pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) {
        Self::__table().set(k.conv(), Q::value(q))
    }
    pub fn remove<A: EncodeLike<K>>(k: A) {
        Self::__table().set(k.conv(), None)
    }
    pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query {
        let k = k.conv();
        let v = Self::__table().get(&k);
        Self::__table().set(k, None);
        Q::query(v)
    }
    pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) {
        let (a, b) = (a.conv(), b.conv());
        let (x, y) = (Self::__table().get(&a), Self::__table().get(&b));
        Self::__table().set(a, y);
        Self::__table().set(b, x);
    }
    pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R {
        let k = k.conv();
        let mut q = Q::query(Self::__table().get(&k));
        let r = f(&mut q);
        Self::__table().set(k, Q::value(q));
        r
    }
    pub fn try_mutate<A: EncodeLike<K>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(k: A, f: F) -> Result<R, E> {
        let k = k.conv();
        let mut q = Q::query(Self::__table().get(&k));
        let r = f(&mut q)?;
        Self::__table().set(k, Q::value(q));
        Ok(r)
    }
    pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R {
        let k = k.conv();
        let mut q = Self::__table().get(&k);
        let r = f(&mut q);
        Self::__table().set(k, q);
        r
    }
    pub fn try_mutate_exists<A: EncodeLike<K>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(
        k: A,
        f: F,
    ) -> Result<R, E> {
        let k = k.conv();
        let mut q = Self::__table().get(&k);
        let r = f(&mut q)?;
        Self::__table().set(k, q);
        Ok(r)
    }
    pub fn iter() -> Entries<K, V> {
        Entries { t: Self::__table(), at: 0 }
    }
    pub fn iter_values() -> impl Iterator<Item = V> {
        Self::iter().map(|e| e.1)
    }
    pub fn iter_keys() -> impl Iterator<Item = K> {
        Self::iter().map(|e| e.0)
    }
    pub fn count() -> u32 {
        let mut n = 0;
        for _ in Self::iter() {
            n += 1
        }
        n
    }
}

pub struct Entries<K: 'static, V: 'static> {
    t: &'static Table<K, V>,
    at: usize,
}
impl<K: Key, V: Val> Iterator for Entries<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        while self.at < ENTRIES {
            self.at += 1;
            if let Some((k, v)) = &self.t.e[self.at - 1] {
                return Some((dup(k), dup(v)));
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

pub struct StorageDoubleMap<P, H1, K1, H2, K2, V, Q = OptionQuery, G = (), M = ()>(
    PhantomData<(P, H1, K1, H2, K2, V, Q, G, M)>,
);
impl<P: Slot, H1, K1: Key, H2, K2: Key, V: Val, Q: QueryKind<V>, G, M> Queried
    for StorageDoubleMap<P, H1, K1, H2, K2, V, Q, G, M>
{
    type Query = Q::Query;
    type Key1 = K1;
    type Key2 = K2;
}
impl<P: Slot, H1, K1: Key, H2, K2: Key, V: Val, Q: QueryKind<V>, G, M>
    StorageDoubleMap<P, H1, K1, H2, K2, V, Q, G, M>
{
    pub fn __fresh() -> Table<(K1, K2), V> {
        Table::new()
    }
    pub fn __install(t: &mut Table<(K1, K2), V>) {
        *P::slot() = t as *mut _ as *mut ();
    }
    pub fn __table() -> &'static mut Table<(K1, K2), V> {
        table::<P, (K1, K2), V>()
    }
    pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        Q::query(Self::__table().get(&(a.conv(), b.conv())))
    }
    pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> {
        Self::__table().get(&(a.conv(), b.conv())).ok_or(())
    }
    pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool {
        Self::__table().has(&(a.conv(), b.conv()))
    }
    pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) {
        Self::__table().set((a.conv(), b.conv()), Some(v.conv()))
    }
    pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) {
        Self::__table().set((a.conv(), b.conv()), Q::value(q))
    }
    pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) {
        Self::__table().set((a.conv(), b.conv()), None)
    }
    pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query {
        let k = (a.conv(), b.conv());
        let v = Self::__table().get(&k);
        Self::__table().set(k, None);
        Q::query(v)
    }
    pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R {
        let k = (a.conv(), b.conv());
        let mut q = Q::query(Self::__table().get(&k));
        let r = f(&mut q);
        Self::__table().set(k, Q::value(q));
        r
    }
    pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, E> {
        let k = (a.conv(), b.conv());
        let mut q = Q::query(Self::__table().get(&k));
        let r = f(&mut q)?;
        Self::__table().set(k, Q::value(q));
        Ok(r)
    }
    pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(
        a: A,
        b: B,
        f: F,
    ) -> R {
        let k = (a.conv(), b.conv());
        let mut q = Self::__table().get(&k);
        let r = f(&mut q);
        Self::__table().set(k, q);
        r
    }
    pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, E, F: FnOnce(&mut Option<V>) -> Result<R, E>>(
        a: A,
        b: B,
        f: F,
    ) -> Result<R, E> {
        let k = (a.conv(), b.conv());
        let mut q = Self::__table().get(&k);
        let r = f(&mut q)?;
        Self::__table().set(k, q);
        Ok(r)
    }
    pub fn iter() -> impl Iterator<Item = (K1, K2, V)> {
        Entries { t: Self::__table(), at: 0 }.map(|((a, b), v)| (a, b, v))
    }
    pub fn iter_values() -> impl Iterator<Item = V> {
        Entries { t: Self::__table(), at: 0 }.map(|(_, v)| v)
    }
    pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> Prefixed<K1, K2, V> {
        Prefixed { t: Self::__table(), k: a.conv(), at: 0 }
    }
    pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = V> {
        Self::iter_prefix(a).map(|e| e.1)
    }
    pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = K2> {
        Self::iter_prefix(a).map(|e| e.0)
    }
    pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool {
        Self::iter_prefix(a).next().is_some()
    }
    pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> impl Iterator<Item = (K2, V)> {
        let k: K1 = a.conv();
        let mut i = 0;
        let mut out = crate::collections::Vec::new();
        while i < ENTRIES {
            let hit = matches!(&Self::__table().e[i], Some(((key, _), _)) if *key == k);
            if hit {
                if let Some(((_, b), v)) = Self::__table().e[i].take() {
                    out.push((b, v))
                }
            }
            i += 1;
        }
        out.into_iter()
    }
    pub fn clear_prefix<A: EncodeLike<K1>>(a: A, _limit: u32, _cursor: Option<&[u8]>) {
        let _ = Self::drain_prefix(a);
    }
}
pub struct Prefixed<K1: 'static, K2: 'static, V: 'static> {
    t: &'static Table<(K1, K2), V>,
    k: K1,
    at: usize,
}
impl<K1: Key, K2: Key, V: Val> Iterator for Prefixed<K1, K2, V> {
    type Item = (K2, V);
    fn next(&mut self) -> Option<(K2, V)> {
        while self.at < ENTRIES {
            self.at += 1;
            if let Some(((a, b), v)) = &self.t.e[self.at - 1] {
                if *a == self.k {
                    return Some((dup(b), dup(v)));
                }
            }
        }
        None
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

pub struct StorageValue<P, V, Q = OptionQuery, G = ()>(PhantomData<(P, V, Q, G)>);
impl<P: Slot, V: Val, Q: QueryKind<V>, G> Queried for StorageValue<P, V, Q, G> {
    type Query = Q::Query;
    type Key1 = ();
    type Key2 = ();
}
impl<P: Slot, V: Val, Q: QueryKind<V>, G> StorageValue<P, V, Q, G> {
    pub fn __fresh() -> Option<V> {
        None
    }
    pub fn __install(t: &mut Option<V>) {
        *P::slot() = t as *mut _ as *mut ();
    }
    fn cell() -> &'static mut Option<V> {
        unsafe { &mut *(*P::slot() as *mut Option<V>) }
    }
    fn read() -> Option<V> {
        Self::cell().as_ref().map(dup)
    }
    pub fn get() -> Q::Query {
        Q::query(Self::read())
    }
    pub fn exists() -> bool {
        Self::cell().is_some()
    }
    pub fn put<A: EncodeLike<V>>(v: A) {
        *Self::cell() = Some(v.conv())
    }
    pub fn set(q: Q::Query) {
        *Self::cell() = Q::value(q)
    }
    pub fn kill() {
        *Self::cell() = None
    }
    pub fn take() -> Q::Query {
        Q::query(Self::cell().take())
    }
    pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R {
        let mut q = Self::get();
        let r = f(&mut q);
        Self::set(q);
        r
    }
    pub fn try_mutate<R, E, F: FnOnce(&mut Q::Query) -> Result<R, E>>(f: F) -> Result<R, E> {
        let mut q = Self::get();
        let r = f(&mut q)?;
        Self::set(q);
        Ok(r)
    }
}
