//! Offline stand-in for the crate lru: a bounded map that forgets what was used least recently.
use std::borrow::Borrow;
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hash};
use std::num::NonZeroUsize;
use std::rc::Rc;

pub type DefaultHasher = std::hash::RandomState;

struct Key<K>(Rc<K>);
impl<K: Hash> Hash for Key<K> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
impl<K: Eq> PartialEq for Key<K> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq> Eq for Key<K> {}
#[repr(transparent)]
#[derive(PartialEq, Eq, Hash)]
struct Ref<Q: ?Sized>(Q);
impl<Q: ?Sized> Ref<Q> { fn new(q: &Q) -> &Self { unsafe { &*(q as *const Q as *const Self) } } }
impl<K: Borrow<Q>, Q: ?Sized> Borrow<Ref<Q>> for Key<K> { fn borrow(&self) -> &Ref<Q> { Ref::new((*self.0).borrow()) } }

pub struct LruCache<K, V, S = DefaultHasher> {
    map: HashMap<Key<K>, (V, u64), S>,
    order: BTreeMap<u64, Rc<K>>,
    clock: u64,
    cap: NonZeroUsize,
}
unsafe impl<K: Send, V: Send, S: Send> Send for LruCache<K, V, S> {}
unsafe impl<K: Sync, V: Sync, S: Sync> Sync for LruCache<K, V, S> {}

impl<K: Hash + Eq, V> LruCache<K, V> {
    pub fn new(cap: NonZeroUsize) -> Self { Self::with_hasher(cap, DefaultHasher::new()) }
}
impl<K: Hash + Eq, V, S: BuildHasher> LruCache<K, V, S> {
    pub fn with_hasher(cap: NonZeroUsize, hasher: S) -> Self { Self { map: HashMap::with_hasher(hasher), order: BTreeMap::new(), clock: 0, cap } }
    pub fn len(&self) -> usize { self.map.len() }
    pub fn is_empty(&self) -> bool { self.map.is_empty() }
    pub fn cap(&self) -> NonZeroUsize { self.cap }
    pub fn clear(&mut self) { self.map.clear(); self.order.clear(); }
    pub fn contains<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> bool where K: Borrow<Q> { self.map.contains_key(Ref::new(q)) }
    pub fn peek<Q: Hash + Eq + ?Sized>(&self, q: &Q) -> Option<&V> where K: Borrow<Q> { self.map.get(Ref::new(q)).map(|x| &x.0) }
    pub fn get<Q: Hash + Eq + ?Sized>(&mut self, q: &Q) -> Option<&V> where K: Borrow<Q> {
        let e = self.map.get_mut(Ref::new(q))?;
        let k = self.order.remove(&e.1).unwrap();
        self.clock += 1;
        e.1 = self.clock;
        self.order.insert(self.clock, k);
        Some(&e.0)
    }
    pub fn put(&mut self, k: K, v: V) -> Option<V> {
        let k = Rc::new(k);
        self.clock += 1;
        let old = self.map.remove(Ref::new(&*k)).map(|(v, t)| { self.order.remove(&t); v });
        if old.is_none() && self.map.len() >= self.cap.get() {
            let (_, last) = self.order.pop_first().unwrap();
            self.map.remove(Ref::new(&*last));
        }
        self.order.insert(self.clock, k.clone());
        self.map.insert(Key(k), (v, self.clock));
        old
    }
    pub fn push(&mut self, k: K, v: V) { self.put(k, v); }
    pub fn pop<Q: Hash + Eq + ?Sized>(&mut self, q: &Q) -> Option<V> where K: Borrow<Q> {
        self.map.remove(Ref::new(q)).map(|(v, t)| { self.order.remove(&t); v })
    }
    pub fn get_or_insert(&mut self, k: K, f: impl FnOnce() -> V) -> &V {
        let k2 = Rc::new(k);
        if self.contains(&*k2) {
            let t = self.map.get(Ref::new(&*k2)).unwrap().1;
            let k3 = self.order.remove(&t).unwrap();
            self.clock += 1;
            self.order.insert(self.clock, k3);
            let e = self.map.get_mut(Ref::new(&*k2)).unwrap();
            e.1 = self.clock;
            return &e.0;
        }
        let v = f();
        let Ok(k) = Rc::try_unwrap(k2) else { unreachable!() };
        self.put(k, v);
        let (_, last) = self.order.last_key_value().unwrap();
        &self.map.get(Ref::new(&**last)).unwrap().0
    }
    pub fn get_or_insert_ref<Q>(&mut self, q: &Q, f: impl FnOnce() -> V) -> &V
    where
        K: Borrow<Q>,
        Q: ToOwned<Owned = K> + Hash + Eq + ?Sized,
    {
        self.get_or_insert(q.to_owned(), f)
    }
}
