// Assumed contract for std::collections::HashMap (a dependency of the generated code): a
// finite map keyed by equality, with room for 2 entries (as many instantiations as any proof
// below stores; the model panics if it ever overflows).  Used by the generic-method proofs
// only: there, a scratch copy of the sources is made on every run in which the path
// `std::collections::hash_map::` of the generated code is redirected here.
#![allow(missing_docs, unused, unreachable_pub, clippy::all)]
// Invariant: `used` == `kv.is_some()`; the flag keeps control flow free of pointer tests.
#[derive(Clone, Debug)]
struct Slot<K, V> { used: bool, kv: Option<(K, V)> }
impl<K, V> Slot<K, V> {
    const fn free() -> Self { Slot { used: false, kv: None } }
    fn full(&self) -> bool { self.used }
    fn has(&self, k: &K) -> bool where K: Eq { self.used && match &self.kv { Some(p) => p.0 == *k, None => false } }
    fn val(&self) -> &V { match &self.kv { Some(p) => &p.1, None => unreachable!() } }
    fn val_mut(&mut self) -> &mut V { match &mut self.kv { Some(p) => &mut p.1, None => unreachable!() } }
    fn pair(&self) -> Option<(&K, &V)> { if self.used { match &self.kv { Some(p) => Some((&p.0, &p.1)), None => None } } else { None } }
    fn pair_mut(&mut self) -> Option<(&K, &mut V)> { if self.used { match &mut self.kv { Some(p) => Some((&p.0, &mut p.1)), None => None } } else { None } }
    fn take(&mut self) -> Option<(K, V)> { if self.used { self.used = false; self.kv.take() } else { None } }
    fn put(&mut self, k: K, v: V) { self.used = true; core::mem::forget(core::mem::replace(&mut self.kv, Some((k, v)))) }
}
#[derive(Clone, Debug)]
pub struct HashMap<K, V> { a: Slot<K, V>, b: Slot<K, V> }
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { a: Slot::free(), b: Slot::free() } } }
pub struct Drain<'a, K, V> { m: &'a mut HashMap<K, V> }
impl<'a, K, V> Iterator for Drain<'a, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { self.m.pop() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.m.len(), Some(self.m.len())) }
}
impl<'a, K, V> Drop for Drain<'a, K, V> {
    fn drop(&mut self) { self.m.clear(); }
}
pub struct IntoIter<K, V> { m: HashMap<K, V> }
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> { self.m.pop() }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.m.len(), Some(self.m.len())) }
}
pub struct Entry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
impl<'a, K: Eq, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        let slot = self.m.slot(&self.k);
        if !slot.full() { let v = f(); slot.put(self.k, v); }
        slot.val_mut()
    }
    pub fn or_insert(self, x: V) -> &'a mut V { self.or_insert_with(|| x) }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn key(&self) -> &K { &self.k }
}
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_n: usize) -> Self { Self::default() }
    fn pop(&mut self) -> Option<(K, V)> {
        if self.a.full() { self.a.take() } else if self.b.full() { self.b.take() } else { None }
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> { Drain { m: self } }
    pub fn clear(&mut self) { if self.a.full() { drop(self.a.take()) } if self.b.full() { drop(self.b.take()) } }
    pub fn len(&self) -> usize { self.a.full() as usize + self.b.full() as usize }
    pub fn is_empty(&self) -> bool { !self.a.full() && !self.b.full() }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> { self.a.pair().into_iter().chain(self.b.pair()) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.a.pair_mut().into_iter().chain(self.b.pair_mut()) }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.iter().map(|p| p.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.iter().map(|p| p.1) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.iter_mut().map(|p| p.1) }
}
impl<K: Eq, V> HashMap<K, V> {
    /// The slot holding `k`, else the first free one.
    fn slot(&mut self, k: &K) -> &mut Slot<K, V> {
        if self.a.has(k) { return &mut self.a }
        if self.b.has(k) { return &mut self.b }
        if !self.a.full() { return &mut self.a }
        if !self.b.full() { return &mut self.b }
        panic!("HashMap model: more than 2 entries")
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        if self.a.has(k) { return Some(self.a.val()) }
        if self.b.has(k) { return Some(self.b.val()) }
        None
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        if self.a.has(k) { return Some(self.a.val_mut()) }
        if self.b.has(k) { return Some(self.b.val_mut()) }
        None
    }
    pub fn contains_key(&self, k: &K) -> bool { self.a.has(k) || self.b.has(k) }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> { Entry { m: self, k } }
    pub fn remove(&mut self, k: &K) -> Option<V> { if self.contains_key(k) { self.slot(k).take().map(|p| p.1) } else { None } }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let s = self.slot(&k);
        let old = s.take().map(|p| p.1);
        s.put(k, v);
        old
    }
}
impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> Self::IntoIter { IntoIter { m: self } }
}
