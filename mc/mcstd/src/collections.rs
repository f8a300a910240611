//! Façade of `std::collections`: hash containers with a fixed hasher, so that executions replay.
pub use ::std::collections::*;
use ::std::collections as sc;
use ::std::hash::{BuildHasherDefault, Hash};
use ::std::ops::{Deref, DerefMut};

type H = BuildHasherDefault<sc::hash_map::DefaultHasher>;

pub struct HashMap<K, V>(sc::HashMap<K, V, H>);
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { HashMap(sc::HashMap::default()) }
    pub fn with_capacity(n: usize) -> Self { HashMap(sc::HashMap::with_capacity_and_hasher(n, H::default())) }
    pub fn into_keys(self) -> sc::hash_map::IntoKeys<K, V> { self.0.into_keys() }
    pub fn into_values(self) -> sc::hash_map::IntoValues<K, V> { self.0.into_values() }
}
impl<K, V> Deref for HashMap<K, V> { type Target = sc::HashMap<K, V, H>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<K, V> DerefMut for HashMap<K, V> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
impl<K: Clone, V: Clone> Clone for HashMap<K, V> { fn clone(&self) -> Self { HashMap(self.0.clone()) } }
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug> ::std::fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
impl<K: Eq + Hash, V: PartialEq> PartialEq for HashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq + Hash, V: Eq> Eq for HashMap<K, V> {}
impl<K: Eq + Hash, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { HashMap(i.into_iter().collect()) } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Eq + Hash, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { self.0.extend(i) } }
impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = sc::hash_map::IntoIter<K, V>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = sc::hash_map::Iter<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> { type Item = (&'a K, &'a mut V); type IntoIter = sc::hash_map::IterMut<'a, K, V>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
impl<K, V, Q: ?Sized + Eq + Hash> ::std::ops::Index<&Q> for HashMap<K, V> where K: Eq + Hash + ::std::borrow::Borrow<Q> { type Output = V; fn index(&self, q: &Q) -> &V { &self.0[q] } }
impl<'de, K: serde::Deserialize<'de> + Eq + Hash, V: serde::Deserialize<'de>> serde::Deserialize<'de> for HashMap<K, V> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { sc::HashMap::<K, V, H>::deserialize(d).map(HashMap) }
}
impl<K: serde::Serialize + Eq + Hash, V: serde::Serialize> serde::Serialize for HashMap<K, V> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { self.0.serialize(s) }
}

pub struct HashSet<K>(sc::HashSet<K, H>);
impl<K> HashSet<K> {
    pub fn new() -> Self { HashSet(sc::HashSet::default()) }
    pub fn with_capacity(n: usize) -> Self { HashSet(sc::HashSet::with_capacity_and_hasher(n, H::default())) }
}
impl<K> Deref for HashSet<K> { type Target = sc::HashSet<K, H>; fn deref(&self) -> &Self::Target { &self.0 } }
impl<K> DerefMut for HashSet<K> { fn deref_mut(&mut self) -> &mut Self::Target { &mut self.0 } }
impl<K> Default for HashSet<K> { fn default() -> Self { Self::new() } }
impl<K: Clone> Clone for HashSet<K> { fn clone(&self) -> Self { HashSet(self.0.clone()) } }
impl<K: ::std::fmt::Debug> ::std::fmt::Debug for HashSet<K> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { self.0.fmt(f) } }
impl<K: Eq + Hash> PartialEq for HashSet<K> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<K: Eq + Hash> Eq for HashSet<K> {}
impl<K: Eq + Hash> FromIterator<K> for HashSet<K> { fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self { HashSet(i.into_iter().collect()) } }
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
impl<K: Eq + Hash> Extend<K> for HashSet<K> { fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) { self.0.extend(i) } }
impl<K> IntoIterator for HashSet<K> { type Item = K; type IntoIter = sc::hash_set::IntoIter<K>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl<'a, K> IntoIterator for &'a HashSet<K> { type Item = &'a K; type IntoIter = sc::hash_set::Iter<'a, K>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
