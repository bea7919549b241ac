use crate::map::{HashMap, IntoKeys, Keys};
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::iter::FusedIterator;

pub struct HashSet<T, S = RandomState> {
    m: HashMap<T, (), S>,
}
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<T, S> HashSet<T, S> {
    pub const fn with_hasher(hasher: S) -> Self {
        HashSet { m: HashMap::with_hasher(hasher) }
    }
    pub fn with_capacity_and_hasher(_: usize, hasher: S) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn capacity(&self) -> usize {
        self.m.capacity()
    }
    pub fn hasher(&self) -> &S {
        self.m.hasher()
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { it: self.m.keys() }
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<T> {
        self.m.drain().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.m.retain(|k, _| f(k))
    }
    pub fn extract_if<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> std::vec::IntoIter<T> {
        self.m.extract_if(|k, _| f(k)).map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
}
pub type Refs<'a, T> = std::vec::IntoIter<&'a T>;
pub type Difference<'a, T> = Refs<'a, T>;
pub type Union<'a, T> = Refs<'a, T>;
pub type Intersection<'a, T> = Refs<'a, T>;
pub type SymmetricDifference<'a, T> = Refs<'a, T>;
impl<T: Eq + Hash, S: BuildHasher> HashSet<T, S> {
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _: usize) {}
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, S>) -> Difference<'a, T> {
        self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter()
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, S>) -> SymmetricDifference<'a, T> {
        self.difference(o).chain(o.difference(self)).collect::<Vec<_>>().into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, S>) -> Intersection<'a, T> {
        let (a, b) = if self.len() <= o.len() { (self, o) } else { (o, self) };
        a.iter().filter(|x| b.contains(*x)).collect::<Vec<_>>().into_iter()
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, S>) -> Union<'a, T> {
        let (a, b) = if self.len() >= o.len() { (self, o) } else { (o, self) };
        a.iter().chain(b.difference(a)).collect::<Vec<_>>().into_iter()
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.contains_key(k)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.m.get_key_value(k).map(|x| x.0)
    }
    pub fn is_disjoint(&self, o: &HashSet<T, S>) -> bool {
        self.intersection(o).next().is_none()
    }
    pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
        self.len() <= o.len() && self.difference(o).next().is_none()
    }
    pub fn is_superset(&self, o: &HashSet<T, S>) -> bool {
        o.is_subset(self)
    }
    pub fn insert(&mut self, t: T) -> bool {
        if self.m.contains_key(&t) {
            return false;
        }
        self.m.insert(t, ());
        true
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        let old = self.m.remove_entry(&t).map(|x| x.0);
        self.m.insert(t, ());
        old
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.remove(k).is_some()
    }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.m.remove_entry(k).map(|x| x.0)
    }
}
impl<T: Clone, S: Clone> Clone for HashSet<T, S> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone() }
    }
}
impl<T: Eq + Hash, S: BuildHasher> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.m == o.m
    }
}
impl<T: Eq + Hash, S: BuildHasher> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
impl<T, S: Default> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet { m: HashMap::default() }
    }
}
impl<T: Eq + Hash, S: BuildHasher + Default> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = Self::default();
        s.extend(it);
        s
    }
}
impl<T: Eq + Hash, S: BuildHasher> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.insert(t);
        }
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, S: BuildHasher> Extend<&'a T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for t in it {
            self.insert(*t);
        }
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        a.into_iter().collect()
    }
}
pub type IntoIter<T> = IntoKeys<T, ()>;
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        self.m.into_keys()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
pub struct Iter<'a, T> {
    it: Keys<'a, T, ()>,
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
impl<T> Clone for Iter<'_, T> {
    fn clone(&self) -> Self {
        Iter { it: self.it.clone() }
    }
}
impl<T> ExactSizeIterator for Iter<'_, T> {}
impl<T> FusedIterator for Iter<'_, T> {}
impl<T: fmt::Debug> fmt::Debug for Iter<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
macro_rules! op {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<T: Eq + Hash + Clone, S: BuildHasher + Default> std::ops::$tr<&HashSet<T, S>> for &HashSet<T, S> {
            type Output = HashSet<T, S>;
            fn $f(self, o: &HashSet<T, S>) -> HashSet<T, S> {
                self.$m(o).cloned().collect()
            }
        }
    };
}
op!(BitOr, bitor, union);
op!(BitAnd, bitand, intersection);
op!(BitXor, bitxor, symmetric_difference);
op!(Sub, sub, difference);
