use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::iter::FusedIterator;
use std::sync::Mutex;

pub struct HashMap<K, V, S = RandomState> {
    items: Vec<(K, V)>,
    /// the order in which the items are seen, once drawn
    perm: Mutex<Option<Vec<usize>>>,
    hasher: S,
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub const fn with_hasher(hasher: S) -> Self {
        HashMap { items: Vec::new(), perm: Mutex::new(None), hasher }
    }
    pub fn with_capacity_and_hasher(_: usize, hasher: S) -> Self {
        Self::with_hasher(hasher)
    }
    pub fn capacity(&self) -> usize {
        self.items.capacity()
    }
    pub fn hasher(&self) -> &S {
        &self.hasher
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    fn perm(&self) -> Vec<usize> {
        self.perm.lock().unwrap().get_or_insert_with(|| crate::control::draw(self.items.len())).clone()
    }
    fn changed(&mut self) {
        *self.perm.get_mut().unwrap() = None;
    }
    fn take_at(&mut self, i: usize) -> (K, V) {
        if let Some(p) = self.perm.get_mut().unwrap() {
            p.retain(|x| *x != i);
            for x in p.iter_mut() {
                if *x > i {
                    *x -= 1
                }
            }
        }
        self.items.remove(i)
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { order: self.perm().into_iter(), items: &self.items }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        let p = self.perm();
        let mut v: Vec<Option<(&K, &mut V)>> = self.items.iter_mut().map(|(k, v)| Some((&*k, v))).collect();
        IterMut { it: p.into_iter().map(|i| v[i].take().unwrap()).collect::<Vec<_>>().into_iter() }
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys { it: self.iter() }
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values { it: self.iter() }
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut { it: self.iter_mut() }
    }
    pub fn into_keys(self) -> IntoKeys<K, V> {
        IntoKeys { it: self.into_iter() }
    }
    pub fn into_values(self) -> IntoValues<K, V> {
        IntoValues { it: self.into_iter() }
    }
    fn take_all(&mut self) -> Vec<(K, V)> {
        let p = self.perm();
        self.changed();
        let mut v: Vec<Option<(K, V)>> = self.items.drain(..).map(Some).collect();
        p.into_iter().map(|i| v[i].take().unwrap()).collect()
    }
    pub fn drain(&mut self) -> Drain<'_, K, V> {
        Drain { it: self.take_all().into_iter(), _m: std::marker::PhantomData }
    }
    pub fn clear(&mut self) {
        self.changed();
        self.items.clear()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        // what is left keeps its order
        let all = self.take_all();
        for (k, mut v) in all {
            if f(&k, &mut v) {
                self.items.push((k, v));
            }
        }
        let n = self.items.len();
        *self.perm.get_mut().unwrap() = Some((0..n).collect());
    }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> std::vec::IntoIter<(K, V)> {
        let all = self.take_all();
        let mut out = vec![];
        for (k, mut v) in all {
            if f(&k, &mut v) {
                out.push((k, v));
            } else {
                self.items.push((k, v));
            }
        }
        let n = self.items.len();
        *self.perm.get_mut().unwrap() = Some((0..n).collect());
        out.into_iter()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> HashMap<K, V, S> {
    fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        self.items.iter().position(|x| x.0.borrow() == k)
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn try_reserve(&mut self, _: usize) -> Result<(), std::collections::TryReserveError> {
        Ok(())
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _: usize) {}
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.items[i].1)
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| (&self.items[i].0, &self.items[i].1))
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &mut self.items[i].1)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.items[i].1, v)),
            None => {
                self.changed();
                self.items.push((k, v));
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|x| x.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| self.take_at(i))
    }
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> {
        let at = self.find(&key);
        let perm = self.perm.get_mut().unwrap();
        let r = Raw { items: &mut self.items, perm };
        match at {
            Some(i) => Entry::Occupied(OccupiedEntry { map: r, i }),
            None => Entry::Vacant(VacantEntry { map: r, key }),
        }
    }
}

struct Raw<'a, K, V> {
    items: &'a mut Vec<(K, V)>,
    perm: &'a mut Option<Vec<usize>>,
}
pub enum Entry<'a, K: 'a, V: 'a> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K: 'a, V: 'a> {
    map: Raw<'a, K, V>,
    i: usize,
}
pub struct VacantEntry<'a, K: 'a, V: 'a> {
    map: Raw<'a, K, V>,
    key: K,
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => {
                let x = f(&v.key);
                v.insert(x)
            }
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(v) => v.key(),
        }
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut())
        }
        self
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        match self {
            Entry::Occupied(mut o) => {
                o.insert(v);
                o
            }
            Entry::Vacant(e) => e.insert_entry(v),
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.map.items[self.i].0
    }
    pub fn get(&self) -> &V {
        &self.map.items[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.map.items[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.map.items[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.remove_entry().1
    }
    pub fn remove_entry(self) -> (K, V) {
        let i = self.i;
        if let Some(p) = self.map.perm {
            p.retain(|x| *x != i);
            for x in p.iter_mut() {
                if *x > i {
                    *x -= 1
                }
            }
        }
        self.map.items.remove(i)
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K {
        &self.key
    }
    pub fn into_key(self) -> K {
        self.key
    }
    pub fn insert(self, v: V) -> &'a mut V {
        self.insert_entry(v).into_mut()
    }
    pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V> {
        let VacantEntry { map, key } = self;
        *map.perm = None;
        map.items.push((key, v));
        let i = map.items.len() - 1;
        OccupiedEntry { map, i }
    }
}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Entry<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Entry({:?})", self.key())
    }
}

impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        let p = self.perm();
        HashMap { items: self.items.clone(), perm: Mutex::new(Some(p)), hasher: self.hasher.clone() }
    }
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.items.iter().all(|(k, v)| o.get(k).map_or(false, |w| *v == *w))
    }
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
    fn default() -> Self {
        Self::with_hasher(S::default())
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, S: BuildHasher> std::ops::Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    #[track_caller]
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = Self::default();
        m.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, S: BuildHasher> Extend<(&'a K, &'a V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(mut self) -> IntoIter<K, V> {
        IntoIter { it: self.take_all().into_iter() }
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}

pub struct Iter<'a, K, V> {
    order: std::vec::IntoIter<usize>,
    items: &'a [(K, V)],
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        let i = self.order.next()?;
        let x = &self.items[i];
        Some((&x.0, &x.1))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.order.size_hint()
    }
}
impl<K, V> Clone for Iter<'_, K, V> {
    fn clone(&self) -> Self {
        Iter { order: self.order.clone(), items: self.items }
    }
}
impl<K, V> ExactSizeIterator for Iter<'_, K, V> {}
impl<K, V> FusedIterator for Iter<'_, K, V> {}

macro_rules! wrap {
    ($name:ident<$($l:lifetime,)? $k:ident, $v:ident>, $inner:ty, $item:ty, |$x:ident| $e:expr) => {
        pub struct $name<$($l,)? $k, $v> { pub(crate) it: $inner }
        impl<$($l,)? $k, $v> Iterator for $name<$($l,)? $k, $v> {
            type Item = $item;
            fn next(&mut self) -> Option<$item> {
                let $x = self.it.next()?;
                Some($e)
            }
            fn size_hint(&self) -> (usize, Option<usize>) {
                self.it.size_hint()
            }
        }
        impl<$($l,)? $k, $v> ExactSizeIterator for $name<$($l,)? $k, $v> {}
        impl<$($l,)? $k, $v> FusedIterator for $name<$($l,)? $k, $v> {}
    };
}
wrap!(IterMut<'a, K, V>, std::vec::IntoIter<(&'a K, &'a mut V)>, (&'a K, &'a mut V), |x| x);
wrap!(IntoIter<K, V>, std::vec::IntoIter<(K, V)>, (K, V), |x| x);
wrap!(Keys<'a, K, V>, Iter<'a, K, V>, &'a K, |x| x.0);
wrap!(Values<'a, K, V>, Iter<'a, K, V>, &'a V, |x| x.1);
wrap!(ValuesMut<'a, K, V>, IterMut<'a, K, V>, &'a mut V, |x| x.1);
wrap!(IntoKeys<K, V>, IntoIter<K, V>, K, |x| x.0);
wrap!(IntoValues<K, V>, IntoIter<K, V>, V, |x| x.1);
impl<K, V> Clone for Keys<'_, K, V> {
    fn clone(&self) -> Self {
        Keys { it: self.it.clone() }
    }
}
impl<K, V> Clone for Values<'_, K, V> {
    fn clone(&self) -> Self {
        Values { it: self.it.clone() }
    }
}
pub struct Drain<'a, K, V> {
    it: std::vec::IntoIter<(K, V)>,
    _m: std::marker::PhantomData<&'a mut (K, V)>,
}
impl<K, V> Iterator for Drain<'_, K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
}
impl<K, V> ExactSizeIterator for Drain<'_, K, V> {}
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for Iter<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
impl<K: fmt::Debug, V> fmt::Debug for Keys<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
impl<K, V: fmt::Debug> fmt::Debug for Values<'_, K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.clone()).finish()
    }
}
