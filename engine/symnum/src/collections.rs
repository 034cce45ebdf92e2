//! `HashMap`/`HashSet` with the documented behaviour of the standard ones: a key is found when its
//! hash and `==` both agree, and iteration order is unspecified.  Keys stay symbolic; the order is
//! insertion order, or an arbitrary one chosen by the environment when order exploration is on.
pub use std::collections::{
    binary_heap, btree_map, btree_set, linked_list, vec_deque, BTreeMap, BTreeSet, BinaryHeap, Bound, LinkedList,
    TryReserveError, VecDeque,
};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::fmt;
use std::hash::{BuildHasher, Hash};
use std::iter::FromIterator;
use std::marker::PhantomData;
use std::ops::Index;
use symrt::hashing::{same, stream, Token};

pub use std::collections::hash_map::RandomState;

pub struct HashMap<K, V, S = RandomState> {
    e: Vec<(K, V, Vec<Token>)>,
    perm: RefCell<Option<Vec<usize>>>,
    s: PhantomData<S>,
}
pub mod hash_map {
    pub use super::{Drain, Entry, HashMap, IntoIter, Iter, IterMut, Keys, OccupiedEntry, VacantEntry, Values, ValuesMut};
    pub use std::collections::hash_map::{DefaultHasher, RandomState};
}
pub mod hash_set {
    pub use super::HashSet;
}

/// an order of n elements, arbitrary up to 4 elements (all permutations), rotations and reversals above
fn order(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    if n < 2 || symrt::order_mode() == 0 {
        return v;
    }
    if n <= 4 {
        let mut out = vec![];
        while v.len() > 1 {
            let i = symrt::env_choice(v.len());
            out.push(v.remove(i));
        }
        out.push(v[0]);
        return out;
    }
    let k = symrt::env_choice(2 * n);
    v.rotate_left(k / 2);
    if k % 2 == 1 {
        v.reverse();
    }
    v
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
}
impl<K, V, S> Default for HashMap<K, V, S> {
    fn default() -> Self {
        HashMap { e: Vec::new(), perm: RefCell::new(None), s: PhantomData }
    }
}
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> {
    fn clone(&self) -> Self {
        HashMap { e: self.e.clone(), perm: RefCell::new(None), s: PhantomData }
    }
}
impl<K, V, S> HashMap<K, V, S> {
    pub fn with_hasher(_s: S) -> Self {
        Self::default()
    }
    pub fn with_capacity_and_hasher(_n: usize, _s: S) -> Self {
        Self::default()
    }
    fn perm(&self) -> Vec<usize> {
        let mut p = self.perm.borrow_mut();
        if p.as_ref().map_or(true, |v| v.len() != self.e.len()) {
            *p = Some(order(self.e.len()));
        }
        p.clone().unwrap()
    }
    fn dirty(&self) {
        *self.perm.borrow_mut() = None;
    }
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.e.capacity()
    }
    pub fn clear(&mut self) {
        self.e.clear();
        self.dirty();
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        let p = self.perm();
        Iter(p.into_iter().map(|i| (&self.e[i].0, &self.e[i].1)).collect::<Vec<_>>().into_iter())
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        let p = self.perm();
        let mut slots: Vec<Option<(&K, &mut V)>> = self.e.iter_mut().map(|x| Some((&x.0, &mut x.1))).collect();
        IterMut(p.into_iter().map(|i| slots[i].take().unwrap()).collect::<Vec<_>>().into_iter())
    }
    pub fn keys(&self) -> Keys<'_, K, V> {
        Keys(self.iter())
    }
    pub fn values(&self) -> Values<'_, K, V> {
        Values(self.iter())
    }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> {
        ValuesMut(self.iter_mut())
    }
    pub fn into_keys(self) -> std::vec::IntoIter<K> {
        self.into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn into_values(self) -> std::vec::IntoIter<V> {
        self.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn drain(&mut self) -> Drain<K, V> {
        let old = std::mem::take(self);
        old.into_iter()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let p = self.perm();
        let mut keep = vec![true; self.e.len()];
        for i in p {
            let x = &mut self.e[i];
            keep[i] = f(&x.0, &mut x.1);
        }
        let mut i = 0;
        self.e.retain(|_| {
            i += 1;
            keep[i - 1]
        });
        self.dirty();
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn shrink_to_fit(&mut self) {}
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        let t = stream(k);
        (0..self.e.len()).find(|&i| same(&self.e[i].2, &t) && self.e[i].0.borrow() == k)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.e[i].1)
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| (&self.e[i].0, &self.e[i].1))
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => Some(&mut self.e[i].1),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(&mut self.e[i].1, v)),
            None => {
                let t = stream(&k);
                self.e.push((k, v, t));
                self.dirty();
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|x| x.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| {
            self.dirty();
            let (k, v, _) = self.e.remove(i);
            (k, v)
        })
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }),
            None => Entry::Vacant(VacantEntry { m: self, k }),
        }
    }
}

pub enum Entry<'a, K, V, S = RandomState> {
    Occupied(OccupiedEntry<'a, K, V, S>),
    Vacant(VacantEntry<'a, K, V, S>),
}
pub struct OccupiedEntry<'a, K, V, S = RandomState> {
    m: &'a mut HashMap<K, V, S>,
    i: usize,
}
pub struct VacantEntry<'a, K, V, S = RandomState> {
    m: &'a mut HashMap<K, V, S>,
    k: K,
}
impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut())
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(v) => &v.k,
        }
    }
}
impl<'a, K, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.m.e[self.i].0
    }
    pub fn get(&self) -> &V {
        &self.m.e[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.e[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.e[self.i].1
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(self.get_mut(), v)
    }
    pub fn remove(self) -> V {
        self.m.dirty();
        self.m.e.remove(self.i).1
    }
    pub fn remove_entry(self) -> (K, V) {
        self.m.dirty();
        let (k, v, _) = self.m.e.remove(self.i);
        (k, v)
    }
}
impl<'a, K: Hash, V, S> VacantEntry<'a, K, V, S> {
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
    pub fn insert(self, v: V) -> &'a mut V {
        let t = stream(&self.k);
        self.m.dirty();
        self.m.e.push((self.k, v, t));
        &mut self.m.e.last_mut().unwrap().1
    }
}

pub struct Iter<'a, K, V>(std::vec::IntoIter<(&'a K, &'a V)>);
pub struct IterMut<'a, K, V>(std::vec::IntoIter<(&'a K, &'a mut V)>);
pub struct IntoIter<K, V>(std::vec::IntoIter<(K, V)>);
pub type Drain<K, V> = IntoIter<K, V>;
pub struct Keys<'a, K, V>(Iter<'a, K, V>);
pub struct Values<'a, K, V>(Iter<'a, K, V>);
pub struct ValuesMut<'a, K, V>(IterMut<'a, K, V>);
macro_rules! iter {
    ($([$($g:tt)*] $t:ty, $i:ty, |$x:ident| $m:expr;)*) => { $(
        impl<$($g)*> Iterator for $t {
            type Item = $i;
            fn next(&mut self) -> Option<$i> { self.0.next().map(|$x| $m) }
            fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
        }
        impl<$($g)*> ExactSizeIterator for $t {}
    )* }
}
iter! {
    ['a, K, V] Iter<'a, K, V>, (&'a K, &'a V), |x| x;
    ['a, K, V] IterMut<'a, K, V>, (&'a K, &'a mut V), |x| x;
    [K, V] IntoIter<K, V>, (K, V), |x| x;
    ['a, K, V] Keys<'a, K, V>, &'a K, |x| x.0;
    ['a, K, V] Values<'a, K, V>, &'a V, |x| x.1;
    ['a, K, V] ValuesMut<'a, K, V>, &'a mut V, |x| x.1;
}
impl<'a, K, V> Clone for Iter<'a, K, V> {
    fn clone(&self) -> Self {
        Iter(self.0.clone())
    }
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        let p = self.perm();
        let mut slots: Vec<Option<(K, V)>> = self.e.into_iter().map(|x| Some((x.0, x.1))).collect();
        IntoIter(p.into_iter().map(|i| slots[i].take().unwrap()).collect::<Vec<_>>().into_iter())
    }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = HashMap::default();
        m.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        a.into_iter().collect()
    }
}
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Hash + Eq, V, S> Index<&Q> for HashMap<K, V, S> {
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.e.iter().all(|x| o.get(&x.0).map_or(false, |v| *v == x.1))
    }
}
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.iter()).finish()
    }
}

#[derive(Clone)]
pub struct HashSet<T, S = RandomState>(HashMap<T, (), S>);
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_n: usize) -> Self {
        Self::default()
    }
}
impl<T, S> Default for HashSet<T, S> {
    fn default() -> Self {
        HashSet(HashMap::default())
    }
}
impl<T, S> HashSet<T, S> {
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn iter(&self) -> Keys<'_, T, ()> {
        self.0.keys()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.0.retain(|k, _| f(k))
    }
}
impl<T: Eq + Hash, S> HashSet<T, S> {
    pub fn insert(&mut self, k: T) -> bool {
        if self.0.contains_key(&k) {
            return false;
        }
        self.0.insert(k, ()).is_none()
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.0.contains_key(k)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.0.remove(k).is_some()
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.0.get_key_value(k).map(|x| x.0)
    }
    pub fn is_subset(&self, o: &HashSet<T, S>) -> bool {
        self.0.e.iter().all(|x| o.contains(&x.0))
    }
}
impl<T, S> IntoIterator for HashSet<T, S> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> std::vec::IntoIter<T> {
        self.0.into_keys()
    }
}
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> {
    type Item = &'a T;
    type IntoIter = Keys<'a, T, ()>;
    fn into_iter(self) -> Keys<'a, T, ()> {
        self.iter()
    }
}
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut m = HashSet::default();
        m.extend(it);
        m
    }
}
impl<T: Eq + Hash, S> PartialEq for HashSet<T, S> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T: Eq + Hash, S> Eq for HashSet<T, S> {}
impl<T: fmt::Debug, S> fmt::Debug for HashSet<T, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.iter()).finish()
    }
}
#[allow(dead_code)]
fn unused<S: BuildHasher>() {}
