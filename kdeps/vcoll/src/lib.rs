//! Kani build only: hash maps, hash sets and ordered maps with the contract of the std ones,
//! kept as an association list (hashing and B-tree rebalancing are not what is verified).
//! Iteration order of the hash kinds is the insertion order or, chosen once per map by the
//! environment (`flip`), its reverse: code may not depend on it.
#[derive(Clone, Debug)]
pub struct HashMap<K, V> {
    v: Vec<(K, V)>,
}
pub static mut FLIP: bool = false;
fn flip() -> bool {
    unsafe { FLIP }
}
pub mod hash_map {
    pub use crate::{Entry, HashMap, OccupiedEntry, VacantEntry};
}
pub mod btree_map {
    pub use crate::{BTreeMap, BEntry as Entry};
}
pub mod map {
    pub use crate::{Entry, IndexMap, OccupiedEntry, VacantEntry};
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V> {
    v: &'a mut Vec<(K, V)>,
    i: usize,
}
pub struct VacantEntry<'a, K, V> {
    v: &'a mut Vec<(K, V)>,
    k: K,
    // where it goes (the end for hash maps, the sorted place for ordered ones)
    i: usize,
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        &self.v[self.i].1
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.v[self.i].1
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.v[self.i].1
    }
    pub fn insert(&mut self, x: V) -> V {
        std::mem::replace(&mut self.v[self.i].1, x)
    }
    pub fn key(&self) -> &K {
        &self.v[self.i].0
    }
    pub fn remove(self) -> V {
        self.v.remove(self.i).1
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, x: V) -> &'a mut V {
        if self.i == self.v.len() {
            self.v.push((self.k, x));
        } else {
            self.v.insert(self.i, (self.k, x));
        }
        &mut self.v[self.i].1
    }
    pub fn key(&self) -> &K {
        &self.k
    }
}
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert(self, x: V) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(x),
        }
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
}
pub type BEntry<'a, K, V> = Entry<'a, K, V>;

fn ix<K: PartialEq, V>(v: &Vec<(K, V)>, k: &K) -> Option<usize> {
    let mut i = 0;
    while i < v.len() {
        if v[i].0 == *k {
            return Some(i);
        }
        i += 1;
    }
    None
}

macro_rules! common {
    ($m:ident, $($b:tt)*) => {
        impl<K: $($b)*, V> $m<K, V> {
            pub fn new() -> Self {
                $m { v: Vec::new() }
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::new()
            }
            pub fn len(&self) -> usize {
                self.v.len()
            }
            pub fn is_empty(&self) -> bool {
                self.v.is_empty()
            }
            pub fn clear(&mut self) {
                self.v.clear()
            }
            pub fn get(&self, k: &K) -> Option<&V> {
                match ix(&self.v, k) {
                    Some(i) => Some(&self.v[i].1),
                    None => None,
                }
            }
            pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
                match ix(&self.v, k) {
                    Some(i) => Some(&mut self.v[i].1),
                    None => None,
                }
            }
            pub fn contains_key(&self, k: &K) -> bool {
                ix(&self.v, k).is_some()
            }
            pub fn insert(&mut self, k: K, x: V) -> Option<V> {
                match self.entry(k) {
                    Entry::Occupied(mut e) => Some(e.insert(x)),
                    Entry::Vacant(e) => {
                        e.insert(x);
                        None
                    }
                }
            }
            pub fn remove(&mut self, k: &K) -> Option<V> {
                match ix(&self.v, k) {
                    Some(i) => Some(self.v.remove(i).1),
                    None => None,
                }
            }
            pub fn iter(&self) -> Iter<'_, K, V> {
                let n = self.v.len();
                Iter { v: &self.v, at: 0, n, flip: $m::<K, V>::flipped() }
            }
            pub fn keys(&self) -> impl Iterator<Item = &K> {
                self.iter().map(|(k, _)| k)
            }
            pub fn values(&self) -> impl Iterator<Item = &V> {
                self.iter().map(|(_, v)| v)
            }
            pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> {
                self.v.iter_mut().map(|(_, v)| v)
            }
            pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> {
                self.v.iter_mut().map(|(k, v)| (&*k, v))
            }
            pub fn into_values(self) -> impl Iterator<Item = V> {
                self.into_iter().map(|(_, v)| v)
            }
            pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
                std::mem::replace(&mut self.v, Vec::new()).into_iter()
            }
        }
        impl<K: $($b)*, V> Default for $m<K, V> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<K: $($b)*, V> IntoIterator for $m<K, V> {
            type Item = (K, V);
            type IntoIter = std::vec::IntoIter<(K, V)>;
            fn into_iter(mut self) -> Self::IntoIter {
                if $m::<K, V>::flipped() {
                    self.v.reverse();
                }
                self.v.into_iter()
            }
        }
        impl<'a, K: $($b)*, V> IntoIterator for &'a $m<K, V> {
            type Item = (&'a K, &'a V);
            type IntoIter = Iter<'a, K, V>;
            fn into_iter(self) -> Self::IntoIter {
                self.iter()
            }
        }
        impl<K: $($b)*, V> std::iter::FromIterator<(K, V)> for $m<K, V> {
            fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
                let mut m = Self::new();
                for (k, v) in it {
                    m.insert(k, v);
                }
                m
            }
        }
        impl<K: $($b)*, V> Extend<(K, V)> for $m<K, V> {
            fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
                for (k, v) in it {
                    self.insert(k, v);
                }
            }
        }
        impl<K: $($b)*, V> std::ops::Index<&K> for $m<K, V> {
            type Output = V;
            fn index(&self, k: &K) -> &V {
                self.get(k).expect("no entry found for key")
            }
        }
    };
}
pub struct Iter<'a, K, V> {
    v: &'a [(K, V)],
    at: usize,
    n: usize,
    flip: bool,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> {
        if self.at < self.n {
            let i = if self.flip { self.n - 1 - self.at } else { self.at };
            self.at += 1;
            let e = &self.v[i];
            Some((&e.0, &e.1))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.n - self.at, Some(self.n - self.at))
    }
}

common!(HashMap, PartialEq);
impl<K: PartialEq, V> HashMap<K, V> {
    fn flipped() -> bool {
        flip()
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match ix(&self.v, &k) {
            Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i }),
            None => {
                let i = self.v.len();
                Entry::Vacant(VacantEntry { v: &mut self.v, k, i })
            }
        }
    }
}
impl<K: PartialEq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.v.iter().all(|(k, v)| o.get(k).map_or(false, |w| w == v))
    }
}

/// Keeps insertion order, as `indexmap::IndexMap` does.
#[derive(Clone, Debug)]
pub struct IndexMap<K, V> {
    v: Vec<(K, V)>,
}
common!(IndexMap, PartialEq);
impl<K: PartialEq, V> IndexMap<K, V> {
    fn flipped() -> bool {
        false
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match ix(&self.v, &k) {
            Some(i) => Entry::Occupied(OccupiedEntry { v: &mut self.v, i }),
            None => {
                let i = self.v.len();
                Entry::Vacant(VacantEntry { v: &mut self.v, k, i })
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct BTreeMap<K, V> {
    v: Vec<(K, V)>,
}
common!(BTreeMap, Ord);
impl<K: Ord, V> BTreeMap<K, V> {
    fn flipped() -> bool {
        false
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        let mut i = 0;
        while i < self.v.len() {
            match self.v[i].0.cmp(&k) {
                std::cmp::Ordering::Less => i += 1,
                std::cmp::Ordering::Equal => {
                    return Entry::Occupied(OccupiedEntry { v: &mut self.v, i })
                }
                std::cmp::Ordering::Greater => break,
            }
        }
        Entry::Vacant(VacantEntry { v: &mut self.v, k, i })
    }
}

macro_rules! set {
    ($s:ident, $m:ident, $($b:tt)*) => {
        #[derive(Clone, Debug)]
        pub struct $s<K> {
            m: $m<K, ()>,
        }
        impl<K: $($b)*> $s<K> {
            pub fn new() -> Self {
                $s { m: $m::new() }
            }
            pub fn with_capacity(_: usize) -> Self {
                Self::new()
            }
            pub fn insert(&mut self, k: K) -> bool {
                self.m.insert(k, ()).is_none()
            }
            pub fn contains(&self, k: &K) -> bool {
                self.m.contains_key(k)
            }
            pub fn remove(&mut self, k: &K) -> bool {
                self.m.remove(k).is_some()
            }
            pub fn len(&self) -> usize {
                self.m.len()
            }
            pub fn is_empty(&self) -> bool {
                self.m.is_empty()
            }
            pub fn iter(&self) -> impl Iterator<Item = &K> {
                self.m.keys()
            }
        }
        impl<K: $($b)*> Default for $s<K> {
            fn default() -> Self {
                Self::new()
            }
        }
        impl<K: $($b)*> std::iter::FromIterator<K> for $s<K> {
            fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self {
                let mut s = Self::new();
                for k in it {
                    s.insert(k);
                }
                s
            }
        }
        impl<K: $($b)*> Extend<K> for $s<K> {
            fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
                for k in it {
                    self.insert(k);
                }
            }
        }
        impl<K: $($b)*> IntoIterator for $s<K> {
            type Item = K;
            type IntoIter = std::vec::IntoIter<K>;
            fn into_iter(self) -> Self::IntoIter {
                let mut v = Vec::new();
                for (k, _) in self.m.into_iter() {
                    v.push(k);
                }
                v.into_iter()
            }
        }
    };
}
set!(HashSet, HashMap, PartialEq);
set!(BTreeSet, BTreeMap, Ord);
