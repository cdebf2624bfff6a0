//! Stand-in for the `min-max-heap` git dependency (not fetchable here).
//! Contract: a multiset; `peek_min`/`replace_min`/`pop_min` act on a least element,
//! `peek_max`/`pop_max`/`peek_max_mut` on a greatest one; `into_iter` yields every
//! element once, in no particular order; `into_vec_desc` every element once, greatest first.
use std::ops::{Deref, DerefMut};

#[derive(Clone, Debug)]
pub struct MinMaxHeap<T>(Vec<T>);

impl<T: Ord> Default for MinMaxHeap<T> {
    fn default() -> Self {
        MinMaxHeap(Vec::new())
    }
}

impl<T: Ord> MinMaxHeap<T> {
    pub fn new() -> Self {
        MinMaxHeap(Vec::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        MinMaxHeap(Vec::with_capacity(n))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn iter(&self) -> std::slice::Iter<'_, T> {
        self.0.iter()
    }
    fn min_idx(&self) -> Option<usize> {
        if self.0.is_empty() {
            return None;
        }
        let mut m = 0;
        let mut i = 1;
        while i < self.0.len() {
            if self.0[i] < self.0[m] {
                m = i;
            }
            i += 1;
        }
        Some(m)
    }
    fn max_idx(&self) -> Option<usize> {
        if self.0.is_empty() {
            return None;
        }
        let mut m = 0;
        let mut i = 1;
        while i < self.0.len() {
            if self.0[i] > self.0[m] {
                m = i;
            }
            i += 1;
        }
        Some(m)
    }
    pub fn push(&mut self, element: T) {
        self.0.push(element)
    }
    pub fn peek_min(&self) -> Option<&T> {
        self.min_idx().map(|i| &self.0[i])
    }
    pub fn peek_max(&self) -> Option<&T> {
        self.max_idx().map(|i| &self.0[i])
    }
    pub fn pop_min(&mut self) -> Option<T> {
        self.min_idx().map(|i| self.0.swap_remove(i))
    }
    pub fn pop_max(&mut self) -> Option<T> {
        self.max_idx().map(|i| self.0.swap_remove(i))
    }
    pub fn replace_min(&mut self, element: T) -> Option<T> {
        match self.min_idx() {
            Some(i) => Some(std::mem::replace(&mut self.0[i], element)),
            None => {
                self.0.push(element);
                None
            }
        }
    }
    pub fn replace_max(&mut self, element: T) -> Option<T> {
        match self.max_idx() {
            Some(i) => Some(std::mem::replace(&mut self.0[i], element)),
            None => {
                self.0.push(element);
                None
            }
        }
    }
    pub fn push_pop_min(&mut self, element: T) -> T {
        match self.min_idx() {
            Some(i) if self.0[i] < element => std::mem::replace(&mut self.0[i], element),
            _ => element,
        }
    }
    pub fn push_pop_max(&mut self, element: T) -> T {
        match self.max_idx() {
            Some(i) if self.0[i] > element => std::mem::replace(&mut self.0[i], element),
            _ => element,
        }
    }
    pub fn peek_min_mut(&mut self) -> Option<PeekMut<'_, T>> {
        let idx = self.min_idx()?;
        Some(PeekMut { heap: self, idx })
    }
    pub fn peek_max_mut(&mut self) -> Option<PeekMut<'_, T>> {
        let idx = self.max_idx()?;
        Some(PeekMut { heap: self, idx })
    }
    pub fn into_vec(self) -> Vec<T> {
        self.0
    }
    pub fn into_vec_asc(mut self) -> Vec<T> {
        isort(&mut self.0);
        self.0
    }
    pub fn into_vec_desc(mut self) -> Vec<T> {
        isort(&mut self.0);
        self.0.reverse();
        self.0
    }
}

fn isort<T: Ord>(v: &mut Vec<T>) {
    if cfg!(kani) {
        let mut i = 1;
        while i < v.len() {
            let mut j = i;
            while j > 0 && v[j] < v[j - 1] {
                v.swap(j, j - 1);
                j -= 1;
            }
            i += 1;
        }
    } else {
        v.sort()
    }
}

pub struct PeekMut<'a, T: Ord> {
    heap: &'a mut MinMaxHeap<T>,
    idx: usize,
}
impl<'a, T: Ord> PeekMut<'a, T> {
    pub fn pop(self) -> T {
        self.heap.0.swap_remove(self.idx)
    }
}
impl<'a, T: Ord> Deref for PeekMut<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.heap.0[self.idx]
    }
}
impl<'a, T: Ord> DerefMut for PeekMut<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.heap.0[self.idx]
    }
}
pub type PeekMaxMut<'a, T> = PeekMut<'a, T>;
pub type PeekMinMut<'a, T> = PeekMut<'a, T>;

pub struct IntoIter<T>(std::vec::IntoIter<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T: Ord> IntoIterator for MinMaxHeap<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self.0.into_iter())
    }
}
impl<'a, T: Ord> IntoIterator for &'a MinMaxHeap<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: Ord> Extend<T> for MinMaxHeap<T> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for x in it {
            self.0.push(x)
        }
    }
}
impl<T: Ord> std::iter::FromIterator<T> for MinMaxHeap<T> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        MinMaxHeap(it.into_iter().collect())
    }
}
