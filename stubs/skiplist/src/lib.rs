//! Stand-in for skiplist's OrderedSkipList: a vector kept sorted by partial_cmp.
//! insert places an element before those equal to it, which is what the storage engine
//! relies on (it takes the first of equal rows as the newest, and re-inserts in reverse).
use std::cmp::Ordering;
pub mod skiplist {
    pub use super::Iter;
}
pub mod ordered_skiplist {
    pub use super::{Iter, OrderedSkipList};
}
pub type Iter<'a, T> = std::slice::Iter<'a, T>;
pub struct OrderedSkipList<T> {
    v: Vec<T>,
}
impl<T: PartialOrd> Default for OrderedSkipList<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: PartialOrd> OrderedSkipList<T> {
    pub fn new() -> Self {
        OrderedSkipList { v: Vec::new() }
    }
    pub fn insert(&mut self, x: T) {
        // the skip list goes on while next < x: a new element goes before its equals
        let i = self.v.partition_point(|y| matches!(y.partial_cmp(&x).expect("Element cannot be ordered."), Ordering::Less));
        self.v.insert(i, x);
    }
    /// # Safety
    /// the order must be the one of partial_cmp: the only one used here
    pub unsafe fn sort_by<F: 'static + Fn(&T, &T) -> Ordering>(&mut self, f: F) {
        self.v.sort_by(|a, b| f(a, b));
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) {
        self.v.retain(f);
    }
    pub fn contains(&self, x: &T) -> bool {
        self.v.iter().any(|y| y.partial_cmp(x) == Some(Ordering::Equal))
    }
    pub fn remove_first(&mut self, x: &T) -> Option<T> {
        let i = self.v.iter().position(|y| y.partial_cmp(x) == Some(Ordering::Equal))?;
        Some(self.v.remove(i))
    }
    pub fn front(&self) -> Option<&T> {
        self.v.first()
    }
    pub fn back(&self) -> Option<&T> {
        self.v.last()
    }
    pub fn pop_front(&mut self) -> Option<T> {
        if self.v.is_empty() { None } else { Some(self.v.remove(0)) }
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn clear(&mut self) {
        self.v.clear()
    }
    pub fn iter(&self) -> Iter<'_, T> {
        self.v.iter()
    }
    pub fn get(&self, i: usize) -> Option<&T> {
        self.v.get(i)
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for OrderedSkipList<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.v.iter()).finish()
    }
}
impl<T> IntoIterator for OrderedSkipList<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.v.iter()
    }
}
impl<T: PartialEq> PartialEq for OrderedSkipList<T> {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl<T: Eq> Eq for OrderedSkipList<T> {}
