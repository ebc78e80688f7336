//! Stand-in for minivec: a Vec.
use std::ops::{Deref, DerefMut};
#[derive(Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, serde::Serialize, serde::Deserialize)]
#[serde(transparent)]
pub struct MiniVec<T>(Vec<T>);
impl<T> MiniVec<T> {
    pub fn new() -> Self {
        MiniVec(Vec::new())
    }
    pub fn with_capacity(n: usize) -> Self {
        MiniVec(Vec::with_capacity(n))
    }
    pub fn as_slice(&self) -> &[T] {
        &self.0
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for MiniVec<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T> Deref for MiniVec<T> {
    type Target = Vec<T>;
    fn deref(&self) -> &Vec<T> {
        &self.0
    }
}
impl<T> DerefMut for MiniVec<T> {
    fn deref_mut(&mut self) -> &mut Vec<T> {
        &mut self.0
    }
}
impl<T> AsRef<[T]> for MiniVec<T> {
    fn as_ref(&self) -> &[T] {
        &self.0
    }
}
impl<T> From<Vec<T>> for MiniVec<T> {
    fn from(v: Vec<T>) -> Self {
        MiniVec(v)
    }
}
impl<T: Clone> From<&[T]> for MiniVec<T> {
    fn from(v: &[T]) -> Self {
        MiniVec(v.to_vec())
    }
}
impl<T: Clone, const N: usize> From<&[T; N]> for MiniVec<T> {
    fn from(v: &[T; N]) -> Self {
        MiniVec(v.to_vec())
    }
}
impl<T, const N: usize> From<[T; N]> for MiniVec<T> {
    fn from(v: [T; N]) -> Self {
        MiniVec(v.into())
    }
}
impl From<&str> for MiniVec<u8> {
    fn from(v: &str) -> Self {
        MiniVec(v.as_bytes().to_vec())
    }
}
impl From<String> for MiniVec<u8> {
    fn from(v: String) -> Self {
        MiniVec(v.into_bytes())
    }
}
impl<T> FromIterator<T> for MiniVec<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        MiniVec(i.into_iter().collect())
    }
}
impl<T> IntoIterator for MiniVec<T> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, T> IntoIterator for &'a MiniVec<T> {
    type Item = &'a T;
    type IntoIter = std::slice::Iter<'a, T>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}
impl<T: PartialEq> PartialEq<Vec<T>> for MiniVec<T> {
    fn eq(&self, o: &Vec<T>) -> bool {
        &self.0 == o
    }
}
#[macro_export]
macro_rules! mini_vec { ($($t:tt)*) => { $crate::MiniVec::from(vec![$($t)*]) } }
