//! Stand-in for roaring: an ordered set of u32.
use std::collections::BTreeSet;
use std::io;
use std::ops::{BitAnd, BitAndAssign, BitOr, BitOrAssign, RangeBounds, Sub};

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct RoaringBitmap(BTreeSet<u32>);
impl RoaringBitmap {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, v: u32) -> bool {
        self.0.insert(v)
    }
    pub fn remove(&mut self, v: u32) -> bool {
        self.0.remove(&v)
    }
    pub fn contains(&self, v: u32) -> bool {
        self.0.contains(&v)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> u64 {
        self.0.len() as u64
    }
    pub fn iter(&self) -> std::iter::Copied<std::collections::btree_set::Iter<'_, u32>> {
        self.0.iter().copied()
    }
    pub fn insert_range<R: RangeBounds<u32> + IntoIterator<Item = u32>>(&mut self, r: R) -> u64 {
        r.into_iter().filter(|x| self.0.insert(*x)).count() as u64
    }
    pub fn serialized_size(&self) -> usize {
        4 + 4 * self.0.len()
    }
    pub fn serialize_into<W: io::Write>(&self, mut w: W) -> io::Result<()> {
        w.write_all(&(self.0.len() as u32).to_le_bytes())?;
        for v in &self.0 {
            w.write_all(&v.to_le_bytes())?;
        }
        Ok(())
    }
    pub fn deserialize_from<R: io::Read>(mut r: R) -> io::Result<Self> {
        let mut b = [0; 4];
        r.read_exact(&mut b)?;
        let n = u32::from_le_bytes(b);
        let mut s = BTreeSet::new();
        for _ in 0..n {
            r.read_exact(&mut b)?;
            s.insert(u32::from_le_bytes(b));
        }
        Ok(Self(s))
    }
}
impl IntoIterator for RoaringBitmap {
    type Item = u32;
    type IntoIter = std::collections::btree_set::IntoIter<u32>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl FromIterator<u32> for RoaringBitmap {
    fn from_iter<T: IntoIterator<Item = u32>>(t: T) -> Self {
        Self(t.into_iter().collect())
    }
}
macro_rules! op { ($tr:ident, $f:ident, $m:ident) => {
    impl $tr<RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$m(&o.0).copied().collect()) } }
    impl $tr<&RoaringBitmap> for RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$m(&o.0).copied().collect()) } }
    impl $tr<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { RoaringBitmap(self.0.$m(&o.0).copied().collect()) } }
} }
op!(BitOr, bitor, union);
op!(BitAnd, bitand, intersection);
op!(Sub, sub, difference);
impl BitOrAssign<RoaringBitmap> for RoaringBitmap {
    fn bitor_assign(&mut self, o: RoaringBitmap) {
        self.0.extend(o.0)
    }
}
impl BitOrAssign<&RoaringBitmap> for RoaringBitmap {
    fn bitor_assign(&mut self, o: &RoaringBitmap) {
        self.0.extend(o.0.iter().copied())
    }
}
impl BitAndAssign<&RoaringBitmap> for RoaringBitmap {
    fn bitand_assign(&mut self, o: &RoaringBitmap) {
        self.0.retain(|x| o.0.contains(x))
    }
}
