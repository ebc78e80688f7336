use arrow::array::{Array, GenericByteArray, PrimitiveArray};
use arrow::buffer::{OffsetBuffer, Buffer, ScalarBuffer};
use arrow::datatypes::{ArrowNativeTypeOp, ArrowPrimitiveType, ByteArrayType};
use std::cmp::Ordering;
use std::fmt::Debug;

pub trait Cursor: Ord {
    fn is_finished(&self) -> bool;
    fn advance(&mut self) -> usize;
}
pub trait FieldArray: Array + 'static {
    type Values: FieldValues;
    fn values(&self) -> Self::Values;
}
pub trait FieldValues: Debug {
    type Value: ?Sized;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn compare(a: &Self::Value, b: &Self::Value) -> Ordering;
    fn value(&self, i: usize) -> &Self::Value;
}
#[derive(Debug)]
pub struct PrimitiveValues<T: arrow::datatypes::ArrowNativeType>(ScalarBuffer<T>);
impl<T: ArrowPrimitiveType> FieldArray for PrimitiveArray<T> {
    type Values = PrimitiveValues<T::Native>;
    fn values(&self) -> Self::Values {
        PrimitiveValues(PrimitiveArray::<T>::values(self).clone())
    }
}
impl<T: ArrowNativeTypeOp> FieldValues for PrimitiveValues<T> {
    type Value = T;
    fn len(&self) -> usize {
        self.0.len()
    }
    fn compare(a: &T, b: &T) -> Ordering {
        T::compare(*a, *b)
    }
    fn value(&self, i: usize) -> &T {
        &self.0[i]
    }
}
#[derive(Debug)]
pub struct ByteArrayValues<T: arrow::array::OffsetSizeTrait> {
    offsets: OffsetBuffer<T>,
    values: Buffer,
}
impl<T: ByteArrayType> FieldArray for GenericByteArray<T> {
    type Values = ByteArrayValues<T::Offset>;
    fn values(&self) -> Self::Values {
        ByteArrayValues { offsets: self.offsets().clone(), values: GenericByteArray::<T>::values(self).clone() }
    }
}
impl<T: arrow::array::OffsetSizeTrait> FieldValues for ByteArrayValues<T> {
    type Value = [u8];
    fn len(&self) -> usize {
        self.offsets.len() - 1
    }
    fn compare(a: &[u8], b: &[u8]) -> Ordering {
        a.cmp(b)
    }
    fn value(&self, i: usize) -> &[u8] {
        &self.values[self.offsets[i].as_usize()..self.offsets[i + 1].as_usize()]
    }
}
