use crate::error::{DataFusionError, Result};
use arrow::array::*;
use arrow::datatypes::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

#[derive(Clone)]
pub enum ScalarValue {
    Null,
    Boolean(Option<bool>),
    Float32(Option<f32>),
    Float64(Option<f64>),
    Decimal128(Option<i128>, u8, i8),
    Int8(Option<i8>),
    Int16(Option<i16>),
    Int32(Option<i32>),
    Int64(Option<i64>),
    UInt8(Option<u8>),
    UInt16(Option<u16>),
    UInt32(Option<u32>),
    UInt64(Option<u64>),
    Utf8(Option<String>),
    LargeUtf8(Option<String>),
    Binary(Option<Vec<u8>>),
    FixedSizeBinary(i32, Option<Vec<u8>>),
    LargeBinary(Option<Vec<u8>>),
    List(Option<Vec<ScalarValue>>, FieldRef),
    Date32(Option<i32>),
    Date64(Option<i64>),
    Time32Second(Option<i32>),
    Time32Millisecond(Option<i32>),
    Time64Microsecond(Option<i64>),
    Time64Nanosecond(Option<i64>),
    TimestampSecond(Option<i64>, Option<Arc<str>>),
    TimestampMillisecond(Option<i64>, Option<Arc<str>>),
    TimestampMicrosecond(Option<i64>, Option<Arc<str>>),
    TimestampNanosecond(Option<i64>, Option<Arc<str>>),
    IntervalYearMonth(Option<i32>),
    IntervalDayTime(Option<i64>),
    IntervalMonthDayNano(Option<i128>),
    Struct(Option<Vec<ScalarValue>>, Fields),
    Dictionary(Box<DataType>, Box<ScalarValue>),
}
use ScalarValue as S;

impl ScalarValue {
    pub fn get_datatype(&self) -> DataType {
        match self {
            S::Null => DataType::Null,
            S::Boolean(_) => DataType::Boolean,
            S::Float32(_) => DataType::Float32,
            S::Float64(_) => DataType::Float64,
            S::Decimal128(_, p, s) => DataType::Decimal128(*p, *s),
            S::Int8(_) => DataType::Int8,
            S::Int16(_) => DataType::Int16,
            S::Int32(_) => DataType::Int32,
            S::Int64(_) => DataType::Int64,
            S::UInt8(_) => DataType::UInt8,
            S::UInt16(_) => DataType::UInt16,
            S::UInt32(_) => DataType::UInt32,
            S::UInt64(_) => DataType::UInt64,
            S::Utf8(_) => DataType::Utf8,
            S::LargeUtf8(_) => DataType::LargeUtf8,
            S::Binary(_) => DataType::Binary,
            S::FixedSizeBinary(n, _) => DataType::FixedSizeBinary(*n),
            S::LargeBinary(_) => DataType::LargeBinary,
            S::List(_, f) => DataType::List(f.clone()),
            S::Date32(_) => DataType::Date32,
            S::Date64(_) => DataType::Date64,
            S::Time32Second(_) => DataType::Time32(TimeUnit::Second),
            S::Time32Millisecond(_) => DataType::Time32(TimeUnit::Millisecond),
            S::Time64Microsecond(_) => DataType::Time64(TimeUnit::Microsecond),
            S::Time64Nanosecond(_) => DataType::Time64(TimeUnit::Nanosecond),
            S::TimestampSecond(_, z) => DataType::Timestamp(TimeUnit::Second, z.clone()),
            S::TimestampMillisecond(_, z) => DataType::Timestamp(TimeUnit::Millisecond, z.clone()),
            S::TimestampMicrosecond(_, z) => DataType::Timestamp(TimeUnit::Microsecond, z.clone()),
            S::TimestampNanosecond(_, z) => DataType::Timestamp(TimeUnit::Nanosecond, z.clone()),
            S::IntervalYearMonth(_) => DataType::Interval(IntervalUnit::YearMonth),
            S::IntervalDayTime(_) => DataType::Interval(IntervalUnit::DayTime),
            S::IntervalMonthDayNano(_) => DataType::Interval(IntervalUnit::MonthDayNano),
            S::Struct(_, f) => DataType::Struct(f.clone()),
            S::Dictionary(k, v) => DataType::Dictionary(k.clone(), Box::new(v.get_datatype())),
        }
    }
    pub fn is_null(&self) -> bool {
        match self {
            S::Null => true,
            S::Boolean(v) => v.is_none(),
            S::Float64(v) => v.is_none(),
            S::Int64(v) => v.is_none(),
            S::UInt64(v) => v.is_none(),
            S::Utf8(v) | S::LargeUtf8(v) => v.is_none(),
            S::Binary(v) | S::LargeBinary(v) => v.is_none(),
            S::TimestampSecond(v, _) | S::TimestampMillisecond(v, _) | S::TimestampMicrosecond(v, _) | S::TimestampNanosecond(v, _) => v.is_none(),
            o => format!("{o:?}").contains("None"),
        }
    }
    pub fn to_array_of_size(&self, n: usize) -> ArrayRef {
        S::iter_to_array((0..n.max(1)).map(|_| self.clone())).map(|a| a.slice(0, n)).unwrap()
    }
    pub fn iter_to_array(vs: impl IntoIterator<Item = ScalarValue>) -> Result<ArrayRef> {
        let vs: Vec<_> = vs.into_iter().collect();
        let Some(first) = vs.iter().find(|v| !matches!(v, S::Null)).or(vs.first()) else {
            return Err(DataFusionError::Internal("Empty iterator passed to ScalarValue::iter_to_array".into()));
        };
        macro_rules! go { ($v:ident, $a:ty) => {{
            let o = vs.iter().map(|x| match x { S::$v(o) => Ok(o.clone()), S::Null => Ok(None), o => Err(DataFusionError::Internal(format!("inconsistent types {o:?}"))) }).collect::<Result<Vec<_>>>()?;
            Arc::new(<$a>::from_iter(o)) as ArrayRef
        }} }
        macro_rules! ts { ($v:ident, $a:ty, $z:ident) => {{
            let o = vs.iter().map(|x| match x { S::$v(o, _) => Ok(o.clone()), S::Null => Ok(None), o => Err(DataFusionError::Internal(format!("inconsistent types {o:?}"))) }).collect::<Result<Vec<_>>>()?;
            Arc::new(<$a>::from_iter(o).with_timezone_opt($z.clone())) as ArrayRef
        }} }
        Ok(match first {
            S::Null => new_null_array(&DataType::Null, vs.len()),
            S::Boolean(_) => go!(Boolean, BooleanArray),
            S::Float32(_) => go!(Float32, Float32Array),
            S::Float64(_) => go!(Float64, Float64Array),
            S::Int8(_) => go!(Int8, Int8Array),
            S::Int16(_) => go!(Int16, Int16Array),
            S::Int32(_) => go!(Int32, Int32Array),
            S::Int64(_) => go!(Int64, Int64Array),
            S::UInt8(_) => go!(UInt8, UInt8Array),
            S::UInt16(_) => go!(UInt16, UInt16Array),
            S::UInt32(_) => go!(UInt32, UInt32Array),
            S::UInt64(_) => go!(UInt64, UInt64Array),
            S::Utf8(_) => go!(Utf8, StringArray),
            S::LargeUtf8(_) => go!(LargeUtf8, LargeStringArray),
            S::Binary(_) => go!(Binary, BinaryArray),
            S::LargeBinary(_) => go!(LargeBinary, LargeBinaryArray),
            S::TimestampSecond(_, z) => ts!(TimestampSecond, TimestampSecondArray, z),
            S::TimestampMillisecond(_, z) => ts!(TimestampMillisecond, TimestampMillisecondArray, z),
            S::TimestampMicrosecond(_, z) => ts!(TimestampMicrosecond, TimestampMicrosecondArray, z),
            S::TimestampNanosecond(_, z) => ts!(TimestampNanosecond, TimestampNanosecondArray, z),
            o => return Err(DataFusionError::NotImplemented(format!("iter_to_array of {o:?}"))),
        })
    }
    pub fn try_from_array(a: &dyn Array, i: usize) -> Result<ScalarValue> {
        macro_rules! go { ($v:ident, $t:ty) => {{
            let x = a.as_any().downcast_ref::<$t>().unwrap();
            S::$v(if x.is_null(i) { None } else { Some(x.value(i).into()) })
        }} }
        macro_rules! ts { ($v:ident, $t:ty, $z:ident) => {{
            let x = a.as_any().downcast_ref::<$t>().unwrap();
            S::$v(if x.is_null(i) { None } else { Some(x.value(i)) }, $z.clone())
        }} }
        Ok(match a.data_type() {
            DataType::Null => S::Null,
            DataType::Boolean => go!(Boolean, BooleanArray),
            DataType::Float64 => go!(Float64, Float64Array),
            DataType::Int64 => go!(Int64, Int64Array),
            DataType::Int32 => go!(Int32, Int32Array),
            DataType::UInt64 => go!(UInt64, UInt64Array),
            DataType::Utf8 => go!(Utf8, StringArray),
            DataType::Binary => go!(Binary, BinaryArray),
            DataType::Timestamp(TimeUnit::Second, z) => ts!(TimestampSecond, TimestampSecondArray, z),
            DataType::Timestamp(TimeUnit::Millisecond, z) => ts!(TimestampMillisecond, TimestampMillisecondArray, z),
            DataType::Timestamp(TimeUnit::Microsecond, z) => ts!(TimestampMicrosecond, TimestampMicrosecondArray, z),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => ts!(TimestampNanosecond, TimestampNanosecondArray, z),
            o => return Err(DataFusionError::NotImplemented(format!("try_from_array of {o:?}"))),
        })
    }
}
impl TryFrom<DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(d: DataType) -> Result<Self> {
        Self::try_from(&d)
    }
}
impl TryFrom<&DataType> for ScalarValue {
    type Error = DataFusionError;
    fn try_from(d: &DataType) -> Result<Self> {
        Ok(match d {
            DataType::Null => S::Null,
            DataType::Boolean => S::Boolean(None),
            DataType::Float32 => S::Float32(None),
            DataType::Float64 => S::Float64(None),
            DataType::Int8 => S::Int8(None),
            DataType::Int16 => S::Int16(None),
            DataType::Int32 => S::Int32(None),
            DataType::Int64 => S::Int64(None),
            DataType::UInt8 => S::UInt8(None),
            DataType::UInt16 => S::UInt16(None),
            DataType::UInt32 => S::UInt32(None),
            DataType::UInt64 => S::UInt64(None),
            DataType::Utf8 => S::Utf8(None),
            DataType::LargeUtf8 => S::LargeUtf8(None),
            DataType::Binary => S::Binary(None),
            DataType::Timestamp(TimeUnit::Second, z) => S::TimestampSecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Millisecond, z) => S::TimestampMillisecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Microsecond, z) => S::TimestampMicrosecond(None, z.clone()),
            DataType::Timestamp(TimeUnit::Nanosecond, z) => S::TimestampNanosecond(None, z.clone()),
            o => return Err(DataFusionError::NotImplemented(format!("Can't create a scalar from data_type \"{o:?}\""))),
        })
    }
}
macro_rules! from { ($($t:ty, $v:ident);*) => {$(
    impl From<$t> for ScalarValue { fn from(x: $t) -> Self { S::$v(Some(x)) } }
    impl From<Option<$t>> for ScalarValue { fn from(x: Option<$t>) -> Self { S::$v(x) } }
)*} }
from!(bool, Boolean; f32, Float32; f64, Float64; i8, Int8; i16, Int16; i32, Int32; i64, Int64; u8, UInt8; u16, UInt16; u32, UInt32; u64, UInt64);
impl From<&str> for ScalarValue {
    fn from(x: &str) -> Self {
        S::Utf8(Some(x.into()))
    }
}
impl From<Option<&str>> for ScalarValue {
    fn from(x: Option<&str>) -> Self {
        S::Utf8(x.map(|s| s.into()))
    }
}
impl PartialEq for ScalarValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (S::Null, S::Null) => true,
            (S::Boolean(a), S::Boolean(b)) => a == b,
            (S::Float32(a), S::Float32(b)) => a.map(f32::to_bits) == b.map(f32::to_bits),
            (S::Float64(a), S::Float64(b)) => a.map(f64::to_bits) == b.map(f64::to_bits),
            (S::Decimal128(a, p, s), S::Decimal128(b, q, t)) => a == b && p == q && s == t,
            (S::Int8(a), S::Int8(b)) => a == b,
            (S::Int16(a), S::Int16(b)) => a == b,
            (S::Int32(a), S::Int32(b)) => a == b,
            (S::Int64(a), S::Int64(b)) => a == b,
            (S::UInt8(a), S::UInt8(b)) => a == b,
            (S::UInt16(a), S::UInt16(b)) => a == b,
            (S::UInt32(a), S::UInt32(b)) => a == b,
            (S::UInt64(a), S::UInt64(b)) => a == b,
            (S::Utf8(a), S::Utf8(b)) => a == b,
            (S::LargeUtf8(a), S::LargeUtf8(b)) => a == b,
            (S::Binary(a), S::Binary(b)) => a == b,
            (S::LargeBinary(a), S::LargeBinary(b)) => a == b,
            (S::FixedSizeBinary(n, a), S::FixedSizeBinary(m, b)) => n == m && a == b,
            (S::List(a, f), S::List(b, g)) => a == b && f == g,
            (S::Date32(a), S::Date32(b)) => a == b,
            (S::Date64(a), S::Date64(b)) => a == b,
            (S::Time32Second(a), S::Time32Second(b)) => a == b,
            (S::Time32Millisecond(a), S::Time32Millisecond(b)) => a == b,
            (S::Time64Microsecond(a), S::Time64Microsecond(b)) => a == b,
            (S::Time64Nanosecond(a), S::Time64Nanosecond(b)) => a == b,
            (S::TimestampSecond(a, _), S::TimestampSecond(b, _)) => a == b,
            (S::TimestampMillisecond(a, _), S::TimestampMillisecond(b, _)) => a == b,
            (S::TimestampMicrosecond(a, _), S::TimestampMicrosecond(b, _)) => a == b,
            (S::TimestampNanosecond(a, _), S::TimestampNanosecond(b, _)) => a == b,
            (S::IntervalYearMonth(a), S::IntervalYearMonth(b)) => a == b,
            (S::IntervalDayTime(a), S::IntervalDayTime(b)) => a == b,
            (S::IntervalMonthDayNano(a), S::IntervalMonthDayNano(b)) => a == b,
            (S::Struct(a, f), S::Struct(b, g)) => a == b && f == g,
            (S::Dictionary(k, a), S::Dictionary(l, b)) => k == l && a == b,
            _ => false,
        }
    }
}
impl Eq for ScalarValue {}
impl PartialOrd for ScalarValue {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        match (self, o) {
            (S::Null, S::Null) => Some(Ordering::Equal),
            (S::Boolean(a), S::Boolean(b)) => a.partial_cmp(b),
            (S::Float32(a), S::Float32(b)) => match (a, b) {
                (Some(a), Some(b)) => Some(a.total_cmp(b)),
                _ => a.partial_cmp(b),
            },
            (S::Float64(a), S::Float64(b)) => match (a, b) {
                (Some(a), Some(b)) => Some(a.total_cmp(b)),
                _ => a.partial_cmp(b),
            },
            (S::Decimal128(a, _, s), S::Decimal128(b, _, t)) if s == t => a.partial_cmp(b),
            (S::Int8(a), S::Int8(b)) => a.partial_cmp(b),
            (S::Int16(a), S::Int16(b)) => a.partial_cmp(b),
            (S::Int32(a), S::Int32(b)) => a.partial_cmp(b),
            (S::Int64(a), S::Int64(b)) => a.partial_cmp(b),
            (S::UInt8(a), S::UInt8(b)) => a.partial_cmp(b),
            (S::UInt16(a), S::UInt16(b)) => a.partial_cmp(b),
            (S::UInt32(a), S::UInt32(b)) => a.partial_cmp(b),
            (S::UInt64(a), S::UInt64(b)) => a.partial_cmp(b),
            (S::Utf8(a), S::Utf8(b)) => a.partial_cmp(b),
            (S::LargeUtf8(a), S::LargeUtf8(b)) => a.partial_cmp(b),
            (S::Binary(a), S::Binary(b)) => a.partial_cmp(b),
            (S::LargeBinary(a), S::LargeBinary(b)) => a.partial_cmp(b),
            (S::FixedSizeBinary(_, a), S::FixedSizeBinary(_, b)) => a.partial_cmp(b),
            (S::Date32(a), S::Date32(b)) => a.partial_cmp(b),
            (S::Date64(a), S::Date64(b)) => a.partial_cmp(b),
            (S::Time32Second(a), S::Time32Second(b)) => a.partial_cmp(b),
            (S::Time32Millisecond(a), S::Time32Millisecond(b)) => a.partial_cmp(b),
            (S::Time64Microsecond(a), S::Time64Microsecond(b)) => a.partial_cmp(b),
            (S::Time64Nanosecond(a), S::Time64Nanosecond(b)) => a.partial_cmp(b),
            (S::TimestampSecond(a, _), S::TimestampSecond(b, _)) => a.partial_cmp(b),
            (S::TimestampMillisecond(a, _), S::TimestampMillisecond(b, _)) => a.partial_cmp(b),
            (S::TimestampMicrosecond(a, _), S::TimestampMicrosecond(b, _)) => a.partial_cmp(b),
            (S::TimestampNanosecond(a, _), S::TimestampNanosecond(b, _)) => a.partial_cmp(b),
            _ => None,
        }
    }
}
impl Hash for ScalarValue {
    fn hash<H: Hasher>(&self, h: &mut H) {
        format!("{self:?}").hash(h)
    }
}
impl fmt::Debug for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        macro_rules! d { ($($v:ident)*) => { match self {
            S::Null => f.write_str("NULL"),
            $(S::$v(x) => write!(f, concat!(stringify!($v), "({:?})"), x),)*
            S::TimestampSecond(x, _) => write!(f, "TimestampSecond({x:?})"),
            S::TimestampMillisecond(x, _) => write!(f, "TimestampMillisecond({x:?})"),
            S::TimestampMicrosecond(x, _) => write!(f, "TimestampMicrosecond({x:?})"),
            S::TimestampNanosecond(x, _) => write!(f, "TimestampNanosecond({x:?})"),
            S::Decimal128(x, p, s) => write!(f, "Decimal128({x:?},{p},{s})"),
            S::FixedSizeBinary(n, x) => write!(f, "FixedSizeBinary({n},{x:?})"),
            S::List(x, _) => write!(f, "List({x:?})"),
            S::Struct(x, _) => write!(f, "Struct({x:?})"),
            S::Dictionary(k, x) => write!(f, "Dictionary({k:?},{x:?})"),
        } } }
        d!(Boolean Float32 Float64 Int8 Int16 Int32 Int64 UInt8 UInt16 UInt32 UInt64 Utf8 LargeUtf8 Binary LargeBinary Date32 Date64 Time32Second Time32Millisecond Time64Microsecond Time64Nanosecond IntervalYearMonth IntervalDayTime IntervalMonthDayNano)
    }
}
impl fmt::Display for ScalarValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            S::Utf8(Some(s)) | S::LargeUtf8(Some(s)) => f.write_str(s),
            S::Int64(Some(x)) => write!(f, "{x}"),
            S::UInt64(Some(x)) => write!(f, "{x}"),
            S::Float64(Some(x)) => write!(f, "{x}"),
            S::Boolean(Some(x)) => write!(f, "{x}"),
            S::TimestampSecond(Some(x), _) | S::TimestampMillisecond(Some(x), _) | S::TimestampMicrosecond(Some(x), _) | S::TimestampNanosecond(Some(x), _) => write!(f, "{x}"),
            o => write!(f, "{o:?}"),
        }
    }
}

macro_rules! try_prim {
    ($t:ty: $($v:pat => $x:expr),+) => {
        impl TryFrom<ScalarValue> for $t {
            type Error = crate::error::DataFusionError;
            fn try_from(s: ScalarValue) -> Result<Self> {
                match s {
                    $($v => Ok($x),)+
                    o => Err(crate::error::DataFusionError::Internal(format!("Cannot convert {o:?} to {}", stringify!($t)))),
                }
            }
        }
    };
}
try_prim!(i64:
    S::Int64(Some(v)) => v,
    S::TimestampSecond(Some(v), _) => v,
    S::TimestampMillisecond(Some(v), _) => v,
    S::TimestampMicrosecond(Some(v), _) => v,
    S::TimestampNanosecond(Some(v), _) => v);
try_prim!(u64: S::UInt64(Some(v)) => v);
try_prim!(f64: S::Float64(Some(v)) => v);
try_prim!(bool: S::Boolean(Some(v)) => v);
