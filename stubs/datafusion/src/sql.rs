use std::borrow::Cow;
use std::fmt;
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub enum TableReference<'a> {
    Bare { table: Cow<'a, str> },
    Partial { schema: Cow<'a, str>, table: Cow<'a, str> },
    Full { catalog: Cow<'a, str>, schema: Cow<'a, str>, table: Cow<'a, str> },
}
impl fmt::Display for TableReference<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TableReference::Bare { table } => f.write_str(table),
            TableReference::Partial { schema, table } => write!(f, "{schema}.{table}"),
            TableReference::Full { catalog, schema, table } => write!(f, "{catalog}.{schema}.{table}"),
        }
    }
}
pub mod sqlparser {
    pub mod ast {
        use std::fmt;
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum Value {
            Number(String, bool),
            SingleQuotedString(String),
            DoubleQuotedString(String),
            Boolean(bool),
            Null,
        }
        impl fmt::Display for Value {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                match self {
                    Value::Number(s, _) => f.write_str(s),
                    Value::SingleQuotedString(s) => write!(f, "'{}'", s.replace('\'', "''")),
                    Value::DoubleQuotedString(s) => write!(f, "\"{s}\""),
                    Value::Boolean(b) => write!(f, "{b}"),
                    Value::Null => f.write_str("NULL"),
                }
            }
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum ExactNumberInfo {
            None,
            Precision(u64),
            PrecisionAndScale(u64, u64),
        }
        #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
        pub enum TimezoneInfo {
            None,
            WithTimeZone,
            WithoutTimeZone,
            Tz,
        }
        #[derive(Debug, Clone, PartialEq, Eq, Hash)]
        pub enum DataType {
            Boolean,
            TinyInt(Option<u64>),
            SmallInt(Option<u64>),
            Int(Option<u64>),
            BigInt(Option<u64>),
            UnsignedTinyInt(Option<u64>),
            UnsignedSmallInt(Option<u64>),
            UnsignedInt(Option<u64>),
            UnsignedBigInt(Option<u64>),
            Float(Option<u64>),
            Double,
            Timestamp(Option<u64>, TimezoneInfo),
            Date,
            Time(Option<u64>, TimezoneInfo),
            Interval,
            Varbinary(Option<u64>),
            Binary(Option<u64>),
            Blob(Option<u64>),
            String,
            Decimal(ExactNumberInfo),
            BigDecimal(ExactNumberInfo),
        }
        impl fmt::Display for DataType {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", format!("{self:?}").to_uppercase())
            }
        }
    }
}
