//! Stand-in for datafusion-proto: expressions of columns, literals, casts to a literal's type and binary operators.
use datafusion::error::DataFusionError;
use datafusion::physical_plan::expressions as e;
use datafusion::physical_plan::PhysicalExpr;
use datafusion::scalar::ScalarValue as S;
use std::sync::Arc;

pub mod protobuf {
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct ScalarValue {
        #[prost(uint32, tag = "1")]
        pub kind: u32,
        #[prost(bytes = "vec", optional, tag = "2")]
        pub value: Option<Vec<u8>>,
        #[prost(string, optional, tag = "3")]
        pub tz: Option<String>,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct PhysicalColumn {
        #[prost(string, tag = "1")]
        pub name: String,
        #[prost(uint32, tag = "2")]
        pub index: u32,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct PhysicalBinaryExprNode {
        #[prost(message, optional, boxed, tag = "1")]
        pub l: Option<Box<PhysicalExprNode>>,
        #[prost(message, optional, boxed, tag = "2")]
        pub r: Option<Box<PhysicalExprNode>>,
        #[prost(string, tag = "3")]
        pub op: String,
    }
    #[derive(Clone, PartialEq, ::prost::Message)]
    pub struct PhysicalExprNode {
        #[prost(oneof = "physical_expr_node::ExprType", tags = "1, 2, 3")]
        pub expr_type: Option<physical_expr_node::ExprType>,
    }
    pub mod physical_expr_node {
        #[derive(Clone, PartialEq, ::prost::Oneof)]
        pub enum ExprType {
            #[prost(message, tag = "1")]
            Column(super::PhysicalColumn),
            #[prost(message, tag = "2")]
            Literal(super::ScalarValue),
            #[prost(message, tag = "3")]
            BinaryExpr(Box<super::PhysicalBinaryExprNode>),
        }
    }
}
use protobuf::physical_expr_node::ExprType;

macro_rules! both { ($($n:literal $v:ident $t:ty),*) => {
    impl TryFrom<&S> for protobuf::ScalarValue {
        type Error = DataFusionError;
        fn try_from(s: &S) -> Result<Self, DataFusionError> {
            let (kind, value, tz) = match s {
                S::Null => (0, None, None),
                S::Boolean(x) => (1, x.map(|x| vec![x as u8]), None),
                S::Utf8(x) => (2, x.clone().map(|x| x.into_bytes()), None),
                S::TimestampSecond(x, z) => (3, x.map(|x| x.to_le_bytes().to_vec()), z.as_ref().map(|z| z.to_string())),
                S::TimestampMillisecond(x, z) => (4, x.map(|x| x.to_le_bytes().to_vec()), z.as_ref().map(|z| z.to_string())),
                S::TimestampMicrosecond(x, z) => (5, x.map(|x| x.to_le_bytes().to_vec()), z.as_ref().map(|z| z.to_string())),
                S::TimestampNanosecond(x, z) => (6, x.map(|x| x.to_le_bytes().to_vec()), z.as_ref().map(|z| z.to_string())),
                S::Binary(x) => (7, x.clone(), None),
                $(S::$v(x) => ($n, x.map(|x| x.to_le_bytes().to_vec()), None),)*
                o => return Err(DataFusionError::NotImplemented(format!("encoding of {o:?}"))),
            };
            Ok(protobuf::ScalarValue { kind, value, tz })
        }
    }
    impl TryFrom<&protobuf::ScalarValue> for S {
        type Error = DataFusionError;
        fn try_from(p: &protobuf::ScalarValue) -> Result<Self, DataFusionError> {
            let i = || p.value.as_ref().map(|v| i64::from_le_bytes(v[..].try_into().unwrap()));
            let z = || p.tz.as_ref().map(|z| Arc::<str>::from(z.as_str()));
            Ok(match p.kind {
                0 => S::Null,
                1 => S::Boolean(p.value.as_ref().map(|v| v[0] != 0)),
                2 => S::Utf8(p.value.as_ref().map(|v| String::from_utf8(v.clone()).unwrap())),
                3 => S::TimestampSecond(i(), z()),
                4 => S::TimestampMillisecond(i(), z()),
                5 => S::TimestampMicrosecond(i(), z()),
                6 => S::TimestampNanosecond(i(), z()),
                7 => S::Binary(p.value.clone()),
                $($n => S::$v(p.value.as_ref().map(|v| <$t>::from_le_bytes(v[..].try_into().unwrap()))),)*
                k => return Err(DataFusionError::Internal(format!("kind {k}"))),
            })
        }
    }
} }
both!(10 Float32 f32, 11 Float64 f64, 12 Int8 i8, 13 Int16 i16, 14 Int32 i32, 15 Int64 i64, 16 UInt8 u8, 17 UInt16 u16, 18 UInt32 u32, 19 UInt64 u64);

impl TryFrom<Arc<dyn PhysicalExpr>> for protobuf::PhysicalExprNode {
    type Error = DataFusionError;
    fn try_from(x: Arc<dyn PhysicalExpr>) -> Result<Self, DataFusionError> {
        let a = x.as_any();
        let t = if let Some(c) = a.downcast_ref::<e::Column>() {
            ExprType::Column(protobuf::PhysicalColumn { name: c.name().into(), index: c.index() as u32 })
        } else if let Some(l) = a.downcast_ref::<e::Literal>() {
            ExprType::Literal(l.value().try_into()?)
        } else if let Some(b) = a.downcast_ref::<e::BinaryExpr>() {
            ExprType::BinaryExpr(Box::new(protobuf::PhysicalBinaryExprNode {
                l: Some(Box::new(b.left().clone().try_into()?)),
                r: Some(Box::new(b.right().clone().try_into()?)),
                op: b.op().to_string(),
            }))
        } else {
            return Err(DataFusionError::NotImplemented(format!("encoding of {x}")));
        };
        Ok(protobuf::PhysicalExprNode { expr_type: Some(t) })
    }
}
pub mod physical_plan {
    pub mod from_proto {
        use crate::{e, protobuf, ExprType};
        use datafusion::arrow::datatypes::Schema;
        use datafusion::error::DataFusionError;
        use datafusion::execution::FunctionRegistry;
        use datafusion::logical_expr::Operator as O;
        use datafusion::physical_plan::PhysicalExpr;
        use std::sync::Arc;
        pub fn parse_physical_expr(n: &protobuf::PhysicalExprNode, r: &dyn FunctionRegistry, s: &Schema) -> Result<Arc<dyn PhysicalExpr>, DataFusionError> {
            let bad = || DataFusionError::Internal("Unexpected empty physical expression".into());
            Ok(match n.expr_type.as_ref().ok_or_else(bad)? {
                ExprType::Column(c) => Arc::new(e::Column::new(&c.name, c.index as usize)),
                ExprType::Literal(v) => Arc::new(e::Literal::new(v.try_into()?)),
                ExprType::BinaryExpr(b) => {
                    let op = [O::Eq, O::NotEq, O::Lt, O::LtEq, O::Gt, O::GtEq, O::And, O::Or].into_iter().find(|o| o.to_string() == b.op).ok_or_else(bad)?;
                    let l = parse_physical_expr(b.l.as_ref().ok_or_else(bad)?, r, s)?;
                    let rr = parse_physical_expr(b.r.as_ref().ok_or_else(bad)?, r, s)?;
                    Arc::new(e::BinaryExpr::new(l, op, rr))
                }
            })
        }
    }
}
