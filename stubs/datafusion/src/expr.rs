use crate::error::{DataFusionError, Result};
use crate::scalar_value::ScalarValue;
use crate::tree::TreeNode;
use arrow::datatypes::{DataType, FieldRef};
use std::collections::{HashMap, HashSet};
use std::fmt;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Column {
    pub relation: Option<String>,
    pub name: String,
}
impl Column {
    pub fn from_name(n: impl Into<String>) -> Self {
        Column { relation: None, name: n.into() }
    }
    pub fn new(r: Option<impl Into<String>>, n: impl Into<String>) -> Self {
        Column { relation: r.map(|r| r.into()), name: n.into() }
    }
    pub fn from_qualified_name(n: impl Into<String>) -> Self {
        Column::from(n.into().as_str())
    }
}
impl From<&str> for Column {
    fn from(s: &str) -> Self {
        match s.rsplit_once('.') {
            Some((r, n)) => Column { relation: Some(r.into()), name: n.into() },
            None => Column { relation: None, name: s.into() },
        }
    }
}
impl fmt::Display for Column {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.relation {
            Some(r) => write!(f, "{r}.{}", self.name),
            None => f.write_str(&self.name),
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Operator {
    Eq,
    NotEq,
    Lt,
    LtEq,
    Gt,
    GtEq,
    Plus,
    Minus,
    Multiply,
    Divide,
    Modulo,
    And,
    Or,
}
impl fmt::Display for Operator {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Operator::Eq => "=",
            Operator::NotEq => "!=",
            Operator::Lt => "<",
            Operator::LtEq => "<=",
            Operator::Gt => ">",
            Operator::GtEq => ">=",
            Operator::Plus => "+",
            Operator::Minus => "-",
            Operator::Multiply => "*",
            Operator::Divide => "/",
            Operator::Modulo => "%",
            Operator::And => "AND",
            Operator::Or => "OR",
        })
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct BinaryExpr {
    pub left: Box<Expr>,
    pub op: Operator,
    pub right: Box<Expr>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cast {
    pub expr: Box<Expr>,
    pub data_type: DataType,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Like {
    pub negated: bool,
    pub expr: Box<Expr>,
    pub pattern: Box<Expr>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Expr {
    Column(Column),
    Literal(ScalarValue),
    BinaryExpr(BinaryExpr),
    Cast(Cast),
    Like(Like),
    ILike(Like),
    SimilarTo(Like),
    Not(Box<Expr>),
    IsNotNull(Box<Expr>),
    IsNull(Box<Expr>),
    IsTrue(Box<Expr>),
    IsFalse(Box<Expr>),
    IsUnknown(Box<Expr>),
    IsNotTrue(Box<Expr>),
    IsNotFalse(Box<Expr>),
    IsNotUnknown(Box<Expr>),
    Between { expr: Box<Expr>, negated: bool, low: Box<Expr>, high: Box<Expr> },
    InList { expr: Box<Expr>, list: Vec<Expr>, negated: bool },
    Wildcard,
}
impl fmt::Display for Expr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Expr::Column(c) => write!(f, "{c}"),
            Expr::Literal(v) => write!(f, "{v:?}"),
            Expr::BinaryExpr(b) => write!(f, "({} {} {})", b.left, b.op, b.right),
            o => write!(f, "{o:?}"),
        }
    }
}
pub fn col(n: &str) -> Expr {
    Expr::Column(n.into())
}
pub fn lit(v: impl Into<ScalarValue>) -> Expr {
    Expr::Literal(v.into())
}
pub fn binary_expr(l: Expr, op: Operator, r: Expr) -> Expr {
    Expr::BinaryExpr(BinaryExpr { left: Box::new(l), op, right: Box::new(r) })
}
pub fn and(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::And, r)
}
pub fn or(l: Expr, r: Expr) -> Expr {
    binary_expr(l, Operator::Or, r)
}
impl TreeNode for Expr {
    fn kids(&self) -> Vec<Expr> {
        match self {
            Expr::Column(_) | Expr::Literal(_) | Expr::Wildcard => vec![],
            Expr::BinaryExpr(b) => vec![*b.left.clone(), *b.right.clone()],
            Expr::Cast(c) => vec![*c.expr.clone()],
            Expr::Like(l) | Expr::ILike(l) | Expr::SimilarTo(l) => vec![*l.expr.clone(), *l.pattern.clone()],
            Expr::Not(e) | Expr::IsNotNull(e) | Expr::IsNull(e) | Expr::IsTrue(e) | Expr::IsFalse(e) | Expr::IsUnknown(e) | Expr::IsNotTrue(e) | Expr::IsNotFalse(e) | Expr::IsNotUnknown(e) => vec![*e.clone()],
            Expr::Between { expr, low, high, .. } => vec![*expr.clone(), *low.clone(), *high.clone()],
            Expr::InList { expr, list, .. } => std::iter::once(*expr.clone()).chain(list.clone()).collect(),
        }
    }
    fn with_kids(self, k: Vec<Expr>) -> Result<Expr> {
        let mut k = k.into_iter();
        Ok(match self {
            Expr::BinaryExpr(b) => binary_expr(k.next().unwrap(), b.op, k.next().unwrap()),
            Expr::Cast(c) => Expr::Cast(Cast { expr: Box::new(k.next().unwrap()), data_type: c.data_type }),
            o => return Err(DataFusionError::NotImplemented(format!("rewrite of {o}"))),
        })
    }
}
pub struct ScalarUDF;
pub struct AggregateUDF;
pub struct WindowUDF;
pub trait FunctionRegistry {
    fn udfs(&self) -> HashSet<String>;
    fn udf(&self, name: &str) -> Result<Arc<ScalarUDF>>;
    fn udaf(&self, name: &str) -> Result<Arc<AggregateUDF>>;
    fn udwf(&self, name: &str) -> Result<Arc<WindowUDF>>;
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFField {
    pub qualifier: Option<String>,
    pub field: FieldRef,
}
impl DFField {
    pub fn from_qualified(q: &str, f: impl Into<FieldRef>) -> Self {
        DFField { qualifier: Some(q.into()), field: f.into() }
    }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DFSchema {
    pub fields: Vec<DFField>,
    pub metadata: HashMap<String, String>,
}
pub type DFSchemaRef = Arc<DFSchema>;
impl DFSchema {
    pub fn empty() -> Self {
        DFSchema { fields: vec![], metadata: HashMap::new() }
    }
    pub fn new_with_metadata(fields: Vec<DFField>, metadata: HashMap<String, String>) -> Result<Self> {
        Ok(DFSchema { fields, metadata })
    }
}
