use crate::error::{DataFusionError, Result};
use crate::expr::{Column as LColumn, DFSchema, Expr, Operator};
use crate::scalar_value::ScalarValue;
use crate::tree::TreeNode;
use arrow::array::{Array, ArrayRef, BooleanArray};
use arrow::compute::kernels::{boolean, cast, comparison};
use arrow::datatypes::{DataType, Schema, SchemaRef};
use arrow::record_batch::RecordBatch;
use std::any::Any;
use std::cmp::Ordering;
use std::fmt::{self, Debug, Display};
use std::sync::Arc;

pub type SendableRecordBatchStream = std::pin::Pin<Box<dyn futures::Stream<Item = Result<RecordBatch>> + Send>>;
pub enum ColumnarValue {
    Array(ArrayRef),
    Scalar(ScalarValue),
}
impl ColumnarValue {
    pub fn into_array(self, n: usize) -> ArrayRef {
        match self {
            ColumnarValue::Array(a) => a,
            ColumnarValue::Scalar(s) => s.to_array_of_size(n),
        }
    }
}
pub trait PhysicalExpr: Send + Sync + Display + Debug {
    fn as_any(&self) -> &dyn Any;
    fn evaluate(&self, batch: &RecordBatch) -> Result<ColumnarValue>;
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>>;
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>>;
    fn data_type(&self, s: &Schema) -> Result<DataType>;
}
impl TreeNode for Arc<dyn PhysicalExpr> {
    fn kids(&self) -> Vec<Self> {
        self.children()
    }
    fn with_kids(self, k: Vec<Self>) -> Result<Self> {
        self.with_new_children(k)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Column {
    name: String,
    index: usize,
}
impl Column {
    pub fn new(n: &str, index: usize) -> Self {
        Column { name: n.into(), index }
    }
    pub fn name(&self) -> &str {
        &self.name
    }
    pub fn index(&self) -> usize {
        self.index
    }
}
impl Display for Column {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}@{}", self.name, self.index)
    }
}
impl PhysicalExpr for Column {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        if self.index >= b.num_columns() || b.schema().field(self.index).name() != &self.name {
            return Err(DataFusionError::Internal(format!("PhysicalExpr Column {self} is not in the input schema {:?}", b.schema())));
        }
        Ok(ColumnarValue::Array(b.column(self.index).clone()))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![]
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(self)
    }
    fn data_type(&self, s: &Schema) -> Result<DataType> {
        Ok(s.field(self.index).data_type().clone())
    }
}
#[derive(Debug, Clone)]
pub struct Literal {
    value: ScalarValue,
}
impl Literal {
    pub fn new(value: ScalarValue) -> Self {
        Literal { value }
    }
    pub fn value(&self) -> &ScalarValue {
        &self.value
    }
}
impl Display for Literal {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.value)
    }
}
impl PhysicalExpr for Literal {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn evaluate(&self, _: &RecordBatch) -> Result<ColumnarValue> {
        Ok(ColumnarValue::Scalar(self.value.clone()))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![]
    }
    fn with_new_children(self: Arc<Self>, _: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(self)
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(self.value.get_datatype())
    }
}
#[derive(Debug, Clone)]
pub struct BinaryExpr {
    left: Arc<dyn PhysicalExpr>,
    op: Operator,
    right: Arc<dyn PhysicalExpr>,
}
impl BinaryExpr {
    pub fn new(left: Arc<dyn PhysicalExpr>, op: Operator, right: Arc<dyn PhysicalExpr>) -> Self {
        BinaryExpr { left, op, right }
    }
    pub fn left(&self) -> &Arc<dyn PhysicalExpr> {
        &self.left
    }
    pub fn right(&self) -> &Arc<dyn PhysicalExpr> {
        &self.right
    }
    pub fn op(&self) -> &Operator {
        &self.op
    }
}
impl Display for BinaryExpr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{} {} {}", self.left, self.op, self.right)
    }
}
impl PhysicalExpr for BinaryExpr {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        let l = self.left.evaluate(b)?.into_array(b.num_rows());
        let mut r = self.right.evaluate(b)?.into_array(b.num_rows());
        if matches!(self.op, Operator::And | Operator::Or) {
            let f = |a: &ArrayRef| a.as_any().downcast_ref::<BooleanArray>().cloned().ok_or_else(|| DataFusionError::Internal("AND/OR of what is not boolean".into()));
            let (l, r) = (f(&l)?, f(&r)?);
            let o = if self.op == Operator::And { boolean::and_kleene(&l, &r)? } else { boolean::or_kleene(&l, &r)? };
            return Ok(ColumnarValue::Array(Arc::new(o)));
        }
        if l.data_type() != r.data_type() {
            r = cast::cast(&r, l.data_type())?;
        }
        let o = match self.op {
            Operator::Eq => comparison::eq_dyn(&l, &r)?,
            Operator::NotEq => comparison::neq_dyn(&l, &r)?,
            Operator::Lt => comparison::lt_dyn(&l, &r)?,
            Operator::LtEq => comparison::lt_eq_dyn(&l, &r)?,
            Operator::Gt => comparison::gt_dyn(&l, &r)?,
            Operator::GtEq => comparison::gt_eq_dyn(&l, &r)?,
            o => return Err(DataFusionError::NotImplemented(format!("operator {o}"))),
        };
        Ok(ColumnarValue::Array(Arc::new(o)))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![self.left.clone(), self.right.clone()]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(BinaryExpr::new(c[0].clone(), self.op, c[1].clone())))
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(DataType::Boolean)
    }
}
#[derive(Debug, Clone)]
pub struct CastExpr {
    expr: Arc<dyn PhysicalExpr>,
    to: DataType,
}
impl CastExpr {
    pub fn new(expr: Arc<dyn PhysicalExpr>, to: DataType, _: Option<()>) -> Self {
        CastExpr { expr, to }
    }
}
impl Display for CastExpr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "CAST({} AS {:?})", self.expr, self.to)
    }
}
impl PhysicalExpr for CastExpr {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn evaluate(&self, b: &RecordBatch) -> Result<ColumnarValue> {
        let a = self.expr.evaluate(b)?.into_array(b.num_rows());
        Ok(ColumnarValue::Array(cast::cast(&a, &self.to)?))
    }
    fn children(&self) -> Vec<Arc<dyn PhysicalExpr>> {
        vec![self.expr.clone()]
    }
    fn with_new_children(self: Arc<Self>, c: Vec<Arc<dyn PhysicalExpr>>) -> Result<Arc<dyn PhysicalExpr>> {
        Ok(Arc::new(CastExpr { expr: c[0].clone(), to: self.to.clone() }))
    }
    fn data_type(&self, _: &Schema) -> Result<DataType> {
        Ok(self.to.clone())
    }
}
#[derive(Default)]
pub struct ExecutionProps;
impl ExecutionProps {
    pub fn new() -> Self {
        ExecutionProps
    }
}
pub fn create_physical_expr(e: &Expr, d: &DFSchema, s: &Schema, p: &ExecutionProps) -> Result<Arc<dyn PhysicalExpr>> {
    Ok(match e {
        Expr::Column(c) => Arc::new(Column::new(&c.name, s.index_of(&c.name)?)),
        Expr::Literal(v) => Arc::new(Literal::new(v.clone())),
        Expr::BinaryExpr(b) => Arc::new(BinaryExpr::new(create_physical_expr(&b.left, d, s, p)?, b.op, create_physical_expr(&b.right, d, s, p)?)),
        Expr::Cast(c) => Arc::new(CastExpr { expr: create_physical_expr(&c.expr, d, s, p)?, to: c.data_type.clone() }),
        o => return Err(DataFusionError::NotImplemented(format!("physical expression of {o}"))),
    })
}

pub trait PruningStatistics {
    fn min_values(&self, column: &LColumn) -> Option<ArrayRef>;
    fn max_values(&self, column: &LColumn) -> Option<ArrayRef>;
    fn num_containers(&self) -> usize;
    fn null_counts(&self, column: &LColumn) -> Option<ArrayRef>;
}
/// Keeps every container in which some row may satisfy the predicate, as far as
/// minima and maxima tell.
pub struct PruningPredicate {
    expr: Arc<dyn PhysicalExpr>,
}
impl PruningPredicate {
    pub fn try_new(expr: Arc<dyn PhysicalExpr>, _: SchemaRef) -> Result<Self> {
        Ok(PruningPredicate { expr })
    }
    pub fn prune<S: PruningStatistics>(&self, s: &S) -> Result<Vec<bool>> {
        (0..s.num_containers()).map(|i| may(&self.expr, s, i)).collect()
    }
}
fn may<S: PruningStatistics>(e: &Arc<dyn PhysicalExpr>, s: &S, i: usize) -> Result<bool> {
    if let Some(l) = e.as_any().downcast_ref::<Literal>() {
        return Ok(!matches!(l.value, ScalarValue::Boolean(Some(false))));
    }
    let Some(b) = e.as_any().downcast_ref::<BinaryExpr>() else { return Ok(true) };
    match b.op {
        Operator::And => return Ok(may(&b.left, s, i)? && may(&b.right, s, i)?),
        Operator::Or => return Ok(may(&b.left, s, i)? || may(&b.right, s, i)?),
        _ => {}
    }
    let (l, r) = (b.left.as_any(), b.right.as_any());
    let (c, v, op) = match (l.downcast_ref::<Column>(), r.downcast_ref::<Literal>(), l.downcast_ref::<Literal>(), r.downcast_ref::<Column>()) {
        (Some(c), Some(v), _, _) => (c, v, b.op),
        (_, _, Some(v), Some(c)) => (
            c,
            v,
            match b.op {
                Operator::Lt => Operator::Gt,
                Operator::LtEq => Operator::GtEq,
                Operator::Gt => Operator::Lt,
                Operator::GtEq => Operator::LtEq,
                o => o,
            },
        ),
        _ => return Ok(true),
    };
    let col = LColumn::from_name(c.name());
    let get = |a: Option<ArrayRef>| a.and_then(|a| if a.is_null(i) { None } else { ScalarValue::try_from_array(&a, i).ok() });
    let (min, max) = (get(s.min_values(&col)), get(s.max_values(&col)));
    let (Some(min), Some(max)) = (min, max) else { return Ok(true) };
    let (Some(lo), Some(hi)) = (min.partial_cmp(&v.value), max.partial_cmp(&v.value)) else { return Ok(true) };
    Ok(match op {
        Operator::Eq => lo != Ordering::Greater && hi != Ordering::Less,
        Operator::NotEq => lo != Ordering::Equal || hi != Ordering::Equal,
        Operator::Lt => lo == Ordering::Less,
        Operator::LtEq => lo != Ordering::Greater,
        Operator::Gt => hi == Ordering::Greater,
        Operator::GtEq => hi != Ordering::Less,
        _ => true,
    })
}
