//! The operations clients perform, through the coordinator of the node they are on.
use crate::cluster::{Live, DB, TENANT};
use coordinator::resource_manager::ResourceManager;
use coordinator::Coordinator;
use datafusion::arrow::array::*;
use datafusion::arrow::datatypes::{DataType, TimeUnit};
use datafusion::arrow::record_batch::RecordBatch;
use datafusion::common::DFSchema;
use datafusion::logical_expr::{and, binary_expr, or, Column, Expr, Operator};
use datafusion::scalar::ScalarValue;
use datafusion::sql::TableReference;
use futures::StreamExt;
use models::codec::Encoding;
use models::meta_data::{ReplicationSet, VnodeInfo};
use models::oid::Identifier;
use models::object_reference::{Resolve, ResolvedTable};
use models::predicate::domain::{Predicate, ResolvedPredicate, ResolvedPredicateRef, TimeRanges};
use models::predicate::transformation::DeleteSelectionExpressionToDomainsVisitor;
use models::predicate::utils::{filter_to_time_ranges, time_range_to_precision};
use models::predicate::PlacedSplit;
use models::schema::database_schema::*;
use models::schema::resource_info::{ResourceInfo, ResourceOperator};
use models::schema::tskv_table_schema::{ColumnType, TableColumn, TskvTableSchema, TskvTableSchemaRef};
use models::schema::table_schema::TableSchema;
use models::schema::TIME_FIELD_NAME;
use protos::kv_service::UpdateSetValue;
use simh::Value;
use std::collections::BTreeMap;
use std::sync::Arc;
use tskv::reader::QueryOption;
use utils::duration::CnosDuration;
use utils::precision::{timestamp_convert, Precision};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Val {
    I(i64),
    U(u64),
    F(u64),
    B(bool),
    S(String),
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Row {
    pub tags: BTreeMap<String, String>,
    pub ts: i64,
    pub vals: BTreeMap<String, Val>,
}
/// What a read asks for. Tags are returned if named in `cols`.
#[derive(Clone, Debug, Default)]
pub struct Query {
    pub table: String,
    pub cols: Vec<String>,
    pub tags: Vec<(String, Vec<String>)>,
    pub ranges: Vec<(i64, i64)>,
    pub conds: Vec<(String, String, Val)>,
    pub limit: Option<usize>,
    pub batch: usize,
    /// without the time column
    pub notime: bool,
    /// the tag values are all those between the first and the last
    pub between: bool,
    /// times and hosts left out, by !=
    pub nt: Vec<i64>,
    pub nh: Vec<String>,
    /// comparisons one after the other, not in brackets
    pub flat: bool,
    pub used: Used,
}

pub fn es<E: std::fmt::Display>(e: E) -> String {
    e.to_string()
}
async fn tenant(l: &Live) -> Result<meta::model::MetaClientRef, String> {
    l.meta.tenant_meta(TENANT).await.ok_or_else(|| "no tenant".to_string())
}
pub fn resolved(table: &str) -> ResolvedTable {
    TableReference::Bare { table: table.to_string().into() }.resolve_object(TENANT, DB).expect("table name")
}
/// The condition a query states, as SQL would state it: (tag = v OR tag = v …) AND (time in
/// range OR …) AND column op value …
fn condition(q: &Query, unit: Precision) -> Option<Expr> {
    let lit_ts = |t: i64| {
        Expr::Literal(match unit {
            Precision::MS => ScalarValue::TimestampMillisecond(Some(t), None),
            Precision::US => ScalarValue::TimestampMicrosecond(Some(t), None),
            Precision::NS => ScalarValue::TimestampNanosecond(Some(t), None),
        })
    };
    let cmp = |c: &str, o: Operator, v: Expr| binary_expr(Expr::Column(Column::from_name(c)), o, v);
    let mut all = vec![];
    for (t, vs) in &q.tags {
        if q.between && vs.len() > 1 {
            let lit = |v: &String| Expr::Literal(ScalarValue::Utf8(Some(v.clone())));
            all.push(and(cmp(t, Operator::GtEq, lit(&vs[0])), cmp(t, Operator::LtEq, lit(&vs[vs.len() - 1]))));
            continue;
        }
        all.extend(vs.iter().map(|v| cmp(t, Operator::Eq, Expr::Literal(ScalarValue::Utf8(Some(v.clone()))))).reduce(or));
    }
    let time = |r: &(i64, i64)| {
        if r.0 == r.1 && r.0 % 2 == 0 {
            cmp(TIME_FIELD_NAME, Operator::Eq, lit_ts(r.0))
        } else if q.batch % 2 == 0 {
            and(cmp(TIME_FIELD_NAME, Operator::Gt, lit_ts(r.0 - 1)), cmp(TIME_FIELD_NAME, Operator::Lt, lit_ts(r.1 + 1)))
        } else {
            and(cmp(TIME_FIELD_NAME, Operator::GtEq, lit_ts(r.0)), cmp(TIME_FIELD_NAME, Operator::LtEq, lit_ts(r.1)))
        }
    };
    all.extend(q.nh.iter().map(|v| cmp("h", Operator::NotEq, Expr::Literal(ScalarValue::Utf8(Some(v.clone()))))));
    match q.ranges.iter().map(time).reduce(or) {
        Some(Expr::BinaryExpr(e)) if q.flat && e.op == Operator::And => all.extend([*e.left, *e.right]),
        e => all.extend(e),
    }
    all.extend(q.nt.iter().map(|t| cmp(TIME_FIELD_NAME, Operator::NotEq, lit_ts(*t))));
    for (c, o, v) in &q.conds {
        let o = match o.as_str() {
            "=" => Operator::Eq,
            "<" => Operator::Lt,
            "<=" => Operator::LtEq,
            ">" => Operator::Gt,
            _ => Operator::GtEq,
        };
        all.push(cmp(c, o, Expr::Literal(match v {
            Val::I(x) => ScalarValue::Int64(Some(*x)),
            Val::U(x) => ScalarValue::UInt64(Some(*x)),
            Val::F(x) => ScalarValue::Float64(Some(f64::from_bits(*x))),
            Val::B(x) => ScalarValue::Boolean(Some(*x)),
            Val::S(x) => ScalarValue::Utf8(Some(x.clone())),
        })));
    }
    all.into_iter().reduce(and)
}
fn precision_of(s: &TskvTableSchema) -> Precision {
    match s.columns().iter().find(|c| c.name == TIME_FIELD_NAME).map(|c| c.column_type.clone()) {
        Some(ColumnType::Time(TimeUnit::Millisecond)) => Precision::MS,
        Some(ColumnType::Time(TimeUnit::Microsecond)) => Precision::US,
        _ => Precision::NS,
    }
}
/// What the query engine makes of a condition that it pushes down to the storage.
/// What a query of a column the table does not have fails with.
pub const NO_COLUMN: &str = "no such column";
fn predicate(q: &Query, schema: &TskvTableSchemaRef, time: bool) -> Result<ResolvedPredicateRef, String> {
    for c in &q.conds {
        if schema.column(&c.0).is_none() {
            return Err(format!("{NO_COLUMN}: {}", c.0));
        }
    }
    let idx = projection(q, schema, time);
    let full = schema.to_df_schema().map_err(es)?;
    let df = DFSchema::new_with_metadata(idx.iter().map(|i| full.fields[*i].clone()).collect(), full.metadata.clone()).map_err(es)?;
    let arrow = schema.to_arrow_schema().project(&idx).map_err(es)?;
    let e = condition(q, precision_of(schema));
    Predicate::push_down_filter(e, &df, &arrow, q.limit).map_err(es)?.resolve(schema).map_err(es)
}
/// The columns scanned: those asked for and those of the condition.
fn projection(q: &Query, schema: &TskvTableSchema, time: bool) -> Vec<usize> {
    let named = |n: &String| q.cols.contains(n) || q.tags.iter().any(|t| t.0 == *n && !t.1.is_empty()) || (n == "h" && !q.nh.is_empty()) || q.conds.iter().any(|c| c.0 == *n);
    schema.columns().iter().enumerate().filter(|(_, c)| (c.name == TIME_FIELD_NAME && time) || named(&c.name)).map(|x| x.0).collect()
}

pub async fn create_db(l: &Live, plan: &Value) -> Result<(), String> {
    let p = &plan["db"];
    let mut o = DatabaseOptionsBuilder::new();
    o.with_shard_num(p["shards"].as_u64().unwrap_or(1));
    o.with_replica(p["replica"].as_u64().unwrap_or(1));
    o.with_vnode_duration(CnosDuration::new(&format!("{}d", p["days"].as_u64().unwrap_or(1))).unwrap());
    o.with_ttl(CnosDuration::new("inf").unwrap());
    let mut c = DatabaseConfigBuilder::new();
    c.with_precision(precision(plan));
    c.with_max_memcache_size(p["memcache"].as_u64().unwrap_or(1 << 20));
    c.with_memcache_partitions(p["partitions"].as_u64().unwrap_or(2));
    let cfg = c.build(l.coord.get_config());
    let s = DatabaseSchema::new(TENANT, DB, o.build(), Arc::new(cfg));
    tenant(l).await?.create_db(s).await.map_err(es)
}
pub fn precision(plan: &Value) -> Precision {
    match plan["db"]["precision"].as_str().unwrap_or("NS") {
        "MS" => Precision::MS,
        "US" => Precision::US,
        _ => Precision::NS,
    }
}
pub async fn db_known(l: &Live) -> bool {
    match tenant(l).await {
        Ok(t) => matches!(t.get_db_info(DB), Ok(Some(_))),
        Err(_) => false,
    }
}

fn enc(s: &str) -> Encoding {
    s.parse().unwrap_or_default()
}
/// A table with tags w, h and the five kinds of fields; `encs`: field → encoding.
pub async fn create_table(l: &Live, name: &str, encs: &Value, plan: &Value) -> Result<(), String> {
    let unit = match precision(plan) {
        Precision::MS => TimeUnit::Millisecond,
        Precision::US => TimeUnit::Microsecond,
        Precision::NS => TimeUnit::Nanosecond,
    };
    let mut cols = vec![TableColumn::new(0, TIME_FIELD_NAME.into(), ColumnType::Time(unit), enc(encs["time"].as_str().unwrap_or("")))];
    for t in ["w", "h"] {
        cols.push(TableColumn::new_tag_column(cols.len() as u32, t.into()));
    }
    for (f, v) in FIELDS {
        cols.push(TableColumn::new(cols.len() as u32, f.to_string(), ColumnType::Field(v), enc(encs[f].as_str().unwrap_or(""))));
    }
    let s = TskvTableSchema::new(TENANT.into(), DB.into(), name.into(), cols);
    tenant(l).await?.create_table(&TableSchema::TsKvTableSchema(Arc::new(s))).await.map_err(es)
}
use models::value_type::ValueType as ModelValueType;
pub const FIELDS: [(&str, ModelValueType); 5] =
    [("i", ModelValueType::Integer), ("u", ModelValueType::Unsigned), ("f", ModelValueType::Float), ("b", ModelValueType::Boolean), ("s", ModelValueType::String)];

pub async fn schema(l: &Live, table: &str) -> Result<Option<TskvTableSchemaRef>, String> {
    tenant(l).await?.get_tskv_table_schema(DB, table).map_err(es)
}

/// The table's schema this node has, in its cache, is the one the meta server has.
pub async fn fresh(l: &Live, table: &str) -> Result<bool, String> {
    let t = tenant(l).await?;
    let mine = t.get_tskv_table_schema(DB, table).map_err(es)?.map(|s| s.as_ref().clone());
    let theirs = t.get_tskv_table_schema_by_meta(DB, table).await.map_err(es)?.map(|s| s.as_ref().clone());
    Ok(mine == theirs)
}

/// The schema a query used is not the table's (any more).
pub async fn outdated(l: &Live, table: &str, used: Option<TskvTableSchema>) -> Result<bool, String> {
    let t = tenant(l).await?;
    let theirs = t.get_tskv_table_schema_by_meta(DB, table).await.map_err(es)?.map(|s| s.as_ref().clone());
    Ok(used != theirs)
}
/// The schema the last execution of a query used.
#[derive(Clone, Default)]
pub struct Used(Arc<std::sync::Mutex<Option<TskvTableSchema>>>);
impl Used {
    pub fn get(&self) -> Option<TskvTableSchema> {
        self.0.lock().unwrap().clone()
    }
}
impl std::fmt::Debug for Used {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("-")
    }
}

pub async fn write(l: &Live, plan: &Value, text: &str) -> Result<(), String> {
    let lines = protocol_parser::line_protocol::line_protocol_to_lines(text, 0).map_err(|e| format!("parse {e:?}"))?;
    l.coord.write_lines(TENANT, DB, precision(plan), lines, None).await.map_err(es)?;
    Ok(())
}

fn option(q: &Query, schema: &TskvTableSchemaRef, pred: &ResolvedPredicateRef, id: usize, set: ReplicationSet, time: bool) -> Result<QueryOption, String> {
    let idx = projection(q, schema, time);
    let mut cols = vec![];
    for &i in &idx {
        let c = &schema.columns()[i];
        if c.name == TIME_FIELD_NAME {
            cols.push(TableColumn::new(0, c.name.clone(), c.column_type.clone(), c.encoding));
        } else {
            cols.push(c.clone());
        }
    }
    let ps = Arc::new(schema.to_arrow_schema().project(&idx).map_err(es)?);
    let pt = TskvTableSchema::new(schema.tenant.clone(), schema.db.clone(), schema.name.clone(), cols);
    let split = PlacedSplit::new(id, pred.clone(), q.limit, set);
    Ok(QueryOption::new(q.batch.max(1), split, None, ps, Arc::new(pt), schema.meta()))
}

/// The rows of a table, in the order they arrive. None: there is no such table.
pub async fn read(l: &Live, q: &Query) -> Result<Option<Vec<Row>>, String> {
    let found = schema(l, &q.table).await?;
    *q.used.0.lock().unwrap() = found.as_ref().map(|s| s.as_ref().clone());
    let Some(schema) = found else { return Ok(None) };
    let pred = predicate(q, &schema, !q.notime)?;
    let sets = l.coord.table_vnodes(&resolved(&q.table), pred.clone()).await.map_err(es)?;
    let mut out = vec![];
    for (i, set) in sets.into_iter().enumerate() {
        let o = option(q, &schema, &pred, i, set, !q.notime)?;
        let mut s = l.coord.table_scan(o, None).map_err(es)?;
        while let Some(b) = s.next().await {
            rows(&b.map_err(es)?, &schema, &mut out)?;
        }
    }
    refilter(q, &mut out);
    Ok(Some(out))
}
/// The storage may or may not apply a comparison by !=: the query engine does it again.
fn refilter(q: &Query, out: &mut Vec<Row>) {
    out.retain(|r| !q.nt.contains(&r.ts) && !r.tags.get("h").map(|h| q.nh.contains(h)).unwrap_or(false));
}
/// The same, from one vnode of this node.
pub async fn read_local(l: &Live, q: &Query, v: &VnodeInfo) -> Result<Option<Vec<Row>>, String> {
    let found = schema(l, &q.table).await?;
    *q.used.0.lock().unwrap() = found.as_ref().map(|s| s.as_ref().clone());
    let Some(schema) = found else { return Ok(None) };
    let pred = predicate(q, &schema, !q.notime)?;
    let set = ReplicationSet { id: 0, leader_node_id: v.node_id, leader_vnode_id: v.id, vnodes: vec![v.clone()] };
    let o = option(q, &schema, &pred, 0, set, !q.notime)?;
    let ex = tskv::reader::query_executor::QueryExecutor::new(o, l.rt.clone(), l.meta.clone(), l.engine.clone());
    let mut s = ex.local_node_executor(vec![v.clone()], None).map_err(es)?;
    let mut out = vec![];
    while let Some(b) = s.next().await {
        rows(&b.map_err(es)?, &schema, &mut out)?;
    }
    refilter(q, &mut out);
    Ok(Some(out))
}
pub async fn tag_batches(l: &Live, q: &Query) -> Result<Option<Vec<RecordBatch>>, String> {
    let found = schema(l, &q.table).await?;
    *q.used.0.lock().unwrap() = found.as_ref().map(|s| s.as_ref().clone());
    let Some(schema) = found else { return Ok(None) };
    let pred = predicate(q, &schema, false)?;
    let sets = l.coord.table_vnodes(&resolved(&q.table), pred.clone()).await.map_err(es)?;
    let mut out = vec![];
    for (i, set) in sets.into_iter().enumerate() {
        let o = option(q, &schema, &pred, i, set, false)?;
        let mut s = l.coord.tag_scan(o, None).map_err(es)?;
        while let Some(b) = s.next().await {
            out.push(b.map_err(es)?);
        }
    }
    Ok(Some(out))
}
pub async fn tags(l: &Live, q: &Query) -> Result<Option<Vec<BTreeMap<String, String>>>, String> {
    let Some(bs) = tag_batches(l, q).await? else { return Ok(None) };
    let Some(schema) = schema(l, &q.table).await? else { return Ok(None) };
    let mut out = vec![];
    for b in bs {
        let mut r = vec![];
        rows(&b, &schema, &mut r)?;
        out.extend(r.into_iter().map(|r| r.tags));
    }
    Ok(Some(out))
}

fn rows(b: &RecordBatch, schema: &TskvTableSchema, out: &mut Vec<Row>) -> Result<(), String> {
    let sch = b.schema();
    for r in 0..b.num_rows() {
        let mut row = Row { tags: BTreeMap::new(), ts: 0, vals: BTreeMap::new() };
        for (c, f) in sch.fields().iter().enumerate() {
            let a = b.column(c);
            let name = f.name();
            if name == TIME_FIELD_NAME {
                if a.is_null(r) {
                    return Err(format!("null time in row {r}"));
                }
                row.ts = match a.data_type() {
                    DataType::Timestamp(TimeUnit::Nanosecond, _) => a.as_any().downcast_ref::<TimestampNanosecondArray>().unwrap().value(r),
                    DataType::Timestamp(TimeUnit::Microsecond, _) => a.as_any().downcast_ref::<TimestampMicrosecondArray>().unwrap().value(r),
                    DataType::Timestamp(TimeUnit::Millisecond, _) => a.as_any().downcast_ref::<TimestampMillisecondArray>().unwrap().value(r),
                    t => return Err(format!("time of type {t:?}")),
                };
                continue;
            }
            if a.is_null(r) {
                continue;
            }
            let v = match a.data_type() {
                DataType::Int64 => Val::I(a.as_any().downcast_ref::<Int64Array>().unwrap().value(r)),
                DataType::UInt64 => Val::U(a.as_any().downcast_ref::<UInt64Array>().unwrap().value(r)),
                DataType::Float64 => Val::F(a.as_any().downcast_ref::<Float64Array>().unwrap().value(r).to_bits()),
                DataType::Boolean => Val::B(a.as_any().downcast_ref::<BooleanArray>().unwrap().value(r)),
                DataType::Utf8 => Val::S(a.as_any().downcast_ref::<StringArray>().unwrap().value(r).to_string()),
                t => return Err(format!("column {name} of type {t:?}")),
            };
            let is_tag = schema.column(name).map(|c| c.column_type.is_tag()).unwrap_or(false);
            match (is_tag, v) {
                (true, Val::S(s)) => {
                    row.tags.insert(name.clone(), s);
                }
                (false, v) => {
                    row.vals.insert(name.clone(), v);
                }
                (true, v) => return Err(format!("tag {name} holds {v:?}")),
            }
        }
        out.push(row);
    }
    Ok(())
}

/// DELETE FROM table WHERE … : what the query engine does with it.
pub async fn delete(l: &Live, table: &str, tags: &[(String, Vec<String>)], range: (i64, i64), nt: Vec<i64>, nh: Vec<String>, strict: bool, plan: &Value) -> Result<(), String> {
    let per = match precision(plan) {
        Precision::MS => 1_000_000,
        Precision::US => 1_000,
        Precision::NS => 1,
    };
    let q = Query { table: table.into(), tags: tags.to_vec(), ranges: vec![(range.0 * per, range.1 * per)], batch: if strict { 2 } else { 1 }, between: true, flat: true, nt: nt.into_iter().map(|t| t * per).collect(), nh, ..Default::default() };
    let e = condition(&q, Precision::NS).unwrap();
    let (tag, time) = DeleteSelectionExpressionToDomainsVisitor::expr_to_tag_and_time_domains(&e).map_err(es)?;
    // as DeleteFromTableTask does
    let rs = filter_to_time_ranges(&time).iter().filter_map(|r| time_range_to_precision(r, precision(plan))).collect();
    let p = ResolvedPredicate::new(Arc::new(TimeRanges::new(rs)), tag, None).map_err(es)?;
    l.coord.delete_from_table(&resolved(table), &p).await.map_err(es)
}
pub const RETRIED: &str = "refused: the same task is being retried";
async fn task(l: &Live, name: String, op: ResourceOperator) -> Result<(), String> {
    let t = tenant(l).await?;
    let info = ResourceInfo::new((*t.tenant().id(), DB.into()), format!("{TENANT}-{DB}-{name}"), op, &None, l.coord.node_id());
    let c: Arc<dyn Coordinator> = l.coord.clone();
    match ResourceManager::add_resource_task(c, info).await {
        Ok(true) => Ok(()),
        Ok(false) => Err(RETRIED.into()),
        Err(e) => Err(e.to_string()),
    }
}
/// Ok(false): there is no such table (or column).
pub async fn drop_table(l: &Live, table: &str) -> Result<bool, String> {
    if schema(l, table).await?.is_none() {
        return Ok(false);
    }
    task(l, table.into(), ResourceOperator::DropTable(TENANT.into(), DB.into(), table.into())).await?;
    Ok(true)
}
/// Waits until this node's schema of the table is the latest: a change of an older one is refused.
async fn settled(l: &Live, table: &str) -> Result<(), String> {
    while !fresh(l, table).await? {
        tokio::time::sleep(std::time::Duration::from_millis(10)).await;
    }
    Ok(())
}
pub async fn drop_column(l: &Live, table: &str, col: &str) -> Result<bool, String> {
    settled(l, table).await?;
    let Some(s) = schema(l, table).await? else { return Ok(false) };
    if s.column(col).is_none() {
        return Ok(false);
    }
    let mut s = s.as_ref().clone();
    s.drop_column(col);
    s.schema_version += 1;
    task(l, format!("{table}-{col}"), ResourceOperator::DropColumn(col.into(), s)).await?;
    Ok(true)
}
pub async fn add_column(l: &Live, table: &str, col: &str, t: ModelValueType) -> Result<bool, String> {
    settled(l, table).await?;
    let Some(s) = schema(l, table).await? else { return Ok(false) };
    if s.column(col).is_some() {
        return Ok(false);
    }
    let mut s = s.as_ref().clone();
    let c = TableColumn::new(s.next_column_id(), col.into(), ColumnType::Field(t), Encoding::Default);
    s.add_column(c.clone());
    s.schema_version += 1;
    task(l, format!("{table}-{col}"), ResourceOperator::AddColumn(s, c)).await?;
    Ok(true)
}
pub async fn alter_encoding(l: &Live, table: &str, col: &str, e: &str) -> Result<bool, String> {
    settled(l, table).await?;
    let Some(s) = schema(l, table).await? else { return Ok(false) };
    let Some(c) = s.column(col) else { return Ok(false) };
    let n = TableColumn::new(c.id, c.name.clone(), c.column_type.clone(), enc(e));
    if !n.encoding_valid() {
        return Ok(false);
    }
    let mut s = s.as_ref().clone();
    s.change_column(col, n.clone());
    s.schema_version += 1;
    task(l, format!("{table}-{col}"), ResourceOperator::AlterColumn(col.into(), s, n)).await?;
    Ok(true)
}
/// UPDATE table SET tag = value WHERE tags
pub async fn update_tag(l: &Live, table: &str, tag: &str, value: Option<&str>, filter: &[(String, Vec<String>)]) -> Result<bool, String> {
    let Some(s) = schema(l, table).await? else { return Ok(false) };
    let cols = s.columns().iter().filter(|c| c.column_type.is_tag()).map(|c| c.name.clone()).collect();
    let q = Query { table: table.into(), cols, tags: filter.to_vec(), batch: 100, ..Default::default() };
    let Some(bs) = tag_batches(l, &q).await? else { return Ok(false) };
    let set = vec![UpdateSetValue { key: tag.as_bytes().to_vec(), value: value.map(|v| v.as_bytes().to_vec()) }];
    l.coord.update_tags_value(s, set, bs).await.map_err(es)?;
    Ok(true)
}

/// The replica sets of the database, by the metadata this node knows.
pub async fn replicas(l: &Live) -> Result<Vec<ReplicationSet>, String> {
    let i = tenant(l).await?.get_db_info(DB).map_err(es)?;
    Ok(i.map(|i| i.buckets.into_iter().flat_map(|b| b.shard_group).collect()).unwrap_or_default())
}
pub async fn flush(l: &Live, node_id: u64, compact: bool) -> Result<usize, String> {
    let mut n = 0;
    for r in replicas(l).await? {
        for v in r.vnodes {
            if v.node_id == node_id {
                l.engine.flush_tsfamily(TENANT, DB, v.id, compact).await.map_err(es)?;
                n += 1;
            }
        }
    }
    Ok(n)
}
pub async fn compact(l: &Live) -> Result<usize, String> {
    let ids: Vec<u32> = replicas(l).await?.into_iter().flat_map(|r| r.vnodes.into_iter().map(|v| v.id)).collect();
    let n = ids.len();
    if n > 0 {
        l.coord.compact_vnodes(TENANT, ids).await.map_err(es)?;
    }
    Ok(n)
}
#[derive(Clone, Debug, PartialEq)]
pub struct RaftState {
    /// opened, but not a member of anything yet
    pub begun: bool,
    pub replica: u32,
    pub leader: bool,
    pub current_leader: Option<u64>,
    pub last_log: u64,
    pub applied: u64,
    pub term: u64,
}
/// The state of this node's member of each raft group, by vnode.
pub async fn raft_states(l: &Live) -> Result<Vec<(u32, Option<RaftState>)>, String> {
    let mr = l.coord.raft_manager().multi_raft();
    let mut out = vec![];
    for r in replicas(l).await? {
        let Some(v) = r.vnodes.iter().find(|v| v.node_id == l.coord.node_id()) else { continue };
        let n = mr.read().await.get_node(r.id).map_err(es)?;
        let begun = match &n {
            Some(n) => !n.is_initialized().await.map_err(es)?,
            None => true,
        };
        out.push((v.id, n.map(|n| {
            let m = n.raft_metrics();
            RaftState {
                begun,
                replica: r.id,
                leader: m.current_leader == Some(m.id),
                current_leader: m.current_leader,
                last_log: m.last_log_index.unwrap_or(0),
                applied: m.last_applied.map(|x| x.index).unwrap_or(0),
                term: m.current_term,
            }
        })));
    }
    Ok(out)
}
