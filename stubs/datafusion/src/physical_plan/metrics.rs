//! Counters that count and timers that do not: nothing checked here reads them.
use arrow::record_batch::RecordBatch;
use std::fmt;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;

#[derive(Debug, Clone, Default)]
pub struct ExecutionPlanMetricsSet;
impl ExecutionPlanMetricsSet {
    pub fn new() -> Self {
        ExecutionPlanMetricsSet
    }
    pub fn clone_inner(&self) -> MetricsSet {
        MetricsSet
    }
}
#[derive(Debug, Clone, Default)]
pub struct MetricsSet;
impl MetricsSet {
    pub fn iter(&self) -> impl Iterator<Item = &Arc<Metric>> {
        std::iter::empty()
    }
    pub fn aggregate_by_name(&self) -> Self {
        MetricsSet
    }
    pub fn sorted_for_display(self) -> Self {
        self
    }
    pub fn timestamps_removed(self) -> Self {
        self
    }
}
impl fmt::Display for MetricsSet {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
pub struct Metric(MetricValue);
impl Metric {
    pub fn value(&self) -> &MetricValue {
        &self.0
    }
}
pub enum MetricValue {
    StartTimestamp(Timestamp),
    EndTimestamp(Timestamp),
    Other,
}
impl MetricValue {
    pub fn name(&self) -> &str {
        match self {
            MetricValue::StartTimestamp(_) => "start_timestamp",
            MetricValue::EndTimestamp(_) => "end_timestamp",
            MetricValue::Other => "other",
        }
    }
}
impl std::fmt::Display for MetricValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("?")
    }
}
pub struct Timestamp;
impl Timestamp {
    pub fn value(&self) -> Option<Stamp> {
        None
    }
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Stamp;
impl fmt::Display for Stamp {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
#[derive(Debug, Clone, Default)]
pub struct Count(Arc<AtomicUsize>);
impl Count {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, n: usize) {
        self.0.fetch_add(n, Ordering::Relaxed);
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Gauge(Arc<AtomicUsize>);
impl Gauge {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&self, n: usize) {
        self.0.fetch_add(n, Ordering::Relaxed);
    }
    pub fn sub(&self, n: usize) {
        self.0.fetch_sub(n, Ordering::Relaxed);
    }
    pub fn set(&self, n: usize) -> usize {
        self.0.swap(n, Ordering::Relaxed)
    }
    pub fn value(&self) -> usize {
        self.0.load(Ordering::Relaxed)
    }
}
#[derive(Debug, Clone, Default)]
pub struct Time;
impl Time {
    pub fn new() -> Self {
        Time
    }
    pub fn value(&self) -> usize {
        0
    }
    pub fn add_duration(&self, _: Duration) {}
    pub fn timer(&self) -> ScopedTimerGuard<'_> {
        ScopedTimerGuard { _t: self }
    }
}
pub struct ScopedTimerGuard<'a> {
    _t: &'a Time,
}
impl ScopedTimerGuard<'_> {
    pub fn stop(&mut self) {}
    pub fn restart(&mut self) {}
    pub fn done(self) {}
}
pub struct MetricBuilder<'a> {
    _s: &'a ExecutionPlanMetricsSet,
}
impl<'a> MetricBuilder<'a> {
    pub fn new(s: &'a ExecutionPlanMetricsSet) -> Self {
        MetricBuilder { _s: s }
    }
    pub fn subset_time(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Time {
        Time
    }
    pub fn gauge(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Gauge {
        Gauge::new()
    }
    pub fn counter(self, _: impl Into<std::borrow::Cow<'static, str>>, _: usize) -> Count {
        Count::new()
    }
    pub fn output_rows(self, _: usize) -> Count {
        Count::new()
    }
    pub fn elapsed_compute(self, _: usize) -> Time {
        Time
    }
}
#[derive(Debug, Clone)]
pub struct BaselineMetrics {
    t: Time,
    rows: Count,
}
impl BaselineMetrics {
    pub fn new(_: &ExecutionPlanMetricsSet, _: usize) -> Self {
        BaselineMetrics { t: Time, rows: Count::new() }
    }
    pub fn elapsed_compute(&self) -> &Time {
        &self.t
    }
    pub fn output_rows(&self) -> &Count {
        &self.rows
    }
    pub fn done(&self) {}
    pub fn record_output(&self, n: usize) {
        self.rows.add(n)
    }
}
pub trait RecordOutput {
    fn record_output(self, b: &BaselineMetrics) -> Self;
}
impl RecordOutput for &RecordBatch {
    fn record_output(self, b: &BaselineMetrics) -> Self {
        b.record_output(self.num_rows());
        self
    }
}
