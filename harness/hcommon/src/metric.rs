//! X05: metrics.
use crate::{hash, tick};
use metrics::average::U64Average;
use metrics::count::U64Counter;
use metrics::duration::{DurationCounter, DurationHistogram, DurationHistogramOptions};
use metrics::gauge::U64Gauge;
use metrics::histogram::{U64Histogram, U64HistogramOptions};
use metrics::label::Labels;
use metrics::metric_register::MetricsRegister;
use metrics::metric_type::MetricType;
use metrics::metric_value::MetricValue;
use metrics::prom_reporter::PromReporter;
use metrics::reporter::Reporter;
use simh::{hlog, json, violation, Report, Rng, Scenario, Tier, Value};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const BUCKETS: [u64; 4] = [5, 20, 20_000, 1_000_000];

fn gen(r: &mut Rng, t: Tier) -> Value {
    let nt = 2 + r.below(4);
    let n = 10 + r.below(if t == Tier::Quick { 80 } else { 300 });
    let labels = 1 + r.below(4);
    let ops: Vec<Value> = (0..n)
        .map(|_| {
            let (t, l, reg) = (r.below(nt), r.below(labels), r.below(3));
            let v = match r.below(4) {
                0 => r.below(6),
                1 => *r.pick(&BUCKETS),
                2 => *r.pick(&BUCKETS) + 1,
                _ => r.below(30_000),
            };
            let k = *r.pick(&["count", "count", "dcount", "gauge", "hist", "hist", "dhist", "avg", "report"]);
            let o = json!({"t": t, "l": l, "reg": reg, "op": k, "v": v, "n": 1 + r.below(4), "again": r.chance(1, 2)});
            o
        })
        .collect();
    json!({"ops": ops})
}
#[derive(Debug, Default)]
struct Capture {
    cur: Option<(String, MetricType)>,
    got: Vec<(String, Labels, MetricValue)>,
}
impl Reporter for Capture {
    fn start(&mut self, name: Cow<'static, str>, _: Cow<'static, str>, t: MetricType) {
        if self.cur.is_some() {
            violation("a report starts a metric inside another", String::new());
        }
        self.cur = Some((name.to_string(), t));
    }
    fn report(&mut self, l: &Labels, v: MetricValue) {
        let (n, _) = self.cur.clone().unwrap_or_else(|| violation("a value is reported outside any metric", String::new()));
        self.got.push((n, l.clone(), v));
    }
    fn stop(&mut self) {
        self.cur = None;
    }
}
/// For each series: when which update began and ended.
#[derive(Clone, Debug)]
struct Up {
    call: u64,
    ret: u64,
    v: u64,
    n: u64,
}
type Rep = (u64, u64, Vec<(String, Labels, MetricValue)>);
/// An average is that of the values since the report before; each value is part of
/// one report. Values added during a report may be in it or in the next.
fn check_averages(reps: &[Rep], ups: &BTreeMap<Key, Vec<Up>>) -> u64 {
    let mut n = 0;
    if reps.windows(2).any(|w| w[0].1 > w[1].0) {
        return 0;
    }
    for (key, u) in ups.iter().filter(|(k, _)| k.0 == "avg") {
        let shown: Vec<Option<u64>> = reps
            .iter()
            .map(|r| {
                r.2.iter().find(|(n, l, _)| (n.clone(), flat(l)) == *key).map(|x| match x.2 {
                    MetricValue::U64Average(v) => v,
                    _ => violation("a series has another type than asked for", format!("{key:?}")),
                })
            })
            .collect();
        let choices: Vec<(usize, usize)> = u.iter().map(|x| (reps.iter().position(|r| r.1 > x.call).unwrap(), reps.iter().position(|r| r.0 > x.ret).unwrap())).collect();
        let combos: u64 = choices.iter().map(|(a, b)| (b - a + 1) as u64).product();
        if combos > 5000 {
            continue;
        }
        let ok = (0..combos).any(|mut c| {
            let mut sum = vec![(0u64, 0u64); reps.len()];
            for (x, (a, b)) in u.iter().zip(&choices) {
                let w = (b - a + 1) as u64;
                let s = &mut sum[a + (c % w) as usize];
                c /= w;
                s.0 += x.v;
                s.1 += 1;
            }
            sum.iter().zip(&shown).all(|((t, k), s)| s.map_or(*k == 0, |s| s == if *k == 0 { 0 } else { t / k }))
        });
        if !ok {
            violation("an update was lost or counted twice", format!("{key:?}: averages {shown:?} do not come from {u:?}"));
        }
        n += 1;
    }
    n
}
type Key = (String, Vec<(String, String)>);

fn labels_of(reg: u64, l: u64) -> (Labels, Vec<(String, String)>) {
    let own: Labels = [("lab".to_string().leak() as &'static str, format!("v{l}"))].into();
    let mut all = vec![("lab".to_string(), format!("v{l}"))];
    if reg > 0 {
        all.push(("reg".to_string(), format!("r{reg}")));
    }
    all.push(("top".to_string(), "x".to_string()));
    all.sort();
    (own, all)
}
fn flat(l: &Labels) -> Vec<(String, String)> {
    let mut v: Vec<_> = l.0.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    v.sort();
    v
}
fn run(p: &Value) -> Report {
    let p2 = p.clone();
    simh::simulate(p, move || {
        let p = p2;
        let top = Arc::new(MetricsRegister::new([("top", "x")]));
        let ups: Arc<Mutex<BTreeMap<Key, Vec<Up>>>> = Default::default();
        let reports: Arc<Mutex<Vec<Rep>>> = Default::default();
        {
            let (top, ups, reports) = (top.clone(), ups.clone(), reports.clone());
            crate::threads(p["ops"].as_array().unwrap(), move |_, o| {
                let (l, reg, v, n) = (o["l"].as_u64().unwrap(), o["reg"].as_u64().unwrap(), o["v"].as_u64().unwrap(), o["n"].as_u64().unwrap());
                let op = o["op"].as_str().unwrap();
                if op == "report" {
                    let call = tick::next();
                    let mut c = Capture::default();
                    top.report(&mut c);
                    let ret = tick::next();
                    reports.lock().unwrap().push((call, ret, c.got));
                    return;
                }
                let (own, all) = labels_of(reg, l);
                let mk = || match reg {
                    0 => top.clone(),
                    1 => top.sub_register([("reg", "r1")]),
                    _ => top.sub_register([("reg", "r2")]),
                };
                let r = mk();
                let r = if o["again"] == true { mk() } else { r };
                let call = tick::next();
                match op {
                    "count" => {
                        let c = r.metric::<U64Counter>("count", "d").recorder(own);
                        if n == 1 {
                            c.inc_one()
                        } else {
                            c.inc(n)
                        }
                    }
                    "dcount" => r.metric::<DurationCounter>("dcount", "d").recorder(own).inc(Duration::from_nanos(v)),
                    "gauge" => r.metric::<U64Gauge>("gauge", "d").recorder(own).set(v),
                    "avg" => r.metric::<U64Average>("avg", "d").recorder(own).add(v),
                    "hist" => {
                        let h = r.register_metric::<U64Histogram>("hist", "d", U64HistogramOptions::new(BUCKETS)).recorder(own);
                        if n == 1 {
                            h.record(v)
                        } else {
                            h.record_multiple(v, n)
                        }
                    }
                    _ => {
                        let h = r.register_metric::<DurationHistogram>("dhist", "d", DurationHistogramOptions::new(BUCKETS.map(Duration::from_nanos))).recorder(own);
                        if n == 1 {
                            h.record(Duration::from_nanos(v))
                        } else {
                            h.record_multiple(Duration::from_nanos(v), n)
                        }
                    }
                }
                let ret = tick::next();
                hlog!("{op} {all:?} {v} x{n}");
                ups.lock().unwrap().entry((op.to_string(), all)).or_default().push(Up { call, ret, v, n });
            });
        }
        let call = tick::next();
        let mut c = Capture::default();
        top.report(&mut c);
        let ret = tick::next();
        let last = (call, ret, c.got);
        let ups = ups.lock().unwrap();
        let mut reps = std::mem::take(&mut *reports.lock().unwrap());
        reps.sort_by_key(|r| r.0);
        reps.push(last.clone());
        let averages = check_averages(&reps, &ups);
        let mut st = vec![];
        let (mut checked, mut overlap) = (0, false);
        for (call, ret, got) in reps.iter() {
            let fin = *call == last.0;
            let mut names = BTreeMap::new();
            for (name, labels, v) in got {
                let key = (name.clone(), flat(labels));
                if names.insert(key.clone(), ()).is_some() {
                    violation("one set of labels has two series", format!("{key:?} appears twice in one report"));
                }
                let none = vec![];
                let u = ups.get(&key).unwrap_or(&none);
                // what must be in, what may be in
                let must: Vec<&Up> = u.iter().filter(|x| x.ret < *call).collect();
                let may: Vec<&Up> = u.iter().filter(|x| x.call < *ret).collect();
                overlap |= must.len() != may.len();
                checked += 1;
                let between = |what: &str, lo: u64, x: u64, hi: u64| {
                    if x < lo || x > hi {
                        violation(if fin { "an update was lost or counted twice" } else { "a report shows a value that never held" }, format!("{key:?}: {what} is {x}, should be {}", if lo == hi { format!("{lo}") } else { format!("{lo} to {hi}") }));
                    }
                };
                let sum = |us: &[&Up], f: &dyn Fn(&Up) -> u64| us.iter().map(|x| f(x)).sum::<u64>();
                let hist = |total: u64, b: Vec<(u64, u64)>| {
                    if b.iter().map(|x| x.0).collect::<Vec<_>>() != BUCKETS {
                        violation("a histogram has other buckets than asked for", format!("{key:?}: {b:?}"));
                    }
                    let mut lo = 0;
                    for (i, (le, n)) in b.iter().enumerate() {
                        let f = |x: &Up| if x.v <= *le && (i == 0 || x.v > BUCKETS[i - 1]) { x.n } else { 0 };
                        between(&format!("bucket {le}"), sum(&must, &f), *n, sum(&may, &f));
                        // sum and buckets belong together
                        let _ = &mut lo;
                    }
                    let inside = |x: &Up| if x.v <= BUCKETS[3] { x.v * x.n } else { 0 };
                    between("the sum", sum(&must, &inside), total, sum(&may, &inside));
                    // total must lie within what the bucket counts allow
                    let (mut a, mut z) = (0u64, 0u64);
                    for (i, (le, n)) in b.iter().enumerate() {
                        a += n * if i == 0 { 0 } else { BUCKETS[i - 1] + 1 };
                        z += n * le;
                    }
                    if total < a || total > z {
                        violation("a histogram's sum does not fit its buckets", format!("{key:?}: sum {total}, buckets {b:?}"));
                    }
                };
                match v {
                    MetricValue::U64Counter(x) => between("the count", sum(&must, &|u| u.n), *x, sum(&may, &|u| u.n)),
                    MetricValue::DurationCounter(x) => between("the time", sum(&must, &|u| u.v), x.as_nanos() as u64, sum(&may, &|u| u.v)),
                    MetricValue::U64Gauge(x) => {
                        // a value set, and not surely overwritten before the report
                        let ok = may.iter().any(|w| w.v == *x && !must.iter().any(|o| o.call > w.ret)) || (*x == 0 && must.is_empty());
                        if !ok {
                            violation(if fin { "an update was lost or counted twice" } else { "a report shows a value that never held" }, format!("{key:?}: gauge shows {x}, set: {u:?}"));
                        }
                    }
                    MetricValue::U64Histogram(h) => hist(h.total, h.buckets.iter().map(|b| (b.le, b.count)).collect()),
                    MetricValue::DurationHistogram(h) => hist(h.total.as_nanos() as u64, h.buckets.iter().map(|b| (b.le.as_nanos() as u64, b.count)).collect()),
                    _ => {}
                }
                if fin {
                    st.push(hash(&[name.len() as u64, checked]));
                }
            }
            for (key, u) in ups.iter() {
                if !names.contains_key(key) && u.iter().any(|x| x.ret < *call) {
                    violation("a series is missing from the report", format!("{key:?}"));
                }
            }
            for key in names.keys() {
                if !ups.contains_key(key) {
                    violation("a series nobody updated", format!("{key:?}"));
                }
            }
        }
        // the text form says the same
        let mut buf = vec![];
        let mut pr = PromReporter::new(&mut buf);
        top.report(&mut pr);
        let text = String::from_utf8_lossy(&buf).to_string();
        for (key, u) in ups.iter().filter(|(k, _)| k.0 == "count") {
            let want = format!("count{{{}}} {}\n", key.1.iter().map(|(a, b)| format!("{a}=\"{b}\"")).collect::<Vec<_>>().join(","), u.iter().map(|x| x.n).sum::<u64>());
            if !text.contains(&want) {
                violation("the text report differs", format!("no line {want:?} in\n{text}"));
            }
        }
        for (key, u) in ups.iter().filter(|(k, _)| k.0 == "hist") {
            let labels = key.1.iter().map(|(a, b)| format!("{a}=\"{b}\"")).collect::<Vec<_>>().join(",");
            let n: u64 = u.iter().filter(|x| x.v <= BUCKETS[3]).map(|x| x.n).sum();
            let want = format!("hist_count{{{labels}}} {n}\n");
            let low: u64 = u.iter().filter(|x| x.v <= BUCKETS[1]).map(|x| x.n).sum();
            let cumulative = format!("hist_bucket{{{labels},le=\"{}\"}} {low}\n", BUCKETS[1]);
            for w in [want, cumulative] {
                if !text.contains(&w) {
                    violation("the text report differs", format!("no line {w:?} in\n{text}"));
                }
            }
        }
        let mut rep = Report { nontrivial: overlap || reps.len() > 1, ..Default::default() };
        rep.count("series compared", checked);
        rep.count("averages explained", averages);
        rep.count("reports", reps.len() as u64);
        rep.state = hash(&st);
        rep
    })
}
pub fn scenarios() -> Vec<Scenario> {
    vec![Scenario {
        property: "X05",
        name: "metrics",
        share: 1,
        gen,
        run,
        rule: "2 to 5 threads update counters, gauges, averages and histograms of shared label sets in a register and two sub-registers, looked up anew each time, while others take reports; every reported value must lie between what had ended before and what had begun by the end of the report, and the last report must be exact. Non-trivial: a report was taken during the run.",
        real: &["common/metrics", "prometheus text encoder"],
        stub: &["parking_lot and atomics (simulated: every access may be preempted)"],
        assumptions: &["memory is sequentially consistent", "values above a histogram's last bucket are ignored, as the code documents"],
    }]
}
