mod caches;
mod limiter;
mod memory;
mod metric;
mod ring;

fn main() {
    let mut s = vec![];
    s.extend(caches::scenarios());
    s.extend(ring::scenarios());
    s.extend(limiter::scenarios());
    s.extend(memory::scenarios());
    s.extend(metric::scenarios());
    simh::main(&s)
}

/// Logical time: counts calls and returns, so that two operations overlap exactly
/// when their intervals do.
pub mod tick {
    use std::sync::atomic::{AtomicU64, Ordering};
    static T: AtomicU64 = AtomicU64::new(1);
    pub fn next() -> u64 {
        T.fetch_add(1, Ordering::SeqCst)
    }
}

/// Runs the ops of each thread number (field "t") on a thread of its own, in order.
pub fn threads(ops: &[simh::Value], f: impl Fn(usize, &simh::Value) + Send + Sync + 'static) {
    let mut by: std::collections::BTreeMap<u64, Vec<(usize, simh::Value)>> = Default::default();
    for (i, o) in ops.iter().enumerate() {
        by.entry(o["t"].as_u64().unwrap_or(0)).or_default().push((i, o.clone()));
    }
    let f = std::sync::Arc::new(f);
    let hs: Vec<_> = by
        .into_iter()
        .map(|(t, l)| {
            let f = f.clone();
            simstd::thread::Builder::new()
                .name(format!("client{t}"))
                .spawn(move || {
                    for (i, o) in l {
                        if let Some(ms) = o["wait_us"].as_u64() {
                            simrt::sleep(ms * 1000);
                        }
                        f(i, &o);
                    }
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            match simh::sut_panics().first() {
                Some(p) => simh::violation("panic", format!("{} at {}", p.0, p.1)),
                None => simh::harness_error(format!("{:?}", simh::panics())),
            }
        }
    }
}
pub fn hash(parts: &[u64]) -> u64 {
    parts.iter().fold(0xcbf29ce484222325u64, |h, p| (h ^ p).wrapping_mul(0x100000001b3))
}
