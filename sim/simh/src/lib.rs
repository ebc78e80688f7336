//! Runs seeded simulations: forks one process per run from a single-threaded
//! parent, collects what the runs report, minimises and replays failures, and
//! writes the evidence.
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicI32, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};
pub use simrt::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What a run reports when it ends well.
#[derive(Default, Debug, Clone)]
pub struct Report {
    /// the run did what the property is about (by the scenario's rule)
    pub nontrivial: bool,
    /// hash of the observable history, mixed into the identity of the run
    pub state: u64,
    /// counters: operations done, rare conditions reached
    pub counts: BTreeMap<String, u64>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
}

#[derive(Clone)]
pub struct Scenario {
    pub property: &'static str,
    /// names one kind of run within the property
    pub name: &'static str,
    /// relative share of the runs
    pub share: u32,
    pub gen: fn(&mut Rng, Tier) -> Value,
    /// runs in a child process of its own; reports violations with `violation`
    pub run: fn(&Value) -> Report,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

// ------------------------------------------------------------------ in the child
static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static VERBOSE: AtomicI32 = AtomicI32::new(0);
static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);
static SCRATCH: Mutex<String> = Mutex::new(String::new());
static EXPECT: Mutex<Option<fn(&simrt::Abnormal) -> Option<(String, String)>>> = Mutex::new(None);

fn lk<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn verbose() -> bool {
    VERBOSE.load(Ordering::Relaxed) != 0
}
/// A line of the run's history: part of the determinism check, and of the replay file.
pub fn log(s: String) {
    let t = simrt::now();
    let line = format!("{:.6} t{} {}", t as f64 / 1e9, simrt::tid() as isize, s);
    if VERBOSE.load(Ordering::Relaxed) == 2 {
        eprintln!("{line}");
    }
    let mut h: u64 = 0xcbf29ce484222325;
    for b in line.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    simrt::observe(h);
    let mut g = lk(&LOG);
    if g.len() < 4000 {
        g.push(line);
    }
}
#[macro_export]
macro_rules! hlog { ($($a:tt)*) => { $crate::log(format!($($a)*)) } }

/// An empty directory for this run. Its path is the same in every run.
pub fn scratch() -> String {
    lk(&SCRATCH).clone()
}
fn finish(v: Value) -> ! {
    let fd = OUT_FD.load(Ordering::SeqCst);
    let s = serde_json::to_vec(&v).unwrap();
    let mut o = 0;
    while o < s.len() {
        let n = unsafe { libc::syscall(libc::SYS_write, fd, s[o..].as_ptr(), s.len() - o) };
        if n <= 0 {
            break;
        }
        o += n as usize;
    }
    unsafe { libc::_exit(0) }
}
fn common(v: &mut Value) {
    let st = simrt::stats();
    v["steps"] = json!(st.steps);
    v["switches"] = json!(st.switches);
    v["sim_ns"] = json!(st.sim_ns);
    v["threads"] = json!(st.threads);
    v["hash"] = json!(st.sched_hash);
    v["notes"] = json!(simrt::notes());
    v["log"] = json!(*lk(&LOG));
    if verbose() {
        v["trace"] = json!(simrt::take_trace());
    }
}
/// Ends the run: the property is broken. `class` names the kind of violation and
/// stays the same while the failure is minimised.
pub fn violation(class: &str, detail: impl Into<String>) -> ! {
    let mut v = json!({"violation": class, "detail": detail.into()});
    let ps = lk(&PANICS).clone();
    if !ps.is_empty() {
        v["panics"] = json!(ps);
    }
    common(&mut v);
    finish(v)
}
/// Ends the run: the harness itself went wrong.
pub fn harness_error(detail: impl Into<String>) -> ! {
    let mut v = json!({"error": detail.into(), "panics": *lk(&PANICS)});
    common(&mut v);
    finish(v)
}
/// Panics seen so far: (message, place)
pub fn panics() -> Vec<(String, String)> {
    lk(&PANICS).clone()
}
pub fn clear_panics() {
    lk(&PANICS).clear()
}
/// Panics raised by code of the system under test.
pub fn sut_panics() -> Vec<(String, String)> {
    panics().into_iter().filter(|p| p.1.contains("/crates/") || p.1.starts_with("crates/")).collect()
}
/// Overrides what a deadlock or an exhausted budget means. None: the run counts, without a violation.
pub fn on_abnormal(f: fn(&simrt::Abnormal) -> Option<(String, String)>) {
    *lk(&EXPECT) = Some(f);
}
pub fn abnormal(a: simrt::Abnormal) {
    let f = *lk(&EXPECT);
    if let Some(f) = f {
        match f(&a) {
            Some((c, d)) => violation(&c, d),
            None => {
                let mut v = json!({"report": {"nontrivial": false, "state": 0, "counts": {"abnormal_end": 1}}});
                common(&mut v);
                finish(v)
            }
        }
    }
    // a panic that left others waiting is the better explanation
    if let Some(p) = sut_panics().first() {
        violation(&format!("panic: {}", cut(&p.0)), format!("{} at {}, then {:?}", p.0, p.1, a));
    }
    match a {
        simrt::Abnormal::Deadlock(d) => violation("deadlock", d),
        simrt::Abnormal::StepBudget(d) => violation("no progress (step budget)", d),
        simrt::Abnormal::TimeBudget(d) => violation("no progress (simulated time budget)", d),
    }
}
fn cut(s: &str) -> String {
    // numbers vary while a failure is minimised
    let mut o = String::new();
    for c in s.chars().take(80) {
        if c.is_ascii_digit() {
            if !o.ends_with('#') {
                o.push('#');
            }
        } else {
            o.push(c);
        }
    }
    o
}
/// Runs `f` under the simulation with the schedule the plan asks for.
pub fn simulate(plan: &Value, f: impl FnOnce() -> Report + Send + 'static) -> Report {
    let s = &plan["sched"];
    let cfg = simrt::SchedCfg {
        seed: s["seed"].as_u64().unwrap_or(1),
        switch_pm: s["switch_pm"].as_u64().unwrap_or(300) as u32,
        step_ns: s["step_ns"].as_u64().unwrap_or(2000),
        max_steps: s["max_steps"].as_u64().unwrap_or(20_000_000),
        max_time_ns: s["max_time_s"].as_u64().unwrap_or(100_000) * 1_000_000_000,
        skewed: s["skewed"].as_bool().unwrap_or(false),
        epoch_ns: s["epoch_ns"].as_i64().unwrap_or(1_700_000_000_000_000_000),
    };
    simrt::run(cfg, abnormal, f)
}
/// The schedule part of a plan.
pub fn sched(r: &mut Rng) -> Value {
    let pm = *r.pick(&[20u32, 80, 200, 400, 700, 1000]);
    json!({"seed": r.next() >> 12, "switch_pm": pm, "skewed": r.chance(1, 3), "step_ns": *r.pick(&[500u64, 2000, 20000])})
}

fn child(sc: &Scenario, plan: &Value, fd: i32, scratch: &str, verb: i32) -> ! {
    OUT_FD.store(fd, Ordering::SeqCst);
    VERBOSE.store(verb, Ordering::SeqCst);
    std::env::set_current_dir(scratch).expect("scratch");
    std::fs::create_dir("cnosim-run").expect("scratch");
    *lk(&SCRATCH) = "/proc/self/cwd/cnosim-run".to_string();
    unsafe {
        if verb < 2 {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(n, 1);
            libc::dup2(n, 2);
        }
        let rl = libc::rlimit { rlim_cur: 25, rlim_max: 30 };
        libc::setrlimit(libc::RLIMIT_CPU, &rl);
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if VERBOSE.load(Ordering::Relaxed) == 2 {
            eprintln!("panic: {m} at {l}\n{}", std::backtrace::Backtrace::force_capture());
        }
        lk(&PANICS).push((m, l));
    }));
    if verb > 0 {
        // enabled once the simulation exists
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (sc.run)(plan)));
    match r {
        Ok(r) => {
            let mut v = json!({"report": {"nontrivial": r.nontrivial, "state": r.state, "counts": r.counts}});
            common(&mut v);
            finish(v)
        }
        Err(_) => match sut_panics().first() {
            Some(p) => violation(&format!("panic: {}", cut(&p.0)), format!("{} at {}", p.0, p.1)),
            None => harness_error(format!("the harness panicked: {:?}", panics())),
        },
    }
}

// ------------------------------------------------------------------ in the parent
fn scratch_base() -> String {
    for b in ["/dev/shm", "/verif/.scratch"] {
        let _ = std::fs::create_dir_all(b);
        let p = format!("{b}/cnosim-probe-{}", std::process::id());
        if std::fs::create_dir(&p).is_ok() {
            let _ = std::fs::remove_dir(&p);
            return b.to_string();
        }
    }
    panic!("no place for scratch files");
}

/// Runs one plan in a child and returns what it said.
fn run_one(sc: &Scenario, plan: &Value, base: &str, verb: i32) -> Value {
    // each process has a directory of its own, which runs see under one and the same name
    let me = unsafe { libc::getpid() };
    let dir = format!("{base}/cnosim-{me:08}");
    clear(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let mut p = [0i32; 2];
    unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) };
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(p[0]) };
        child(sc, plan, p[1], &dir, verb);
    }
    unsafe { libc::close(p[1]) };
    let mut buf = vec![];
    let t0 = Instant::now();
    let mut killed = false;
    let mut f = unsafe { std::fs::File::from_raw_fd(p[0]) };
    loop {
        let mut pf = libc::pollfd { fd: p[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut pf, 1, 1000) };
        if n > 0 {
            let mut b = [0u8; 65536];
            match f.read(&mut b) {
                Ok(0) => break,
                Ok(k) => buf.extend_from_slice(&b[..k]),
                Err(_) => break,
            }
        }
        if t0.elapsed() > Duration::from_secs(std::env::var("SIM_WALL").ok().and_then(|s| s.parse().ok()).unwrap_or(240)) {
            unsafe { libc::kill(pid, libc::SIGKILL) };
            killed = true;
            break;
        }
    }
    drop(f);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    clear(&dir);
    if let Ok(v) = serde_json::from_slice::<Value>(&buf) {
        return v;
    }
    if killed {
        return json!({"stuck": true});
    }
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGXCPU {
            return json!({"violation": "spins without end", "detail": "the run used 25 s of CPU in code that never blocks, yields or ends"});
        }
        if s == libc::SIGKILL {
            return json!({"stuck": true});
        }
        return json!({"violation": format!("killed by signal {s}"), "detail": "the process died"});
    }
    json!({"error": format!("child ended with status {st:#x} without a result")})
}
fn clear(dir: &str) {
    assert!(dir.contains("/cnosim-"));
    let _ = std::fs::remove_dir_all(dir);
}

struct Shared(*mut AtomicU64);
impl Shared {
    fn new() -> Self {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        Shared(p as *mut AtomicU64)
    }
    fn stop(&self) -> &AtomicU64 {
        unsafe { &*self.0 }
    }
    fn next(&self) -> &AtomicU64 {
        unsafe { &*self.0.add(1) }
    }
}

fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let mut r = Rng::new(h ^ seed.wrapping_mul(0x9e3779b97f4a7c15) ^ i.wrapping_mul(0xd1342543de82ef95));
    r.next() >> 12
}
fn make_plan(scs: &[&Scenario], seed: u64, tier: Tier) -> (usize, Value) {
    let mut r = Rng::new(seed);
    let total: u32 = scs.iter().map(|s| s.share).sum();
    let mut k = r.below(total as u64) as u32;
    let mut si = 0;
    for (i, s) in scs.iter().enumerate() {
        if k < s.share {
            si = i;
            break;
        }
        k -= s.share;
    }
    let mut plan = (scs[si].gen)(&mut r, tier);
    if plan.get("sched").is_none() {
        plan["sched"] = sched(&mut r);
    }
    (si, plan)
}

#[derive(Default)]
struct Agg {
    runs: u64,
    nontrivial: u64,
    errors: Vec<String>,
    stuck: u64,
    steps: u64,
    switches: u64,
    sim_ns: u128,
    threads: u64,
    notes: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    per: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    known: BTreeMap<String, u64>,
    unreproduced: u64,
    found: Option<(usize, u64, Value, Value)>,
}
impl Agg {
    fn to_json(&self) -> Value {
        json!({"runs": self.runs, "nontrivial": self.nontrivial, "errors": self.errors, "stuck": self.stuck, "steps": self.steps, "switches": self.switches,
            "sim_ms": (self.sim_ns / 1_000_000) as u64, "threads": self.threads, "notes": self.notes, "counts": self.counts, "per": self.per,
            "hashes": self.hashes.iter().collect::<Vec<_>>(), "known": self.known, "unreproduced": self.unreproduced, "found": self.found})
    }
    fn merge(&mut self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.runs += n("runs");
        self.nontrivial += n("nontrivial");
        self.stuck += n("stuck");
        self.steps += n("steps");
        self.switches += n("switches");
        self.sim_ns += n("sim_ms") as u128 * 1_000_000;
        self.threads += n("threads");
        self.unreproduced += n("unreproduced");
        for e in v["errors"].as_array().into_iter().flatten() {
            self.errors.push(e.as_str().unwrap_or("").into());
        }
        fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
            for (k, x) in v.as_object().into_iter().flatten() {
                *m.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
            }
        }
        add(&mut self.notes, &v["notes"]);
        add(&mut self.counts, &v["counts"]);
        add(&mut self.per, &v["per"]);
        add(&mut self.known, &v["known"]);
        for h in v["hashes"].as_array().into_iter().flatten() {
            self.hashes.insert(h.as_u64().unwrap_or(0));
        }
        if self.found.is_none() && v["found"].is_array() {
            let a = v["found"].as_array().unwrap();
            self.found = Some((a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap(), a[2].clone(), a[3].clone()));
        }
    }
    fn absorb(&mut self, sc: &Scenario, v: &Value) {
        self.runs += 1;
        *self.per.entry(sc.name.to_string()).or_default() += 1;
        self.steps += v["steps"].as_u64().unwrap_or(0);
        self.switches += v["switches"].as_u64().unwrap_or(0);
        self.sim_ns += v["sim_ns"].as_u64().unwrap_or(0) as u128;
        self.threads += v["threads"].as_u64().unwrap_or(0);
        for (k, x) in v["notes"].as_object().into_iter().flatten() {
            *self.notes.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        for (k, x) in v["report"]["counts"].as_object().into_iter().flatten() {
            *self.counts.entry(k.clone()).or_default() += x.as_u64().unwrap_or(0);
        }
        if v["report"]["nontrivial"].as_bool().unwrap_or(false) {
            self.nontrivial += 1;
            if self.hashes.len() < 200_000 {
                self.hashes.insert(v["hash"].as_u64().unwrap_or(0) ^ v["report"]["state"].as_u64().unwrap_or(0));
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Known {
    property: String,
    class: String,
    matches: String,
    plan: String,
    what: String,
}
/// Lines `known: property=P class="…" match="…" plan=FILE what`; other lines are for the reader.
fn known_findings(root: &str) -> Vec<Known> {
    let mut out = vec![];
    let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) else { return out };
    for l in t.lines() {
        let Some(l) = l.strip_prefix("known: property=") else { continue };
        let (property, l) = l.split_once(" class=\"").expect("known_findings.txt");
        let (class, l) = l.split_once("\" match=\"").expect("known_findings.txt");
        let (matches, l) = l.split_once("\" plan=").expect("known_findings.txt");
        let (plan, what) = l.split_once(' ').expect("known_findings.txt");
        out.push(Known { property: property.into(), class: class.into(), matches: matches.into(), plan: plan.into(), what: what.into() });
    }
    out
}
fn is_known<'a>(ks: &'a [Known], prop: &str, v: &Value) -> Option<&'a Known> {
    let c = v["violation"].as_str().unwrap_or("");
    let d = v["detail"].as_str().unwrap_or("");
    ks.iter().find(|k| k.property == prop && c.contains(k.class.as_str()) && d.contains(k.matches.as_str()))
}

fn set_affinity_off() {
    unsafe {
        // addresses the same in every process
        libc::personality(0x0040000);
    }
}

pub fn main(all: &[Scenario]) -> ! {
    simrt::interpose::link();
    let args: Vec<String> = std::env::args().collect();
    // re-exec once without address randomisation, so that hashes of addresses repeat
    if std::env::var("CNOSIM_NOASLR").is_err() {
        set_affinity_off();
        std::env::set_var("CNOSIM_NOASLR", "1");
        let c: Vec<std::ffi::CString> = args.iter().map(|a| std::ffi::CString::new(a.as_str()).unwrap()).collect();
        let mut ptrs: Vec<*const libc::c_char> = c.iter().map(|a| a.as_ptr()).collect();
        ptrs.push(std::ptr::null());
        unsafe { libc::execv(c"/proc/self/exe".as_ptr(), ptrs.as_ptr()) };
    }
    let opt = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let root = opt("--root").unwrap_or_else(|| "/verif".into());
    let seed: u64 = opt("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match opt("--tier").or(std::env::var("VERIF_TIER").ok()).as_deref() {
        Some("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(all, &opt("--prop").expect("--prop"), &root, seed, tier, opt("--secs").and_then(|s| s.parse().ok()), opt("--workers").and_then(|s| s.parse().ok())),
        Some("replay") => replay(all, args.get(2).expect("file"), args.iter().any(|a| a == "-v")),
        Some("one") => one(all, &opt("--prop").expect("--prop"), seed, tier, opt("--name"), args.iter().any(|a| a == "-v")),
        Some("selftest") => selftest(all, opt("--prop"), seed, tier, opt("--runs").and_then(|s| s.parse().ok()).unwrap_or(50)),
        _ => {
            eprintln!("usage: check|replay|one|selftest");
            2
        }
    };
    std::process::exit(code)
}
fn pick<'a>(all: &'a [Scenario], prop: &str, name: Option<&str>) -> Vec<&'a Scenario> {
    all.iter().filter(|s| s.property == prop && name.map(|n| n == s.name).unwrap_or(true)).collect()
}

/// The plan of a listed finding as recorded and, as a race may need its schedule, under other
/// schedules, for a limited time.
fn reproduces(k: &Known, prop: &str, sc: &Scenario, plan: &Value, base: &str, nw: usize) -> bool {
    let is = |v: &Value| is_known(std::slice::from_ref(k), prop, v).is_some();
    if is(&run_one(sc, plan, base, 0)) {
        return true;
    }
    let sh = Shared::new();
    let end = Instant::now() + Duration::from_secs(6);
    let mut kids = vec![];
    for _ in 0..nw {
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            while Instant::now() < end && sh.stop().load(Ordering::Relaxed) == 0 {
                let i = sh.next().fetch_add(1, Ordering::Relaxed);
                let mut p = plan.clone();
                p["sched"]["seed"] = json!(i * 7919 + 1);
                if i >= 60 {
                    break;
                }
                if is(&run_one(sc, &p, base, 0)) {
                    sh.stop().store(1, Ordering::Relaxed);
                }
            }
            unsafe { libc::_exit(0) };
        }
        kids.push(pid);
    }
    for pid in kids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
    }
    sh.stop().load(Ordering::Relaxed) != 0
}

fn check(all: &[Scenario], prop: &str, root: &str, seed: u64, tier: Tier, secs: Option<u64>, workers: Option<usize>) -> i32 {
    let t0 = Instant::now();
    let scs = pick(all, prop, None);
    if scs.is_empty() {
        eprintln!("no scenario for {prop}");
        return 2;
    }
    println!("{prop}: VERIF_SEED={seed} tier={tier:?}");
    let base = scratch_base();
    let known = known_findings(root);
    let secs = secs.unwrap_or(match tier {
        Tier::Quick => 20,
        Tier::Thorough => 600,
    });
    let nw = workers.unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16));
    // listed findings first
    let mut known_lines = vec![];
    for k in known.iter().filter(|k| k.property == prop) {
        let Ok(t) = std::fs::read_to_string(format!("{root}/{}", k.plan)) else {
            eprintln!("missing {}", k.plan);
            return 2;
        };
        let f: Value = serde_json::from_str(&t).expect("plan of a known finding");
        let Some(sc) = scs.iter().find(|s| s.name == f["scenario"].as_str().unwrap_or("")) else {
            eprintln!("{}: unknown scenario", k.plan);
            return 2;
        };
        let met = reproduces(k, prop, sc, &f["plan"], &base, nw);
        known_lines.push(format!("KNOWN-FINDING: property={prop} {}{}", k.what, if met { "" } else { " (the recorded plan does not meet it under the schedules tried)" }));
    }
    for l in &known_lines {
        println!("{l}");
    }
    let sh = Shared::new();
    let end = Instant::now() + Duration::from_secs(secs);
    let mut kids = vec![];
    for w in 0..nw {
        let mut p = [0i32; 2];
        unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) };
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe {
                libc::close(p[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // a simulation runs one thread at a time: keep it on one CPU
                let mut set: libc::cpu_set_t = std::mem::zeroed();
                if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
                    let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
                    if !cpus.is_empty() {
                        let mut one: libc::cpu_set_t = std::mem::zeroed();
                        libc::CPU_SET(cpus[w % cpus.len()], &mut one);
                        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
                    }
                }
            }
            let mut a = Agg::default();
            while Instant::now() < end && sh.stop().load(Ordering::Relaxed) == 0 {
                let i = sh.next().fetch_add(1, Ordering::Relaxed);
                let rs = run_seed(seed, prop, i);
                let (si, plan) = make_plan(&scs, rs, tier);
                let v = run_one(scs[si], &plan, &base, 0);
                if let Some(e) = v["error"].as_str() {
                    if a.errors.len() < 5 {
                        a.errors.push(format!("run {i} seed {rs} {}: {e}", scs[si].name));
                    }
                    if a.errors.len() >= 3 {
                        break;
                    }
                }
                if v["stuck"].as_bool().unwrap_or(false) {
                    a.stuck += 1;
                    continue;
                }
                a.absorb(scs[si], &v);
                if v["violation"].is_string() {
                    if let Some(k) = is_known(&known, prop, &v) {
                        *a.known.entry(k.what.clone()).or_default() += 1;
                        continue;
                    }
                    a.found = Some((si, rs, plan, v));
                    sh.stop().store(1, Ordering::Relaxed);
                    break;
                }
            }
            let s = serde_json::to_vec(&a.to_json()).unwrap();
            let mut f = unsafe { std::fs::File::from_raw_fd(p[1]) };
            let _ = f.write_all(&s);
            drop(f);
            unsafe { libc::_exit(0) };
        }
        unsafe { libc::close(p[1]) };
        kids.push((pid, unsafe { std::fs::File::from_raw_fd(p[0]) }));
    }
    let mut a = Agg::default();
    for (pid, mut f) in kids {
        let mut b = vec![];
        let _ = f.read_to_end(&mut b);
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        match serde_json::from_slice::<Value>(&b) {
            Ok(v) => a.merge(&v),
            Err(_) => a.errors.push(format!("a worker died: status {st:#x}")),
        }
    }
    let explore_s = t0.elapsed().as_secs_f64();
    // a violation counts once it reproduces from its plan
    let mut viol = None;
    if let Some((si, rs, plan, v)) = a.found.take() {
        let class = v["violation"].as_str().unwrap().to_string();
        let mut again = None;
        let dbg = std::env::var("SIMH_UNREPRODUCED").ok();
        for k in 0..5 {
            let w = run_one(scs[si], &plan, &base, 0);
            if let Some(d) = &dbg {
                let _ = std::fs::write(format!("{d}-{rs}-first.json"), serde_json::to_vec(&v).unwrap());
                let _ = std::fs::write(format!("{d}-{rs}-{k}.json"), serde_json::to_vec(&w).unwrap());
            }
            if w["violation"].as_str() == Some(&class) {
                again = Some(w);
                break;
            }
        }
        match again {
            None => {
                a.unreproduced += 1;
                a.errors.push(format!("seed {rs} of {} reported `{class}` once, then did not reproduce", scs[si].name));
            }
            Some(_) => {
                let limit = Duration::from_secs(if class.starts_with("spins") { 1 } else { 60 });
                let (min, mv, tried) = minimise(scs[si], plan, v, &base, limit, &known, prop);
                viol = Some((si, rs, min, mv, tried));
            }
        }
    }
    let mut code = 0;
    if let Some((si, rs, plan, _, tried)) = &viol {
        let full = run_one(scs[*si], plan, &base, 1);
        let dir = format!("{root}/evidence/replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{rs}.json");
        let f = json!({"property": prop, "scenario": scs[*si].name, "seed": rs, "violation": full["violation"], "detail": full["detail"],
            "minimisation_runs": tried, "plan": plan, "history": full["log"], "trace": full["trace"], "panics": full["panics"], "schedule_hash": full["hash"]});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&f).unwrap());
        println!("{}: {}", full["violation"].as_str().unwrap_or(""), full["detail"].as_str().unwrap_or(""));
        println!("seed {rs}, scenario {}", scs[*si].name);
        println!("VIOLATION property={prop} replay={path}");
        code = 1;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut samples = vec![];
    for i in 0..3u64 {
        let rs = run_seed(seed, prop, i);
        let (si, plan) = make_plan(&scs, rs, tier);
        let mut p = plan.clone();
        for k in ["ops", "faults"] {
            if let Some(x) = p[k].as_array_mut() {
                x.truncate(12);
            }
        }
        samples.push(json!({"seed": rs, "scenario": scs[si].name, "plan_head": p}));
    }
    let mut faults = BTreeMap::new();
    let mut probes = a.counts.clone();
    for (k, v) in &a.notes {
        match k.strip_prefix("fault:") {
            Some(f) => {
                faults.insert(f.to_string(), *v);
            }
            None => {
                probes.insert(k.clone(), *v);
            }
        }
    }
    let uniq = |f: fn(&Scenario) -> &'static [&'static str]| {
        let mut v: Vec<&str> = scs.iter().flat_map(|s| f(s).iter().copied()).collect();
        v.sort();
        v.dedup();
        v
    };
    let ev = json!({
        "property": prop, "tier": if tier == Tier::Quick { "quick" } else { "thorough" }, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": a.runs, "distinct_nontrivial": a.hashes.len(),
            "rule": format!("one evaluation = one simulated execution, a pure function of its seed. Distinct = different hash of the complete schedule (every choice of the next thread, every clock step) and observed history. {}",
                scs.iter().map(|s| format!("[{}] {}", s.name, s.rule)).collect::<Vec<_>>().join(" ")),
            "samples": samples,
            "nontrivial_runs": a.nontrivial,
            "runs_per_scenario": a.per,
            "runs_per_hour": (a.runs as f64 / explore_s * 3600.0) as u64,
            "seeds_per_hour": (a.runs as f64 / explore_s * 3600.0) as u64,
            "simulated_seconds": (a.sim_ns / 1_000_000) as f64 / 1000.0,
            "scheduling_steps": a.steps, "thread_switches": a.switches, "simulated_threads": a.threads,
            "faults_fired": faults, "operations_and_probes": probes,
            "runs_given_up_on_wall_clock": a.stuck,
            "known_findings_met": a.known, "unreproduced": a.unreproduced,
            "components_real": uniq(|s| s.real), "components_stubbed": uniq(|s| s.stub),
            "workers": nw,
        },
        "assumptions": uniq(|s| s.assumptions),
        "wall_s": wall, "violations": if code == 1 { 1 } else { 0 },
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    let _ = std::fs::write(format!("{root}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap());
    println!("{prop}: {} runs ({} distinct non-trivial), {:.0} simulated s, {:.1} s", a.runs, a.hashes.len(), (a.sim_ns / 1_000_000) as f64 / 1000.0, wall);
    if code == 0 {
        if !a.errors.is_empty() {
            for e in a.errors.iter().take(5) {
                eprintln!("harness error: {e}");
            }
            return 3;
        }
        if a.runs == 0 || a.nontrivial == 0 {
            eprintln!("harness error: nothing was explored");
            return 3;
        }
    }
    code
}

fn minimise(sc: &Scenario, plan: Value, v: Value, base: &str, limit: Duration, known: &[Known], prop: &str) -> (Value, Value, u64) {
    let class = v["violation"].as_str().unwrap().to_string();
    let t0 = Instant::now();
    let mut best = plan;
    let mut bv = v;
    let mut tried = 0;
    let mut test = |p: &Value| -> Option<Value> {
        tried += 1;
        let w = run_one(sc, p, base, 0);
        if w["violation"].as_str() == Some(&class) && is_known(known, prop, &w).is_none() {
            Some(w)
        } else {
            None
        }
    };
    let mut progress = true;
    while progress && t0.elapsed() < limit {
        progress = false;
        for key in ["faults", "ops"] {
            let mut n = best[key].as_array().map(|a| a.len()).unwrap_or(0);
            let mut chunk = n.div_ceil(2).max(1);
            while n > 0 && t0.elapsed() < limit {
                let mut i = 0;
                while i < best[key].as_array().unwrap().len() && t0.elapsed() < limit {
                    let mut p = best.clone();
                    let a = p[key].as_array_mut().unwrap();
                    let e = (i + chunk).min(a.len());
                    a.drain(i..e);
                    if let Some(w) = test(&p) {
                        best = p;
                        bv = w;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                n = best[key].as_array().unwrap().len();
                if chunk == 1 {
                    break;
                }
                chunk = (chunk / 2).max(1);
            }
        }
        // a plainer schedule, when it still fails
        for (k, x) in [("skewed", json!(false)), ("switch_pm", json!(20))] {
            if best["sched"][k] != x {
                let mut p = best.clone();
                p["sched"][k] = x;
                if let Some(w) = test(&p) {
                    best = p;
                    bv = w;
                }
            }
        }
    }
    (best, bv, tried)
}

fn replay(all: &[Scenario], file: &str, verb: bool) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let scs = pick(all, f["property"].as_str().unwrap(), f["scenario"].as_str());
    let base = scratch_base();
    let v = run_one(scs[0], &f["plan"], &base, if verb { 2 } else { 1 });
    if verb {
        for l in v["log"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap_or(""));
        }
        for l in v["trace"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    if v["violation"].is_string() {
        println!("{}: {}", v["violation"].as_str().unwrap(), v["detail"].as_str().unwrap_or(""));
        if f["schedule_hash"].is_u64() {
            println!("schedule {}", if f["schedule_hash"] == v["hash"] { "identical to the recorded one" } else { "differs from the recorded one" });
        }
        println!("VIOLATION property={} replay={file}", f["property"].as_str().unwrap());
        return 1;
    }
    println!("no violation: {}", short(&v));
    0
}
fn short(v: &Value) -> String {
    let mut w = v.clone();
    if let Some(o) = w.as_object_mut() {
        o.remove("log");
        o.remove("trace");
    }
    w.to_string()
}
fn one(all: &[Scenario], prop: &str, seed: u64, tier: Tier, name: Option<String>, verb: bool) -> i32 {
    let scs = pick(all, prop, name.as_deref());
    let base = scratch_base();
    let (si, plan) = make_plan(&scs, seed, tier);
    let t = Instant::now();
    let v = run_one(scs[si], &plan, &base, if verb { 2 } else { 0 });
    if verb {
        println!("{}", serde_json::to_string(&plan).unwrap());
        for l in v["trace"].as_array().into_iter().flatten() {
            println!("{}", l.as_str().unwrap_or(""));
        }
    }
    println!("{} {} ms: {}", scs[si].name, t.elapsed().as_millis(), short(&v));
    0
}
fn selftest(all: &[Scenario], prop: Option<String>, seed: u64, tier: Tier, runs: u64) -> i32 {
    let base = scratch_base();
    let mut bad = 0;
    for sc in all.iter().filter(|s| prop.as_deref().map(|p| p == s.property).unwrap_or(true)) {
        let t0 = Instant::now();
        let mut viol: BTreeMap<String, u64> = BTreeMap::new();
        let mut differ = 0;
        for i in 0..runs {
            let (_, plan) = make_plan(&[sc], run_seed(seed, sc.property, i), tier);
            let a = run_one(sc, &plan, &base, 0);
            let b = run_one(sc, &plan, &base, 0);
            if a != b {
                differ += 1;
                if differ <= 2 {
                    println!("{} {}: run {i} differs between two executions", sc.property, sc.name);
                    let la = a["log"].as_array().cloned().unwrap_or_default();
                    let lb = b["log"].as_array().cloned().unwrap_or_default();
                    match la.iter().zip(lb.iter()).position(|(x, y)| x != y) {
                        Some(k) => println!("  first different line {k}: {} / {}", la[k], lb[k]),
                        None => println!("  logs agree: {} / {}", short(&a), short(&b)),
                    }
                }
            }
            if let Some(c) = a["violation"].as_str() {
                *viol.entry(c.to_string()).or_default() += 1;
            } else if let Some(c) = a["error"].as_str() {
                *viol.entry(format!("ERROR {c}")).or_default() += 1;
            } else if a["stuck"].is_boolean() {
                *viol.entry("STUCK".into()).or_default() += 1;
            }
        }
        println!("{} {}: {} runs twice, {} differ, {:.1} ms each, violations {:?}", sc.property, sc.name, runs, differ, t0.elapsed().as_secs_f64() * 500.0 / runs as f64, viol);
        bad += differ;
    }
    if bad > 0 { 1 } else { 0 }
}
