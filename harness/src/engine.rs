//! Running a property: proptest streams, bounded-exhaustive streams and fixed
//! regression inputs; sharded over threads; supervised by a parent process so
//! that a crash of the code under test is itself a reported, replayable case.

use crate::cov;
use crate::src::Src;
use proptest::strategy::Strategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: usize = 8;

/// What one generated case amounted to.
pub struct Case {
    pub key: String,
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Case {
    pub fn new(key: impl Into<String>, nontrivial: bool) -> Case {
        Case {
            key: key.into(),
            nontrivial,
            labels: vec![],
        }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Case {
        if on {
            self.labels.push(l);
        }
        self
    }
}

/// Err = the property is broken on this case.
pub type R = Result<Case, String>;

pub enum Kind {
    /// proptest-driven: choices -> case
    Random {
        f: Box<dyn Fn(&mut Src) -> R + Send + Sync>,
        min: usize,
        max: usize,
        quick: u64,
        thorough: u64,
    },
    /// every string of up to `len` tokens
    Exhaustive {
        f: Box<dyn Fn(&str) -> R + Send + Sync>,
        tokens: &'static [&'static str],
        quick: u32,
        thorough: u32,
    },
    /// saved inputs, run first
    Fixed {
        f: Box<dyn Fn(&str) -> R + Send + Sync>,
        inputs: Vec<String>,
    },
}

pub struct Stream {
    pub name: &'static str,
    pub kind: Kind,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub streams: Vec<Stream>,
}

thread_local! {
    static PANIC_AT: RefCell<Option<String>> = const { RefCell::new(None) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
}
static INTERNAL: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        if GUARDED.with(|g| g.get()) {
            PANIC_AT.with(|p| *p.borrow_mut() = Some(format!("{loc}: {msg}")));
        } else {
            eprintln!("panic outside a case: {loc}: {msg}");
        }
    }));
}

/// Run one case; a panic raised by the crate is a violation, a panic raised by
/// the harness itself is an internal error (exit 3).
pub fn guarded<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    GUARDED.with(|g| g.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    GUARDED.with(|g| g.set(false));
    match r {
        Ok(r) => r,
        Err(_) => {
            let at = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness_location(&at) {
                let mut i = INTERNAL.lock().unwrap();
                if i.is_none() {
                    *i = Some(at.clone());
                }
                // not a verdict on the code under test
                Err(format!("INTERNAL {at}"))
            } else {
                Err(format!("the crate panicked at {at}"))
            }
        }
    }
}

fn is_harness_location(at: &str) -> bool {
    // harness sources are compiled with relative paths, the crate's with its
    // absolute path under /repo
    at.starts_with("src/")
}

fn hash(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Default)]
struct Tally {
    evals: u64,
    nontrivial: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
    /// cases drawn by editing the corpus, how many reached something new, and
    /// the edges of the crate reached
    guided: u64,
    found: u64,
    covered: u64,
}

impl Tally {
    fn add(&mut self, c: Case) {
        self.evals += 1;
        if c.nontrivial {
            let fresh = self.nontrivial.insert(hash(&c.key));
            if fresh && self.samples.len() < 2 && c.key.len() > 12 && c.key.len() < 400 {
                self.samples.push(c.key.clone());
            }
        }
        for l in c.labels {
            *self.labels.entry(l).or_default() += 1;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub stream: String,
    pub choices: Vec<u16>,
    pub source: Option<String>,
    pub message: String,
}

// ------------------------------------------------------------------- slots
// One shared-memory slot per shard holding the case being run.

const SLOT: usize = 1 << 18;
/// the stop flag stands before the slots
const HEAD: usize = 4096;

struct Slots(*mut u8);
unsafe impl Send for Slots {}
unsafe impl Sync for Slots {}

impl Slots {
    fn open(path: &Path) -> Slots {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .unwrap();
        f.set_len((HEAD + SLOT * SHARDS) as u64).unwrap();
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                HEAD + SLOT * SHARDS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slots(p as *mut u8)
    }
    /// kind 1 = choices, 2 = source; 0 = idle
    fn set(&self, shard: usize, stream: u32, kind: u32, data: &[u8]) {
        let n = data.len().min(SLOT - 16);
        unsafe {
            let b = self.0.add(HEAD + shard * SLOT);
            let h = b as *mut u32;
            h.write_volatile(0);
            h.add(1).write_volatile(stream);
            h.add(2).write_volatile(n as u32);
            std::ptr::copy_nonoverlapping(data.as_ptr(), b.add(16), n);
            h.write_volatile(kind);
        }
        STARTED.store(now_ms(), Ordering::Relaxed);
    }
    /// All shards are to end.
    fn stop(&self) {
        unsafe { self.0.write_volatile(1) }
    }
    fn stopped(&self) -> bool {
        unsafe { self.0.read_volatile() == 1 }
    }
    fn idle(&self, shard: usize) {
        unsafe { (self.0.add(HEAD + shard * SLOT) as *mut u32).write_volatile(0) }
        STARTED.store(0, Ordering::Relaxed);
    }
    fn get(&self, shard: usize) -> Option<(u32, u32, Vec<u8>)> {
        unsafe {
            let b = self.0.add(HEAD + shard * SLOT);
            let h = b as *const u32;
            let kind = h.read_volatile();
            if kind == 0 {
                return None;
            }
            let n = h.add(2).read_volatile() as usize;
            let mut v = vec![0; n];
            std::ptr::copy_nonoverlapping(b.add(16), v.as_mut_ptr(), n);
            Some((h.add(1).read_volatile(), kind, v))
        }
    }
}

static STARTED: AtomicU64 = AtomicU64::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_ms() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn bytes(c: &[u16]) -> Vec<u8> {
    c.iter().flat_map(|x| x.to_le_bytes()).collect()
}
fn unbytes(b: &[u8]) -> Vec<u16> {
    b.chunks_exact(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect()
}

// ------------------------------------------------------------------- child

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}
/// Fraction of the random cases to run; for work on the checks themselves.
fn scale() -> f64 {
    std::env::var("LAV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0)
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

fn limit_as(gb: u64) {
    let l = libc::rlimit {
        rlim_cur: gb << 30,
        rlim_max: gb << 30,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
}
fn limit_cpu(s: u64) {
    let l = libc::rlimit {
        rlim_cur: s,
        rlim_max: s + 2,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_CPU, &l) };
}
fn no_core() {
    let l = libc::rlimit {
        rlim_cur: 0,
        rlim_max: 0,
    };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &l) };
}

pub const STACK: usize = 256 << 20;

struct Done {
    tallies: Vec<Tally>,
    failure: Option<Failure>,
}

fn run_shard(p: &Prop, shard: usize, slots: &Slots) -> Done {
    let thorough = tier() == "thorough";
    let mut tallies = Vec::new();
    for (si, st) in p.streams.iter().enumerate() {
        let mut tally = Tally::default();
        let started = Instant::now();
        let mut seen = cov::Seen::new();
        let mut failure = None;
        let fail = |s: &str, m: String| Failure {
            stream: st.name.into(),
            choices: vec![],
            source: Some(s.to_string()),
            message: m,
        };
        match &st.kind {
            Kind::Fixed { f, inputs } => {
                for (i, s) in inputs.iter().enumerate() {
                    if i % SHARDS != shard || slots.stopped() {
                        continue;
                    }
                    slots.set(shard, si as u32, 2, s.as_bytes());
                    match guarded(|| f(s)) {
                        Ok(c) => tally.add(c),
                        Err(m) => {
                            failure = Some(fail(s, m));
                            break;
                        }
                    }
                }
            }
            Kind::Exhaustive {
                f,
                tokens,
                quick,
                thorough: th,
            } => {
                let max = (if thorough { *th } else { *quick }) - u32::from(scale() < 0.5);
                let b = tokens.len() as u64;
                let mut s = String::new();
                'len: for len in 0..=max {
                    let total = b.pow(len);
                    let mut i = shard as u64;
                    while i < total {
                        if slots.stopped() {
                            break 'len;
                        }
                        s.clear();
                        let mut x = i;
                        for _ in 0..len {
                            s.push_str(tokens[(x % b) as usize]);
                            x /= b;
                        }
                        slots.set(shard, si as u32, 2, s.as_bytes());
                        match guarded(|| f(&s)) {
                            Ok(c) => tally.add(c),
                            Err(m) => {
                                failure = Some(fail(&s, m));
                                break 'len;
                            }
                        }
                        i += SHARDS as u64;
                    }
                }
            }
            Kind::Random {
                f,
                min,
                max,
                quick,
                thorough: th,
            } => {
                let total = ((if thorough { *th } else { *quick }) as f64 * scale()) as u64;
                let cases = total.div_ceil(SHARDS as u64) as u32;
                let mut s32 = [0u8; 32];
                s32[..8].copy_from_slice(&seed().to_le_bytes());
                s32[8..16].copy_from_slice(&hash(p.id).to_le_bytes());
                s32[16..24].copy_from_slice(&hash(st.name).to_le_bytes());
                s32[24] = shard as u8;
                // expensive cases are not worth a corpus
                let guided = *quick >= 20_000 && cov::edges() > 0;
                let corpus = RefCell::new(Vec::new());
                let seen = RefCell::new(&mut seen);
                let t = RefCell::new(&mut tally);
                let mine = Cell::new(false);
                let one = |v: &Vec<u16>| -> Result<(), TestCaseError> {
                    if !mine.get() && slots.stopped() {
                        return Ok(());
                    }
                    slots.set(shard, si as u32, 1, &bytes(v));
                    if guided {
                        cov::reset();
                    }
                    let mut src = Src::new(v);
                    match guarded(|| f(&mut src)) {
                        Ok(c) => {
                            if !mine.get() {
                                t.borrow_mut().add(c);
                                if guided && seen.borrow_mut().novel() {
                                    let used = src.used().min(v.len());
                                    corpus.borrow_mut().push(v[..used].to_vec());
                                }
                            }
                            Ok(())
                        }
                        Err(m) => {
                            mine.set(true);
                            slots.stop();
                            Err(TestCaseError::fail(m))
                        }
                    }
                };
                let cfg = Config {
                    cases,
                    failure_persistence: None,
                    max_shrink_iters: 30_000,
                    max_shrink_time: 25_000,
                    max_global_rejects: 0,
                    source_file: None,
                    ..Config::default()
                };
                let mut runner =
                    TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &s32));
                let strat = proptest::collection::vec(proptest::num::u16::ANY, *min..=*max);
                let began = Instant::now();
                let r = runner.run(&strat.prop_map(|v| v), |v| one(&v));
                // the cases worth editing are the slower ones: not much more time for them
                let patience = began.elapsed() * 3 / 2 + Duration::from_secs(2);
                let mut bad = None;
                if let Err(TestError::Fail(reason, v)) = r {
                    bad = Some((v, reason.message().to_string()));
                } else if let Err(e) = r {
                    let mut i = INTERNAL.lock().unwrap();
                    i.get_or_insert(format!("proptest gave up: {e}"));
                } else if guided {
                    // coverage-guided: edit what reached something new
                    let mut rng = cov::Rng::new(&s32);
                    let began = Instant::now();
                    for _ in 0..cases {
                        if slots.stopped() || began.elapsed() > patience {
                            break;
                        }
                        let v = {
                            let c = corpus.borrow();
                            let n = c.len();
                            let none = vec![];
                            // the later half, where things get rare, more often;
                            // the smaller of two
                            let mut draw = || {
                                let i = if rng.below(2) == 0 { n / 2 + rng.below(n - n / 2) } else { rng.below(n) };
                                c.get(i).unwrap_or(&none)
                            };
                            let (a, b) = (draw(), draw());
                            let (a, b) = if a.len() <= b.len() { (a, b) } else { (b, a) };
                            cov::mutate(&mut rng, a, b, *max)
                        };
                        let before = corpus.borrow().len();
                        if let Err(e) = one(&v) {
                            let TestCaseError::Fail(m) = e else { unreachable!() };
                            bad = Some(shrink(v, m.message().to_string(), &|v| match one(v) {
                                Err(TestCaseError::Fail(m)) => Some(m.message().to_string()),
                                _ => None,
                            }));
                            break;
                        }
                        let mut t = t.borrow_mut();
                        t.guided += 1;
                        t.found += (corpus.borrow().len() - before) as u64;
                    }
                }
                failure = bad.map(|(v, m)| Failure {
                    stream: st.name.into(),
                    choices: v,
                    source: None,
                    message: m,
                });
            }
        }
        tally.covered = seen.covered() as u64;
        if shard == 0 && std::env::var("LAV_TIMES").is_ok() {
            eprintln!("{:8.2} s {} {}", started.elapsed().as_secs_f64(), p.id, st.name);
        }
        slots.idle(shard);
        tallies.push(tally);
        if failure.is_some() {
            slots.stop();
            return Done { tallies, failure };
        }
    }
    Done { tallies, failure: None }
}

/// Leave out stretches and lower values while the case still fails.
fn shrink(v: Vec<u16>, m: String, fails: &dyn Fn(&Vec<u16>) -> Option<String>) -> (Vec<u16>, String) {
    let t0 = Instant::now();
    let (mut v, mut m) = (v, m);
    let late = || t0.elapsed() > Duration::from_secs(60);
    loop {
        let mut better = false;
        let mut size = v.len();
        while size > 0 {
            let mut at = 0;
            while at < v.len() {
                if late() {
                    return (v, m);
                }
                let mut c = v.clone();
                c.drain(at..(at + size).min(v.len()));
                match fails(&c) {
                    Some(n) => {
                        (v, m) = (c, n);
                        better = true;
                    }
                    None => at += size,
                }
            }
            size /= 2;
        }
        for i in 0..v.len() {
            let mut step = v[i];
            while step > 0 {
                if late() {
                    return (v, m);
                }
                let mut c = v.clone();
                c[i] -= step.min(c[i]);
                match fails(&c) {
                    Some(n) if c[i] < v[i] => {
                        (v, m) = (c, n);
                        better = true;
                        step = step.min(v[i]);
                    }
                    _ => step /= 2,
                }
            }
        }
        if !better {
            return (v, m);
        }
    }
}

/// A worker process: one shard of all streams of one property.
pub fn child(p: &Prop, dir: &Path, shard: usize) -> i32 {
    install_hook();
    no_core();
    limit_as(6);
    let slots = Slots::open(&dir.join("slots"));
    let done = AtomicBool::new(false);
    let mut result = None;
    std::thread::scope(|sc| {
        // watchdog: one case that runs for very long is handed to the parent
        sc.spawn(|| {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let v = STARTED.load(Ordering::Relaxed);
                if v != 0 && now_ms().saturating_sub(v) > 90_000 {
                    std::process::exit(86);
                }
            }
        });
        let h = std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || run_shard(p, shard, &slots))
            .unwrap();
        result = h.join().ok();
        done.store(true, Ordering::Relaxed);
    });
    let Some(Done { tallies, failure }) = result else {
        eprintln!("{}: a shard died", p.id);
        return 3;
    };
    let failure = failure.filter(|f| !f.message.starts_with("INTERNAL "));
    let internal = INTERNAL.lock().unwrap().clone();
    let mut hashes: Vec<u8> = Vec::new();
    let streams: Vec<Value> = tallies
        .iter()
        .map(|t| {
            hashes.extend((t.nontrivial.len() as u64).to_le_bytes());
            hashes.extend(t.nontrivial.iter().flat_map(|h| h.to_le_bytes()));
            json!({"evaluations": t.evals, "labels": t.labels, "samples": t.samples,
                "guided": t.guided, "found": t.found, "covered": t.covered})
        })
        .collect();
    std::fs::write(dir.join(format!("hashes{shard}")), hashes).unwrap();
    let out = json!({
        "streams": streams,
        "edges": cov::edges(),
        "internal": internal,
        "failure": failure.as_ref().map(|f| json!({"stream": f.stream, "choices": f.choices,
            "source": f.source, "message": f.message})),
    });
    std::fs::write(dir.join(format!("result{shard}.json")), out.to_string()).unwrap();
    if failure.is_some() {
        1
    } else if internal.is_some() {
        slots.stop();
        3
    } else {
        0
    }
}

/// What all shards did, together.
fn merge(p: &Prop, dir: &Path) -> Value {
    let mut per: Vec<(u64, BTreeMap<String, u64>, u64, u64, u64, HashSet<u64>)> = Vec::new();
    let mut samples: Vec<Vec<Value>> = Vec::new();
    let (mut failures, mut internal, mut edges) = (Vec::new(), Value::Null, 0);
    for shard in 0..SHARDS {
        let Some(v) = std::fs::read_to_string(dir.join(format!("result{shard}.json")))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
        else {
            continue;
        };
        let raw = std::fs::read(dir.join(format!("hashes{shard}"))).unwrap_or_default();
        let mut words = raw.chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
        edges = edges.max(v["edges"].as_u64().unwrap_or(0));
        if !v["internal"].is_null() {
            internal = v["internal"].clone();
        }
        if v["failure"].is_object() {
            failures.push(v["failure"].clone());
        }
        for (i, s) in v["streams"].as_array().into_iter().flatten().enumerate() {
            if per.len() <= i {
                per.push(Default::default());
                samples.push(vec![]);
            }
            let e = &mut per[i];
            let n = |k: &str| s[k].as_u64().unwrap_or(0);
            e.0 += n("evaluations");
            for (k, c) in s["labels"].as_object().into_iter().flatten() {
                *e.1.entry(k.clone()).or_default() += c.as_u64().unwrap_or(0);
            }
            e.2 += n("guided");
            e.3 += n("found");
            e.4 = e.4.max(n("covered"));
            let count = words.next().unwrap_or(0);
            e.5.extend((0..count).filter_map(|_| words.next()));
            samples[i].extend(s["samples"].as_array().cloned().unwrap_or_default());
        }
    }
    let mut streams = Vec::new();
    let (mut evals, mut labels, mut distinct) = (0, BTreeMap::<String, u64>::new(), HashSet::new());
    for (st, (n, l, guided, found, covered, h)) in p.streams.iter().zip(per) {
        evals += n;
        for (k, c) in &l {
            *labels.entry(k.clone()).or_default() += c;
        }
        streams.push(json!({"stream": st.name, "evaluations": n, "distinct_nontrivial": h.len(), "labels": l,
            "bounded_exhaustive": matches!(st.kind, Kind::Exhaustive { .. }),
            "coverage_guided_evaluations": guided, "coverage_guided_finds": found,
            "edges_reached": covered}));
        distinct.extend(h);
    }
    // a few samples from every stream rather than many from one
    let all: Vec<Value> = samples.into_iter().flatten().collect();
    let step = (all.len() / 10).max(1);
    let samples: Vec<Value> = all.into_iter().step_by(step).take(10).collect();
    failures.sort_by_key(|f| {
        f["choices"].as_array().map_or(0, |c| c.len()) + f["source"].as_str().map_or(0, |s| s.len())
    });
    json!({
        "evaluations": evals,
        "distinct_nontrivial": distinct.len(),
        "labels": labels,
        "samples": samples,
        "streams": streams,
        "instrumented_edges": edges,
        "internal": internal,
        "failure": failures.into_iter().next(),
    })
}

// ------------------------------------------------------------- one single case

/// Run one saved case in this process: Ok(None) = property holds.
pub fn single(p: &Prop, stream: &str, choices: &[u16], source: Option<&str>) -> Result<Option<String>, String> {
    let st = p
        .streams
        .iter()
        .find(|s| s.name == stream)
        .ok_or(format!("no stream {stream} in {}", p.id))?;
    let r = guarded(|| match (&st.kind, source) {
        (Kind::Random { f, .. }, _) => f(&mut Src::new(choices)),
        (Kind::Exhaustive { f, .. }, Some(s)) | (Kind::Fixed { f, .. }, Some(s)) => f(s),
        _ => Err("INTERNAL replay has no source".into()),
    });
    match r {
        Ok(_) => Ok(None),
        Err(m) if m.starts_with("INTERNAL ") => Err(m),
        Err(m) => Ok(Some(m)),
    }
}

/// `lav replay FILE`: exit 0 holds, 1 violated, 3 error; a crash is a crash.
pub fn replay(props: &dyn Fn(&str) -> Option<Prop>, file: &Path, cpu: u64) -> i32 {
    install_hook();
    no_core();
    limit_as(8);
    limit_cpu(cpu);
    let v: Value = match std::fs::read_to_string(file)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
    {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", file.display());
            return 3;
        }
    };
    let Some(p) = props(v["property"].as_str().unwrap_or("")) else {
        eprintln!("unknown property");
        return 3;
    };
    let choices: Vec<u16> = v["choices"]
        .as_array()
        .map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u16).collect())
        .unwrap_or_default();
    let stream = v["stream"].as_str().unwrap_or("").to_string();
    let source = v["source"].as_str().map(|s| s.to_string());
    let h = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || single(&p, &stream, &choices, source.as_deref()))
        .unwrap();
    match h.join() {
        Ok(Ok(None)) => {
            println!("holds");
            0
        }
        Ok(Ok(Some(m))) => {
            println!("violated: {m}");
            1
        }
        Ok(Err(e)) => {
            eprintln!("{e}");
            3
        }
        Err(_) => 3,
    }
}

// ------------------------------------------------------------------- parent

fn verif_dir() -> PathBuf {
    // the binary is run from /verif (or a copy of it) by check.sh
    std::env::var("VERIF_DIR")
        .map(PathBuf::from)
        .unwrap_or_else(|_| std::env::current_dir().unwrap())
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn replay_value(id: &str, f: &Failure) -> Value {
    json!({"property": id, "stream": f.stream, "choices": f.choices, "source": f.source,
        "message": f.message, "how_to_replay": format!("bash /verif/check.sh replay <this file>")})
}

fn write_replay(id: &str, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = replay_value(id, f);
    let path = dir.join(format!("{id}-{:016x}.json", hash(&v.to_string())));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path
}

enum Probe {
    Holds,
    Violated(String),
    Crash(i32),
    Slow,
    Error,
}

fn probe(id: &str, dir: &Path, f: &Failure, cpu: u64) -> Probe {
    let path = dir.join("probe.json");
    std::fs::write(&path, replay_value(id, f).to_string()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["replay", path.to_str().unwrap(), &cpu.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::null())
        .output();
    let Ok(out) = out else { return Probe::Error };
    match (out.status.code(), out.status.signal()) {
        (Some(0), _) => Probe::Holds,
        (Some(1), _) => Probe::Violated(String::from_utf8_lossy(&out.stdout).trim().to_string()),
        (_, Some(libc::SIGXCPU)) | (_, Some(libc::SIGKILL)) => Probe::Slow,
        (_, Some(s)) => Probe::Crash(s),
        _ => Probe::Error,
    }
}

/// Minimise a case that kills the process, each attempt in its own process.
fn shrink_crash(id: &str, dir: &Path, f: Failure, is: &dyn Fn(&Probe) -> bool, cpu: u64) -> Failure {
    let mut best = f;
    let mut budget = 120;
    loop {
        let mut improved = false;
        let n = match &best.source {
            Some(s) => s.chars().count(),
            None => best.choices.len(),
        };
        let mut size = (n / 2).max(1);
        'outer: while size >= 1 && n > 0 {
            let mut at = 0;
            while at < n {
                if budget == 0 {
                    return best;
                }
                budget -= 1;
                let mut c = best.clone();
                match &best.source {
                    Some(s) => {
                        c.source = Some(
                            s.chars()
                                .enumerate()
                                .filter(|(i, _)| *i < at || *i >= at + size)
                                .map(|x| x.1)
                                .collect(),
                        )
                    }
                    None => {
                        let e = (at + size).min(c.choices.len());
                        c.choices.drain(at..e);
                    }
                }
                if is(&probe(id, dir, &c, cpu)) {
                    best = c;
                    improved = true;
                    break 'outer;
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        if !improved {
            return best;
        }
    }
}

fn evidence(p: &Prop, res: &Value, violations: u64, wall: f64, note: Option<String>) {
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let ev = json!({
        "property": p.id,
        "tier": tier(),
        "seed": seed(),
        "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"].as_u64().unwrap_or(0),
            "distinct_nontrivial": res["distinct_nontrivial"].as_u64().unwrap_or(0),
            "rule": p.rule,
            "samples": res["samples"].as_array().cloned().unwrap_or_default(),
            "streams": res["streams"],
            "case_labels": res["labels"],
            "instrumented_edges": res["instrumented_edges"],
            "note": note,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let path = dir.join(format!("{}.json", p.id));
    let mut f = std::fs::File::create(path).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes())
        .unwrap();
}

/// `lav run ID`: the registered check.
pub fn parent(p: &Prop) -> i32 {
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("lav-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let scratch = Scratch(dir.clone());
    let slots = Slots::open(&dir.join("slots"));
    let mut workers: Vec<_> = (0..SHARDS)
        .map(|i| {
            Command::new(std::env::current_exe().unwrap())
                .args(["child", p.id, dir.to_str().unwrap(), &i.to_string()])
                .stdin(Stdio::null())
                .spawn()
                .unwrap()
        })
        .collect();
    let budget = if tier() == "thorough" { 12_000 } else { 780 };
    let mut ended: Vec<Option<std::process::ExitStatus>> = vec![None; SHARDS];
    let mut late = false;
    while ended.iter().any(Option::is_none) {
        for (w, e) in workers.iter_mut().zip(ended.iter_mut()) {
            if e.is_none() {
                *e = w.try_wait().unwrap();
                if e.is_some_and(|s| s.code() != Some(0)) {
                    slots.stop();
                }
            }
        }
        if t0.elapsed().as_secs() > budget && !late {
            late = true;
            for w in workers.iter_mut() {
                let _ = w.kill();
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    let res = merge(p, &dir);
    // the shards that ended without a verdict of their own
    let odd: Vec<usize> = (0..SHARDS)
        .filter(|i| !matches!(ended[*i].and_then(|s| s.code()), Some(0) | Some(1)))
        .collect();
    let violate = |f: Failure, res: &Value| -> i32 {
        let path = write_replay(p.id, &f);
        evidence(p, res, 1, t0.elapsed().as_secs_f64(), Some("violation found".into()));
        println!("{}: {}", p.id, f.message);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        1
    };
    let code = if res["failure"].is_object() {
        let f = &res["failure"];
        let fail = Failure {
            stream: f["stream"].as_str().unwrap_or("").into(),
            choices: f["choices"]
                .as_array()
                .map(|a| a.iter().filter_map(|x| x.as_u64()).map(|x| x as u16).collect())
                .unwrap_or_default(),
            source: f["source"].as_str().map(|s| s.into()),
            message: f["message"].as_str().unwrap_or("").into(),
        };
        violate(fail, &res)
    } else if late {
        eprintln!("{}: time budget exhausted, no verdict", p.id);
        2
    } else if odd.is_empty() {
        evidence(p, &res, 0, t0.elapsed().as_secs_f64(), None);
        println!(
            "{}: held on {} cases, {} distinct non-trivial ({:.1}s, seed {}, {})",
            p.id,
            res["evaluations"],
            res["distinct_nontrivial"],
            t0.elapsed().as_secs_f64(),
            seed(),
            tier()
        );
        0
    } else {
        // crash, hang, or harness error
        let mut verdict = None;
        for sh in odd {
            let s = ended[sh].unwrap();
            if s.code() != Some(86) && s.signal().is_none() {
                eprintln!("{}: harness error: {}", p.id, res["internal"]);
                continue;
            }
            let Some((si, kind, data)) = slots.get(sh) else { continue };
            let Some(st) = p.streams.get(si as usize) else { continue };
            let f = Failure {
                stream: st.name.into(),
                choices: if kind == 1 { unbytes(&data) } else { vec![] },
                source: (kind == 2).then(|| String::from_utf8_lossy(&data).into_owned()),
                message: String::new(),
            };
            let slow_counts = p.id == "C15" || p.id == "C21";
            let cpu = 40;
            match probe(p.id, &dir, &f, cpu) {
                Probe::Crash(sig) => {
                    let is = |p: &Probe| matches!(p, Probe::Crash(_));
                    let mut f = shrink_crash(p.id, &dir, f, &is, cpu);
                    f.message =
                        format!("the crate killed the process with signal {sig} (stack or memory exhausted, or abort)");
                    verdict = Some(f);
                    break;
                }
                Probe::Violated(m) => {
                    verdict = Some(Failure { message: m, ..f });
                    break;
                }
                Probe::Slow if slow_counts => {
                    let f = Failure {
                        message: format!("one case used more than {cpu} s of processor time; such a case takes milliseconds"),
                        ..f
                    };
                    verdict = Some(f);
                    break;
                }
                Probe::Slow | Probe::Holds | Probe::Error => {}
            }
        }
        match verdict {
            Some(f) => violate(f, &res),
            None => {
                eprintln!("{}: a worker ended abnormally and no single case reproduces it: no verdict", p.id);
                2
            }
        }
    };
    drop(scratch);
    code
}
