//! Shared parts of the model checkers: evidence, replay files, parallel enumeration, watchdog.
use std::cell::UnsafeCell;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

pub struct Check {
    pub id: String,
    pub thorough: bool,
    pub replay: Option<String>,
    seed: i64,
    start: Instant,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    skipped: AtomicU64,
    violations: AtomicUsize,
    samples: Mutex<Vec<Value>>,
    extra: Mutex<BTreeMap<String, Value>>,
    sums: Mutex<BTreeMap<String, u64>>,
    maxima: Mutex<BTreeMap<String, u64>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<Vec<String>>,
    pub stop: AtomicBool,
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

thread_local! { static QUIET: std::cell::Cell<u32> = std::cell::Cell::new(0); }

/// Panics inside `quiet_catch` are not printed.
pub fn install_panic_hook() {
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) == 0 {
            prev(info);
        }
    }));
}

pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }
    })
}

impl Check {
    pub fn from_args() -> Arc<Check> {
        let args: Vec<String> = std::env::args().collect();
        let id = args.get(1).cloned().unwrap_or_else(|| "C00".into());
        let tier = args
            .get(2)
            .cloned()
            .or_else(|| std::env::var("VERIF_TIER").ok())
            .unwrap_or_else(|| "quick".into());
        let replay = args.iter().position(|a| a == "--replay").and_then(|i| args.get(i + 1).cloned());
        install_panic_hook();
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for line in s.lines() {
                // known: property=<id> key=<key> <what fails>
                if let Some(rest) = line.strip_prefix("known: property=") {
                    let mut it = rest.splitn(3, ' ');
                    let (p, k, d) = (it.next(), it.next(), it.next());
                    if let (Some(p), Some(k), Some(d)) = (p, k.and_then(|k| k.strip_prefix("key=")), d) {
                        if p == id {
                            known.push((k.to_string(), d.to_string()));
                        }
                    }
                }
            }
        }
        Arc::new(Check {
            id,
            thorough: tier == "thorough",
            replay,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            states: Default::default(),
            transitions: Default::default(),
            traces: Default::default(),
            skipped: Default::default(),
            violations: Default::default(),
            samples: Default::default(),
            extra: Default::default(),
            sums: Default::default(),
            maxima: Default::default(),
            assumptions: Default::default(),
            known,
            known_hit: Default::default(),
            stop: Default::default(),
        })
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough { thorough } else { quick }
    }
    pub fn elapsed(&self) -> Duration {
        self.start.elapsed()
    }
    pub fn add(&self, states: u64, transitions: u64, traces: u64) {
        self.states.fetch_add(states, Relaxed);
        self.transitions.fetch_add(transitions, Relaxed);
        self.traces.fetch_add(traces, Relaxed);
    }
    pub fn skip(&self) {
        self.skipped.fetch_add(1, Relaxed);
    }
    pub fn sample(&self, v: impl Into<Value>) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v.into());
        }
    }
    pub fn note(&self, k: &str, v: impl Into<Value>) {
        self.extra.lock().unwrap().insert(k.to_string(), v.into());
    }
    pub fn bump(&self, k: &str, n: u64) {
        *self.sums.lock().unwrap().entry(k.to_string()).or_default() += n;
    }
    pub fn max(&self, k: &str, n: u64) {
        let mut m = self.maxima.lock().unwrap();
        let e = m.entry(k.to_string()).or_default();
        *e = n.max(*e);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn violated(&self) -> bool {
        self.violations.load(SeqCst) > 0
    }
    /// Report a violation. `key` identifies the failing input / history.
    pub fn violation(&self, key: &str, detail: &str) {
        for (k, d) in &self.known {
            if k == key {
                let mut h = self.known_hit.lock().unwrap();
                if !h.contains(k) {
                    h.push(k.clone());
                    println!("KNOWN-FINDING: property={} {}", self.id, d);
                }
                return;
            }
        }
        let n = self.violations.fetch_add(1, SeqCst);
        if n < 3 {
            let dir = verif_dir().join("evidence/replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(match worker() {
                Some(w) => format!("{}-{}-{}.txt", self.id, w.0, n),
                None => format!("{}-{}.txt", self.id, n),
            });
            let _ = std::fs::write(&path, format!("property {}\nkey {}\n{}\n", self.id, key, detail));
            let out = std::io::stdout();
            let mut out = out.lock();
            let _ = writeln!(out, "VIOLATION property={} replay={}", self.id, path.display());
            let _ = writeln!(out, "  case: {}", key.chars().take(400).collect::<String>());
            let _ = writeln!(out, "  {}", detail.chars().take(1500).collect::<String>().replace('\n', "\n  "));
            let _ = out.flush();
        }
        if n >= 2 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn write_evidence(&self) {
        let mut cov = serde_json::Map::new();
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        for m in [&self.sums, &self.maxima] {
            for (k, v) in m.lock().unwrap().iter() {
                cov.insert(k.clone(), (*v).into());
            }
        }
        cov.insert("states".into(), self.states.load(Relaxed).into());
        cov.insert("transitions".into(), self.transitions.load(Relaxed).into());
        cov.insert("traces_validated_against_impl".into(), self.traces.load(Relaxed).into());
        cov.insert("samples".into(), Value::from(self.samples.lock().unwrap().clone()));
        let skipped = self.skipped.load(Relaxed);
        if skipped > 0 {
            cov.insert("executions_not_judged".into(), skipped.into());
        }
        if !cov.contains_key("exhaustive") {
            cov.insert("exhaustive".into(), Value::from(!self.stopped()));
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "model_checking",
            "coverage": Value::Object(cov),
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.load(SeqCst),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}.json", self.id));
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n");
    }
    /// What a worker process tells its parent.
    fn part(&self) -> Value {
        json!({
            "states": self.states.load(SeqCst),
            "transitions": self.transitions.load(SeqCst),
            "traces": self.traces.load(SeqCst),
            "skipped": self.skipped.load(SeqCst),
            "violations": self.violations.load(SeqCst),
            "samples": self.samples.lock().unwrap().clone(),
            "sums": self.sums.lock().unwrap().clone(),
            "maxima": self.maxima.lock().unwrap().clone(),
        })
    }
    fn merge(&self, v: &Value) {
        let n = |k: &str| v[k].as_u64().unwrap_or(0);
        self.add(n("states"), n("transitions"), n("traces"));
        self.skipped.fetch_add(n("skipped"), SeqCst);
        self.violations.fetch_add(n("violations") as usize, SeqCst);
        for s in v["samples"].as_array().into_iter().flatten().take(2) {
            self.sample(s.clone());
        }
        for (k, v) in v["sums"].as_object().into_iter().flatten() {
            self.bump(k, v.as_u64().unwrap_or(0));
        }
        for (k, v) in v["maxima"].as_object().into_iter().flatten() {
            self.max(k, v.as_u64().unwrap_or(0));
        }
    }
    pub fn finish(&self) -> ! {
        if worker().is_some() {
            println!("MC_PART {}", self.part());
            let _ = std::io::stdout().flush();
            std::process::exit(0);
        }
        self.write_evidence();
        let v = self.violations.load(SeqCst);
        println!(
            "{}: {} states, {} transitions, {} executions, {} violations, {:.1}s",
            self.id,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            v,
            self.start.elapsed().as_secs_f64()
        );
        let _ = std::io::stdout().flush();
        std::process::exit(if v > 0 { 1 } else { 0 })
    }
}

// ---------------------------------------------------------------- watchdog

struct Slot {
    epoch: AtomicU64,
    busy: AtomicBool,
    text: UnsafeCell<String>,
}
unsafe impl Sync for Slot {}

static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());
thread_local! {
    static SLOT: Arc<Slot> = {
        let s = Arc::new(Slot {
            epoch: AtomicU64::new(0),
            busy: AtomicBool::new(false),
            text: UnsafeCell::new(String::new()),
        });
        SLOTS.lock().unwrap().push(s.clone());
        s
    };
}

/// Runs one case; the watchdog reports it when it does not return.
pub fn guarded<R>(case: &str, f: impl FnOnce() -> R) -> Result<R, String> {
    SLOT.with(|s| {
        unsafe {
            let t = &mut *s.text.get();
            t.clear();
            t.push_str(case);
        }
        s.epoch.fetch_add(1, SeqCst);
        s.busy.store(true, SeqCst);
        let r = quiet_catch(f);
        s.busy.store(false, SeqCst);
        r
    })
}

/// Calls `on_hang(case)` when a guarded case runs longer than `limit`.
pub fn watchdog(limit: Duration, on_hang: impl Fn(&str) + Send + 'static) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, Instant)> = vec![];
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let slots = SLOTS.lock().unwrap().clone();
            seen.resize(slots.len(), (0, Instant::now()));
            for (i, s) in slots.iter().enumerate() {
                let e = s.epoch.load(SeqCst);
                if !s.busy.load(SeqCst) || seen[i].0 != e {
                    seen[i] = (e, Instant::now());
                } else if seen[i].1.elapsed() > limit {
                    let case = unsafe { (*s.text.get()).clone() };
                    on_hang(&case);
                    return;
                }
            }
        }
    });
}

// ---------------------------------------------------------------- parallel enumeration

pub fn threads() -> usize {
    if let Some(n) = std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()) {
        return n;
    }
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

pub fn par_for(n: usize, f: impl Fn(usize) + Sync) {
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads().min(n.max(1)) {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, SeqCst);
                    if i >= n {
                        break;
                    }
                    f(i)
                })
                .unwrap();
        }
    });
}

/// All sequences over `0..k` of length `1..=depth`, in parallel. `f` returns whether to extend.
pub fn par_sequences(k: usize, depth: usize, f: impl Fn(&[usize]) -> bool + Sync) {
    if depth == 0 {
        return;
    }
    fn go(k: usize, depth: usize, seq: &mut Vec<usize>, f: &(impl Fn(&[usize]) -> bool + Sync)) {
        if !f(seq) || seq.len() >= depth {
            return;
        }
        for i in 0..k {
            seq.push(i);
            go(k, depth, seq, f);
            seq.pop();
        }
    }
    if depth == 1 {
        par_for(k, |i| {
            f(&[i]);
        });
        return;
    }
    let ext: Vec<AtomicBool> = (0..k).map(|_| AtomicBool::new(false)).collect();
    par_for(k, |i| ext[i].store(f(&[i]), SeqCst));
    if depth == 2 {
        par_for(k, |i| {
            if ext[i].load(SeqCst) {
                for j in 0..k {
                    f(&[i, j]);
                }
            }
        });
        return;
    }
    par_for(k * k, |ij| {
        let (i, j) = (ij / k, ij % k);
        if ext[i].load(SeqCst) {
            let mut seq = vec![i, j];
            go(k, depth, &mut seq, &f);
        }
    });
}

// ---------------------------------------------------------------- worker processes

/// Index of this worker process, number of the `spread` call it is for, shared memory.
fn worker() -> Option<(usize, usize, String)> {
    let s = std::env::var("MC_WORKER").ok()?;
    let mut it = s.splitn(3, ' ');
    Some((it.next()?.parse().ok()?, it.next()?.parse().ok()?, it.next()?.to_string()))
}

pub fn worker_index() -> usize {
    worker().map_or(0, |w| w.0)
}

static SPREADS: AtomicUsize = AtomicUsize::new(0);

/// What came of a worker process that died.
pub struct Death {
    pub case: usize,
    pub signal: Option<i32>,
}

/// `f` for all `0..n`, in worker processes (threads of one process get in each other's way when
/// they create and end many threads). Everything told to `ck` by the workers is added up.
pub fn spread(ck: &Arc<Check>, n: usize, f: impl Fn(usize)) -> Vec<Death> {
    let call = SPREADS.fetch_add(1, SeqCst);
    let shared = |path: &std::path::Path| unsafe {
        use std::os::unix::io::AsRawFd;
        let file = std::fs::OpenOptions::new().read(true).write(true).open(path).unwrap();
        let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, file.as_raw_fd(), 0);
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const AtomicU64, 512)
    };
    if let Some((me, mine, path)) = worker() {
        if mine != call {
            return vec![];
        }
        let mem = shared(std::path::Path::new(&path));
        while mem[1].load(SeqCst) == 0 && !ck.stopped() {
            let i = mem[0].fetch_add(1, SeqCst) as usize;
            if i >= n {
                break;
            }
            mem[2 + me].store(i as u64, SeqCst);
            f(i);
            if ck.stopped() {
                mem[1].store(1, SeqCst);
            }
        }
        ck.finish();
    }
    let path = std::env::temp_dir().join(format!("mc-{}-{}", std::process::id(), call));
    std::fs::write(&path, vec![0u8; 4096]).unwrap();
    let mem = shared(&path);
    let workers = threads().min(n.max(1)).min(500);
    let deaths = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (path, deaths) = (&path, &deaths);
            let known = &ck.known_hit;
            sc.spawn(move || {
                use std::io::BufRead;
                use std::os::unix::process::ExitStatusExt;
                let mut child = std::process::Command::new(std::env::current_exe().unwrap())
                    .args(std::env::args().skip(1))
                    .env("MC_WORKER", format!("{} {} {}", w, call, path.display()))
                    .env("MC_THREADS", "1")
                    .stdout(std::process::Stdio::piped())
                    .stderr(if std::env::var_os("MC_DEBUG").is_some() { std::process::Stdio::inherit() } else { std::process::Stdio::null() })
                    .spawn()
                    .unwrap();
                let mut told = false;
                for line in std::io::BufReader::new(child.stdout.take().unwrap()).lines() {
                    let Ok(line) = line else { continue };
                    if let Some(p) = line.strip_prefix("MC_PART ") {
                        if let Ok(v) = serde_json::from_str(p) {
                            ck.merge(&v);
                            told = true;
                        }
                    } else if line.starts_with("KNOWN-FINDING") {
                        let mut k = known.lock().unwrap();
                        if !k.contains(&line) {
                            println!("{}", line);
                            k.push(line);
                        }
                    } else {
                        println!("{}", line);
                    }
                }
                let st = child.wait().unwrap();
                if !told {
                    deaths.lock().unwrap().push(Death { case: mem[2 + w].load(SeqCst) as usize, signal: st.signal() });
                    mem[1].store(1, SeqCst);
                }
            });
        }
    });
    let _ = std::fs::remove_file(&path);
    if mem[1].load(SeqCst) != 0 {
        ck.stop.store(true, SeqCst);
    }
    deaths.into_inner().unwrap()
}

/// For properties that do not speak of crashes.
pub fn no_deaths(deaths: Vec<Death>) {
    if let Some(d) = deaths.first() {
        eprintln!("a worker died (signal {:?}) in case {}", d.signal, d.case);
        std::process::exit(2);
    }
}

/// SplitMix-style hash for counting distinct states cheaply.
pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 32;
    h.wrapping_mul(0x9E3779B97F4A7C15)
}

pub fn limit_memory(gb: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

pub struct StateSet {
    shards: Vec<Mutex<std::collections::HashSet<u64>>>,
    len: AtomicU64,
}
impl Default for StateSet {
    fn default() -> Self {
        StateSet { shards: (0..64).map(|_| Default::default()).collect(), len: AtomicU64::new(0) }
    }
}
impl StateSet {
    /// True when new.
    pub fn insert(&self, h: u64) -> bool {
        if self.len.load(Relaxed) > 60_000_000 {
            return false;
        }
        let new = self.shards[(h >> 58) as usize].lock().unwrap().insert(h);
        if new {
            self.len.fetch_add(1, Relaxed);
        }
        new
    }
    pub fn len(&self) -> u64 {
        self.len.load(Relaxed)
    }
}
