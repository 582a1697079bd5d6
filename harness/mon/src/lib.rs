//! Shared runtime-monitoring kit: observation counters, verdicts, the
//! allocation monitor, the panic monitor, the hang watchdog and evidence files.
use serde_json::{json, Value as J};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ rng
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo + 1) as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

// ------------------------------------------------ allocation monitor
/// Per-thread allocation accounting. While a guard is armed, a single request
/// above `single`, or live growth above `live`, is reported as a violation
/// and ends the process (the allocator cannot unwind).
pub struct MonAlloc;
thread_local! {
    static ARM: Cell<bool> = const { Cell::new(false) };
    static SINGLE: Cell<usize> = const { Cell::new(0) };
    static LIVE_CAP: Cell<isize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
    static CASE: RefCell<Option<String>> = const { RefCell::new(None) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
#[inline]
fn on_alloc(sz: usize) {
    let _ = ARM.try_with(|a| {
        if !a.get() {
            return;
        }
        LIVE.with(|l| {
            let n = l.get() + sz as isize;
            l.set(n);
            PEAK.with(|p| if n > p.get() { p.set(n) });
        });
        BIGGEST.with(|b| if sz > b.get() { b.set(sz) });
        let over = sz > SINGLE.with(|s| s.get()) || LIVE.with(|l| l.get()) > LIVE_CAP.with(|l| l.get());
        if over {
            a.set(false);
            let msg = format!(
                "memory budget exceeded while handling a small input: single request {} bytes, live growth {} bytes (budget {} / {})",
                sz, LIVE.with(|l| l.get()), SINGLE.with(|s| s.get()), LIVE_CAP.with(|l| l.get())
            );
            fatal_violation(&msg);
        }
    });
}
#[inline]
fn on_free(sz: usize) {
    let _ = ARM.try_with(|a| {
        if a.get() {
            LIVE.with(|l| l.set(l.get() - sz as isize));
        }
    });
}
unsafe impl GlobalAlloc for MonAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        on_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        on_free(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        on_free(l.size());
        on_alloc(n);
        System.realloc(p, l, n)
    }
}
/// Run `f` under an allocation budget; returns (result, peak growth, biggest request).
pub fn with_budget<T>(single: usize, live: usize, f: impl FnOnce() -> T) -> (T, usize, usize) {
    SINGLE.with(|s| s.set(single));
    LIVE_CAP.with(|s| s.set(live as isize));
    LIVE.with(|s| s.set(0));
    PEAK.with(|s| s.set(0));
    BIGGEST.with(|s| s.set(0));
    ARM.with(|a| a.set(true));
    let r = f();
    ARM.with(|a| a.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as usize, BIGGEST.with(|b| b.get()))
}

// ----------------------------------------------------- panic monitor
fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let was = ARM.try_with(|a| a.replace(false)).unwrap_or(false);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = QUIET.try_with(|q| q.get()).unwrap_or(false);
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(format!("{msg} @ {loc}")));
        if !quiet {
            default(info);
        }
        let _ = ARM.try_with(|a| a.set(was));
    }));
}
/// Outcome of running code under the panic monitor.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    ARM.with(|a| a.set(false));
    r.map_err(|_| {
        LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}

// -------------------------------------------------------- run context
#[derive(Default)]
struct Obs {
    counters: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    samples: Vec<J>,
    evals: u64,
    nontrivial: u64,
    known: BTreeMap<String, u64>,
}
pub struct Run {
    pub id: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    level: String,
    rule: String,
    assumptions: Vec<String>,
    obs: Mutex<Obs>,
    start: Instant,
    known_findings: Vec<Finding>,
    required: Mutex<BTreeMap<String, u64>>,
}
#[derive(Clone)]
pub struct Finding {
    pub property: String,
    pub key: String,
    pub what: String,
}
static RUN: OnceLock<Arc<Run>> = OnceLock::new();
static DEAD: AtomicBool = AtomicBool::new(false);

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
pub fn repo_dir() -> String {
    std::env::var("REPO_DIR").unwrap_or_else(|_| "/repo".into())
}

/// Per-thread observation buffer, merged into the run at the end.
pub struct Shard {
    pub rng: Rng,
    pub index: usize,
    counters: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<J>,
    pub evals: u64,
    pub nontrivial: u64,
    run: Arc<Run>,
    beat: Arc<AtomicU64>,
}
impl Shard {
    pub fn thorough(&self) -> bool {
        self.run.thorough
    }
    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    /// Record one oracle evaluation with a fingerprint of what was observed.
    pub fn observed(&mut self, fp: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.nontrivial += 1;
            if self.distinct.len() < 2_000_000 {
                self.distinct.insert(fp);
            }
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> J) {
        if self.samples.len() < 3 {
            self.samples.push(f());
        }
    }
    /// Announce the case about to run (for fatal reports) and beat the watchdog.
    pub fn case(&self, f: impl FnOnce() -> String) {
        CASE.with(|c| *c.borrow_mut() = Some(f()));
        self.beat.store(now_ms(), Relaxed);
    }
    pub fn beat(&self) {
        self.beat.store(now_ms(), Relaxed);
    }
    pub fn violation(&self, msg: &str) -> ! {
        violation(msg)
    }
    /// Report either a listed known finding (and continue) or a violation.
    pub fn finding_or_violation(&mut self, key: &str, msg: &str) {
        if self.run.is_known(key) {
            let mut o = self.run.obs.lock().unwrap();
            *o.known.entry(key.to_string()).or_insert(0) += 1;
        } else {
            violation(msg)
        }
    }
}
fn now_ms() -> u64 {
    static T0: OnceLock<Instant> = OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

impl Run {
    pub fn is_known(&self, key: &str) -> bool {
        self.known_findings.iter().any(|f| f.key == key)
    }
    /// The run is inconclusive (reported as a failure of the harness) unless
    /// counter `k` reached `min`.
    pub fn require(&self, k: &str, min: u64) {
        self.required.lock().unwrap().insert(k.into(), min);
    }
    /// Run `f` on `n` parallel shards with big stacks; panics of the harness
    /// itself are fatal.
    pub fn par(self: &Arc<Self>, n: usize, f: impl Fn(&mut Shard) + Send + Sync + 'static) {
        let f = Arc::new(f);
        let mut hs = vec![];
        let beats: Vec<Arc<AtomicU64>> = (0..n).map(|_| Arc::new(AtomicU64::new(now_ms()))).collect();
        let cases: Arc<AtomicBool> = Arc::new(AtomicBool::new(false));
        for i in 0..n {
            let (f, run, beat) = (f.clone(), self.clone(), beats[i].clone());
            hs.push(
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn(move || {
                        let mut sh = Shard {
                            rng: Rng::new(run.seed.wrapping_mul(0x1000193).wrapping_add(i as u64 * 7919) ^ fnv(run.id.as_bytes())),
                            index: i,
                            counters: BTreeMap::new(),
                            distinct: HashSet::new(),
                            samples: vec![],
                            evals: 0,
                            nontrivial: 0,
                            run: run.clone(),
                            beat: beat.clone(),
                        };
                        f(&mut sh);
                        beat.store(u64::MAX, Relaxed);
                        let mut o = run.obs.lock().unwrap();
                        for (k, v) in sh.counters {
                            *o.counters.entry(k.to_string()).or_insert(0) += v;
                        }
                        o.distinct.extend(sh.distinct);
                        o.evals += sh.evals;
                        o.nontrivial += sh.nontrivial;
                        if o.samples.len() < 8 {
                            o.samples.extend(sh.samples);
                        }
                    })
                    .unwrap(),
            );
        }
        // hang watchdog: a single case that does not finish for minutes
        let limit = std::env::var("VERIF_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(180u64) * 1000;
        let wb = beats.clone();
        let stop = cases.clone();
        let wd = std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if stop.load(Relaxed) {
                return;
            }
            let now = now_ms();
            for b in &wb {
                let t = b.load(Relaxed);
                if t != u64::MAX && now.saturating_sub(t) > limit {
                    fatal_violation("a single operation did not terminate within the watchdog limit");
                }
            }
        });
        let mut bad = false;
        for h in hs {
            bad |= h.join().is_err();
        }
        cases.store(true, Relaxed);
        let _ = wd.join();
        if bad {
            eprintln!("HARNESS-ERROR: worker panicked outside the monitored region");
            if let Some(m) = LAST_PANIC.with(|p| p.borrow().clone()) {
                eprintln!("{m}");
            }
            std::process::exit(3);
        }
    }
}

fn last_case() -> String {
    CASE.try_with(|c| c.borrow().clone()).ok().flatten().unwrap_or_default()
}

/// Report a violation and end the process with status 1.
pub fn violation(msg: &str) -> ! {
    fatal_violation(msg)
}
fn fatal_violation(msg: &str) -> ! {
    let _ = ARM.try_with(|a| a.set(false));
    if DEAD.swap(true, SeqCst) {
        // another thread is already reporting
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let run = RUN.get().expect("run");
    let dir = format!("{}/evidence/replay", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.txt", dir, run.id);
    let body = format!(
        "property: {}\ntier: {}\nseed: {}\nviolation: {}\ncase: {}\nreplay: VERIF_SEED={} {}/run.sh {} {}\n",
        run.id, run.tier, run.seed, msg, last_case(), run.seed, verif_dir(), run.id, run.tier
    );
    let _ = std::fs::write(&path, &body);
    println!("{body}");
    println!("VIOLATION property={} replay={}", run.id, path);
    run.write_evidence(1);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    unsafe { libc::_exit(1) }
}

impl Run {
    fn write_evidence(&self, violations: u64) {
        let o = match self.obs.try_lock() {
            Ok(o) => o,
            Err(std::sync::TryLockError::Poisoned(p)) => p.into_inner(),
            Err(_) => return,
        };
        let samples: Vec<&J> = o.samples.iter().take(8).collect();
        let mut samples = json!(samples);
        if samples.as_array().map(|a| a.is_empty()).unwrap_or(true) {
            samples = json!([{"note": "no sample recorded (run ended early)"}]);
        }
        let ev = json!({
            "property": self.id, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": o.evals, "distinct_nontrivial": o.distinct.len(),
                "nontrivial": o.nontrivial, "rule": self.rule, "samples": samples,
                "observed": o.counters, "known_findings_hit": o.known,
            },
            "assumptions": self.assumptions, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let p = format!("{}/evidence/{}.json", verif_dir(), self.id);
        let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
        if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()) {
            eprintln!("cannot write evidence {p}: {e}");
        }
    }
    pub fn finish(self: &Arc<Self>) -> ! {
        let mut lacking = vec![];
        {
            let o = self.obs.lock().unwrap();
            for (k, min) in self.required.lock().unwrap().iter() {
                let got = o.counters.get(k).copied().unwrap_or(0);
                if got < *min {
                    lacking.push(format!("{k}: observed {got} < required {min}"));
                }
            }
            if o.evals == 0 || o.distinct.is_empty() {
                lacking.push("no oracle evaluation happened".into());
            }
        }
        self.write_evidence(0);
        let o = self.obs.lock().unwrap();
        println!(
            "{} {} seed={} evaluations={} distinct_nontrivial={} wall={:.1}s",
            self.id, self.tier, self.seed, o.evals, o.distinct.len(), self.start.elapsed().as_secs_f64()
        );
        for (k, v) in &o.counters {
            println!("  observed {k} = {v}");
        }
        for f in &self.known_findings {
            let n = o.known.get(&f.key).copied().unwrap_or(0);
            if n > 0 {
                println!("KNOWN-FINDING: property={} {} [seen {} times]", self.id, f.what, n);
            }
        }
        if !lacking.is_empty() {
            for l in &lacking {
                eprintln!("INCONCLUSIVE: {l}");
            }
            std::process::exit(2);
        }
        println!("HELD property={}", self.id);
        std::process::exit(0)
    }
}

/// Start a run. argv: <id> <tier>.
pub fn start(id: &str, level: &str, rule: &str, assumptions: &[&str]) -> Arc<Run> {
    now_ms();
    install_hook();
    let tier = std::env::args().nth(2).or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1u64);
    let mut known = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for line in s.lines() {
            // KNOWN property=<id> key=<key> <what>
            let Some(rest) = line.strip_prefix("KNOWN property=") else { continue };
            let mut it = rest.splitn(3, ' ');
            let (p, k, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == id {
                known.push(Finding { property: p.into(), key: k.trim_start_matches("key=").into(), what: w.into() });
            }
        }
    }
    let thorough = tier == "thorough";
    let run = Arc::new(Run {
        id: id.into(), tier, seed, thorough, level: level.into(), rule: rule.into(),
        assumptions: assumptions.iter().map(|s| s.to_string()).collect(),
        obs: Mutex::new(Obs::default()), start: Instant::now(), known_findings: known,
        required: Mutex::new(BTreeMap::new()),
    });
    let _ = RUN.set(run.clone());
    run
}
pub fn hex(b: &[u8]) -> String {
    let cut = b.len().min(4096);
    let mut s: String = b[..cut].iter().map(|x| format!("{x:02x}")).collect();
    if cut < b.len() {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}
pub fn threads() -> usize {
    8 // not the number of cores: a run observes the same on every machine
}
