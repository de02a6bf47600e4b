//! Framework: cases, observation counters, verdicts, replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (self.next() % n as u64) as usize
    }
    /// inclusive range
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, X>(&mut self, xs: &'a [X]) -> &'a X {
        &xs[self.below(xs.len())]
    }
    pub fn u128(&mut self) -> u128 {
        ((self.next() as u128) << 64) | self.next() as u128
    }
    pub fn shuffle<X>(&mut self, xs: &mut [X]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

/// A violation of the property being checked.
#[derive(Clone, Debug)]
pub struct Viol {
    /// short, stable description of what failed (used to match known findings)
    pub sig: String,
    /// details: input, expected, observed
    pub msg: String,
}
pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
pub type Res<T = ()> = Result<T, Viol>;

pub struct Case {
    pub rng: Rng,
    pub seed: u64,
    /// index of the case in its section (exhaustive sections use it as the thing to do)
    pub idx: u64,
    pub thorough: bool,
    /// a case with inputs far beyond the usual size
    pub big: bool,
    counters: BTreeMap<&'static str, u64>,
    keys: Vec<u64>,
    sample: Option<String>,
    evals: u64,
}
impl Case {
    pub fn new(seed: u64, idx: u64, thorough: bool) -> Self {
        Case {
            rng: Rng::new(seed),
            seed,
            idx,
            thorough,
            big: false,
            counters: Default::default(),
            keys: vec![],
            sample: None,
            evals: 0,
        }
    }
    /// a size from the usual range, or from the one of big cases
    pub fn size(&mut self, usual: (usize, usize), big: (usize, usize)) -> usize {
        let (lo, hi) = if self.big { big } else { usual };
        self.rng.range(lo, hi)
    }
    /// the same case, big
    pub fn bigger(&mut self, f: fn(&mut Case) -> Res) -> Res {
        self.big = true;
        self.count("big cases", 1);
        f(self)
    }
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_default() += n;
    }
    /// one judged evaluation
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    /// Record that this case was non-trivial, under a key that identifies it.
    pub fn nontrivial(&mut self, key: impl Hash) {
        let mut h = rustc_hasher();
        key.hash(&mut h);
        self.keys.push(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            let mut s = f();
            if s.len() > 600 {
                let mut cut = 600;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.sample = Some(s);
        }
    }
}
fn rustc_hasher() -> std::collections::hash_map::DefaultHasher {
    std::collections::hash_map::DefaultHasher::new()
}
pub fn hash_of(x: impl Hash) -> u64 {
    let mut h = rustc_hasher();
    x.hash(&mut h);
    h.finish()
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}
static LAST_PANIC_ANY: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        eprintln!("panic at {loc}: {msg}");
        if let Ok(mut g) = LAST_PANIC_ANY.lock() {
            *g = Some((msg.clone(), loc.clone()));
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}
fn take_panic() -> (String, String) {
    let here = LAST_PANIC.with(|p| p.borrow_mut().take());
    here.or_else(|| LAST_PANIC_ANY.lock().ok().and_then(|mut g| g.take()))
        .unwrap_or(("panic".into(), String::new()))
}

/// Run code of the system under test. A panic on an input the property covers is a violation.
pub fn real<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Viol> {
    LAST_PANIC.with(|p| p.borrow_mut().take());
    let slot = SLOT.with(|s| s.get());
    IN_REAL[slot].fetch_add(1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_REAL[slot].fetch_sub(1, Ordering::SeqCst);
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let (msg, loc) = take_panic();
            viol(format!("{what}: panicked"), format!("{what} panicked: {msg} (at {loc})"))
        }
    }
}

pub type CaseFn = fn(&mut Case) -> Res;
pub struct Section {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub parallel: bool,
    pub f: CaseFn,
}
pub fn sec(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Section {
    Section { name, quick, thorough, parallel: true, f }
}
pub fn seq(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Section {
    Section { name, quick, thorough, parallel: false, f }
}

pub struct CheckDef {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    /// number of processes (for code that serialises inside a process)
    pub shards: usize,
    pub sections: Vec<Section>,
}

#[derive(Default)]
pub struct Outcome {
    pub evaluations: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(String, u64, u64, Viol)>,
    pub harness_errors: Vec<String>,
    pub truncated: Vec<String>,
}

pub fn case_seed(seed: u64, id: &str, section: &str, i: u64) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in id.bytes().chain(section.bytes()).chain(seed.to_le_bytes()).chain(i.to_le_bytes()) {
        h = (h ^ b as u64).wrapping_mul(0x1000_0000_01b3);
    }
    let mut r = Rng::new(h);
    r.next()
}

/// Which case each worker is in; written to a file so that a crash can be attributed.
pub struct Inflight(Mutex<std::fs::File>);
impl Inflight {
    pub fn new(path: &str) -> Self {
        Inflight(Mutex::new(std::fs::File::create(path).expect("inflight file")))
    }
    fn set(&self, slot: usize, section: usize, seed: u64, idx: u64, active: bool) {
        use std::os::unix::fs::FileExt;
        let rec = format!("{} {:>4} {:>20} {:>20}\n", if active { 1 } else { 0 }, section, seed, idx);
        let f = self.0.lock().unwrap();
        let _ = f.write_all_at(rec.as_bytes(), (slot * rec.len()) as u64);
    }
}

/// Case number at which a worker's current case started (ms since start), for the watchdog.
static BUSY: [AtomicU64; 16] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 16]
};

/// How deep each worker is in code of the system under test (the last one: other threads).
static IN_REAL: [AtomicU64; 17] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; 17]
};
thread_local! {
    static SLOT: std::cell::Cell<usize> = std::cell::Cell::new(16);
}
/// Exit status for a case that does not end: 4 if it is in the code under test, else 5.
pub fn stuck(slot: usize) -> i32 {
    if IN_REAL[slot].load(Ordering::SeqCst) + IN_REAL[16].load(Ordering::SeqCst) > 0 {
        4
    } else {
        5
    }
}

pub fn run_case(s: &Section, seed: u64, idx: u64, thorough: bool) -> (Case, Result<Res, String>) {
    let mut case = Case::new(seed, idx, thorough);
    let r = catch_unwind(AssertUnwindSafe(|| (s.f)(&mut case)));
    let r = match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let (msg, loc) = take_panic();
            if loc.contains("/repo/src") {
                Ok(viol("panicked", format!("ruler panicked: {msg} (at {loc})")))
            } else {
                Err(format!("section {} seed {}: {} (at {})", s.name, seed, msg, loc))
            }
        }
    };
    (case, r)
}

pub struct RunCfg {
    pub seed: u64,
    pub thorough: bool,
    pub workers: usize,
    pub budget: Duration,
    pub case_limit: Duration,
    pub max_viols: usize,
    pub shard: (u64, u64),
}

pub fn run_check(def: &CheckDef, cfg: &RunCfg, inflight: &Inflight, progress: &str) -> Outcome {
    let out = Mutex::new(Outcome::default());
    let start = Instant::now();
    let stop_all = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    std::thread::scope(|outer| {
        // watchdog: a case that never ends makes the run inconclusive
        outer.spawn(|| {
            while !done.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                let now = start.elapsed().as_millis() as u64 + 1;
                for (slot, b) in BUSY.iter().enumerate() {
                    let t = b.load(Ordering::SeqCst);
                    if t != 0 && now.saturating_sub(t) > cfg.case_limit.as_millis() as u64 {
                        eprintln!("watchdog: a case exceeded {:?}", cfg.case_limit);
                        // give up: inconclusive, unless a violation was already seen
                        if let Ok(o) = out.try_lock() {
                            write_outcome(&o, progress, true);
                        }
                        std::process::exit(stuck(slot));
                    }
                }
            }
        });
        for (si, s) in def.sections.iter().enumerate() {
            let n = if cfg.thorough { s.thorough } else { s.quick };
            let next = AtomicU64::new(0);
            let ran = AtomicUsize::new(0);
            let deadline = start + cfg.budget.mul_f64((si + 1) as f64 / def.sections.len() as f64);
            let workers = if s.parallel { cfg.workers } else { 1 };
            std::thread::scope(|sc| {
                for w in 0..workers {
                    let (next, out, stop_all, ran) = (&next, &out, &stop_all, &ran);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || loop {
                            SLOT.with(|s| s.set(w));
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= n || stop_all.load(Ordering::SeqCst) || Instant::now() > deadline {
                                break;
                            }
                            if i % cfg.shard.1 != cfg.shard.0 {
                                continue;
                            }
                            let cs = case_seed(cfg.seed, def.id, s.name, i);
                            inflight.set(w, si, cs, i, true);
                            BUSY[w].store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                            let (case, r) = run_case(s, cs, i, cfg.thorough);
                            BUSY[w].store(0, Ordering::SeqCst);
                            inflight.set(w, si, cs, i, false);
                            ran.fetch_add(1, Ordering::SeqCst);
                            let mut o = out.lock().unwrap();
                            o.cases += 1;
                            o.evaluations += case.evals.max(1);
                            for k in case.keys {
                                o.distinct.insert(k);
                            }
                            for (k, v) in case.counters {
                                *o.counters.entry(format!("{}.{}", s.name, k)).or_default() += v;
                            }
                            if let Some(x) = case.sample {
                                let mine = format!("[{}] ", s.name);
                                if o.samples.iter().filter(|y| y.starts_with(&mine)).count() < 3 {
                                    o.samples.push(mine + &x);
                                }
                            }
                            match r {
                                Ok(Ok(())) => (),
                                Ok(Err(v)) => {
                                    o.viols.push((s.name.to_string(), cs, i, v));
                                    if o.viols.len() >= cfg.max_viols {
                                        stop_all.store(true, Ordering::SeqCst);
                                    }
                                }
                                Err(e) => {
                                    o.harness_errors.push(e);
                                    if o.harness_errors.len() > 5 {
                                        stop_all.store(true, Ordering::SeqCst);
                                    }
                                }
                            }
                        })
                        .expect("spawn");
                }
            });
            let ran = ran.load(Ordering::SeqCst) as u64;
            let n = (0..n).filter(|i| i % cfg.shard.1 == cfg.shard.0).count() as u64;
            let mut o = out.lock().unwrap();
            *o.counters.entry(format!("{}.cases", s.name)).or_default() += ran;
            if ran < n && !stop_all.load(Ordering::SeqCst) {
                o.truncated.push(format!("{}: {} of {}", s.name, ran, n));
                if ran * 20 < n.min(400) {
                    o.harness_errors.push(format!("section {} observed too little: {} of {}", s.name, ran, n));
                }
            }
            write_outcome(&o, progress, false);
            if stop_all.load(Ordering::SeqCst) {
                break;
            }
        }
        done.store(true, Ordering::SeqCst);
    });
    out.into_inner().unwrap()
}

pub fn write_outcome(o: &Outcome, path: &str, hung: bool) {
    use serde_json::json;
    let v = json!({
        "evaluations": o.evaluations,
        "cases": o.cases,
        "distinct": o.distinct.len(),
        "counters": o.counters,
        "samples": o.samples,
        "truncated": o.truncated,
        "hung": hung,
        "harness_errors": o.harness_errors,
        "viols": o.viols.iter().map(|(s, seed, idx, v)| json!({"section": s, "seed": seed.to_string(), "idx": idx, "sig": v.sig, "msg": v.msg})).collect::<Vec<_>>(),
    });
    let keys: Vec<u8> = o.distinct.iter().flat_map(|k| k.to_le_bytes()).collect();
    std::fs::write(format!("{path}.keys"), keys).expect("write keys");
    let tmp = format!("{path}.tmp");
    std::fs::write(&tmp, serde_json::to_string(&v).unwrap()).expect("write outcome");
    std::fs::rename(&tmp, path).expect("rename outcome");
}
