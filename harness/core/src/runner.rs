//! Case runner: generation, parallel search, shrinking, replay files, evidence, supervision.
//!
//! A property's check is a list of scenarios. Every case of a scenario is generated from
//! (VERIF_SEED, scenario, index), so a case is named by its index and the list of shrinking
//! steps applied to it; that name is the replay.
use crate::clock;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property does not hold
    Viol(String),
    /// the check could not decide this case
    Harness(String),
}
/// Ok(nontrivial)
pub type CaseResult = Result<bool, Fail>;

impl From<std::io::Error> for Fail {
    fn from(e: std::io::Error) -> Fail {
        Fail::Harness(format!("io: {e}"))
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mode {
    Run,
    One { scenario: String, index: u64, path: String },
}

#[derive(Default, Debug)]
struct Stats {
    name: String,
    rule: String,
    evaluations: u64,
    nontrivial: u64,
    inconclusive: u64,
    unconfirmed: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    wall_ms: u64,
}

pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub mode: Mode,
    pub threads: usize,
    stats: Vec<Stats>,
    pub assumptions: Vec<String>,
    failed: Option<(String, u64, String, String, String)>, // scenario, index, path, value, msg
    pub known_hits: Mutex<Vec<String>>,
    pub only: Option<String>,
    one_result: Option<CaseResult>,
}

/// Up to this many times the cases of a scenario in the quick tier
const EXTEND: u64 = 5;
/// while it has not run for longer than this
const EXTEND_MS: u64 = 5000;

const SLOTS: usize = 64;
/// Shared with the supervising process: per thread (scenario hash, index + 1, cpu at start, wall at start)
#[repr(C)]
struct Shared {
    slot: [[AtomicU64; 4]; SLOTS],
}

static SHARED: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
fn shared() -> Option<&'static Shared> {
    SHARED.get().map(|p| unsafe { &*(*p as *const Shared) })
}

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

pub fn hash_str(s: &str) -> u64 {
    let d = crate::crypto::sha256(s.as_bytes());
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

fn seed_for(seed: u64, prop: &str, scenario: &str, index: u64) -> [u8; 32] {
    crate::crypto::sha256(format!("{seed}/{prop}/{scenario}/{index}").as_bytes())
}

/// Panics (of spawned tasks too) recorded on this thread since the last call
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let _ = PANICS.try_with(|p| p.borrow_mut().push(format!("{loc}: {msg}")));
        if std::env::var_os("VH_BT").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

/// Runs one case under virtual time and turns panics into results: a panic inside the harness
/// crate is a harness error, any other one (the node or a library it uses) a violation.
fn guard(f: impl FnOnce() -> CaseResult) -> CaseResult {
    take_panics();
    clock::start();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    clock::stop();
    let panics = take_panics();
    if let Some(p) = panics.iter().find(|p| !is_harness(p)) {
        return Err(Fail::Viol(format!("the code under test panicked at {p}")));
    }
    match r {
        Ok(r) => match panics.first() {
            Some(p) => Err(Fail::Harness(format!("harness panic {p}"))),
            None => r,
        },
        Err(_) => Err(Fail::Harness(format!("harness panic {panics:?}"))),
    }
}
fn is_harness(p: &str) -> bool {
    p.starts_with("src/") || p.starts_with("core/src") || p.contains("/verif/harness")
}

impl Ctx {
    /// Number of cases: `n` in the quick tier, more in the thorough one
    fn count(&self, n: u64) -> u64 {
        let scale: u64 = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
        if scale > 0 {
            return (n * scale / 100).max(1);
        }
        if self.thorough {
            n * 25
        } else {
            n
        }
    }

    /// Searches `n` generated cases. `rule` states when a case counts as non-trivial.
    pub fn scenario<S, T>(&mut self, name: &str, rule: &str, n: u64, strat: impl Fn() -> S + Sync, test: T)
    where
        S: Strategy,
        S::Value: std::fmt::Debug,
        T: Fn(&S::Value) -> CaseResult + Sync,
    {
        note_name(name);
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        if let Mode::One { scenario, index, path } = self.mode.clone() {
            if scenario == name {
                let mut tree = self.tree(name, index, &strat());
                apply(&mut tree, &path);
                let v = tree.current();
                if std::env::var_os("VH_SHOW").is_some() {
                    eprintln!("case: {v:#?}");
                }
                SLOT.with(|s| s.set(0));
                self.one_result = Some(guard(|| test(&v)));
                println!("VALUE {}", clip(&format!("{v:?}"), 4000));
            }
            return;
        }
        if self.failed.is_some() {
            return;
        }
        // The quick tier goes on beyond its `n` cases while it stays fast
        let base = self.count(n);
        let extend = !self.thorough && std::env::var_os("VH_SCALE").is_none();
        let n = if extend { base * EXTEND } else { base };
        let t0 = clock::real_ms();
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let st = Mutex::new(Stats { name: name.into(), rule: rule.into(), ..Default::default() });
        let fails: Mutex<Vec<(u64, String)>> = Mutex::new(vec![]);
        let hash = hash_str(name);
        let me = &*self;
        let slots = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for _ in 0..me.threads.min(n as usize) {
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, || {
                        let slot = slots.fetch_add(1, Relaxed) % SLOTS;
                        SLOT.with(|s| s.set(slot));
                        let strat = strat();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || stop.load(Relaxed) || i >= base && clock::real_ms() - t0 > EXTEND_MS {
                                break;
                            }
                            let v = me.tree(name, i, &strat).current();
                            if let Some(s) = shared() {
                                s.slot[slot][2].store(clock::thread_cpu_ms(), SeqCst);
                                s.slot[slot][3].store(clock::real_ms(), SeqCst);
                                s.slot[slot][0].store(hash, SeqCst);
                                s.slot[slot][1].store(i + 1, SeqCst);
                            }
                            let mut r = guard(|| test(&v));
                            for _ in 0..2 {
                                // the harness could not decide: try again
                                if let Err(Fail::Harness(_)) = r {
                                    r = guard(|| test(&v));
                                }
                            }
                            if let Some(s) = shared() {
                                s.slot[slot][1].store(0, SeqCst);
                            }
                            let mut s = st.lock().unwrap();
                            s.evaluations += 1;
                            match r {
                                Ok(nt) => {
                                    if nt {
                                        s.nontrivial += 1;
                                        let d = format!("{v:?}");
                                        let mut h = std::collections::hash_map::DefaultHasher::new();
                                        d.hash(&mut h);
                                        s.distinct.insert(h.finish());
                                        if s.samples.len() < 4 && i % 3 == 0 {
                                            s.samples.push(clip(&d, 600));
                                        }
                                    }
                                }
                                Err(Fail::Harness(m)) => {
                                    s.inconclusive += 1;
                                    if s.inconclusive < 5 {
                                        eprintln!("[{name}] case {i}: undecided: {m}");
                                    }
                                }
                                Err(Fail::Viol(m)) => {
                                    drop(s);
                                    let mut f = fails.lock().unwrap();
                                    f.push((i, m));
                                    if f.len() >= 12 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                        }
                        // keep thread-exit bookkeeping of the slot sane
                        SLOT.with(|s| s.set(usize::MAX));
                    })
                    .unwrap();
            }
        });
        let mut s = st.into_inner().unwrap();
        let mut fails = fails.into_inner().unwrap();
        fails.sort();
        // A failure counts when it can be reproduced: the code under test draws random bytes of its
        // own and the harness runs against real time, so a single failure is re-run first.
        for (i, m) in fails {
            let strat = strat();
            let v = self.tree(name, i, &strat).current();
            let mut again = None;
            SLOT.with(|s| s.set(0));
            PATIENCE.store(4000, Relaxed);
            for _ in 0..8 {
                if let Err(Fail::Viol(m2)) = guard(|| test(&v)) {
                    again = Some(m2);
                    break;
                }
            }
            match again {
                None => {
                    s.unconfirmed += 1;
                    eprintln!("[{name}] case {i}: failed once, not again in 8 runs: {m}");
                }
                Some(_) => {
                    PATIENCE.store(500, Relaxed);
                    let (path, value, msg) = self.shrink(name, i, &strat, &test, m);
                    self.failed = Some((name.to_string(), i, path, value, msg));
                    break;
                }
            }
        }
        s.wall_ms = clock::real_ms() - t0;
        eprintln!(
            "[{}/{}] {} cases, {} non-trivial, {} undecided, {} unconfirmed, {} ms",
            self.prop, name, s.evaluations, s.nontrivial, s.inconclusive, s.unconfirmed, s.wall_ms
        );
        self.stats.push(s);
    }

    fn tree<S: Strategy>(&self, name: &str, index: u64, strat: &S) -> S::Tree {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_for(self.seed, &self.prop, name, index));
        let mut r = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        strat.new_tree(&mut r).expect("strategy")
    }

    fn shrink<S, T>(&self, name: &str, index: u64, strat: &S, test: &T, msg: String) -> (String, String, String)
    where
        S: Strategy,
        S::Value: std::fmt::Debug,
        T: Fn(&S::Value) -> CaseResult,
    {
        let mut tree = self.tree(name, index, strat);
        let mut best = (String::new(), format!("{:?}", tree.current()), msg);
        let mut ops = String::new();
        let t0 = clock::real_ms();
        if !tree.simplify() {
            return best;
        }
        ops.push('S');
        for _ in 0..600 {
            if clock::real_ms() - t0 > 30_000 {
                break;
            }
            let v = tree.current();
            let mut r = guard(|| test(&v));
            if !matches!(r, Err(Fail::Viol(_))) {
                r = guard(|| test(&v));
            }
            match r {
                Err(Fail::Viol(m)) => {
                    best = (ops.clone(), format!("{v:?}"), m);
                    if !tree.simplify() {
                        break;
                    }
                    ops.push('S');
                }
                _ => {
                    if !tree.complicate() {
                        break;
                    }
                    ops.push('C');
                }
            }
        }
        best
    }
}

fn apply<T: ValueTree>(tree: &mut T, path: &str) {
    for c in path.chars() {
        match c {
            'S' => {
                tree.simplify();
            }
            _ => {
                tree.complicate();
            }
        }
    }
}

fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

fn verif_dir() -> String {
    std::env::var("VH_DIR").unwrap_or_else(|_| "/verif".into())
}

fn write_replay(c: &Ctx, scenario: &str, index: u64, path: &str, value: &str, msg: &str) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/{}-{}-{}.json", c.prop, scenario, index);
    let j = serde_json::json!({
        "property": c.prop, "scenario": scenario, "seed": c.seed, "index": index, "path": path,
        "violation": msg, "minimal_case": clip(value, 20000),
        "how_to_replay": format!("bash /verif/run.sh replay {f}"),
    });
    let _ = std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap());
    f
}

fn write_evidence(c: &Ctx, wall_ms: u64, violations: &[String]) {
    let ev: u64 = c.stats.iter().map(|s| s.evaluations).sum();
    let dn: u64 = c.stats.iter().map(|s| s.distinct.len() as u64).sum();
    let rule: Vec<String> = c.stats.iter().map(|s| format!("{}: {}", s.name, s.rule)).collect();
    let samples: Vec<String> =
        c.stats.iter().flat_map(|s| s.samples.iter().map(move |x| format!("{}: {}", s.name, x))).collect();
    let scen: Vec<_> = c
        .stats
        .iter()
        .map(|s| {
            serde_json::json!({"scenario": s.name, "evaluations": s.evaluations, "nontrivial": s.nontrivial,
            "distinct_nontrivial": s.distinct.len(), "undecided": s.inconclusive,
            "unconfirmed_failures": s.unconfirmed, "wall_ms": s.wall_ms})
        })
        .collect();
    let mut assumptions = c.assumptions.clone();
    assumptions.push("loopback UDP does not lose datagrams the harness has not chosen to drop".into());
    assumptions.push("time is virtual (clock_gettime replaced); tasks run on one thread per case".into());
    let j = serde_json::json!({
        "property": c.prop, "tier": if c.thorough { "thorough" } else { "quick" }, "seed": c.seed,
        "level": "exploration",
        "coverage": {"evaluations": ev, "distinct_nontrivial": dn, "rule": rule.join("; "), "samples": samples,
            "scenarios": scen},
        "assumptions": assumptions, "wall_s": wall_ms as f64 / 1000.0,
        "violations": violations,
        "known_findings": *c.known_hits.lock().unwrap(),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let f = format!("{dir}/{}.json", c.prop);
    std::fs::write(&f, serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}

fn new_ctx(prop: &str, mode: Mode) -> Ctx {
    Ctx {
        prop: prop.into(),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
        mode,
        threads: std::env::var("VH_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        stats: vec![],
        assumptions: vec![],
        failed: None,
        known_hits: Mutex::new(vec![]),
        only: std::env::var("VH_ONLY").ok(),
        one_result: None,
    }
}

/// Real time a fixture may wait for something that must happen, see `patience`
static PATIENCE: AtomicU64 = AtomicU64::new(8000);
pub fn patience() -> u64 {
    PATIENCE.load(Relaxed)
}

const EXIT_HANG: i32 = 77;
const CPU_LIMIT_MS: u64 = 60_000;
const WALL_LIMIT_MS: u64 = 300_000;

/// Ends the worker when one case burns CPU or time far beyond any legitimate need
fn watchdog(clock_ids: std::sync::Arc<Mutex<Vec<(usize, libc::clockid_t)>>>) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let Some(s) = shared() else { continue };
        let _ = &clock_ids;
        for slot in &s.slot {
            if slot[1].load(SeqCst) != 0 {
                let wall = clock::real_ms().saturating_sub(slot[3].load(SeqCst));
                if wall > WALL_LIMIT_MS || (wall > CPU_LIMIT_MS && spinning()) {
                    eprintln!("watchdog: a case has been running for {wall} ms");
                    unsafe { libc::_exit(EXIT_HANG) }
                }
            }
        }
    });
}

/// Whether some thread of this process used most of a CPU lately
fn spinning() -> bool {
    fn usage() -> std::collections::HashMap<String, u64> {
        let mut m = std::collections::HashMap::new();
        for e in std::fs::read_dir("/proc/self/task").into_iter().flatten().flatten() {
            if let Ok(s) = std::fs::read_to_string(e.path().join("stat")) {
                let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
                let t = f.get(11).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0)
                    + f.get(12).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                m.insert(e.file_name().to_string_lossy().to_string(), t);
            }
        }
        m
    }
    let a = usage();
    std::thread::sleep(std::time::Duration::from_millis(1000));
    let b = usage();
    b.iter().any(|(k, v)| v.saturating_sub(*a.get(k).unwrap_or(&0)) > 50)
}

fn worker(prop: &str, run: &dyn Fn(&mut Ctx)) -> i32 {
    install_hook();
    if let Ok(f) = std::env::var("VH_SHARED") {
        if let Ok(file) = std::fs::OpenOptions::new().read(true).write(true).open(f) {
            use std::os::fd::AsRawFd;
            let p = unsafe {
                libc::mmap(
                    std::ptr::null_mut(),
                    std::mem::size_of::<Shared>(),
                    libc::PROT_READ | libc::PROT_WRITE,
                    libc::MAP_SHARED,
                    file.as_raw_fd(),
                    0,
                )
            };
            if p != libc::MAP_FAILED {
                let _ = SHARED.set(p as usize);
                watchdog(Default::default());
            }
        }
    }
    let t0 = clock::real_ms();
    let mut c = new_ctx(prop, Mode::Run);
    run(&mut c);
    let wall = clock::real_ms() - t0;
    let mut known = c.known_hits.lock().unwrap().clone();
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} {}", c.prop, k);
    }
    *c.known_hits.lock().unwrap() = known;
    if let Some((sc, i, path, value, msg)) = c.failed.take() {
        let f = write_replay(&c, &sc, i, &path, &value, &msg);
        write_evidence(&c, wall, &[format!("{sc}: {msg} (replay {f})")]);
        println!("scenario {sc}, case {i}: {msg}");
        println!("minimal case: {}", clip(&value, 3000));
        println!("VIOLATION property={} replay={}", c.prop, f);
        return 1;
    }
    write_evidence(&c, wall, &[]);
    let ev: u64 = c.stats.iter().map(|s| s.evaluations).sum();
    let und: u64 = c.stats.iter().map(|s| s.inconclusive).sum();
    if ev == 0 || c.stats.iter().any(|s| s.inconclusive * 10 > s.evaluations) {
        println!("the check of {} could not decide {und} of {ev} cases", c.prop);
        return 2;
    }
    println!("OK property={} cases={ev} undecided={und}", c.prop);
    0
}

fn one(prop: &str, scenario: &str, index: u64, path: &str, run: &dyn Fn(&mut Ctx)) -> i32 {
    install_hook();
    let mut c = new_ctx(prop, Mode::One { scenario: scenario.into(), index, path: path.into() });
    run(&mut c);
    match c.one_result {
        Some(Ok(nt)) => {
            println!("PASS (nontrivial: {nt})");
            0
        }
        Some(Err(Fail::Viol(m))) => {
            println!("FAIL {m}");
            1
        }
        Some(Err(Fail::Harness(m))) => {
            println!("UNDECIDED {m}");
            2
        }
        None => 3,
    }
}

/// Ends the single-case child (used when the supervisor isolates a crash or hang)
fn run_one_child(c: &Ctx, scenario: &str, index: u64, path: &str) -> (Option<String>, String) {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let out = std::process::Command::new("timeout")
        .args(["-k", "5", "100"])
        .arg(exe)
        .args(["one", &c.prop, scenario, &index.to_string(), path])
        .env("VERIF_SEED", c.seed.to_string())
        .output();
    let Ok(out) = out else { return (None, String::new()) };
    let so = String::from_utf8_lossy(&out.stdout).to_string();
    let val = so.lines().find(|l| l.starts_with("VALUE ")).unwrap_or("").to_string();
    let code = out.status.code();
    let sig = out.status.signal().or(match code {
        Some(c) if c > 128 => Some(c - 128),
        _ => None,
    });
    if code == Some(124) || sig == Some(9) {
        return (Some("the process hung: one case did not end within 100 s".into()), val);
    }
    if let Some(s) = sig {
        let err = String::from_utf8_lossy(&out.stderr);
        let last: Vec<&str> = err.lines().rev().take(3).collect();
        return (Some(format!("the process was killed by signal {s} ({})", last.join(" | "))), val);
    }
    (None, val)
}

fn supervise(prop: &str, scenarios: &dyn Fn(&mut Ctx)) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let dir = std::env::temp_dir().join(format!("vharness-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join("slots");
    std::fs::write(&f, vec![0u8; std::mem::size_of::<Shared>()]).unwrap();
    let exe = std::env::current_exe().unwrap();
    let status = std::process::Command::new(exe).args(["worker", prop]).env("VH_SHARED", &f).status();
    let slots = std::fs::read(&f).unwrap_or_default();
    let _ = std::fs::remove_dir_all(&dir);
    let status = match status {
        Ok(s) => s,
        Err(e) => {
            println!("cannot run the worker: {e}");
            return 2;
        }
    };
    let _ = std::io::stdout().flush();
    match (status.code(), status.signal()) {
        (Some(c @ 0..=2), _) => return c,
        (c, s) => println!("worker ended abnormally: code {c:?}, signal {s:?}; isolating the case"),
    }
    // names of the scenarios, by hash
    let mut c = new_ctx(prop, Mode::Run);
    let mut names = vec![];
    for w in slots.chunks(32).take(SLOTS) {
        let g = |i: usize| u64::from_le_bytes(w[i * 8..i * 8 + 8].try_into().unwrap());
        if g(1) != 0 {
            names.push((g(0), g(1) - 1));
        }
    }
    let list = scenario_names(prop, scenarios);
    for (h, i) in names {
        let Some(sc) = list.iter().find(|n| hash_str(n) == h) else { continue };
        let (Some(m), val) = run_one_child(&c, sc, i, "") else { continue };
        // once more, to be sure
        if run_one_child(&c, sc, i, "").0.is_none() {
            continue;
        }
        let file = write_replay(&c, sc, i, "", &val, &m);
        c.stats.push(Stats { name: sc.clone(), rule: "crash".into(), evaluations: 1, ..Default::default() });
        write_evidence(&c, 0, &[format!("{sc}: {m} (replay {file})")]);
        println!("scenario {sc}, case {i}: {m}");
        println!("VIOLATION property={prop} replay={file}");
        return 1;
    }
    println!("the check of {prop} ended abnormally and no single case explains it");
    2
}

/// Collects the scenario names without running anything
fn scenario_names(prop: &str, run: &dyn Fn(&mut Ctx)) -> Vec<String> {
    NAMES.with(|n| *n.borrow_mut() = Some(vec![]));
    let mut c = new_ctx(prop, Mode::One { scenario: "\u{0}".into(), index: 0, path: String::new() });
    run(&mut c);
    NAMES.with(|n| n.borrow_mut().take()).unwrap_or_default()
}
thread_local! {
    static NAMES: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
pub fn note_name(name: &str) {
    NAMES.with(|n| {
        if let Some(v) = n.borrow_mut().as_mut() {
            v.push(name.to_string())
        }
    });
}

/// Entry point of the binary
pub fn main_with(props: &[(&str, fn(&mut Ctx))]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let find = |id: &str| props.iter().find(|p| p.0 == id).map(|p| p.1);
    match a.get(1..).unwrap_or(&[]) {
        ["list"] => {
            for p in props {
                println!("{}", p.0);
            }
            0
        }
        ["worker", p] => find(p).map(|r| worker(p, &r)).unwrap_or(2),
        ["one", p, s, i, rest @ ..] => {
            find(p).map(|r| one(p, s, i.parse().unwrap(), rest.first().unwrap_or(&""), &r)).unwrap_or(2)
        }
        ["replay", f] => {
            let j: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(f).unwrap()).unwrap();
            std::env::set_var("VERIF_SEED", j["seed"].to_string());
            let p = j["property"].as_str().unwrap().to_string();
            find(&p)
                .map(|r| {
                    one(
                        &p,
                        j["scenario"].as_str().unwrap(),
                        j["index"].as_u64().unwrap(),
                        j["path"].as_str().unwrap(),
                        &r,
                    )
                })
                .unwrap_or(2)
        }
        [p] => match find(p) {
            Some(r) => supervise(p, &r),
            None => {
                println!("unknown property {p}");
                2
            }
        },
        _ => 2,
    }
}
