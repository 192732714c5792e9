//! Shared driver: counters, violations, known findings, evidence, worker supervision.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// The checks that are cheap enough to explore their wide bounds in the quick tier.
const WIDE: [&str; 22] =
    ["C04", "C05", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27"];

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub threads: usize,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    stop: AtomicBool,
    violations: Mutex<Vec<(String, String, String)>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: Vec<(String, String)>,
    samples: Mutex<Vec<String>>,
    counts: Mutex<BTreeMap<String, u64>>,
    bounds: Mutex<BTreeMap<String, String>>,
    assumptions: Mutex<Vec<String>>,
    start: Instant,
}

pub const MAX_VIOLATIONS: usize = 8;

// ---- supervision slots: one per thread, in memory shared with the parent process ----
const SLOT_WORDS: usize = 64;
const SLOTS: usize = 80;
static SLOT_BASE: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MY_SLOT: Cell<usize> = const { Cell::new(0) };
}
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);

// slot layout (u64 words): [0] guard depth (inside the code under test), [1] step counter,
// [2] number of words used, [3..] case numbers
fn slot_ptr(i: usize) -> *mut u64 {
    let base = SLOT_BASE.load(Relaxed);
    if base == 0 {
        return std::ptr::null_mut();
    }
    (base + i * SLOT_WORDS * 8) as *mut u64
}

fn my_slot() -> *mut u64 {
    let i = MY_SLOT.with(|s| {
        if s.get() == 0 {
            s.set(1 + NEXT_SLOT.fetch_add(1, Relaxed) % SLOTS);
        }
        s.get() - 1
    });
    slot_ptr(i)
}

/// Record the numbers that identify the case being run (kept for crashes and hangs).
#[inline]
pub fn at(case: &[u64]) {
    let p = my_slot();
    if p.is_null() {
        return;
    }
    unsafe {
        let n = case.len().min(SLOT_WORDS - 3);
        for (i, c) in case.iter().take(n).enumerate() {
            p.add(3 + i).write_volatile(*c);
        }
        p.add(2).write_volatile(n as u64);
    }
}

pub struct Panicked(pub String);

/// First panic outside `guard`: (where and what, case numbers of the thread).
static OUTSIDE: Mutex<Option<(String, String)>> = Mutex::new(None);

thread_local! {
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Run code under test; a panic becomes an `Err`.
#[inline]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, Panicked> {
    let p = my_slot();
    unsafe {
        if !p.is_null() {
            p.write_volatile(p.read_volatile() + 1);
            p.add(1).write_volatile(p.add(1).read_volatile() + 1);
        }
    }
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    unsafe {
        if !p.is_null() {
            p.write_volatile(p.read_volatile() - 1);
        }
    }
    r.map_err(|_| Panicked(LAST_PANIC.with(|l| l.borrow().clone())))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("panic at {loc}: {msg}"));
        if DEPTH.with(|d| d.get()) == 0 {
            let p = my_slot();
            let case: Vec<u64> = if p.is_null() {
                vec![]
            } else {
                unsafe {
                    let n = (p.add(2).read_volatile() as usize).min(SLOT_WORDS - 3);
                    (0..n).map(|k| p.add(3 + k).read_volatile()).collect()
                }
            };
            if let Ok(mut o) = OUTSIDE.lock() {
                o.get_or_insert((format!("panic at {loc}: {msg}"), format!("case numbers {case:?}")));
            }
        }
        if std::env::var_os("MC_TRACE_PANICS").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
    }));
}

/// Per-thread counters, merged when dropped.
pub struct Tally<'a> {
    ctx: &'a Ctx,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    counts: BTreeMap<&'static str, u64>,
    discard: bool,
}

impl<'a> Tally<'a> {
    pub fn count(&mut self, what: &'static str) {
        *self.counts.entry(what).or_insert(0) += 1;
    }
    pub fn add(&mut self, what: &'static str, n: u64) {
        *self.counts.entry(what).or_insert(0) += n;
    }
}

impl Drop for Tally<'_> {
    fn drop(&mut self) {
        if self.discard {
            return;
        }
        self.ctx.states.fetch_add(self.states, Relaxed);
        self.ctx.transitions.fetch_add(self.transitions, Relaxed);
        self.ctx.traces.fetch_add(self.traces, Relaxed);
        let mut c = self.ctx.counts.lock().unwrap();
        for (k, v) in self.counts.iter() {
            *c.entry(k.to_string()).or_insert(0) += v;
        }
    }
}

impl Ctx {
    /// Narrow bounds: the quick tier of the checks whose wide bounds take more than about 20 s.
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick && !WIDE.contains(&self.id.as_str())
    }
    /// Wide bounds in both tiers, or deeper ones in the thorough tier only.
    pub fn deepen<T>(&self, wide: T, deep: T) -> T {
        if self.tier == Tier::Thorough {
            deep
        } else {
            wide
        }
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn tally(&self) -> Tally<'_> {
        Tally { ctx: self, states: 0, transitions: 0, traces: 0, counts: BTreeMap::new(), discard: false }
    }
    /// A tally that is thrown away (for repeated work that must not be counted twice).
    pub fn scratch(&self) -> Tally<'_> {
        let mut t = self.tally();
        t.discard = true;
        t
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s());
        }
    }
    pub fn bound(&self, k: &str, v: impl ToString) {
        self.bounds.lock().unwrap().insert(k.to_string(), v.to_string());
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// Report a violation. `key` names the failing situation; a situation listed as an open
    /// known finding is counted, any other one is a violation.
    pub fn violation(&self, key: &str, what: impl AsRef<str>, replay: impl AsRef<str>) {
        if self.known.iter().any(|(k, _)| k == key) {
            *self.known_hit.lock().unwrap().entry(key.to_string()).or_insert(0) += 1;
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < MAX_VIOLATIONS && v.iter().filter(|x| x.0 == key).count() < 2 {
            v.push((key.to_string(), what.as_ref().to_string(), replay.as_ref().to_string()));
        }
        if v.len() >= 3 {
            self.stop.store(true, Relaxed);
        }
    }
    /// Distribute `n` units over the worker threads. Each closure call runs one unit.
    pub fn par(&self, n: usize, f: impl Fn(usize, &mut Tally) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, || {
                        let mut t = self.tally();
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= n || self.stopped() {
                                break;
                            }
                            f(i, &mut t);
                        }
                    })
                    .expect("thread");
            }
        });
    }
}

fn known_findings(root: &Path, id: &str) -> Vec<(String, String)> {
    // lines: "KNOWN-FINDING: property=<id> key=<key> <what fails>"; "fixed:" lines suppress nothing
    let text = std::fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let mut v = vec![];
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("KNOWN-FINDING: property={id} key=")) {
            let (k, what) = rest.split_once(' ').unwrap_or((rest, ""));
            v.push((k.to_string(), what.to_string()));
        }
    }
    v
}

fn json_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn write_replay(root: &Path, id: &str, n: usize, what: &str, replay: &str) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = dir.join(format!("{id}-{n}.txt"));
    let _ = std::fs::write(&p, format!("property {id}\n{what}\n\n{replay}\n"));
    p
}

fn map_shared(path: &Path) -> bool {
    use std::os::fd::AsRawFd;
    let size = SLOTS * SLOT_WORDS * 8;
    let Ok(f) = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path) else {
        return false;
    };
    if f.set_len(size as u64).is_err() {
        return false;
    }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), size, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
        if p == libc::MAP_FAILED {
            return false;
        }
        SLOT_BASE.store(p as usize, Relaxed);
    }
    true
}

fn busy_slots() -> Vec<String> {
    let mut v = vec![];
    for i in 0..SLOTS {
        let p = slot_ptr(i);
        if p.is_null() {
            break;
        }
        unsafe {
            if p.read_volatile() > 0 {
                let n = (p.add(2).read_volatile() as usize).min(SLOT_WORDS - 3);
                let case: Vec<u64> = (0..n).map(|k| p.add(3 + k).read_volatile()).collect();
                v.push(format!("thread slot {i}: case numbers {case:?}"));
            }
        }
    }
    v
}

const HANG_SECS: u64 = 75;

pub type CheckFn = fn(&Ctx);

/// Entry: `bin <id> [--worker]`. Parent supervises a worker process.
pub fn main_with(checks: &[(&str, CheckFn)], root: PathBuf, rlimit_gb: u64) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let Some(id) = args.get(1).cloned() else {
        eprintln!("usage: {} <property id>", args[0]);
        return 2;
    };
    let Some((_, check)) = checks.iter().find(|(c, _)| *c == id) else {
        eprintln!("no check for {id}");
        return 2;
    };
    if args.get(2).map(|s| s.as_str()) == Some("--worker") {
        return worker(&id, *check, root, rlimit_gb, args.get(3).cloned());
    }
    // parent
    let _ = std::fs::remove_file(root.join("evidence").join(format!("{id}.json")));
    let mut h = std::collections::hash_map::DefaultHasher::new();
    use std::hash::{Hash, Hasher};
    (std::process::id(), std::time::SystemTime::now()).hash(&mut h);
    let dir = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    let slot_path = dir.join(format!("mc-slots-{:x}", h.finish()));
    let mapped = map_shared(&slot_path);
    let mut child = match std::process::Command::new(std::env::current_exe().unwrap())
        .arg(&id)
        .arg("--worker")
        .arg(&slot_path)
        .env("MC_SCRATCH", slot_path.with_extension("scratch"))
        .env("RUST_BACKTRACE", "0") // error reports would capture one each
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            return 2;
        }
    };
    // watchdog: a guarded call that makes no progress for HANG_SECS is a hang of the code under test
    let mut last: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); SLOTS];
    let code = loop {
        match child.try_wait() {
            Ok(Some(st)) => {
                break st.code().unwrap_or_else(|| {
                    use std::os::unix::process::ExitStatusExt;
                    -(st.signal().unwrap_or(1))
                })
            }
            Ok(None) => {}
            Err(e) => {
                eprintln!("wait: {e}");
                break 2;
            }
        }
        std::thread::sleep(Duration::from_millis(50));
        if !mapped {
            continue;
        }
        let mut hung = false;
        for (i, l) in last.iter_mut().enumerate() {
            let p = slot_ptr(i);
            let (d, c) = unsafe { (p.read_volatile(), p.add(1).read_volatile()) };
            if d > 0 && l.0 > 0 && l.1 == c {
                if l.2.elapsed() > Duration::from_secs(HANG_SECS) {
                    hung = true;
                }
            } else {
                *l = (d, c, Instant::now());
            }
        }
        if hung {
            let busy = busy_slots().join("\n");
            let _ = child.kill();
            let _ = child.wait();
            let p = write_replay(&root, &id, 0, "the code under test did not return", &busy);
            println!("the code under test did not return within {HANG_SECS} s\n{busy}");
            println!("VIOLATION property={id} replay={}", p.display());
            break 1;
        }
    };
    let mut ret = code;
    if code < 0 {
        let busy = busy_slots();
        if mapped && !busy.is_empty() && matches!(-code, libc::SIGSEGV | libc::SIGABRT | libc::SIGBUS | libc::SIGILL | libc::SIGFPE) {
            let busy = busy.join("\n");
            let p = write_replay(&root, &id, 0, &format!("the process died with signal {} inside the code under test", -code), &busy);
            println!("the process died with signal {} inside the code under test\n{busy}", -code);
            println!("VIOLATION property={id} replay={}", p.display());
            ret = 1;
        } else {
            eprintln!("worker ended by signal {}", -code);
            ret = 2;
        }
    }
    if ret == 1 && !root.join("evidence").join(format!("{id}.json")).exists() {
        // the worker could not write its evidence: say so
        let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let _ = std::fs::create_dir_all(root.join("evidence"));
        let _ = std::fs::write(
            root.join("evidence").join(format!("{id}.json")),
            format!("{{\"property\":{},\"tier\":{},\"seed\":{seed},\"level\":\"model_checking\",\"coverage\":{{\"states\":0,\"transitions\":0,\"traces_validated_against_impl\":0,\"samples\":[\"exploration ended early: the code under test crashed or hung\"]}},\"wall_s\":0,\"violations\":1}}", json_str(&id), json_str(&tier)),
        );
    }
    let _ = std::fs::remove_file(&slot_path);
    let _ = std::fs::remove_dir_all(slot_path.with_extension("scratch"));
    ret
}

fn worker(id: &str, check: CheckFn, root: PathBuf, rlimit_gb: u64, slot: Option<String>) -> i32 {
    if let Some(s) = slot {
        map_shared(Path::new(&s));
    }
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let lim = libc::rlimit { rlim_cur: rlimit_gb << 30, rlim_max: rlimit_gb << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
    install_hook();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ctx = Ctx {
        id: id.to_string(),
        tier,
        seed,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        violations: Mutex::new(vec![]),
        known_hit: Mutex::new(BTreeMap::new()),
        known: known_findings(&root, id),
        samples: Mutex::new(vec![]),
        counts: Mutex::new(BTreeMap::new()),
        bounds: Mutex::new(BTreeMap::new()),
        assumptions: Mutex::new(vec![]),
        start: Instant::now(),
        root: root.clone(),
    };
    // A panic outside `guard`: raised in the code under test, or by the checker when the code under
    // test refused or returned what it never may (such as a value in range that cannot be created).
    if catch_unwind(AssertUnwindSafe(|| check(&ctx))).is_err() {
        let (what, case) = OUTSIDE.lock().map(|o| o.clone()).ok().flatten().unwrap_or_default();
        if what.contains("/repo/src/") {
            ctx.violation("panic", format!("crashed: {what}"), case);
        } else {
            ctx.violation("unexpected", format!("the check cannot go on, the code gave an impossible answer: {what}"), case);
        }
    }
    finish(&ctx)
}

fn finish(ctx: &Ctx) -> i32 {
    let viol = ctx.violations.lock().unwrap().clone();
    let wall = ctx.start.elapsed().as_secs_f64();
    let (s, t, r) = (ctx.states.load(SeqCst), ctx.transitions.load(SeqCst), ctx.traces.load(SeqCst));
    let samples = ctx.samples.lock().unwrap().clone();
    let counts = ctx.counts.lock().unwrap().clone();
    let bounds = ctx.bounds.lock().unwrap().clone();
    let assumptions = ctx.assumptions.lock().unwrap().clone();
    let known_hit = ctx.known_hit.lock().unwrap().clone();
    let tier = if ctx.tier == Tier::Quick { "quick" } else { "thorough" };
    let list = |v: &[String]| v.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(",");
    let mut cov = format!(
        "\"states\":{s},\"transitions\":{t},\"traces_validated_against_impl\":{r},\"samples\":[{}],\"exhaustive\":{}",
        list(&samples),
        viol.is_empty()
    );
    cov += &format!(
        ",\"bounds\":{{{}}}",
        bounds.iter().map(|(k, v)| format!("{}:{}", json_str(k), json_str(v))).collect::<Vec<_>>().join(",")
    );
    cov += &format!(
        ",\"outcomes\":{{{}}}",
        counts.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
    );
    cov += &format!(
        ",\"known_findings_met\":{{{}}}",
        known_hit.iter().map(|(k, v)| format!("{}:{}", json_str(k), v)).collect::<Vec<_>>().join(",")
    );
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{{}}},\"assumptions\":[{}],\"wall_s\":{:.3},\"violations\":{}}}\n",
        json_str(&ctx.id), json_str(tier), ctx.seed, cov, list(&assumptions), wall, viol.len()
    );
    let _ = std::fs::create_dir_all(ctx.root.join("evidence"));
    if let Err(e) = std::fs::write(ctx.root.join("evidence").join(format!("{}.json", ctx.id)), ev) {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!("{} {tier}: states={s} transitions={t} traces={r} wall={wall:.1}s", ctx.id);
    for (k, v) in &bounds {
        println!("  bound {k}: {v}");
    }
    for (k, v) in &counts {
        println!("  {k}: {v}");
    }
    for (key, what) in &ctx.known {
        println!("KNOWN-FINDING: property={} {what} [{key}, met {} times]", ctx.id, known_hit.get(key).copied().unwrap_or(0));
    }
    for (i, (key, what, replay)) in viol.iter().enumerate() {
        let p = write_replay(&ctx.root, &ctx.id, i, &format!("[{key}] {what}"), replay);
        println!("[{key}] {what}\n  {}", replay.replace('\n', "\n  "));
        println!("VIOLATION property={} replay={}", ctx.id, p.display());
    }
    if viol.is_empty() {
        0
    } else {
        1
    }
}
