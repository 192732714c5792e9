//! C03: every history with close/reopen at any point and a crash image at every leaf, on the real
//! SQLite-backed store.
use crate::content::*;
use crate::driver::*;
use crate::hist::*;
use crate::ops::*;
use klavier_core::project::ProjectStore;
use serdo::undo_store::{Options, UndoStore, SQLITE_FILE_NAME};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

struct Fault(&'static str, String);

/// The store library reports on stdout; keep that away from the verdict.
struct Quiet(i32);
impl Quiet {
    fn new() -> Self {
        unsafe {
            let saved = libc::dup(1);
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
            if null >= 0 {
                libc::dup2(null, 1);
                libc::close(null);
            }
            Quiet(saved)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}

struct Dir(PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn open(dir: &Path, limit: usize) -> Result<ProjectStore, Fault> {
    ProjectStore::open(dir, Options::new().with_undo_limit(limit)).map_err(|e| Fault("open", format!("cannot open the saved project: {e:?}")))
}

fn content(s: &ProjectStore) -> Result<Content, Fault> {
    read_store(s).map_err(|e| Fault("inconsistent", e))
}

fn wait_saved(s: &mut ProjectStore) -> Result<(), Fault> {
    let t = Instant::now();
    let mut n = 0u32;
    loop {
        match s.saved() {
            Ok(true) => return Ok(()),
            Ok(false) => {}
            Err(e) => return Err(Fault("save", format!("saving an edit failed: {e:?}"))),
        }
        n += 1;
        if n < 200 {
            std::thread::yield_now();
        } else {
            std::thread::sleep(Duration::from_micros(100));
            if t.elapsed() > Duration::from_secs(60) {
                return Err(Fault("save", "an edit that changed the project was never reported as saved".into()));
            }
        }
    }
}

/// What the project must show: contents along the history, where we are, how many undos are retained.
#[derive(Clone)]
struct Expect {
    states: Vec<Content>,
    pos: usize,
    undos: usize,
    /// sequence number the store's client last heard acknowledged (None after opening)
    acked: Option<usize>,
}

fn same(exp: &Content, s: &ProjectStore, when: &str) -> Result<(), Fault> {
    let got = content(s)?;
    if *exp != got {
        return Err(Fault("content", format!("{when}: {}", diff(exp, &got))));
    }
    Ok(())
}

/// Undo as far as possible, redo as far as possible, comparing every state. Leaves the project at
/// the newest state.
fn sweep(s: &mut ProjectStore, e: &Expect, what: &str, t: &mut Tally) -> Result<(), Fault> {
    let bottom = e.pos - e.undos;
    for p in (bottom..e.pos).rev() {
        if !s.can_undo() {
            return Err(Fault("retained", format!("{what}: {} undos retained instead of {}", e.pos - 1 - p, e.undos)));
        }
        s.undo();
        t.transitions += 1;
        same(&e.states[p], s, &format!("{what}, undone to state {p}"))?;
    }
    if s.can_undo() {
        // one more undo than is accounted for must still be a state of the history
        return Err(Fault("retained", format!("{what}: undo still possible after {} undos", e.undos)));
    }
    for p in bottom + 1..e.states.len() {
        if !s.can_redo() {
            return Err(Fault("retained", format!("{what}: redo stops at state {} of {}", p - 1, e.states.len() - 1)));
        }
        s.redo();
        t.transitions += 1;
        same(&e.states[p], s, &format!("{what}, redone to state {p}"))?;
    }
    if s.can_redo() {
        return Err(Fault("retained", format!("{what}: redo possible past the newest state")));
    }
    Ok(())
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

struct Out {
    /// digest of the contents along the history, when it has no reopening
    digest: Option<u64>,
    pruned: bool,
}

fn history(base: &Path, sc: &DiskScenario, limit: usize, path: &[usize], t: &mut Tally) -> Result<Out, Fault> {
    let id = SERIAL.fetch_add(1, Relaxed);
    let dir = Dir(base.join(format!("p{id}")));
    let mut store = open(&dir.0, limit)?;
    let mut e = Expect { states: vec![content(&store)?], pos: 0, undos: 0, acked: None };
    if e.states[0].notes.len() + e.states[0].bars.len() != 0 {
        return Err(Fault("open", "a new project is not empty".into()));
    }
    let mut h = Some(digest(0xcbf29ce484222325, &e.states[0]));
    let acts = sc.setup.iter().map(|o| Act::Do(o.clone())).chain(path.iter().map(|i| sc.acts[*i].clone()));
    for (k, a) in acts.enumerate() {
        t.transitions += 1;
        match &a {
            Act::Reopen => {
                h = None;
                drop(store);
                store = open(&dir.0, limit)?;
                e.acked = None;
                same(&e.states[e.pos], &store, &format!("after closing and reopening at step {k}"))?;
                t.count("closed and reopened");
            }
            Act::Do(Op::Undo) => {
                if e.undos == 0 {
                    return Ok(Out { digest: None, pruned: true });
                }
                store.undo();
                e.pos -= 1;
                e.undos -= 1;
                same(&e.states[e.pos], &store, &format!("after undo at step {k}"))?;
            }
            Act::Do(Op::Redo) => {
                if e.pos + 1 == e.states.len() {
                    return Ok(Out { digest: None, pruned: true });
                }
                store.redo();
                e.pos += 1;
                e.undos += 1;
                same(&e.states[e.pos], &store, &format!("after redo at step {k}"))?;
            }
            Act::Do(op) => {
                op.apply(&mut store);
                let now = content(&store)?;
                if now == e.states[e.pos] {
                    // nothing changed: whether this counts as an edit is open; another history
                    // without this step covers the rest
                    return Ok(Out { digest: None, pruned: true });
                }
                wait_saved(&mut store)?;
                e.states.truncate(e.pos + 1);
                e.states.push(now);
                e.pos += 1;
                e.undos = (e.undos + 1).min(limit);
                if e.acked == Some(e.pos) {
                    // The store library's `saved` still holds from an earlier command with the
                    // same number (one that has been undone since), so it says nothing about this
                    // edit. Undo and redo wait for the writer: use them to know it is through.
                    store.undo();
                    same(&e.states[e.pos - 1], &store, &format!("after undo of step {k}"))?;
                    store.redo();
                    same(&e.states[e.pos], &store, &format!("after redo of step {k}"))?;
                    t.count("edits after an undo, confirmed by undo and redo");
                }
                e.acked = Some(e.pos);
            }
        }
        if let Some(x) = &mut h {
            *x = digest(*x, &e.states[e.pos]);
        }
    }
    // crash image: the files as they are now, the project still being open
    let image = Dir(base.join(format!("i{id}")));
    std::fs::create_dir_all(&image.0).map_err(|e| Fault("checker", format!("{e}")))?;
    if id % 2 == 0 {
        store.save_as(&image.0).map_err(|e| Fault("save", format!("{e:?}")))?;
    } else {
        std::fs::copy(dir.0.join(SQLITE_FILE_NAME), image.0.join(SQLITE_FILE_NAME)).map_err(|e| Fault("checker", format!("{e}")))?;
    }
    let mut img = open(&image.0, limit)?;
    same(&e.states[e.pos], &img, "opened from a copy of its files")?;
    sweep(&mut img, &e, "opened from a copy of its files", t)?;
    drop(img);
    drop(image);
    t.count("crash images opened and swept");
    // the project itself, closed and reopened
    drop(store);
    let mut store = open(&dir.0, limit)?;
    same(&e.states[e.pos], &store, "closed and reopened")?;
    sweep(&mut store, &e, "closed and reopened", t)?;
    // the sweep ended at the newest state: that is what must be saved now
    drop(store);
    let store = open(&dir.0, limit)?;
    same(e.states.last().unwrap(), &store, "closed and reopened after undoing and redoing everything")?;
    drop(store);
    t.states += path.len() as u64;
    Ok(Out { digest: h, pruned: false })
}

fn describe(sc: &DiskScenario, limit: usize, path: &[usize]) -> String {
    let mut s = format!("scenario {}, undo limit {limit}\n", sc.name);
    for o in &sc.setup {
        s += &format!("setup: {o:?}\n");
    }
    for (i, p) in path.iter().enumerate() {
        s += &format!("step {}: {:?}\n", i + 1, sc.acts[*p]);
    }
    s
}

/// Digests of the same histories from the in-memory explorer ("scenario path digest" lines).
fn in_memory_digests(ctx: &Ctx) -> std::collections::HashMap<(usize, usize), u64> {
    let mut m = std::collections::HashMap::new();
    let mut exe = std::env::current_exe().unwrap();
    exe.set_file_name("mc");
    if let Ok(o) = std::process::Command::new(exe).arg("--traces").arg(if ctx.quick() { "quick" } else { "thorough" }).output() {
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let f: Vec<&str> = l.split(' ').collect();
            if let [a, b, c] = f[..] {
                if let (Ok(a), Ok(b), Ok(c)) = (a.parse(), b.parse(), c.parse()) {
                    m.insert((a, b), c);
                }
            }
        }
    }
    m
}

pub fn c03(ctx: &Ctx) {
    let _q = Quiet::new();
    let base = std::env::var_os("MC_SCRATCH").map(PathBuf::from).unwrap_or_else(|| std::env::temp_dir().join(format!("mcreal-{}", std::process::id())));
    let base = Dir(base);
    std::fs::create_dir_all(&base.0).expect("scratch directory");
    let mem = in_memory_digests(ctx);
    let matched = AtomicU64::new(0);
    let differ = AtomicU64::new(0);
    for (si, sc) in scenarios(ctx.quick()).iter().enumerate() {
        let n = sc.acts.len();
        for limit in &sc.limits {
            ctx.bound(
                &format!("{}, undo limit {limit}", sc.name),
                format!("{n} actions incl. undo, redo, close+reopen; all sequences of length 1 to {}", sc.depth),
            );
            for depth in 1..=sc.depth {
                let total = paths(n, depth);
                let chunk = (total / 256).max(1);
                ctx.par(total.div_ceil(chunk), |u, t| {
                    for i in u * chunk..((u + 1) * chunk).min(total) {
                        if ctx.stopped() {
                            return;
                        }
                        let p = path(i, n, depth);
                        at(&[si as u64, *limit as u64, depth as u64, i as u64]);
                        match guard(|| history(&base.0, sc, *limit, &p, t)) {
                            Ok(Ok(o)) => {
                                if o.pruned {
                                    t.count("histories with a step that does nothing, skipped");
                                    continue;
                                }
                                t.count("histories");
                                if i % 997 == 5 {
                                    ctx.sample(|| describe(sc, *limit, &p));
                                }
                                if depth == sc.depth {
                                    if let (Some(d), Some(m)) = (o.digest, mem.get(&(si, i))) {
                                        if d == *m {
                                            matched.fetch_add(1, Relaxed);
                                            t.traces += 1;
                                        } else {
                                            differ.fetch_add(1, Relaxed);
                                            t.count("histories where the in-memory stand-in and the real store differ");
                                        }
                                    }
                                }
                            }
                            Ok(Err(Fault("checker", m))) => panic!("scratch directory: {m}"),
                            Ok(Err(Fault(k, m))) => ctx.violation(k, m, describe(sc, *limit, &p)),
                            Err(Panicked(m)) => ctx.violation("panic", format!("crashed: {m}"), describe(sc, *limit, &p)),
                        }
                    }
                });
            }
        }
    }
    ctx.bound(
        "binding of the in-memory stand-in used by C01, C02, C04-C06",
        format!("{} histories run on both it and the real store, {} differ", matched.load(Relaxed) + differ.load(Relaxed), differ.load(Relaxed)),
    );
    ctx.assume("the database file is copied when the store reports the edit as saved; torn pages within one SQLite transaction are SQLite's own guarantee");
}
