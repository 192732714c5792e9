//! Exhaustive exploration of edit histories on the real project (C01, C02, C04, C05, C06).
use crate::content::*;
use crate::driver::*;
use crate::ops::*;
use klavier_core::project::{ProjectCmd, ProjectImpl, ProjectStore};
use serdo::cmd::Cmd;
use serdo::undo_store::UndoStore;
use std::rc::Rc;

pub struct Scenario {
    pub name: String,
    pub setup: Vec<Op>,
    pub alphabet: Vec<Op>,
    pub depth: usize,
    /// Undo stops at the state after the setup.
    pub floor: bool,
}

pub struct Fault {
    pub key: String,
    pub msg: String,
}
pub fn fault(key: &str, msg: impl Into<String>) -> Fault {
    Fault { key: key.to_string(), msg: msg.into() }
}

pub trait Judge: Sync {
    type S: Clone;
    fn init(&self, store: &ProjectStore, c: &Content) -> Result<Self::S, Fault>;
    /// Called after `op` has been applied.
    fn step(&self, pre: &Content, op: &Op, store: &ProjectStore, post: &Content, s: &mut Self::S, t: &mut Tally) -> Result<(), Fault>;
    /// Called on every state at the end of an explored history.
    fn leaf(&self, _store: &ProjectStore, _c: &Content, _s: &Self::S, _t: &mut Tally) -> Result<(), Fault> {
        Ok(())
    }
}

struct Run<'a, J: Judge> {
    ctx: &'a Ctx,
    sc: &'a Scenario,
    judge: &'a J,
    path: Vec<usize>,
    case: Vec<u64>,
}

fn describe(sc: &Scenario, path: &[usize]) -> String {
    let mut s = format!("scenario {}\n", sc.name);
    for o in &sc.setup {
        s += &format!("setup: {o:?}\n");
    }
    for (i, p) in path.iter().enumerate() {
        s += &format!("step {}: {:?}\n", i + 1, sc.alphabet[*p]);
    }
    s
}

#[derive(Clone)]
struct Node<S> {
    store: ProjectStore,
    content: Rc<Content>,
    s: S,
}

impl<'a, J: Judge> Run<'a, J> {
    fn start(&mut self, t: &mut Tally) -> Option<Node<J::S>> {
        let r = guard(|| {
            let mut store: ProjectStore = ProjectStore::from_model(ProjectImpl::default());
            let c = read_store(&store).map_err(|e| fault("inconsistent", e))?;
            let mut s = self.judge.init(&store, &c)?;
            let mut c = Rc::new(c);
            for op in &self.sc.setup {
                op.apply(&mut store);
                let post = Rc::new(read_store(&store).map_err(|e| fault("inconsistent", e))?);
                self.judge.step(&c, op, &store, &post, &mut s, t)?;
                c = post;
            }
            Ok(Node { store, content: c, s })
        });
        self.report(r)
    }
    fn report<T>(&self, r: Result<Result<T, Fault>, Panicked>) -> Option<T> {
        match r {
            Ok(Ok(v)) => Some(v),
            Ok(Err(f)) => {
                self.ctx.violation(&f.key, &f.msg, describe(self.sc, &self.path));
                None
            }
            Err(Panicked(m)) => {
                self.ctx.violation("panic", format!("crashed: {m}"), describe(self.sc, &self.path));
                None
            }
        }
    }
    /// Apply alphabet op `i` to a copy of the node.
    fn step(&mut self, n: &Node<J::S>, i: usize, t: &mut Tally) -> Option<Node<J::S>> {
        self.path.push(i);
        self.case.clear();
        self.case.extend(self.path.iter().map(|x| *x as u64));
        at(&self.case);
        let op = &self.sc.alphabet[i];
        if self.sc.floor && *op == Op::Undo && n.store.pos() <= self.sc.setup.len() {
            self.path.pop();
            return None;
        }
        let r = guard(|| {
            let mut m = n.clone();
            op.apply(&mut m.store);
            let post = Rc::new(read_store(&m.store).map_err(|e| fault("inconsistent", e))?);
            self.judge.step(&n.content, op, &m.store, &post, &mut m.s, t)?;
            m.content = post;
            Ok(m)
        });
        let m = self.report(r);
        if m.is_none() {
            self.path.pop();
        }
        m
    }
    fn back(&mut self) {
        self.path.pop();
    }
    fn leaf(&self, n: &Node<J::S>, t: &mut Tally) {
        t.traces += 1;
        let r = guard(|| self.judge.leaf(&n.store, &n.content, &n.s, t));
        self.report(r);
    }
    fn dfs(&mut self, n: &Node<J::S>, depth: usize, t: &mut Tally) {
        if depth == 0 {
            self.leaf(n, t);
            return;
        }
        for i in 0..self.sc.alphabet.len() {
            if self.ctx.stopped() {
                return;
            }
            t.transitions += 1;
            if let Some(m) = self.step(n, i, t) {
                t.states += 1;
                self.dfs(&m, depth - 1, t);
                self.back();
            }
        }
    }
}

pub fn explore<J: Judge>(ctx: &Ctx, sc: &Scenario, judge: &J) {
    let n = sc.alphabet.len();
    ctx.bound(
        &format!("scenario {}", sc.name),
        format!("{} operations, all sequences of length {} ({} setup edits)", n, sc.depth, sc.setup.len()),
    );
    let pairs = if sc.depth >= 2 { n * n } else { n };
    ctx.par(pairs, |u, t| {
        let mut run = Run { ctx, sc, judge, path: vec![], case: vec![] };
        let Some(root) = run.start(t) else { return };
        let (i, j) = if sc.depth >= 2 { (u / n, Some(u % n)) } else { (u, None) };
        if j.unwrap_or(0) == 0 {
            t.transitions += 1;
        }
        let Some(a) = run.step(&root, i, t) else { return };
        if j.unwrap_or(0) == 0 {
            t.states += 1;
        }
        match j {
            None => run.leaf(&a, t),
            Some(j) => {
                t.transitions += 1;
                if let Some(b) = run.step(&a, j, t) {
                    t.states += 1;
                    run.dfs(&b, sc.depth - 2, t);
                }
            }
        }
    });
    // one sample history, written out
    ctx.sample(|| {
        let mid: Vec<usize> = (0..sc.depth).map(|d| (d * 7 + 3) % n).collect();
        describe(sc, &mid).replace('\n', "; ")
    });
}

// ---------------------------------------------------------------- scenarios

fn m(i: usize) -> Meta {
    METAS[i % METAS.len()]
}

/// Edits on one keyed kind (bar, tempo, damper, soft): every way two items can meet.
pub fn keyed_alphabet(k: Kind, ticks: [u32; 3], full: bool) -> Vec<Op> {
    let [t0, t1, t2] = ticks;
    let it = |t, v| It(k, t, v);
    let mut a = vec![
        Op::Add(it(t0, 0), false),
        Op::Add(it(t0, 1), true),
        Op::Add(it(t1, 0), true),
        Op::Add(it(t2, 1), false),
        Op::BulkRemove(vec![it(t0, 0)], m(0)),
        Op::BulkRemove(vec![it(t1, 1), it(t0, 1)], m(1)),
        Op::BulkRemove(vec![it(t0, 0), it(t0, 0)], m(2)),
        Op::BulkAdd(vec![it(t0, 0), it(t1, 1)], m(3)),
        Op::BulkAdd(vec![it(t1, 0), it(t1, 1)], m(4)),
        Op::BulkAdd(vec![it(t2, 0), it(t0, 1), it(t2, 1)], m(5)),
        Op::Change(vec![(it(t0, 0), it(t1, 0))], m(0)),
        Op::Change(vec![(it(t0, 0), it(t0, 1))], m(1)),
        Op::Change(vec![(it(t1, 0), it(t2, 1))], m(2)),
        // swap, merge, chain, absent, twice the same
        Op::Change(vec![(it(t0, 0), it(t1, 0)), (it(t1, 0), it(t0, 0))], m(3)),
        Op::Change(vec![(it(t0, 0), it(t2, 0)), (it(t1, 0), it(t2, 1))], m(4)),
        Op::Change(vec![(it(t0, 0), it(t1, 1)), (it(t1, 0), it(t2, 1))], m(5)),
        Op::Change(vec![(it(t1, 0), it(t2, 0)), (it(t0, 0), it(t1, 0))], m(0)),
        Op::Change(vec![(it(t0, 0), it(t1, 0)), (it(t0, 0), it(t2, 1))], m(1)),
        Op::Undo,
        Op::Redo,
    ];
    if full {
        a.extend([
            Op::BulkRemove(vec![it(t0, 0), it(t1, 0), it(t2, 0)], m(3)),
            Op::BulkRemove(vec![it(t2, 0)], m(4)),
            Op::Change(vec![(it(t0, 1), it(t0, 1))], m(2)),
            Op::Change(vec![(it(t0, 0), it(t0, 1)), (it(t1, 0), it(t0, 0)), (it(t2, 0), it(t0, 1))], m(3)),
            Op::Change(vec![(it(t0, 0), it(t1, 0)), (it(t1, 0), it(t2, 0)), (it(t2, 0), it(t0, 1))], m(4)),
            Op::Change(vec![(it(t2, 1), it(t0, 0)), (it(t0, 0), it(t0, 1))], m(0)),
            Op::BulkAdd(vec![], m(0)),
            Op::Clear,
        ]);
    }
    a
}

pub fn note_alphabet(full: bool) -> Vec<Op> {
    let n = |t, v| It(Kind::Note, t, v);
    let mut a = vec![
        Op::Add(n(0, 0), true),
        Op::Add(n(0, 1), false),
        Op::Add(n(240, 0), true),
        Op::Add(n(240, 3), false),
        Op::BulkRemove(vec![n(0, 0)], m(0)),
        Op::BulkRemove(vec![n(0, 0), n(0, 0)], m(1)),
        Op::BulkRemove(vec![n(0, 1), n(240, 0), n(0, 0)], m(2)),
        Op::BulkAdd(vec![n(0, 0), n(0, 0)], m(3)),
        Op::BulkAdd(vec![n(0, 0), n(0, 1), n(240, 0), n(240, 3)], m(4)),
        Op::Change(vec![(n(0, 0), n(0, 1))], m(0)),
        Op::Change(vec![(n(0, 0), n(0, 1)), (n(0, 1), n(0, 0))], m(1)),
        Op::Change(vec![(n(0, 0), n(240, 0)), (n(240, 0), n(240, 3))], m(2)),
        Op::Change(vec![(n(0, 0), n(0, 1)), (n(0, 0), n(240, 0))], m(3)),
        Op::Change(vec![(n(240, 0), n(0, 0)), (n(0, 0), n(960, 2))], m(4)),
        Op::Change(vec![(n(240, 3), n(960, 3))], m(5)),
        Op::Tuplize(vec![n(0, 0), n(240, 0)]),
        Op::Tuplize(vec![n(0, 0), n(0, 1), n(240, 3)]),
        Op::Tuplize(vec![n(0, 0)]),
        Op::Undo,
        Op::Redo,
    ];
    if full {
        a.extend([
            Op::Add(n(0, 2), true),
            Op::Add(n(480, 4), true),
            Op::BulkRemove(vec![n(240, 3)], m(3)),
            Op::BulkAdd(vec![n(1000, 5), n(100, 7)], m(0)),
            Op::Change(vec![(n(0, 0), n(0, 0))], m(5)),
            Op::Change(vec![(n(0, 1), n(0, 0)), (n(240, 0), n(0, 0)), (n(240, 3), n(0, 0))], m(0)),
            Op::Tuplize(vec![n(0, 0), n(0, 0), n(0, 1)]),
            Op::Clear,
        ]);
    }
    a
}

/// One edit touching several kinds at once, settings, automatically added bars.
pub fn mixed_alphabet(full: bool) -> Vec<Op> {
    use Kind::*;
    let mut a = vec![
        Op::SetRhythm(3, 4),
        Op::SetRhythm(4, 4),
        Op::SetKey(2),
        Op::SetGrid(30),
        Op::Add(It(Note, 700, 8), true),
        Op::Add(It(Bar, 720, 1), false),
        Op::Add(It(Bar, 960, 2), true),
        Op::Add(It(Tempo, 1000, 0), true),
        Op::Add(It(Dumper, 2000, 0), true),
        Op::Add(It(Soft, 1200, 1), false),
        Op::BulkAdd(vec![It(Note, 0, 0), It(Bar, 960, 1), It(Tempo, 0, 1), It(Dumper, 960, 0), It(Soft, 1920, 2)], m(0)),
        Op::BulkAdd(vec![It(Note, 1000, 8), It(Bar, 480, 3), It(Bar, 720, 0)], m(2)),
        Op::BulkRemove(vec![It(Note, 0, 0), It(Bar, 960, 0), It(Tempo, 0, 1), It(Dumper, 960, 0), It(Soft, 1920, 2)], m(1)),
        Op::BulkRemove(vec![It(Bar, 720, 0), It(Bar, 1920, 0)], m(3)),
        Op::Change(
            vec![
                (It(Note, 0, 0), It(Note, 960, 2)),
                (It(Bar, 960, 0), It(Bar, 480, 1)),
                (It(Tempo, 0, 1), It(Tempo, 1000, 2)),
                (It(Dumper, 960, 0), It(Dumper, 2000, 1)),
                (It(Soft, 1920, 2), It(Soft, 1200, 0)),
            ],
            m(3),
        ),
        Op::Change(vec![(It(Bar, 960, 0), It(Bar, 720, 3)), (It(Bar, 720, 0), It(Bar, 960, 1))], m(4)),
        Op::Change(vec![(It(Note, 700, 8), It(Note, 1700, 8))], m(5)),
        Op::Undo,
        Op::Redo,
    ];
    if full {
        a.extend([
            Op::Clear,
            Op::SetKey(-7),
            Op::SetGrid(30),
            Op::Add(It(Note, 3000, 4), true),
            Op::Change(vec![(It(Tempo, 1000, 0), It(Tempo, 0, 3)), (It(Dumper, 2000, 0), It(Dumper, 3000, 2))], m(1)),
        ]);
    }
    a
}

/// Note lengths against bar lines: what automatically added bars depend on.
pub fn cover_alphabet() -> Vec<Op> {
    use Kind::*;
    vec![
        Op::Add(It(Note, 0, 4), true),    // 3826 ticks long, starts trimmed at 0
        Op::Add(It(Note, 1000, 4), true), // long, starts at 800
        Op::Add(It(Note, 4500, 6), false), // short, after the long one's start
        Op::Add(It(Note, 959, 6), true),
        Op::Add(It(Note, 720, 0), true),  // ends exactly on a bar line of 4/4
        Op::Add(It(Note, 721, 0), true),  // ends one tick later
        Op::Add(It(Note, 960, 7), true),  // zero length, starts on a bar line
        Op::Add(It(Note, 700, 9), false), // starts at 1000 by trim
        Op::Add(It(Tempo, 960, 0), true),
        Op::Add(It(Tempo, 961, 0), true),
        Op::Add(It(Dumper, 1921, 0), true),
        Op::Add(It(Soft, 2881, 0), true),
        Op::Add(It(Bar, 0, 1), true),
        Op::Add(It(Bar, 100, 4), true),
        Op::Add(It(Bar, 960, 1), true),
        Op::Add(It(Bar, 1500, 3), false),
        Op::Add(It(Bar, 5000, 5), false),
        Op::SetRhythm(3, 4),
        Op::SetRhythm(1, 64),
        Op::SetRhythm(99, 2),
        Op::BulkAdd(vec![It(Note, 800, 0), It(Bar, 960, 4)], m(1)),
        Op::BulkAdd(vec![It(Bar, 480, 1)], m(2)),
        Op::BulkAdd(vec![It(Dumper, 1000, 0), It(Soft, 1100, 0), It(Tempo, 1050, 0)], m(2)),
        Op::BulkRemove(vec![It(Bar, 960, 0), It(Bar, 1920, 0), It(Bar, 720, 0)], m(0)),
        Op::BulkRemove(vec![It(Note, 1000, 4)], m(0)),
        Op::Change(vec![(It(Note, 720, 0), It(Note, 5721, 0))], m(0)),
        Op::Change(vec![(It(Note, 721, 0), It(Note, 721, 4)), (It(Bar, 960, 0), It(Bar, 1000, 3))], m(3)),
        Op::Change(vec![(It(Dumper, 1921, 0), It(Dumper, 6000, 0))], m(3)),
        Op::Change(vec![(It(Soft, 2881, 0), It(Soft, 7000, 0)), (It(Tempo, 961, 0), It(Tempo, 8000, 0))], m(3)),
        Op::Tuplize(vec![It(Note, 720, 0), It(Note, 721, 0), It(Note, 4500, 6)]),
        Op::Undo,
    ]
}

const KINDS: [(Kind, [u32; 3]); 4] = [
    (Kind::Bar, [480, 960, 1920]),
    (Kind::Tempo, [0, 480, 1500]),
    (Kind::Dumper, [0, 480, 1500]),
    (Kind::Soft, [0, 480, 1500]),
];

/// The attribute matrix: every pair of versions of an item, every way they can meet.
pub fn explore_matrix<J: Judge>(ctx: &Ctx, judge: &J) {
    let depth = ctx.pick(2, 3);
    for (k, top) in [Kind::Note, Kind::Bar, Kind::Tempo, Kind::Dumper, Kind::Soft].into_iter().flat_map(|k| [(k, false), (k, true)]) {
        let n = matrix_size(k) as usize;
        ctx.bound(
            &format!("attribute matrix, {k:?}{}", if top { " at the top of the tune" } else { "" }),
            format!("{n} versions, all {} ordered pairs, 10 edits each, all sequences of length {depth} after each of the 10", n * n),
        );
        ctx.par(n * n, |u, t| {
            let (v, w) = (20 + (u / n) as u16, 20 + (u % n) as u16);
            let sc = Scenario { name: format!("attribute matrix {k:?} {v} {w}{}", if top { " at the top" } else { "" }), setup: vec![], alphabet: matrix_alphabet(k, v, w, top), depth, floor: false };
            let mut run = Run { ctx, sc: &sc, judge, path: vec![], case: vec![] };
            let Some(root) = run.start(t) else { return };
            run.dfs(&root, depth + 1, t);
        });
    }
}

pub fn scenarios(ctx: &Ctx, cover: bool) -> Vec<Scenario> {
    let full = true;
    // one step more where the thorough tier has room for it
    let small = if ["C01", "C04", "C05", "C06"].contains(&ctx.id.as_str()) { ctx.deepen(0, 1) } else { 0 };
    let large = if ["C04", "C05"].contains(&ctx.id.as_str()) { ctx.deepen(0, 1) } else { 0 };
    let mut v = vec![];
    for (k, ticks) in KINDS {
        v.push(Scenario { name: format!("{k:?} edits from empty"), setup: vec![], alphabet: keyed_alphabet(k, ticks, full), depth: ctx.pick(4, 5) + if k == Kind::Bar && ctx.id == "C04" { large } else { 0 }, floor: false });
        let [t0, t1, t2] = ticks;
        v.push(Scenario {
            name: format!("{k:?} edits from three items"),
            setup: vec![Op::BulkAdd(vec![It(k, t0, 0), It(k, t1, 0), It(k, t2, 1), It(Kind::Note, 0, 0)], m(0)), Op::Clear],
            alphabet: keyed_alphabet(k, ticks, false),
            depth: ctx.pick(3, 4) + small, floor: false,
        });
    }
    v.push(Scenario { name: "note edits from empty".into(), setup: vec![], alphabet: note_alphabet(full), depth: ctx.pick(4, 5), floor: false });
    v.push(Scenario {
        name: "note edits from a chord with a double".into(),
        setup: vec![Op::BulkAdd(vec![It(Kind::Note, 0, 0), It(Kind::Note, 0, 0), It(Kind::Note, 0, 1), It(Kind::Note, 240, 0), It(Kind::Note, 240, 3)], m(2))],
        alphabet: note_alphabet(full),
        depth: ctx.pick(3, 4) + small, floor: false,
    });
    v.push(Scenario { name: "mixed edits and settings".into(), setup: vec![], alphabet: mixed_alphabet(full), depth: ctx.pick(4, 5) + large, floor: false });
    let sizes: &[u32] = ctx.deepen(&[6, 17, 40, 130, 1500, 6000], &[6, 17, 40, 130, 1500, 6000, 20_000]);
    for n in sizes {
        v.push(Scenario {
            name: format!("edits of {n} items of every kind"),
            setup: vec![],
            alphabet: sized_alphabet(*n),
            depth: if *n > 1000 { 2 } else { ctx.pick(3, 4) + if *n < 100 { small } else { 0 } }, floor: false,
        });
    }
    v.push(Scenario {
        name: "far from the top of the tune".into(),
        setup: vec![Op::Add(It(Kind::Bar, u32::MAX, 0), false), Op::Add(It(Kind::Bar, 0, 0), true)],
        alphabet: far_alphabet(),
        depth: ctx.pick(4, 5) + small,
        floor: true,
    });
    v.push(Scenario {
        name: "against the last position".into(),
        setup: vec![Op::Add(It(Kind::Bar, u32::MAX - 3000, 0), false), Op::Add(It(Kind::Bar, 0, 0), true)],
        alphabet: end_alphabet(),
        depth: ctx.pick(4, 5),
        floor: true,
    });
    if cover {
        v.push(Scenario { name: "music against bar lines".into(), setup: vec![], alphabet: cover_alphabet(), depth: ctx.pick(4, 5) + large, floor: false });
        v.push(Scenario {
            name: "music against bar lines, after bars of other rhythms".into(),
            setup: vec![Op::SetRhythm(7, 8), Op::Add(It(Kind::Bar, 500, 1), false), Op::Add(It(Kind::Bar, 1220, 0), false)],
            alphabet: cover_alphabet(),
            depth: ctx.pick(4, 5), floor: false,
        });
        v.push(Scenario {
            name: "music against bar lines, the first bar at the top with a rhythm of its own".into(),
            setup: vec![Op::SetRhythm(7, 8), Op::Add(It(Kind::Bar, 0, 1), false)],
            alphabet: cover_alphabet(),
            depth: ctx.pick(4, 5), floor: false,
        });
        v.push(Scenario {
            name: "thousands of bars".into(),
            setup: vec![Op::SetRhythm(1, 64)],
            alphabet: vec![
                Op::Add(It(Kind::Tempo, 15 * 255, 0), true),
                Op::Add(It(Kind::Soft, 15 * 300 + 1, 0), false),
                Op::Add(It(Kind::Note, 15 * 5000, 0), true),
                Op::Add(It(Kind::Dumper, 15 * 66_000, 1), true),
                Op::Add(It(Kind::Bar, 15 * 256, 1), true),
                Op::BulkRemove(vec![It(Kind::Bar, 15 * 255, 0), It(Kind::Bar, 15 * 66_000, 0)], m(1)),
                Op::Undo,
                Op::Redo,
            ],
            depth: ctx.pick(3, 4), floor: false,
        });
    }
    v
}

/// The same scenarios, with the project written out as a snapshot and read back in between.
pub fn with_reopen(v: Vec<Scenario>) -> Vec<Scenario> {
    v.into_iter()
        .map(|mut sc| {
            if ["mixed", "from three", "from a chord", "of 6 items", "music against", "far from"].iter().any(|s| sc.name.contains(s)) {
                sc.alphabet.push(Op::Reopen);
            }
            sc
        })
        .collect()
}

/// Every value of every attribute of every kind of item, and of every setting, edited, undone, redone and stored.
pub fn explore_values<J: Judge>(ctx: &Ctx, judge: &J) {
    let depth = ctx.pick(2, 3);
    for k in [Kind::Note, Kind::Bar, Kind::Tempo, Kind::Dumper, Kind::Soft] {
        let n = value_count(k);
        ctx.bound(&format!("every value, {k:?}"), format!("{n} versions, 8 edits each, all sequences of length {depth} after each of the 8"));
        ctx.par(n as usize, |u, t| {
            let (v, w) = (VALUES + u as u16, VALUES + (u as u16 + 1) % n);
            let it = |t, v| It(k, t, v);
            let alphabet = vec![
                Op::Add(it(480, v), true),
                Op::BulkAdd(vec![it(960, w), it(480, v)], m(u)),
                Op::Change(vec![(it(480, v), it(480, w))], m(u + 1)),
                Op::Change(vec![(it(480, w), it(960, v)), (it(960, w), it(480, v))], m(u + 2)),
                Op::BulkRemove(vec![it(480, v), it(960, w)], m(u + 3)),
                Op::Undo,
                Op::Redo,
                Op::Reopen,
            ];
            let sc = Scenario { name: format!("every value {k:?} {v}"), setup: vec![], alphabet, depth, floor: false };
            let mut run = Run { ctx, sc: &sc, judge, path: vec![], case: vec![] };
            let Some(root) = run.start(t) else { return };
            run.dfs(&root, depth + 1, t);
        });
    }
    let settings = every_setting();
    let depth = ctx.pick(3, 4);
    ctx.bound("every setting", format!("{} values of rhythm, key and grid, all sequences of length {depth} of 6", settings.len()));
    ctx.par(settings.len(), |u, t| {
        let n = settings.len();
        let alphabet = vec![
            settings[u].clone(),
            settings[(u + 1) % n].clone(),
            settings[(u + n / 2) % n].clone(),
            Op::Undo,
            Op::Redo,
            Op::Reopen,
        ];
        let sc = Scenario { name: format!("setting {:?}", settings[u]), setup: vec![], alphabet, depth, floor: false };
        let mut run = Run { ctx, sc: &sc, judge, path: vec![], case: vec![] };
        let Some(root) = run.start(t) else { return };
        run.dfs(&root, depth, t);
    });
}

/// Long histories: every pattern of a few edits, repeated, each time a step further on.
pub fn explore_long<J: Judge>(ctx: &Ctx, judge: &J, steps: usize, period: u32) {
    const N: usize = LONG_EDITS;
    let total = N.pow(period);
    ctx.bound("long histories", format!("{steps} steps of every repeated pattern of {period} of {N} edits, each time further on in the tune"));
    ctx.par(total, |u, t| {
        let p: Vec<usize> = (0..period).map(|k| u / N.pow(k) % N).collect();
        if !p.iter().any(|w| *w < 8) {
            return;
        }
        let alphabet: Vec<Op> = (0..steps).map(|i| long_edit(p[i % p.len()], i)).collect();
        let sc = Scenario { name: format!("long history of pattern {p:?}"), setup: vec![], alphabet, depth: steps, floor: false };
        let mut run = Run { ctx, sc: &sc, judge, path: vec![], case: vec![] };
        let Some(mut n) = run.start(t) else { return };
        for i in 0..steps {
            if ctx.stopped() {
                return;
            }
            t.transitions += 1;
            t.states += 1;
            let Some(next) = run.step(&n, i, t) else { return };
            n = next;
        }
        run.leaf(&n, t);
    });
}

/// Every rhythm, as that of the tune and as that of the last bars, against music around the bar lines it gives.
fn cover_rhythms<J: Judge>(ctx: &Ctx, judge: &J) {
    let bar = |t, v| Op::Add(It(Kind::Bar, t, v), false);
    let mut setups: Vec<(Vec<Op>, u32, u32)> = vec![];
    for num in 1..=99u8 {
        for den in [2u8, 4, 8, 16, 32, 64] {
            let len = bar_len((num, den));
            setups.push((vec![Op::SetRhythm(num, den)], 0, len));
            setups.push((vec![bar(0, 0), Op::SetRhythm(num, den)], 0, len));
            setups.push((vec![Op::SetRhythm(num, den), bar(480, 6)], 480, len));
        }
    }
    for v in 60..=251u16 {
        let b = bar_of(&make_bar(0, v));
        let len = bar_len(b.rhythm.expect("rhythm"));
        setups.push((vec![bar(0, v)], 0, len));
        setups.push((vec![Op::SetRhythm(7, 8), bar(481, v)], 481, len));
        setups.push((vec![bar(481, v), bar(1000, 0), bar(1500, 2)], 1500, len));
        setups.push((vec![bar(0, 1), bar(481, 4), bar(482, v)], 482, len));
    }
    let depth = ctx.pick(2, 3);
    ctx.bound(
        "every rhythm against bar lines",
        format!("{} tune and bar rhythms x where the bars are, music of every kind around the first bar lines, all sequences of {depth}", setups.len()),
    );
    ctx.par(setups.len(), |u, t| {
        let (setup, last, len) = setups[u].clone();
        let mut alphabet = vec![];
        for (i, k) in [1, 2, 3, 7].into_iter().enumerate() {
            for d in [-1i64, 0, 1] {
                let x = (last as i64 + k * len as i64 + d) as u32;
                let kind = [Kind::Tempo, Kind::Dumper, Kind::Soft, Kind::Note][(i + (d + 1) as usize) % 4];
                alphabet.push(Op::Add(It(kind, x, if kind == Kind::Note { 7 } else { 1 }), false));
            }
            alphabet.push(Op::Add(It(Kind::Note, last + k as u32 * len, 0), true));
        }
        let sc = Scenario { name: format!("rhythm {u}"), setup, alphabet, depth, floor: false };
        let mut run = Run { ctx, sc: &sc, judge, path: vec![], case: vec![] };
        let Some(root) = run.start(t) else { return };
        run.dfs(&root, depth, t);
    });
}

// ---------------------------------------------------------------- C01

pub struct UndoRedo;
#[derive(Clone)]
pub struct Hist {
    states: Vec<Rc<Content>>,
    pos: usize,
}

impl Hist {
    pub fn new(c: &Content) -> Self {
        Hist { states: vec![Rc::new(c.clone())], pos: 0 }
    }
    /// What the project must contain now.
    pub fn now(&self) -> &Content {
        &self.states[self.pos]
    }
}

pub fn track(h: &mut Hist, pre: &Content, op: &Op, store: &ProjectStore, post: &Content) -> Result<(), Fault> {
    let p = store.pos();
    match op {
        Op::Undo => {
            let want = h.pos.saturating_sub(1);
            if p != want {
                return Err(fault("undo-count", format!("undo left {p} edits done, expected {want}")));
            }
            h.pos = want;
        }
        Op::Redo => {
            let want = (h.pos + 1).min(h.states.len() - 1);
            if p != want {
                return Err(fault("redo-count", format!("redo left {p} edits done, expected {want}")));
            }
            h.pos = want;
        }
        Op::Clear | Op::Reopen => {
            if p != h.pos {
                return Err(fault("clear-recorded", format!("{op:?} changed the edit record")));
            }
        }
        _ => {
            if p == h.pos + 1 {
                h.states.truncate(h.pos + 1);
                h.states.push(Rc::new(post.clone()));
                h.pos = p;
            } else if p == h.pos {
                if post != pre {
                    return Err(fault("unrecorded", format!("an edit changed the project but cannot be undone: {}", diff(pre, post))));
                }
            } else {
                return Err(fault("record-count", format!("one edit was recorded as {} steps", p as i64 - h.pos as i64)));
            }
        }
    }
    Ok(())
}

impl Judge for UndoRedo {
    type S = Hist;
    fn init(&self, _: &ProjectStore, c: &Content) -> Result<Hist, Fault> {
        Ok(Hist { states: vec![Rc::new(c.clone())], pos: 0 })
    }
    fn step(&self, pre: &Content, op: &Op, store: &ProjectStore, post: &Content, h: &mut Hist, t: &mut Tally) -> Result<(), Fault> {
        track(h, pre, op, store, post)?;
        if *h.states[h.pos] != *post {
            let key = match op {
                Op::Undo => "undo",
                Op::Redo => "redo",
                Op::Reopen => "snapshot",
                _ => "clear",
            };
            return Err(fault(key, format!("{op:?} does not lead to the earlier state: {}", diff(&h.states[h.pos], post))));
        }
        // undo everything, redo everything, on a copy
        let mut s = store.clone();
        for k in (0..h.pos).rev() {
            s.undo();
            t.transitions += 1;
            let c = read_store(&s).map_err(|e| fault("inconsistent", e))?;
            if c != *h.states[k] {
                return Err(fault("undo", format!("undoing {} steps: {}", h.pos - k, diff(&h.states[k], &c))));
            }
        }
        let n = h.states.len() - 1;
        for k in 1..=n {
            s.redo();
            t.transitions += 1;
            let c = read_store(&s).map_err(|e| fault("inconsistent", e))?;
            if c != *h.states[k] {
                return Err(fault("redo", format!("after undoing everything, redoing {k} steps: {}", diff(&h.states[k], &c))));
            }
        }
        if op.is_edit() {
            t.count(if post != pre { "edits that changed something" } else { "edits that changed nothing" });
        }
        Ok(())
    }
}

pub fn c01(ctx: &Ctx) {
    for sc in with_reopen(scenarios(ctx, false)) {
        explore(ctx, &sc, &UndoRedo);
    }
    explore_matrix(ctx, &UndoRedo);
    explore_values(ctx, &UndoRedo);
    explore_long(ctx, &UndoRedo, ctx.pick(110, 280), 2);
    ctx.assume("the in-memory edit record stands in for the SQLite one; C03 replays histories on the real one");
    ctx.assume("bars do not have to be added from far below to the last positions (millions of bars)");
}

// ---------------------------------------------------------------- C02

pub struct Replay;
#[derive(Clone)]
pub struct Replicas {
    h: Hist,
    /// replica k: restored from the snapshot written after k edits, rolled forward since
    reps: Vec<ProjectImpl>,
}

fn restore(p: &ProjectImpl) -> Result<ProjectImpl, Fault> {
    let bytes = bincode::serialize(p).map_err(|e| fault("snapshot-write", e.to_string()))?;
    bincode::deserialize(&bytes).map_err(|e| fault("snapshot-read", e.to_string()))
}

impl Judge for Replay {
    type S = Replicas;
    fn init(&self, store: &ProjectStore, c: &Content) -> Result<Replicas, Fault> {
        Ok(Replicas { h: Hist { states: vec![Rc::new(c.clone())], pos: 0 }, reps: vec![restore(store.model())?] })
    }
    fn step(&self, pre: &Content, op: &Op, store: &ProjectStore, post: &Content, s: &mut Replicas, t: &mut Tally) -> Result<(), Fault> {
        let before = s.h.pos;
        track(&mut s.h, pre, op, store, post)?;
        let after = s.h.pos;
        let decode = |k: usize| -> Result<ProjectCmd, Fault> {
            bincode::deserialize(&store.log()[k]).map_err(|e| fault("record-read", e.to_string()))
        };
        if after == before + 1 {
            s.reps.truncate(before + 1);
            let cmd = decode(before)?;
            for r in s.reps.iter_mut() {
                cmd.redo(r);
                t.transitions += 1;
            }
            s.reps.push(restore(store.model())?);
        } else if after + 1 == before {
            s.reps.truncate(after + 1);
            let cmd = decode(after)?;
            for r in s.reps.iter_mut() {
                cmd.undo(r);
                t.transitions += 1;
            }
        }
        for (k, r) in s.reps.iter().enumerate() {
            let c = read(r).map_err(|e| fault("inconsistent", e))?;
            if c != *post {
                return Err(fault(
                    if k == s.h.pos { "snapshot" } else { "replay" },
                    format!("restored from the snapshot after {k} edits and replayed to edit {}: {}", s.h.pos, diff(post, &c)),
                ));
            }
        }
        if op.is_edit() {
            t.count(if post != pre { "edits that changed something" } else { "edits that changed nothing" });
        }
        Ok(())
    }
    fn leaf(&self, store: &ProjectStore, _c: &Content, s: &Replicas, t: &mut Tally) -> Result<(), Fault> {
        for (k, r) in s.reps.iter().enumerate() {
            let mut r = r.clone();
            for j in (0..s.h.pos).rev() {
                let cmd: ProjectCmd = bincode::deserialize(&store.log()[j]).map_err(|e| fault("record-read", e.to_string()))?;
                cmd.undo(&mut r);
                t.transitions += 1;
                let c = read(&r).map_err(|e| fault("inconsistent", e))?;
                if c != *s.h.states[j] {
                    return Err(fault(
                        "undo-after-restore",
                        format!("restored from the snapshot after {k} edits, rolled to edit {}, undone to {j}: {}", s.h.pos, diff(&s.h.states[j], &c)),
                    ));
                }
            }
        }
        Ok(())
    }
}

pub fn c02(ctx: &Ctx) {
    for sc in scenarios(ctx, false) {
        explore(ctx, &sc, &Replay);
    }
    explore_matrix(ctx, &Replay);
    explore_values(ctx, &Replay);
    explore_long(ctx, &Replay, ctx.pick(70, 280), 2);
    ctx.assume("snapshots and edit records are written and read with bincode, as the store does");
    ctx.assume("bars do not have to be added from far below to the last positions (millions of bars)");
}

// ---------------------------------------------------------------- C04

pub struct Effect;
impl Judge for Effect {
    type S = ();
    fn init(&self, _: &ProjectStore, c: &Content) -> Result<(), Fault> {
        let want = Content { rhythm: (4, 4), key: 0, grid: c.grid, ..Default::default() };
        if *c != want {
            return Err(fault("empty", format!("a new project is not empty: {}", diff(&want, c))));
        }
        Ok(())
    }
    fn step(&self, pre: &Content, op: &Op, _store: &ProjectStore, post: &Content, _: &mut (), t: &mut Tally) -> Result<(), Fault> {
        let Some(mut want) = reference(pre, op) else { return Ok(()) };
        if op.is_edit() {
            t.count(if want != *pre { "edits that changed something" } else { "edits that changed nothing" });
        }
        // automatically added trailing bars are judged by C05; here they only have to be trailing and plain
        if op.replenishes() {
            let last = want.bars.last().map(|b| b.tick);
            for b in &post.bars {
                let auto = last.is_none_or(|l| l < b.tick) && b.tick > 0 && b.rhythm.is_none() && b.key.is_none() && b.mask == 0;
                if auto {
                    want.bars.push(*b);
                }
            }
        }
        if want != *post {
            return Err(fault("effect", format!("{op:?}: {}", diff(&want, post))));
        }
        Ok(())
    }
}

pub fn c04(ctx: &Ctx) {
    for sc in with_reopen(scenarios(ctx, false)) {
        explore(ctx, &sc, &Effect);
    }
    explore_matrix(ctx, &Effect);
    explore_values(ctx, &Effect);
    explore_long(ctx, &Effect, ctx.pick(280, 600), 2);
    ctx.assume("in a change, items whose old version is not in the project are skipped; turning a selection into a tuplet is judged only for notes of the project");
    ctx.assume("bars do not have to be added from far below to the last positions (millions of bars)");
}

// ---------------------------------------------------------------- C05

pub struct Cover;
impl Judge for Cover {
    type S = ();
    fn init(&self, _: &ProjectStore, _: &Content) -> Result<(), Fault> {
        Ok(())
    }
    fn step(&self, pre: &Content, op: &Op, _store: &ProjectStore, post: &Content, _: &mut (), t: &mut Tally) -> Result<(), Fault> {
        if !op.is_edit() {
            return Ok(());
        }
        let bars_named = match op {
            Op::Tuplize(_) => Some(pre.bars.clone()),
            _ => reference(pre, op).map(|c| c.bars),
        };
        let Some(named) = bars_named else { return Ok(()) };
        if op.replenishes() {
            let end = post.music_end();
            let c = Content { bars: named.clone(), rhythm: post.rhythm, ..Default::default() };
            let auto = auto_bars(&c, end);
            t.count(match auto.len() {
                0 => "edits that needed no bar",
                1 => "edits that needed one bar",
                _ => "edits that needed several bars",
            });
            let mut want = named;
            want.extend(auto);
            if post.bars != want {
                return Err(fault("bars", format!("music ends at {end}; bars are {:?} instead of {:?}", post.bars, want)));
            }
            // stated independently of the reference
            let room = |b: &BarP| b.tick.checked_add(bar_len(post.rhythm_at(b.tick))).is_some();
            if end > 0 && post.bars.last().is_none_or(|b| b.tick < end && room(b)) {
                return Err(fault("not-covered", format!("music ends at {end} after the last bar {:?}", post.bars.last())));
            }
        } else if post.bars != named {
            return Err(fault("bars", format!("bars are {:?} instead of {:?}", post.bars, named)));
        }
        Ok(())
    }
}

pub fn c05(ctx: &Ctx) {
    for sc in with_reopen(scenarios(ctx, true)) {
        explore(ctx, &sc, &Cover);
    }
    cover_rhythms(ctx, &Cover);
    explore_long(ctx, &Cover, ctx.pick(280, 600), 2);
    ctx.assume("bars do not have to be added from far below to the last positions (millions of bars)");
}
