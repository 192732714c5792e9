//! C27: projects open at the same time do not influence each other. Two projects are edited in every
//! interleaving; after every step both are asked everything, in turn.
use crate::content::*;
use crate::driver::*;
use crate::events::{counts, published, Seen};
use crate::lookups::{judge_locations_at, judge_lookups_at};
use crate::ops::*;
use crate::play::judge_bars;
use crate::proj::{fault, track, Cover, Effect, Fault, Hist, Judge};
use klavier_core::project::{ProjectImpl, ProjectStore};
use serdo::undo_store::UndoStore;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Do {
    /// One of the edits of the alphabet.
    Edit(usize),
    /// The project is closed and a new one opened.
    Fresh,
}

#[derive(Clone)]
struct Side {
    store: ProjectStore,
    content: Rc<Content>,
    hist: Hist,
    /// notifications published since it was opened
    told: Seen,
}

fn open() -> Result<Side, Fault> {
    let store: ProjectStore = ProjectStore::from_model(ProjectImpl::default());
    let c = read_store(&store).map_err(|e| fault("inconsistent", e))?;
    Effect.init(&store, &c)?;
    Ok(Side { told: counts(&published(&store)), store, hist: Hist::new(&c), content: Rc::new(c) })
}

/// The edits made to project `w`: the same positions and numbers of items, other values.
fn alphabet(w: usize) -> Vec<Op> {
    use Kind::*;
    let p = |a: u16, b: u16| if w != 1 { a } else { b };
    let bar = |t| It(Bar, t, p(2, 3));
    let all = vec![It(Bar, 480, p(3, 1)), It(Tempo, 480, p(0, 1)), It(Soft, 700, p(2, 3)), It(Dumper, 700, p(3, 2)), It(Note, 0, p(0, 1))];
    vec![
        Op::Add(It(Tempo, 480, [3, 2, 1][w]), w == 0),
        Op::Add(It(Note, 1900, [6, 8, 5][w]), w == 1),
        Op::Add(bar(960), true),
        Op::BulkAdd(all.clone(), METAS[w]),
        Op::BulkRemove(all, METAS[4 - w]),
        Op::Change(
            vec![
                (It(Bar, 480, p(3, 1)), It(Bar, 960, p(1, 3))),
                (It(Tempo, 480, p(0, 1)), It(Tempo, 960, p(1, 0))),
                (It(Note, 0, p(0, 1)), It(Note, 1000, p(0, 1))),
            ],
            METAS[2 + w],
        ),
        Op::SetRhythm([7, 2, 5][w], [8, 4, 16][w]),
        Op::SetKey([3, -4, 7][w]),
        Op::SetGrid([60, 77, 1][w]),
        Op::Undo,
        Op::Redo,
        Op::Clear,
        Op::Reopen,
    ]
}

struct Run<'a> {
    ctx: &'a Ctx,
    alphabets: Vec<Vec<Op>>,
    acts: Vec<(usize, Do)>,
    path: Vec<usize>,
}

impl Run<'_> {
    fn describe(&self) -> String {
        self.path
            .iter()
            .map(|i| {
                let (w, d) = self.acts[*i];
                match d {
                    Do::Edit(k) => format!("project {w}: {:?}\n", self.alphabets[w][k]),
                    Do::Fresh => format!("project {w}: closed, a new one opened\n"),
                }
            })
            .collect()
    }
    fn step(&self, n: &[Side], i: usize, t: &mut Tally) -> Result<Vec<Side>, Fault> {
        let (w, what) = self.acts[i];
        let mut m = n.to_vec();
        match what {
            Do::Fresh => m[w] = open()?,
            Do::Edit(k) => {
                let op = &self.alphabets[w][k];
                let s = &mut m[w];
                op.apply(&mut s.store);
                let pre = s.content.clone();
                let post = read_store(&s.store).map_err(|e| fault("inconsistent", e))?;
                track(&mut s.hist, &pre, op, &s.store, &post)?;
                if *s.hist.now() != post {
                    return Err(fault("undo", format!("project {w}, {op:?}: {}", diff(s.hist.now(), &post))));
                }
                Effect.step(&pre, op, &s.store, &post, &mut (), t)?;
                Cover.step(&pre, op, &s.store, &post, &mut (), t)?;
                s.told = counts(&published(&s.store));
                s.content = Rc::new(post);
            }
        }
        self.ask(&m, w, t)?;
        Ok(m)
    }
    /// All projects are asked in turn, the one that was edited last, and the first one again.
    fn ask(&self, m: &[Side], edited: usize, t: &mut Tally) -> Result<(), Fault> {
        let mut turn: Vec<usize> = (0..m.len()).filter(|w| *w != edited).collect();
        turn.push(edited);
        turn.push(turn[0]);
        for w in turn[1..].iter().copied() {
            let c = read_store(&m[w].store).map_err(|e| fault("inconsistent", e))?;
            if c != *m[w].content {
                return Err(fault("other", format!("project {w} was not edited, but changed: {}", diff(&m[w].content, &c))));
            }
            if counts(&published(&m[w].store)) != m[w].told {
                return Err(fault("other-told", format!("project {w} was not edited, but its notifications changed")));
            }
        }
        let mut at: Vec<u32> = vec![0, 480, 481, 700, 960, 1440, 1900, 2000, 10_000];
        at.extend(m.iter().flat_map(|s| s.content.bars.last().map(|b| b.tick)));
        for x in at {
            for w in turn.iter().copied() {
                let (s, c) = (&m[w].store, &*m[w].content);
                judge_lookups_at(s, c, &[x], t)?;
                judge_locations_at(s, c, &[x], &[0, 1, 2, c.bars.len(), c.bars.len() + 2], &[x as usize], t)?;
            }
        }
        for w in turn.iter().copied() {
            judge_bars(self.ctx, &m[w].content, t);
        }
        Ok(())
    }
    fn try_step(&mut self, n: &[Side], i: usize, t: &mut Tally) -> Option<Vec<Side>> {
        self.path.push(i);
        at(&self.path.iter().map(|x| *x as u64).collect::<Vec<_>>());
        t.transitions += 1;
        match guard(|| self.step(n, i, t)) {
            Ok(Ok(m)) => {
                t.states += 1;
                return Some(m);
            }
            Ok(Err(f)) => self.ctx.violation(&f.key, &f.msg, self.describe()),
            Err(Panicked(e)) => self.ctx.violation("panic", format!("crashed: {e}"), self.describe()),
        }
        self.path.pop();
        None
    }
    fn dfs(&mut self, n: &[Side], depth: usize, t: &mut Tally) {
        if depth == 0 {
            t.traces += 1;
            return;
        }
        for i in 0..self.acts.len() {
            if self.ctx.stopped() {
                return;
            }
            if let Some(m) = self.try_step(n, i, t) {
                self.dfs(&m, depth - 1, t);
                self.path.pop();
            }
        }
    }
}

fn interleave(ctx: &Ctx, projects: usize, depth: usize) {
    let alphabets: Vec<Vec<Op>> = (0..projects).map(alphabet).collect();
    let acts: Vec<(usize, Do)> =
        (0..projects).flat_map(|w| (0..alphabets[w].len()).map(move |k| (w, Do::Edit(k))).chain([(w, Do::Fresh)])).collect();
    let n = acts.len();
    ctx.bound(
        &format!("{projects} projects"),
        format!("{} edits of each and its replacement by a new one, all interleavings of {depth}", alphabets[0].len()),
    );
    let roots = || (0..projects).map(|_| open()).collect::<Result<Vec<Side>, Fault>>();
    ctx.par(n * n, |u, t| {
        let mut run = Run { ctx, alphabets: alphabets.clone(), acts: acts.clone(), path: vec![] };
        let root = match guard(roots) {
            Ok(Ok(r)) => r,
            Ok(Err(f)) => return ctx.violation(&f.key, &f.msg, "new projects"),
            Err(Panicked(e)) => return ctx.violation("panic", format!("crashed: {e}"), "new projects"),
        };
        let Some(a) = run.try_step(&root, u / n, t) else { return };
        if let Some(b) = run.try_step(&a, u % n, t) {
            run.dfs(&b, depth - 2, t);
        }
    });
    ctx.sample(|| {
        let path: Vec<usize> = (0..depth).map(|d| (d * 19 + 3) % n).collect();
        Run { ctx, alphabets: alphabets.clone(), acts: acts.clone(), path }.describe().replace('\n', "; ")
    });
}

pub fn c27(ctx: &Ctx) {
    interleave(ctx, 2, ctx.pick(4, 5));
    interleave(ctx, 3, ctx.pick(3, ctx.deepen(4, 5)));
    ctx.assume("the projects are used from one thread");
}
