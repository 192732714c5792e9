//! C06: an observer that only sees the published change notifications.
use crate::content::*;
use crate::driver::*;
use crate::ops::*;
use crate::proj::*;
use klavier_core::bar::Bar;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::note::Note;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_core::tempo::Tempo;
use klavier_helper::bag_store::BagStoreEvent;
use klavier_helper::store::StoreEvent;
use serdo::undo_store::UndoStore;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Default, PartialEq, Debug)]
struct View {
    notes: Vec<NoteP>,
    bars: BTreeMap<u32, BarP>,
    tempos: BTreeMap<u32, TempoP>,
    dumpers: BTreeMap<u32, CtrlP>,
    softs: BTreeMap<u32, CtrlP>,
}

impl View {
    fn of(c: &Content) -> View {
        View {
            notes: c.notes.clone(),
            bars: c.bars.iter().map(|x| (x.tick, *x)).collect(),
            tempos: c.tempos.iter().map(|x| (x.tick, *x)).collect(),
            dumpers: c.dumpers.iter().map(|x| (x.tick, *x)).collect(),
            softs: c.softs.iter().map(|x| (x.tick, *x)).collect(),
        }
    }
    fn content(&self, c: &Content) -> Content {
        let mut notes = self.notes.clone();
        notes.sort();
        Content {
            rhythm: c.rhythm,
            key: c.key,
            grid: c.grid,
            notes,
            bars: self.bars.values().copied().collect(),
            tempos: self.tempos.values().copied().collect(),
            dumpers: self.dumpers.values().copied().collect(),
            softs: self.softs.values().copied().collect(),
        }
    }
}

/// An item announced as added or changed, with the intent it carries.
struct Told {
    kind: Kind,
    tick: u32,
    meta: Meta,
}

fn meta_of(m: &ModelChangeMetadata) -> Meta {
    Meta { select: m.need_select, dragged: m.dragged }
}

fn keyed<T, P: Copy>(
    view: &mut BTreeMap<u32, P>,
    events: &[StoreEvent<u32, T, ModelChangeMetadata>],
    kind: Kind,
    of: impl Fn(&T) -> P,
    tick: impl Fn(&T) -> u32,
    told: &mut Vec<Told>,
) {
    for e in events {
        match e {
            StoreEvent::Added { added, metadata } => {
                view.insert(tick(added), of(added));
                told.push(Told { kind, tick: tick(added), meta: meta_of(metadata) });
            }
            StoreEvent::Removed(r) => {
                view.remove(&tick(r));
            }
            StoreEvent::ClearedAll => view.clear(),
            StoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                for (k, _) in removed {
                    view.remove(k);
                }
                for (k, t) in added {
                    view.insert(*k, of(t));
                    told.push(Told { kind, tick: *k, meta: meta_of(metadata) });
                }
            }
            StoreEvent::Changed { from_to, removed, metadata } => {
                for ((k, _), _) in from_to {
                    view.remove(k);
                }
                for (k, _) in removed {
                    view.remove(k);
                }
                for (_, (k, t)) in from_to {
                    view.insert(*k, of(t));
                    told.push(Told { kind, tick: *k, meta: meta_of(metadata) });
                }
            }
        }
    }
}

fn remove_note(v: &mut Vec<NoteP>, n: &NoteP) -> Result<(), Fault> {
    match v.iter().position(|x| x == n) {
        Some(i) => {
            v.remove(i);
            Ok(())
        }
        None => Err(fault("events", format!("the removal of a note is announced that an observer does not have: {n:?}"))),
    }
}

#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Seen([usize; 5]);

type M = ModelChangeMetadata;
/// The notifications, as published by a store or by a bare model.
pub struct Published<'a> {
    notes: &'a Vec<BagStoreEvent<u32, Rc<Note>, M>>,
    bars: &'a Vec<StoreEvent<u32, Bar, M>>,
    tempos: &'a Vec<StoreEvent<u32, Tempo, M>>,
    dumpers: &'a Vec<StoreEvent<u32, CtrlChg, M>>,
    softs: &'a Vec<StoreEvent<u32, CtrlChg, M>>,
}

pub fn published(s: &ProjectStore) -> Published<'_> {
    Published { notes: s.note_events(), bars: s.bar_events(), tempos: s.tempo_events(), dumpers: s.dumper_events(), softs: s.soft_events() }
}

fn published_by_model(p: &ProjectImpl) -> Published<'_> {
    Published {
        notes: p.note_repo().events(),
        bars: p.bar_repo().events(),
        tempos: p.tempo_repo().events(),
        dumpers: p.dumper_repo().events(),
        softs: p.soft_repo().events(),
    }
}

pub fn counts(p: &Published) -> Seen {
    Seen([p.notes.len(), p.bars.len(), p.tempos.len(), p.dumpers.len(), p.softs.len()])
}

fn observe(view: &mut View, p: &Published, seen: &mut Seen) -> Result<Vec<Told>, Fault> {
    let mut told = vec![];
    let now = counts(p);
    for i in 0..5 {
        if now.0[i] < seen.0[i] {
            return Err(fault("events-lost", "notifications disappeared without being acknowledged"));
        }
    }
    for e in &p.notes[seen.0[0]..] {
        match e {
            BagStoreEvent::Added { added, metadata } => {
                view.notes.push(note_of(added));
                told.push(Told { kind: Kind::Note, tick: added.start_tick(), meta: meta_of(metadata) });
            }
            BagStoreEvent::AddedVec { added, metadata } => {
                for n in added {
                    view.notes.push(note_of(n));
                    told.push(Told { kind: Kind::Note, tick: n.start_tick(), meta: meta_of(metadata) });
                }
            }
            BagStoreEvent::Removed(n) => remove_note(&mut view.notes, &note_of(n))?,
            BagStoreEvent::RemovedVec(v) => {
                for n in v {
                    remove_note(&mut view.notes, &note_of(n))?;
                }
            }
            BagStoreEvent::ClearedAll => view.notes.clear(),
            BagStoreEvent::Changed { from_to, removed, metadata } => {
                for ((_, n), _) in from_to {
                    remove_note(&mut view.notes, &note_of(n))?;
                }
                for (_, n) in removed {
                    remove_note(&mut view.notes, &note_of(n))?;
                }
                for (_, (_, n)) in from_to {
                    view.notes.push(note_of(n));
                    told.push(Told { kind: Kind::Note, tick: n.start_tick(), meta: meta_of(metadata) });
                }
            }
            BagStoreEvent::BulkAddedRemoved { added, removed, metadata } => {
                for (_, n) in removed {
                    remove_note(&mut view.notes, &note_of(n))?;
                }
                for (_, n) in added {
                    view.notes.push(note_of(n));
                    told.push(Told { kind: Kind::Note, tick: n.start_tick(), meta: meta_of(metadata) });
                }
            }
        }
    }
    keyed(&mut view.bars, &p.bars[seen.0[1]..], Kind::Bar, bar_of, |x| x.start_tick, &mut told);
    keyed(&mut view.tempos, &p.tempos[seen.0[2]..], Kind::Tempo, tempo_of, |x| x.start_tick, &mut told);
    keyed(&mut view.dumpers, &p.dumpers[seen.0[3]..], Kind::Dumper, ctrl_of, |x| x.start_tick, &mut told);
    keyed(&mut view.softs, &p.softs[seen.0[4]..], Kind::Soft, ctrl_of, |x| x.start_tick, &mut told);
    *seen = now;
    Ok(told)
}

pub struct Observer<'a>(&'a Ctx);

#[derive(Clone)]
pub struct Watch {
    view: View,
    seen: Seen,
    /// edits done so far (and undone ones after `pos`): intent and automatically added bars
    hist: Vec<(Option<Meta>, Vec<u32>)>,
    pos: usize,
    trail: String,
}

impl Judge for Observer<'_> {
    type S = Watch;
    fn init(&self, store: &ProjectStore, c: &Content) -> Result<Watch, Fault> {
        let mut w = Watch { view: View::default(), seen: Seen::default(), hist: vec![], pos: 0, trail: String::new() };
        observe(&mut w.view, &published(store), &mut w.seen)?;
        self.same(&w, c)?;
        Ok(w)
    }
    fn step(&self, pre: &Content, op: &Op, store: &ProjectStore, post: &Content, w: &mut Watch, t: &mut Tally) -> Result<(), Fault> {
        w.trail += &format!("{op:?}; ");
        if *op == Op::Clear {
            if counts(&published(store)) != Seen::default() {
                return Err(fault("not-acknowledged", "notifications remain after they were acknowledged"));
            }
            w.seen = Seen::default();
            if pre != post {
                return Err(fault("acknowledge-changes", format!("acknowledging notifications changed the project: {}", diff(pre, post))));
            }
            return Ok(());
        }
        if *op == Op::Reopen {
            // an observer of the project read back starts anew
            w.view = View::default();
            w.seen = Seen::default();
            let told = observe(&mut w.view, &published(store), &mut w.seen)?;
            if let Some(x) = told.iter().find(|x| x.meta.select == Some(true)) {
                return Err(fault("load-select", format!("after loading, {:?} at {} asks to be selected", x.kind, x.tick)));
            }
            return self.same(w, post);
        }
        let told = observe(&mut w.view, &published(store), &mut w.seen)?;
        t.add("announced items", told.len() as u64);
        self.same(w, post)?;
        let now = store.pos();
        let (meta, auto) = match op {
            Op::Undo => {
                if now + 1 == w.pos {
                    w.pos = now;
                    w.hist[now].clone()
                } else {
                    (None, vec![])
                }
            }
            Op::Redo => {
                if now == w.pos + 1 {
                    w.pos = now;
                    w.hist[now - 1].clone()
                } else {
                    (None, vec![])
                }
            }
            _ => {
                let named = match op {
                    Op::Tuplize(_) => pre.bars.clone(),
                    _ => reference(pre, op).map(|c| c.bars).unwrap_or_default(),
                };
                let auto: Vec<u32> = if op.replenishes() {
                    post.bars.iter().filter(|b| !named.iter().any(|n| n.tick == b.tick)).map(|b| b.tick).collect()
                } else {
                    vec![]
                };
                if now == w.pos + 1 {
                    w.hist.truncate(w.pos);
                    w.hist.push((op.meta(), auto.clone()));
                    w.pos = now;
                }
                (op.meta(), auto)
            }
        };
        for x in &told {
            let is_auto = x.kind == Kind::Bar && auto.contains(&x.tick);
            match op {
                _ if is_auto => {
                    if x.meta.select == Some(true) {
                        let what = format!("the automatically added bar at {} asks to be selected ({op:?})", x.tick);
                        if *op == Op::Redo {
                            self.0.violation("redo-auto-bar-select", what, &w.trail);
                        } else {
                            return Err(fault("auto-bar-select", what));
                        }
                    }
                }
                _ => {
                    if let Some(m) = meta {
                        if x.meta != m {
                            return Err(fault(
                                "intent",
                                format!("{op:?}: {:?} at {} is announced with {:?}, the edit was made with {m:?}", x.kind, x.tick, x.meta),
                            ));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn leaf(&self, store: &ProjectStore, c: &Content, _w: &Watch, _t: &mut Tally) -> Result<(), Fault> {
        // a project that has just been loaded announces everything it contains
        let bytes = bincode::serialize(store.model()).map_err(|e| fault("snapshot-write", e.to_string()))?;
        let p: ProjectImpl = bincode::deserialize(&bytes).map_err(|e| fault("snapshot-read", e.to_string()))?;
        let mut v = View::default();
        let mut seen = Seen::default();
        for x in observe(&mut v, &published_by_model(&p), &mut seen)? {
            if x.meta.select == Some(true) {
                return Err(fault("load-select", format!("after loading, {:?} at {} asks to be selected", x.kind, x.tick)));
            }
        }
        let got = v.content(c);
        if got != *c {
            return Err(fault("load-events", format!("after loading, an observer sees: {}", diff(c, &got))));
        }
        // and everything done to it later
        let mut s = ProjectStore::from_model(p);
        let more = [Op::Add(It(Kind::Note, 5000, 1), true), Op::Add(It(Kind::Tempo, 480, 2), false), Op::Undo, Op::Undo];
        for op in &more {
            op.apply(&mut s);
            observe(&mut v, &published(&s), &mut seen)?;
            let now = read_store(&s).map_err(|e| fault("inconsistent", e))?;
            let got = v.content(&now);
            if got != now {
                return Err(fault("events", format!("after loading and {op:?}, an observer sees: {}", diff(&now, &got))));
            }
        }
        Ok(())
    }
}

impl Observer<'_> {
    fn same(&self, w: &Watch, c: &Content) -> Result<(), Fault> {
        let v = w.view.content(c);
        if v != *c {
            return Err(fault("events", format!("an observer of the notifications sees: {}", diff(c, &v))));
        }
        Ok(())
    }
}

pub fn c06(ctx: &Ctx) {
    for sc in with_reopen(scenarios(ctx, false)) {
        explore(ctx, &sc, &Observer(ctx));
    }
    explore_matrix(ctx, &Observer(ctx));
    explore_values(ctx, &Observer(ctx));
    explore_long(ctx, &Observer(ctx), ctx.pick(140, 300), 2);
    ctx.assume("an observer of a batch notification applies its removals before its additions, in order");
}
