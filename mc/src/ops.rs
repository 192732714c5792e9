//! Edit operations: concrete data, how they are applied to the real project, and what they are
//! documented to do (reference model).
use crate::content::*;
use klavier_core::bar::{Bar, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::{ModelChanges, Models};
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectStore};
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use serdo::undo_store::UndoStore;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Note,
    Bar,
    Tempo,
    Dumper,
    Soft,
}

/// One concrete item: kind, position, variant of its other attributes.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub struct It(pub Kind, pub u32, pub u16);

/// A note made anew from its parts.
pub fn made(n: Note) -> Note {
    Note::new(n.base_start_tick, n.pitch, n.duration, n.tie, n.tied, n.base_velocity, n.start_tick_trimmer, n.duration_trimmer, n.velocity_trimmer, n.channel)
}
/// A note made anew from the parts of another, with other values for some.
macro_rules! note_with {
    ($base:expr, $($f:ident = $v:expr),+ $(,)?) => {{
        let mut n: klavier_core::note::Note = $base;
        $(n.$f = $v;)+
        $crate::ops::made(n)
    }};
}
pub(crate) use note_with;

pub fn make_note(tick: u32, v: u16) -> Note {
    let p = |s, o| Pitch::new(s, o, SharpFlat::Null);
    let base = Note::new(
        tick,
        p(Solfa::C, Octave::Oct4),
        dur(2, 2, 0),
        false,
        false,
        Velocity::new(64),
        Trimmer::ZERO,
        RateTrimmer::ONE,
        Trimmer::ZERO,
        Channel::new(0),
    );
    match v {
        0 => base,
        1 => note_with!(base, pitch = p(Solfa::E, Octave::Oct4)),
        2 => note_with!(base, pitch = Pitch::new(Solfa::G, Octave::Oct3, SharpFlat::Flat), duration = dur(2, 2, 1), tie = true, base_velocity = Velocity::new(100), channel = Channel::new(3)),
        3 => note_with!(base, start_tick_trimmer = Trimmer::new(-30, 0, 10, 0)),
        4 => note_with!(base, duration = dur(0, 2, 7), duration_trimmer = RateTrimmer::new(2.0, 1.0, 1.0, 1.0), start_tick_trimmer = Trimmer::new(-200, 0, 0, 0), tied = true),
        5 => note_with!(base, duration = dur(3, 3, 0), duration_trimmer = RateTrimmer::new(1.5, 1.0, 1.0, 1.0), velocity_trimmer = Trimmer::new(5, -3, 0, 70)),
        6 => note_with!(base, duration = dur(7, 2, 0)),
        7 => note_with!(base, duration_trimmer = RateTrimmer::new(0.0, 1.0, 1.0, 1.0)),
        8 => note_with!(base, duration = dur(1, 2, 0)),
        9 => note_with!(base, start_tick_trimmer = Trimmer::new(300, 0, 0, 0), duration = dur(0, 2, 0)),
        // the matrix: each differs from the first in one attribute
        20 => base,
        21 => note_with!(base, pitch = p(Solfa::D, Octave::Oct4)),
        22 => note_with!(base, pitch = p(Solfa::C, Octave::Oct5)),
        23 => note_with!(base, pitch = Pitch::new(Solfa::C, Octave::Oct4, SharpFlat::Natural)),
        24 => note_with!(base, pitch = Pitch::new(Solfa::D, Octave::Oct4, SharpFlat::DoubleFlat)),
        25 => note_with!(base, duration = dur(3, 2, 0)),
        26 => note_with!(base, duration = dur(2, 3, 0)),
        27 => note_with!(base, duration = dur(2, 2, 1)),
        28 => note_with!(base, tie = true),
        29 => note_with!(base, tied = true),
        30 => note_with!(base, tie = true, tied = true),
        31 => note_with!(base, base_velocity = Velocity::new(65)),
        32 => note_with!(base, start_tick_trimmer = Trimmer::new(10, -10, 0, 0)),
        33 => note_with!(base, start_tick_trimmer = Trimmer::new(-10, 10, 0, 0)),
        34 => note_with!(base, start_tick_trimmer = Trimmer::new(0, 0, 0, 7)),
        35 => note_with!(base, duration_trimmer = RateTrimmer::new(0.5, 2.0, 1.0, 1.0)),
        36 => note_with!(base, duration_trimmer = RateTrimmer::new(2.0, 0.5, 1.0, 1.0)),
        37 => note_with!(base, velocity_trimmer = Trimmer::new(0, 1, 0, 0)),
        38 => note_with!(base, velocity_trimmer = Trimmer::new(0, 0, 1, 0)),
        39 => note_with!(base, channel = Channel::new(1)),
        40 => note_with!(base, channel = Channel::new(15)),
        VALUES.. => value_note(base, v - VALUES),
        _ => panic!("no such note variant"),
    }
}

/// How many variants of a kind the attribute matrix has (numbered from 20).
pub fn matrix_size(k: Kind) -> u16 {
    match k {
        Kind::Note => 21,
        Kind::Bar => 36,
        Kind::Tempo => 5,
        Kind::Dumper | Kind::Soft => 9,
    }
}

pub fn make_bar(tick: u32, v: u16) -> Bar {
    use klavier_core::bar::Repeat;
    let rs = |r: &[Repeat]| r.iter().fold(RepeatSet::EMPTY, |s, x| s.try_add(*x).ok().expect("mark"));
    match v {
        0 => Bar::new(tick, None, None, RepeatSet::EMPTY),
        1 => Bar::new(tick, Some(Rhythm::new(3, 4)), None, RepeatSet::EMPTY),
        2 => Bar::new(tick, None, Some(Key::SHARP_2), rs(&[Repeat::Start])),
        3 => Bar::new(tick, Some(Rhythm::new(2, 4)), Some(Key::FLAT_3), rs(&[Repeat::End, Repeat::Fine])),
        4 => Bar::new(tick, Some(Rhythm::new(1, 16)), None, RepeatSet::EMPTY),
        5 => Bar::new(tick, Some(Rhythm::new(99, 8)), None, RepeatSet::EMPTY),
        6 => Bar::new(tick, None, Some(Key::NONE), RepeatSet::EMPTY),
        20..=55 => {
            let i = v - 20;
            let r = [None, Some(Rhythm::new(3, 4)), Some(Rhythm::new(4, 4))][i as usize % 3];
            let k = [None, Some(Key::NONE), Some(Key::FLAT_3)][i as usize / 3 % 3];
            let m: &[Repeat] = [&[][..], &[Repeat::Start], &[Repeat::End, Repeat::Coda], &[Repeat::Var2, Repeat::Fine]][i as usize / 9];
            Bar::new(tick, r, k, rs(m))
        }
        60..=251 => Bar::new(tick, Some(Rhythm::new(BAR_NUMS[(v - 60) as usize / 6], 2 << ((v - 60) % 6))), None, RepeatSet::EMPTY),
        VALUES.. => value_bar(tick, v - VALUES),
        _ => panic!("no such bar variant"),
    }
}
/// Variants from here on go through every value of every attribute.
pub const VALUES: u16 = 300;
const TRIMS: [i16; 16] = [i16::MIN, -20000, -1000, -257, -256, -129, -128, -1, 1, 127, 128, 255, 256, 1000, 20000, i16::MAX];
const RATES: [u16; 11] = [0, 1, 10, 333, 500, 999, 1001, 1414, 1500, 1999, 2000];

fn value_pitches() -> &'static [Pitch] {
    static P: std::sync::OnceLock<Vec<Pitch>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v = vec![];
        for s in SOLFAS {
            for o in OCTAVES {
                for f in SHARP_FLATS {
                    v.extend(Pitch::value_of(s, o, f).ok());
                }
            }
        }
        v
    })
}
fn value_marks() -> &'static [RepeatSet] {
    static M: std::sync::OnceLock<Vec<RepeatSet>> = std::sync::OnceLock::new();
    M.get_or_init(|| {
        (0..1u16 << REPEATS.len())
            .filter_map(|m| {
                (0..REPEATS.len()).filter(|i| m >> i & 1 == 1).try_fold(RepeatSet::EMPTY, |s, i| s.try_add(REPEATS[i]).ok())
            })
            .collect()
    })
}
/// How many variants there are from `VALUES` on.
pub fn value_count(k: Kind) -> u16 {
    match k {
        Kind::Note => value_pitches().len() as u16 + 64 + 254 + 128 + 16 + 64 + 64 + 44 + 3,
        Kind::Bar => 594 + Key::ALL.len() as u16 + value_marks().len() as u16,
        Kind::Tempo => 999,
        Kind::Dumper | Kind::Soft => 128 + 16,
    }
}
fn value_note(base: Note, i: u16) -> Note {
    use klavier_core::percent::PercentU16;
    let mut i = i as usize;
    let mut within = |n: usize| {
        let r = (i < n).then_some(i);
        i = i.wrapping_sub(n);
        r
    };
    let one = |x: usize| {
        let mut a = [0i16; 4];
        a[x % 4] = TRIMS[x / 4];
        Trimmer::from_array(a)
    };
    if let Some(x) = within(value_pitches().len()) {
        return note_with!(base, pitch = value_pitches()[x]);
    }
    if let Some(x) = within(64) {
        return note_with!(base, duration = dur(x as u8 / 8, 2, x as u8 % 8));
    }
    if let Some(x) = within(254) {
        return note_with!(base, duration = dur(0, x as u8 + 2, 0));
    }
    if let Some(x) = within(128) {
        return note_with!(base, base_velocity = Velocity::new(x as u8));
    }
    if let Some(x) = within(16) {
        return note_with!(base, channel = Channel::new(x as u8));
    }
    if let Some(x) = within(64) {
        return note_with!(base, start_tick_trimmer = one(x));
    }
    if let Some(x) = within(64) {
        return note_with!(base, velocity_trimmer = one(x));
    }
    if let Some(x) = within(44) {
        let mut a = [PercentU16::HUNDRED; 4];
        a[x % 4] = PercentU16::from_value(RATES[x / 4]);
        return note_with!(base, duration_trimmer = RateTrimmer::from_array(a));
    }
    let x = within(3).expect("note value");
    note_with!(base, tie = x != 1, tied = x != 0)
}
fn value_bar(tick: u32, i: u16) -> Bar {
    let i = i as usize;
    if i < 594 {
        return Bar::new(tick, Some(Rhythm::new((i / 6 + 1) as u8, 2 << (i % 6))), None, RepeatSet::EMPTY);
    }
    match Key::ALL.get(i - 594) {
        Some(k) => Bar::new(tick, None, Some(*k), RepeatSet::EMPTY),
        None => Bar::new(tick, None, None, value_marks()[i - 594 - Key::ALL.len()]),
    }
}
/// Rhythm numerators of the bar variants 60..=251 (each with all six denominators).
const BAR_NUMS: [u8; 32] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 31, 32, 33, 63, 64, 65, 98, 99,
];

pub fn make_tempo(tick: u32, v: u16) -> Tempo {
    if VALUES <= v {
        return Tempo::new(tick, v - VALUES + 1);
    }
    Tempo::new(tick, if v < 20 { [90, 150, 1, 999][v as usize] } else { [120, 121, 1, 999, 256][v as usize - 20] })
}

pub fn make_ctrl(tick: u32, v: u16) -> CtrlChg {
    let (vel, ch) = if VALUES <= v {
        let i = v - VALUES;
        if i < 128 { (i as u8, [0, 5, 15][i as usize % 3]) } else { (100, (i - 128) as u8) }
    } else if v < 20 {
        [(127, 0), (0, 0), (64, 9), (1, 15)][v as usize]
    } else {
        let i = v as usize - 20;
        ([0, 1, 127][i % 3], [0, 1, 15][i / 3])
    };
    CtrlChg::new(tick, Velocity::new(vel), Channel::new(ch))
}

pub fn models(items: &[It]) -> Models {
    let mut m = Models::empty();
    for It(k, t, v) in items {
        match k {
            Kind::Note => m.notes.push(make_note(*t, *v)),
            Kind::Bar => m.bars.push(make_bar(*t, *v)),
            Kind::Tempo => m.tempos.push(make_tempo(*t, *v)),
            Kind::Dumper => m.dumpers.push(make_ctrl(*t, *v)),
            Kind::Soft => m.softs.push(make_ctrl(*t, *v)),
        }
    }
    m
}

/// The same, put together with the builder functions.
fn built_models(items: &[It]) -> Models {
    let m = models(items);
    let notes: Vec<Rc<Note>> = m.notes.into_iter().map(Rc::new).collect();
    Models::with_capacity(items.len(), 0, 1, items.len(), 2)
        .with_notes(&notes)
        .with_bars(m.bars)
        .with_tempos(m.tempos)
        .with_dumpers(m.dumpers)
        .with_softs(m.softs)
}

pub fn changes(items: &[(It, It)]) -> ModelChanges {
    let mut m = ModelChanges::empty();
    for (It(k, t, v), It(k2, t2, v2)) in items {
        assert_eq!(k, k2);
        match k {
            Kind::Note => m.notes.push((make_note(*t, *v), make_note(*t2, *v2))),
            Kind::Bar => m.bars.push((make_bar(*t, *v), make_bar(*t2, *v2))),
            Kind::Tempo => m.tempos.push((make_tempo(*t, *v), make_tempo(*t2, *v2))),
            Kind::Dumper => m.dumpers.push((make_ctrl(*t, *v), make_ctrl(*t2, *v2))),
            Kind::Soft => m.softs.push((make_ctrl(*t, *v), make_ctrl(*t2, *v2))),
        }
    }
    m
}

fn built_changes(items: &[(It, It)]) -> ModelChanges {
    let m = changes(items);
    ModelChanges::with_capacity(items.len(), 0, 1, items.len(), 2)
        .with_notes(m.notes)
        .with_bars(m.bars)
        .with_tempos(m.tempos)
        .with_dumpers(m.dumpers)
        .with_softs(m.softs)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Meta {
    pub select: Option<bool>,
    pub dragged: bool,
}
impl Meta {
    pub fn real(self) -> ModelChangeMetadata {
        let mut m = ModelChangeMetadata::new();
        m.dragged = self.dragged;
        match self.select {
            Some(s) => m.with_need_select(s),
            None => m,
        }
    }
}
pub const METAS: [Meta; 6] = [
    Meta { select: Some(true), dragged: false },
    Meta { select: None, dragged: false },
    Meta { select: Some(false), dragged: true },
    Meta { select: Some(true), dragged: true },
    Meta { select: None, dragged: true },
    Meta { select: Some(false), dragged: false },
];

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Add(It, bool),
    BulkAdd(Vec<It>, Meta),
    BulkRemove(Vec<It>, Meta),
    Change(Vec<(It, It)>, Meta),
    Tuplize(Vec<It>),
    SetRhythm(u8, u8),
    SetKey(i8),
    SetGrid(u32),
    Undo,
    Redo,
    Clear,
    /// Written out as a snapshot and read back.
    Reopen,
}

pub fn key_by_ix(k: i8) -> Key {
    Key::ALL.iter().copied().find(|x| x.offset() == k).expect("key")
}

fn reopen(p: &mut ProjectStore) {
    let bytes = bincode::serialize(p.model()).expect("a snapshot must be writable");
    let m = bincode::deserialize(&bytes).expect("a snapshot must be readable");
    p.irreversible_mutate(Box::new(move |x| *x = m));
}

impl Op {
    pub fn apply(&self, p: &mut ProjectStore) {
        match self {
            Op::Add(It(k, t, v), sel) => match k {
                Kind::Note => p.add_note(make_note(*t, *v), *sel),
                Kind::Bar => p.add_bar(make_bar(*t, *v), *sel),
                Kind::Tempo => p.add_tempo(make_tempo(*t, *v), *sel),
                Kind::Dumper => p.add_dumper(make_ctrl(*t, *v), *sel),
                Kind::Soft => p.add_soft(make_ctrl(*t, *v), *sel),
            },
            Op::BulkAdd(i, m) => p.bulk_add(built_models(i), m.real()),
            Op::BulkRemove(i, m) => p.bulk_remove(built_models(i), m.real()),
            Op::Change(i, m) => p.change(built_changes(i), m.real()),
            Op::Tuplize(i) => p.tuplize(i.iter().map(|It(_, t, v)| Rc::new(make_note(*t, *v))).collect()),
            Op::SetRhythm(n, d) => p.set_rhythm(Rhythm::new(*n, *d)),
            Op::SetKey(k) => p.set_key(key_by_ix(*k)),
            Op::SetGrid(g) => p.set_grid(Grid::from_u32(*g).expect("grid")),
            Op::Undo => p.undo(),
            Op::Redo => p.redo(),
            Op::Clear => p.clear_model_events(),
            Op::Reopen => reopen(p),
        }
    }
    pub fn is_edit(&self) -> bool {
        !matches!(self, Op::Undo | Op::Redo | Op::Clear | Op::Reopen)
    }
    /// Does this edit add or change notes, tempos, pedal events (or is it a bulk edit)?
    pub fn replenishes(&self) -> bool {
        match self {
            Op::Add(It(Kind::Bar, ..), _) => false,
            Op::Add(..) | Op::BulkAdd(..) | Op::Change(..) => true,
            Op::Tuplize(n) => n.len() > 1,
            _ => false,
        }
    }
    /// Positions of the bars this edit places itself.
    pub fn named_bars(&self) -> Vec<BarP> {
        match self {
            Op::Add(It(Kind::Bar, t, v), _) => vec![bar_of(&make_bar(*t, *v))],
            Op::BulkAdd(i, _) => models(i).bars.iter().map(bar_of).collect(),
            Op::Change(i, _) => changes(i).bars.iter().map(|(_, b)| bar_of(b)).collect(),
            _ => vec![],
        }
    }
    pub fn meta(&self) -> Option<Meta> {
        match self {
            Op::Add(_, s) => Some(Meta { select: if *s { Some(true) } else { None }, dragged: false }),
            Op::BulkAdd(_, m) | Op::BulkRemove(_, m) | Op::Change(_, m) => Some(*m),
            Op::Tuplize(_) => Some(Meta { select: Some(true), dragged: false }),
            _ => None,
        }
    }
}

trait Keyed: Clone {
    fn tick(&self) -> u32;
}
impl Keyed for BarP {
    fn tick(&self) -> u32 {
        self.tick
    }
}
impl Keyed for TempoP {
    fn tick(&self) -> u32 {
        self.tick
    }
}
impl Keyed for CtrlP {
    fn tick(&self) -> u32 {
        self.tick
    }
}

fn put<T: Keyed>(v: &mut Vec<T>, x: T) {
    match v.iter().position(|y| y.tick() >= x.tick()) {
        Some(i) if v[i].tick() == x.tick() => v[i] = x,
        Some(i) => v.insert(i, x),
        None => v.push(x),
    }
}
fn take<T: Keyed>(v: &mut Vec<T>, tick: u32) -> bool {
    match v.iter().position(|y| y.tick() == tick) {
        Some(i) => {
            v.remove(i);
            true
        }
        None => false,
    }
}
fn change_keyed<T: Keyed>(v: &mut Vec<T>, pairs: Vec<(T, T)>) {
    let hit: Vec<T> = pairs.into_iter().filter(|(f, _)| take(v, f.tick())).map(|(_, t)| t).collect();
    for t in hit {
        put(v, t);
    }
}
fn take_note(v: &mut Vec<NoteP>, n: &NoteP) -> bool {
    match v.iter().position(|y| y == n) {
        Some(i) => {
            v.remove(i);
            true
        }
        None => false,
    }
}

/// What an edit does to the content, not counting automatically added bars.
/// `None`: this reference says nothing about this case.
pub fn reference(pre: &Content, op: &Op) -> Option<Content> {
    let mut c = pre.clone();
    match op {
        Op::Add(It(k, t, v), _) => match k {
            Kind::Note => c.notes.push(note_of(&make_note(*t, *v))),
            Kind::Bar => put(&mut c.bars, bar_of(&make_bar(*t, *v))),
            Kind::Tempo => put(&mut c.tempos, tempo_of(&make_tempo(*t, *v))),
            Kind::Dumper => put(&mut c.dumpers, ctrl_of(&make_ctrl(*t, *v))),
            Kind::Soft => put(&mut c.softs, ctrl_of(&make_ctrl(*t, *v))),
        },
        Op::BulkAdd(i, _) => {
            let m = models(i);
            c.notes.extend(m.notes.iter().map(note_of));
            m.bars.iter().for_each(|b| put(&mut c.bars, bar_of(b)));
            m.tempos.iter().for_each(|b| put(&mut c.tempos, tempo_of(b)));
            m.dumpers.iter().for_each(|b| put(&mut c.dumpers, ctrl_of(b)));
            m.softs.iter().for_each(|b| put(&mut c.softs, ctrl_of(b)));
        }
        Op::BulkRemove(i, _) => {
            let m = models(i);
            for n in &m.notes {
                take_note(&mut c.notes, &note_of(n));
            }
            m.bars.iter().for_each(|b| {
                take(&mut c.bars, b.start_tick);
            });
            m.tempos.iter().for_each(|b| {
                take(&mut c.tempos, b.start_tick);
            });
            m.dumpers.iter().for_each(|b| {
                take(&mut c.dumpers, b.start_tick);
            });
            m.softs.iter().for_each(|b| {
                take(&mut c.softs, b.start_tick);
            });
        }
        Op::Change(i, _) => {
            let m = changes(i);
            let hit: Vec<NoteP> =
                m.notes.iter().filter(|(f, _)| take_note(&mut c.notes, &note_of(f))).map(|(_, t)| note_of(t)).collect();
            c.notes.extend(hit);
            change_keyed(&mut c.bars, m.bars.iter().map(|(f, t)| (bar_of(f), bar_of(t))).collect());
            change_keyed(&mut c.tempos, m.tempos.iter().map(|(f, t)| (tempo_of(f), tempo_of(t))).collect());
            change_keyed(&mut c.dumpers, m.dumpers.iter().map(|(f, t)| (ctrl_of(f), ctrl_of(t))).collect());
            change_keyed(&mut c.softs, m.softs.iter().map(|(f, t)| (ctrl_of(f), ctrl_of(t))).collect());
        }
        Op::Tuplize(i) => {
            if i.len() > 1 {
                let notes: Vec<Rc<Note>> = i.iter().map(|It(_, t, v)| Rc::new(make_note(*t, *v))).collect();
                for n in &notes {
                    if !take_note(&mut c.notes, &note_of(n)) {
                        return None; // a selection always consists of notes of the project
                    }
                }
                c.notes.extend(klavier_core::tuple::tuplize(notes).iter().map(|n| note_of(n)));
            }
        }
        Op::SetRhythm(n, d) => c.rhythm = (*n, *d),
        Op::SetKey(k) => c.key = *k,
        Op::SetGrid(g) => c.grid = *g,
        Op::Undo | Op::Redo => return None,
        Op::Clear | Op::Reopen => {}
    }
    c.notes.sort();
    Some(c)
}

/// Bars that must be added after the last of `c.bars` to cover `end`.
pub fn auto_bars(c: &Content, end: u32) -> Vec<BarP> {
    let mut at = c.bars.last().map(|b| b.tick).unwrap_or(0);
    let len = bar_len(c.rhythm_at(at));
    let mut v = vec![];
    while at < end {
        // past the last position no bar line fits
        let Some(next) = at.checked_add(len) else { break };
        at = next;
        v.push(BarP { tick: at, rhythm: None, key: None, mask: 0 });
    }
    v
}

/// Every way one item of kind `k` can meet another at a position, for two given versions of it.
pub fn matrix_alphabet(k: Kind, v: u16, w: u16, top: bool) -> Vec<Op> {
    let it = |t, v| It(k, t, v);
    let (a, b) = match k {
        _ if top => (0, 960),
        Kind::Bar => (960, 1920),
        _ => (480, 960),
    };
    vec![
        Op::Add(it(a, v), false),
        Op::Add(it(a, w), true),
        Op::Add(it(b, v), true),
        Op::BulkAdd(vec![it(a, w), it(b, v)], METAS[3]),
        Op::BulkAdd(vec![it(a, v), it(a, w)], METAS[1]),
        Op::Change(vec![(it(a, v), it(a, w))], METAS[2]),
        Op::Change(vec![(it(a, w), it(b, v)), (it(b, v), it(a, w))], METAS[0]),
        Op::BulkRemove(vec![it(a, v), it(b, w)], METAS[4]),
        Op::Undo,
        Op::Redo,
    ]
}

/// Items far from the top of the tune, up to the last positions.
pub fn far_alphabet() -> Vec<Op> {
    use Kind::*;
    const E: u32 = u32::MAX;
    vec![
        Op::Add(It(Note, E - 10_000, 1), true),
        Op::Add(It(Note, E - 10_000, 4), false),
        Op::BulkAdd(vec![It(Note, 1 << 31, 3), It(Note, E - 5_000, 9), It(Bar, 1 << 31, 2), It(Bar, E - 1, 3)], METAS[0]),
        Op::BulkAdd(vec![It(Tempo, E, 1), It(Dumper, E - 1, 1), It(Soft, (1 << 31) + 1, 2), It(Tempo, (1 << 31) - 1, 2)], METAS[2]),
        Op::Add(It(Tempo, E, 0), true),
        Op::Add(It(Dumper, 1 << 31, 0), false),
        Op::Add(It(Soft, E, 3), false),
        Op::Change(vec![(It(Note, E - 10_000, 1), It(Note, 0, 0)), (It(Note, 1 << 31, 3), It(Note, E - 7_000, 2))], METAS[3]),
        Op::Change(vec![(It(Tempo, E, 0), It(Tempo, 0, 0)), (It(Dumper, E - 1, 0), It(Dumper, E, 0)), (It(Soft, E, 0), It(Soft, 1 << 31, 0))], METAS[4]),
        Op::Change(vec![(It(Bar, E - 1, 0), It(Bar, 1 << 31, 1)), (It(Bar, 1 << 31, 0), It(Bar, E - 1, 0))], METAS[4]),
        Op::BulkRemove(vec![It(Note, E - 10_000, 1), It(Bar, E - 1, 0), It(Tempo, E, 0), It(Soft, E, 0)], METAS[1]),
        Op::Undo,
        Op::Redo,
    ]
}

/// Items next to the last position there is, beyond which no bar line fits.
pub fn end_alphabet() -> Vec<Op> {
    use Kind::*;
    const E: u32 = u32::MAX;
    vec![
        Op::Add(It(Note, E - 10, 1), true),
        Op::Add(It(Note, E - 1200, 0), false),
        Op::Add(It(Tempo, E, 1), true),
        Op::Add(It(Soft, E - 961, 0), false),
        Op::Add(It(Bar, E - 960, 1), true),
        Op::BulkAdd(vec![It(Note, E - 240, 0), It(Note, E - 3, 0), It(Dumper, E - 2040, 1), It(Bar, E - 2500, 2)], METAS[2]),
        Op::Change(vec![(It(Note, E - 1200, 0), It(Note, E, 3)), (It(Soft, E - 961, 0), It(Soft, E - 960, 1)), (It(Bar, E - 960, 0), It(Bar, E - 959, 0))], METAS[4]),
        Op::Tuplize(vec![It(Note, E - 240, 0), It(Note, E - 3, 0)]),
        Op::BulkRemove(vec![It(Bar, E - 960, 0), It(Bar, E - 2500, 0), It(Tempo, E, 0), It(Note, E - 10, 1)], METAS[1]),
        Op::Undo,
        Op::Redo,
    ]
}

/// Every rhythm and key of the tune; many grids.
pub fn every_setting() -> Vec<Op> {
    let mut v = vec![];
    for num in 1..=99u8 {
        v.extend([2u8, 4, 8, 16, 32, 64].map(|d| Op::SetRhythm(num, d)));
    }
    v.extend((-7..=7i8).map(Op::SetKey));
    v.extend((1..=1000).chain([1023, 1024, 32767, 32768, 65535, 65536, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX]).map(Op::SetGrid));
    v
}

/// Edits that touch `n` items of every kind at once.
pub fn sized_alphabet(n: u32) -> Vec<Op> {
    use Kind::*;
    let note = |i: u32| It(Note, 60 * i, [0, 1, 3, 5][i as usize % 4]);
    let each = |f: &dyn Fn(u32) -> bool| -> Vec<It> {
        (0..n)
            .filter(|i| f(*i))
            .flat_map(|i| {
                let v = (i % 4) as u16;
                [note(i), It(Bar, 480 * (i + 1), v), It(Tempo, 100 * i, v), It(Dumper, 90 * i, v), It(Soft, 110 * i + 5, v)]
            })
            .collect()
    };
    let v = |i: u32| (i % 4) as u16;
    vec![
        Op::BulkAdd(each(&|_| true), METAS[0]),
        Op::BulkAdd(each(&|i| i % 3 == 0), METAS[4]),
        Op::BulkRemove(each(&|i| i % 2 == 1), METAS[1]),
        // every item a little later
        Op::Change(
            each(&|_| true).into_iter().map(|It(k, t, v)| (It(k, t, v), It(k, t + 30, v))).collect(),
            METAS[3],
        ),
        // onto the next one, in reverse, all onto one, half way
        Op::Change(
            (0..n)
                .flat_map(|i| {
                    [
                        (It(Tempo, 100 * i, v(i)), It(Tempo, 100 * (i + 1), v(i + 1))),
                        (It(Dumper, 90 * i, v(i)), It(Dumper, 90 * (n - 1 - i), v(i))),
                        (It(Soft, 110 * i + 5, v(i)), It(Soft, 5, v(i))),
                        (It(Bar, 480 * (i + 1), v(i)), It(Bar, 480 * (i + 1) + if i % 2 == 0 { 240 } else { 0 }, v(i + 1))),
                        (note(i), It(Note, 60 * (i / 2), 1)),
                    ]
                })
                .collect(),
            METAS[2],
        ),
        Op::Tuplize((0..n.min(9)).map(note).collect()),
        // many at one position
        Op::BulkAdd((0..n).map(|i| It(Note, 3000, [0, 1, 8][i as usize % 3])).collect(), METAS[5]),
        Op::BulkRemove((0..n / 2).map(|i| It(Note, 3000, [1, 0][i as usize % 2])).collect(), METAS[0]),
        Op::Add(It(Note, 60 * n + 1000, 4), true),
        Op::Undo,
        Op::Redo,
    ]
}

pub const LONG_EDITS: usize = 10;
/// Step `i` of a long history, of kind `w`.
pub fn long_edit(w: usize, i: usize) -> Op {
    let (t, v) = (i as u32, 20 + (i % 5) as u16);
    match w {
        0 => Op::Add(It(Kind::Note, 480, v), i % 2 == 0),
        1 => Op::Add(It(Kind::Note, 100 * t, 0), i % 3 == 0),
        2 => Op::Change(
            vec![(It(Kind::Note, 100 * t.saturating_sub(1), 0), It(Kind::Note, 480, 20)), (It(Kind::Tempo, 7 * t.saturating_sub(2), 1), It(Kind::Tempo, 7 * t + 3, 0))],
            METAS[i % METAS.len()],
        ),
        3 => Op::Add(It([Kind::Tempo, Kind::Dumper, Kind::Soft][i % 3], 7 * t, 1), i % 2 == 1),
        4 => Op::BulkAdd(
            vec![It(Kind::Bar, 120 * t, (i % 7) as u16), It(Kind::Tempo, 7 * t, 1), It(Kind::Dumper, 11 * t, 0), It(Kind::Soft, 5 * t, 1), It(Kind::Note, 480, 20)],
            METAS[i % METAS.len()],
        ),
        5 => Op::BulkRemove(vec![It(Kind::Note, 480, 20), It(Kind::Note, 480, 21), It(Kind::Bar, 120 * t.saturating_sub(1), 0), It(Kind::Tempo, 7 * t.saturating_sub(3), 0)], METAS[i % METAS.len()]),
        6 => match i % 3 {
            0 => Op::SetKey((i % 15) as i8 - 7),
            1 => Op::SetRhythm((i % 99) as u8 + 1, 4),
            _ => Op::SetGrid(t + 1),
        },
        7 => Op::Add(It(Kind::Bar, 120 * t, (i % 7) as u16), i % 2 == 0),
        8 => Op::Undo,
        _ => Op::Reopen,
    }
}
