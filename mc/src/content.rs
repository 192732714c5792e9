//! Reading the observable content of a project / of items, field by field, through the public
//! interface only. Nothing here uses the serialization or equality of the code under test.
use klavier_core::bar::{Bar, Repeat};
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::{Denominator, Dots, Duration, Numerator};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_core::rhythm::Rhythm;
use klavier_core::sharp_flat::SharpFlat;
use klavier_core::solfa::Solfa;
use klavier_core::tempo::Tempo;
use klavier_helper::bag_store::BagStore;
use klavier_helper::store::Store;
use serdo::undo_store::UndoStore;
use std::rc::Rc;

pub const SOLFAS: [Solfa; 7] = [Solfa::C, Solfa::D, Solfa::E, Solfa::F, Solfa::G, Solfa::A, Solfa::B];
pub const SHARP_FLATS: [SharpFlat; 6] = [
    SharpFlat::Null,
    SharpFlat::Sharp,
    SharpFlat::DoubleSharp,
    SharpFlat::Flat,
    SharpFlat::DoubleFlat,
    SharpFlat::Natural,
];
pub const OCTAVES: [Octave; 11] = [
    Octave::OctM2, Octave::OctM1, Octave::Oct0, Octave::Oct1, Octave::Oct2, Octave::Oct3,
    Octave::Oct4, Octave::Oct5, Octave::Oct6, Octave::Oct7, Octave::Oct8,
];
pub const REPEATS: [Repeat; 11] = [
    Repeat::Start, Repeat::End, Repeat::Dc, Repeat::Fine, Repeat::Ds, Repeat::Segno, Repeat::Coda,
    Repeat::Var1, Repeat::Var2, Repeat::Var3, Repeat::Var4,
];
pub const NUMERATORS: [Numerator; 8] = [
    Numerator::Whole, Numerator::Half, Numerator::Quarter, Numerator::N8th, Numerator::N16th,
    Numerator::N32nd, Numerator::N64th, Numerator::N128th,
];

pub fn solfa_ix(s: Solfa) -> u8 {
    match s {
        Solfa::C => 0,
        Solfa::D => 1,
        Solfa::E => 2,
        Solfa::F => 3,
        Solfa::G => 4,
        Solfa::A => 5,
        Solfa::B => 6,
    }
}
pub fn sf_ix(s: SharpFlat) -> u8 {
    match s {
        SharpFlat::Null => 0,
        SharpFlat::Sharp => 1,
        SharpFlat::DoubleSharp => 2,
        SharpFlat::Flat => 3,
        SharpFlat::DoubleFlat => 4,
        SharpFlat::Natural => 5,
    }
}
/// Semitone shift of an accidental, by name.
pub fn sf_shift(ix: u8) -> i32 {
    [0, 1, 2, -1, -2, 0][ix as usize]
}
pub fn oct_val(o: Octave) -> i32 {
    match o {
        Octave::OctM2 => -2,
        Octave::OctM1 => -1,
        Octave::Oct0 => 0,
        Octave::Oct1 => 1,
        Octave::Oct2 => 2,
        Octave::Oct3 => 3,
        Octave::Oct4 => 4,
        Octave::Oct5 => 5,
        Octave::Oct6 => 6,
        Octave::Oct7 => 7,
        Octave::Oct8 => 8,
    }
}
pub fn num_ix(n: Numerator) -> u8 {
    match n {
        Numerator::Whole => 0,
        Numerator::Half => 1,
        Numerator::Quarter => 2,
        Numerator::N8th => 3,
        Numerator::N16th => 4,
        Numerator::N32nd => 5,
        Numerator::N64th => 6,
        Numerator::N128th => 7,
    }
}
pub fn pct(p: PercentU16) -> u32 {
    // tenths of a percent; saturates on values no editor can produce
    (p.to_f32() as f64 * 1000.0).round() as u32
}
pub fn den_of(d: klavier_core::rhythm::Denominator) -> u8 {
    use klavier_core::rhythm::Denominator as D;
    match d {
        D::D2 => 2,
        D::D4 => 4,
        D::D8 => 8,
        D::D16 => 16,
        D::D32 => 32,
        D::D64 => 64,
    }
}
pub fn rhythm_of(r: Rhythm) -> (u8, u8) {
    (r.numerator.value(), den_of(r.denominator))
}
pub fn mask_of(b: &Bar) -> u16 {
    let mut m = 0;
    for (i, r) in REPEATS.iter().enumerate() {
        if b.repeats.contains(*r) {
            m |= 1 << i;
        }
    }
    m
}
pub fn key_ix(k: Key) -> i8 {
    k.offset()
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct PitchP {
    pub solfa: u8,
    pub oct: i32,
    pub sf: u8,
    pub value: u8,
    pub offset: i8,
}
pub fn pitch_of(p: Pitch) -> PitchP {
    PitchP { solfa: solfa_ix(p.solfa()), oct: oct_val(p.octave()), sf: sf_ix(p.sharp_flat()), value: p.value(), offset: p.score_offset() }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct NoteP {
    pub base: u32,
    pub pitch: PitchP,
    pub num: u8,
    pub den: u8,
    pub dots: u8,
    pub tie: bool,
    pub tied: bool,
    pub vel: u8,
    pub st: [i32; 4],
    pub st_sum: i32,
    pub dt: [u32; 4],
    pub dt_sum: u32,
    pub vt: [i32; 4],
    pub vt_sum: i32,
    pub ch: u8,
    /// effective start, length and velocity as reported
    pub start: u32,
    pub len: u32,
    pub evel: u8,
}

pub fn note_of(n: &Note) -> NoteP {
    let tr = |t: &klavier_core::trimmer::Trimmer| [t.value(0), t.value(1), t.value(2), t.value(3)];
    NoteP {
        base: n.base_start_tick,
        pitch: pitch_of(n.pitch),
        num: num_ix(n.duration.numerator),
        den: n.duration.denominator.value(),
        dots: n.duration.dots.value(),
        tie: n.tie,
        tied: n.tied,
        vel: n.base_velocity.as_u8(),
        st: tr(&n.start_tick_trimmer),
        st_sum: n.start_tick_trimmer.sum(),
        dt: [0, 1, 2, 3].map(|i| pct(n.duration_trimmer.value(i))),
        dt_sum: pct(n.duration_trimmer.sum()),
        vt: tr(&n.velocity_trimmer),
        vt_sum: n.velocity_trimmer.sum(),
        ch: n.channel.as_u8(),
        start: n.start_tick(),
        len: n.tick_len(),
        evel: n.velocity().as_u8(),
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct BarP {
    pub tick: u32,
    pub rhythm: Option<(u8, u8)>,
    pub key: Option<i8>,
    pub mask: u16,
}
pub fn bar_of(b: &Bar) -> BarP {
    BarP { tick: b.start_tick, rhythm: b.rhythm.map(rhythm_of), key: b.key.map(key_ix), mask: mask_of(b) }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct TempoP {
    pub tick: u32,
    pub v: u16,
}
pub fn tempo_of(t: &Tempo) -> TempoP {
    TempoP { tick: t.start_tick, v: t.value.as_u16() }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct CtrlP {
    pub tick: u32,
    pub v: u8,
    pub ch: u8,
}
pub fn ctrl_of(c: &CtrlChg) -> CtrlP {
    CtrlP { tick: c.start_tick, v: c.velocity.as_u8(), ch: c.channel.as_u8() }
}

/// Whole observable content of a project.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
pub struct Content {
    pub rhythm: (u8, u8),
    pub key: i8,
    pub grid: u32,
    pub notes: Vec<NoteP>, // sorted multiset
    pub bars: Vec<BarP>,
    pub tempos: Vec<TempoP>,
    pub dumpers: Vec<CtrlP>,
    pub softs: Vec<CtrlP>,
}

impl Content {
    /// Last position covered by music (exclusive end of notes, position of events); 0 if none.
    pub fn music_end(&self) -> u32 {
        let n = self.notes.iter().map(|n| n.start.saturating_add(n.len)).max().unwrap_or(0);
        let t = self.tempos.iter().map(|t| t.tick).max().unwrap_or(0);
        let d = self.dumpers.iter().map(|t| t.tick).max().unwrap_or(0);
        let s = self.softs.iter().map(|t| t.tick).max().unwrap_or(0);
        n.max(t).max(d).max(s)
    }
    pub fn rhythm_at(&self, tick: u32) -> (u8, u8) {
        self.bars.iter().rev().filter(|b| b.tick <= tick).find_map(|b| b.rhythm).unwrap_or(self.rhythm)
    }
    pub fn key_at(&self, tick: u32) -> i8 {
        self.bars.iter().rev().filter(|b| b.tick <= tick).find_map(|b| b.key).unwrap_or(self.key)
    }
}

pub fn bar_len(r: (u8, u8)) -> u32 {
    960 * r.0 as u32 / r.1 as u32
}

type M = ModelChangeMetadata;
/// The parts of a project, as one of its interfaces shows them.
struct Parts<'a> {
    rhythm: Rhythm,
    key: Key,
    grid: Grid,
    notes: &'a BagStore<u32, Rc<Note>, M>,
    bars: &'a Store<u32, Bar, M>,
    tempos: &'a Store<u32, Tempo, M>,
    dumpers: &'a Store<u32, CtrlChg, M>,
    softs: &'a Store<u32, CtrlChg, M>,
}

/// Read a project.
pub fn read(p: &ProjectImpl) -> Result<Content, String> {
    read_parts(&Parts {
        rhythm: p.rhythm(),
        key: p.key(),
        grid: p.grid(),
        notes: p.note_repo(),
        bars: p.bar_repo(),
        tempos: p.tempo_repo(),
        dumpers: p.dumper_repo(),
        softs: p.soft_repo(),
    })
}

/// Read a project through both interfaces, that of the store (`Project`) and that of its model.
pub fn read_store(s: &ProjectStore) -> Result<Content, String> {
    let m = s.model();
    let c = read(m)?;
    let v = Parts {
        rhythm: Project::rhythm(s),
        key: Project::key(s),
        grid: Project::grid(s),
        notes: Project::note_repo(s),
        bars: Project::bar_repo(s),
        tempos: Project::tempo_repo(s),
        dumpers: Project::dumper_repo(s),
        softs: Project::soft_repo(s),
    };
    let same = std::ptr::eq(v.notes, m.note_repo())
        && std::ptr::eq(v.bars, m.bar_repo())
        && std::ptr::eq(v.tempos, m.tempo_repo())
        && std::ptr::eq(v.dumpers, m.dumper_repo())
        && std::ptr::eq(v.softs, m.soft_repo())
        && rhythm_of(v.rhythm) == c.rhythm
        && key_ix(v.key) == c.key
        && v.grid.as_u32() == c.grid;
    if !same {
        let shown = read_parts(&v)?;
        if shown != c {
            return Err(format!("the project shows {shown:?}, its model {c:?}"));
        }
    }
    Ok(c)
}

/// `Err` when the repositories contradict themselves (order, keys, counts).
fn read_parts(p: &Parts) -> Result<Content, String> {
    let mut notes = vec![];
    let mut prev = 0u32;
    for (k, n) in p.notes.iter() {
        let np = note_of(n);
        if *k != np.start {
            return Err(format!("note filed under position {k} but starts at {}", np.start));
        }
        if *k < prev {
            return Err(format!("notes out of order at {k}"));
        }
        prev = *k;
        notes.push(np);
    }
    if p.notes.len() != notes.len() {
        return Err(format!("note count {} but {} notes", p.notes.len(), notes.len()));
    }
    fn keyed<T>(what: &str, it: impl Iterator<Item = (u32, T)>, tick: impl Fn(&T) -> u32) -> Result<Vec<T>, String> {
        let mut v: Vec<T> = vec![];
        let mut prev: Option<u32> = None;
        for (k, t) in it {
            if k != tick(&t) {
                return Err(format!("{what} filed under position {k} but is at {}", tick(&t)));
            }
            if prev.is_some_and(|p| p >= k) {
                return Err(format!("{what} out of order or doubled at {k}"));
            }
            prev = Some(k);
            v.push(t);
        }
        Ok(v)
    }
    let bars = keyed("bar", p.bars.iter().map(|(k, b)| (*k, bar_of(b))), |b| b.tick)?;
    let tempos = keyed("tempo", p.tempos.iter().map(|(k, b)| (*k, tempo_of(b))), |b| b.tick)?;
    let dumpers = keyed("damper event", p.dumpers.iter().map(|(k, b)| (*k, ctrl_of(b))), |b| b.tick)?;
    let softs = keyed("soft pedal event", p.softs.iter().map(|(k, b)| (*k, ctrl_of(b))), |b| b.tick)?;
    notes.sort();
    Ok(Content { rhythm: rhythm_of(p.rhythm), key: key_ix(p.key), grid: p.grid.as_u32(), notes, bars, tempos, dumpers, softs })
}

/// Content of a list of models, in the given order.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ModelsP {
    pub notes: Vec<NoteP>,
    pub bars: Vec<BarP>,
    pub tempos: Vec<TempoP>,
    pub dumpers: Vec<CtrlP>,
    pub softs: Vec<CtrlP>,
}
impl ModelsP {
    /// In a canonical order: which items there are, not how they are listed.
    pub fn sorted(mut self) -> Self {
        self.notes.sort();
        self.bars.sort();
        self.tempos.sort();
        self.dumpers.sort();
        self.softs.sort();
        self
    }
}
pub fn models_of(m: &Models) -> ModelsP {
    ModelsP {
        notes: m.notes.iter().map(note_of).collect(),
        bars: m.bars.iter().map(bar_of).collect(),
        tempos: m.tempos.iter().map(tempo_of).collect(),
        dumpers: m.dumpers.iter().map(ctrl_of).collect(),
        softs: m.softs.iter().map(ctrl_of).collect(),
    }
}

pub fn dur(num: u8, den: u8, dots: u8) -> Duration {
    Duration::new(NUMERATORS[num as usize], Denominator::from_value(den).unwrap(), Dots::from_value(dots).unwrap())
}
/// Multiset difference description, for messages.
pub fn diff(a: &Content, b: &Content) -> String {
    let mut s = String::new();
    fn d<T: PartialEq + std::fmt::Debug + Clone>(s: &mut String, what: &str, a: &[T], b: &[T]) {
        let mut bb = b.to_vec();
        let mut only_a = vec![];
        for x in a {
            if let Some(i) = bb.iter().position(|y| y == x) {
                bb.remove(i);
            } else {
                only_a.push(x.clone());
            }
        }
        if !only_a.is_empty() || !bb.is_empty() {
            *s += &format!("{what}: expected but missing {only_a:?}; present but not expected {bb:?}. ");
        }
    }
    if a.rhythm != b.rhythm {
        s += &format!("rhythm {:?} instead of {:?}. ", b.rhythm, a.rhythm);
    }
    if a.key != b.key {
        s += &format!("key {:?} instead of {:?}. ", b.key, a.key);
    }
    if a.grid != b.grid {
        s += &format!("grid {:?} instead of {:?}. ", b.grid, a.grid);
    }
    d(&mut s, "notes", &a.notes, &b.notes);
    d(&mut s, "bars", &a.bars, &b.bars);
    d(&mut s, "tempos", &a.tempos, &b.tempos);
    d(&mut s, "dampers", &a.dumpers, &b.dumpers);
    d(&mut s, "softs", &a.softs, &b.softs);
    s
}
