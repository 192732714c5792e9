//! C18 note edits, C24 moving and dragging, C19 tuplets.
use crate::ops::note_with;
use crate::content::*;
use crate::driver::*;
use crate::ops::{make_bar, make_ctrl, make_note, make_tempo};
use crate::pitches::*;
use klavier_core::bar::Bar;
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::have_start_tick::{HaveBaseStartTick, HaveStartTick};
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::tempo::Tempo;
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::tuple::tuplize;
use klavier_core::velocity::Velocity;
use std::rc::Rc;

/// Effective values from the base values and the trims, as documented.
pub fn derive(n: &mut NoteP) {
    n.start = (n.base as i64 + n.st_sum as i64).clamp(0, u32::MAX as i64) as u32;
    let len = dur(n.num, n.den, n.dots).tick_length();
    n.len = (len as u64 * n.dt_sum as u64 / 1000) as u32;
    n.evel = (n.vel as i32 + n.vt_sum).clamp(0, 127) as u8;
}

#[derive(Clone, Copy, Debug)]
enum NOp {
    Num(u8),
    Dur(u8, u8, u8),
    Dots(i32),
    Toggle(u8),
    Tie,
    Up,
    Down,
    Tick(i32, bool),
}

fn nops() -> Vec<NOp> {
    let mut v: Vec<NOp> = (0..8).map(NOp::Num).collect();
    v.extend([NOp::Dur(2, 2, 0), NOp::Dur(3, 3, 1), NOp::Dur(7, 255, 7)]);
    v.extend([i32::MIN, -8, -7, -2, -1, 0, 1, 2, 7, 8, 256, i32::MAX].map(NOp::Dots));
    v.extend([NOp::Toggle(0), NOp::Toggle(1), NOp::Toggle(2), NOp::Tie, NOp::Up, NOp::Down]);
    for d in [i32::MIN, -481, -240, -1, 0, 1, 240, 40000, i32::MAX] {
        v.push(NOp::Tick(d, false));
        v.push(NOp::Tick(d, true));
    }
    v
}

fn nrun(n: &Note, op: NOp) -> Result<Note, ()> {
    match op {
        NOp::Num(k) => Ok(n.with_duration_numerator(NUMERATORS[k as usize])),
        NOp::Dur(a, b, c) => Ok(n.with_duration(dur(a, b, c))),
        NOp::Dots(d) => n.add_dots(d).map_err(|_| ()),
        NOp::Toggle(0) => n.toggle_sharp().map_err(|_| ()),
        NOp::Toggle(1) => n.toggle_flat().map_err(|_| ()),
        NOp::Toggle(_) => n.toggle_natural().map_err(|_| ()),
        NOp::Tie => Ok(n.toggle_tie()),
        NOp::Up => n.up_score_offset().map_err(|_| ()),
        NOp::Down => n.down_score_offset().map_err(|_| ()),
        NOp::Tick(d, trim) => n.with_tick_added(d, trim).map_err(|_| ()),
    }
}

/// Judge one edit. Returns false after reporting.
fn njudge(ctx: &Ctx, m: &NoteP, op: NOp, got: &Result<Note, ()>, how: &dyn Fn() -> String) -> bool {
    let mut e = m.clone();
    let mut expected_err = false;
    let mut either = false;
    match op {
        NOp::Num(k) => e.num = k,
        NOp::Dur(a, b, c) => (e.num, e.den, e.dots) = (a, b, c),
        NOp::Dots(d) => {
            let x = m.dots as i64 + d as i64;
            if (0..=7).contains(&x) {
                e.dots = x as u8
            } else {
                expected_err = true
            }
        }
        NOp::Toggle(w) => match expect_toggle(&m.pitch, w) {
            Some(p) => e.pitch = p,
            None => expected_err = true,
        },
        NOp::Up | NOp::Down => match expect_shift(&m.pitch, if matches!(op, NOp::Up) { 1 } else { -1 }) {
            Some(p) => {
                e.pitch = p;
                either = p.offset > 74;
            }
            None => expected_err = true,
        },
        NOp::Tie => {
            (e.tie, e.tied) = match (m.tie, m.tied) {
                (false, false) => (true, false),
                (true, false) => (false, true),
                (false, true) => (true, true),
                (true, true) => (false, false),
            }
        }
        NOp::Tick(d, false) => {
            let x = m.base as i64 + d as i64;
            if x < 0 {
                expected_err = true
            } else {
                e.base = x as u32
            }
        }
        NOp::Tick(d, true) => {
            // the trim takes up the shift, up to its limit; which part takes it up is its business.
            // A shift before the start of the tune may be refused.
            let x = m.base as i64 + d as i64;
            either = x < 0;
            e.st_sum = (m.st_sum as i64 + d as i64).clamp(4 * i16::MIN as i64, 4 * i16::MAX as i64) as i32;
            if let Ok(g) = got {
                e.st = note_of(g).st;
                if e.st.iter().sum::<i32>() != e.st_sum {
                    ctx.violation("trim", format!("trim {} shifted by {d} has parts {:?}", m.st_sum, e.st), how());
                    return false;
                }
            }
        }
    }
    derive(&mut e);
    match got {
        Err(()) if expected_err || either => true,
        Err(()) => {
            ctx.violation("refused", format!("{op:?} on {m:?} was refused"), how());
            false
        }
        Ok(g) if expected_err => {
            ctx.violation("not-refused", format!("{op:?} on {m:?} gave {:?} instead of an error", note_of(g)), how());
            false
        }
        Ok(g) => {
            let g = note_of(g);
            if g != e {
                ctx.violation("edit", format!("{op:?} on {m:?}:\nexpected {e:?}\ngot      {g:?}"), how());
                return false;
            }
            true
        }
    }
}

pub fn c18(ctx: &Ctx) {
    let ops = nops();
    // every pair of accidentals at the ends of the range included
    let p = |o: usize, s: usize, f: usize| Pitch::value_of(SOLFAS[s], OCTAVES[o], SHARP_FLATS[f]).expect("pitch");
    let t4 = |a, b, c, d| Trimmer::new(a, b, c, d);
    let mut bases: Vec<Note> = (0..10).map(|v| make_note(480, v)).collect();
    bases.push(note_with!(make_note(0, 2), pitch = p(0, 0, 0)));
    bases.push(note_with!(make_note(1, 5), pitch = p(10, 4, 0), start_tick_trimmer = t4(32767, 32767, -5, 100)));
    bases.push(note_with!(make_note(100_000, 1), pitch = p(10, 4, 4), velocity_trimmer = t4(-32768, -32768, -32768, -32768), tie = true, tied = true));
    bases.push(note_with!(make_note(1 << 31, 2), pitch = p(5, 6, 5), velocity_trimmer = t4(32767, 1, 0, 32767), duration_trimmer = RateTrimmer::new(0.333, 1.5, 2.0, 0.1)));
    let depth = ctx.pick(4, 5);
    let units: Vec<(usize, usize)> = (0..bases.len()).flat_map(|b| (0..ops.len()).map(move |o| (b, o))).collect();
    ctx.par(units.len(), |u, t| {
        let (b, o) = units[u];
        fn go(ctx: &Ctx, t: &mut Tally, ops: &[NOp], b: usize, n: &Note, first: Option<usize>, path: &mut Vec<usize>, left: usize) {
            if left == 0 || ctx.stopped() {
                t.traces += 1;
                return;
            }
            let m = note_of(n);
            for i in 0..ops.len() {
                if first.is_some_and(|f| f != i) {
                    continue;
                }
                path.push(i);
                t.transitions += 1;
                // positions far outside the tune are not followed any further
                let skip = matches!(ops[i], NOp::Tick(d, false) if m.base as i64 + d as i64 > 1 << 32);
                if !skip {
                    let how = || format!("base note {b}; {}", path.iter().map(|i| format!("{:?}", ops[*i])).collect::<Vec<_>>().join(", "));
                    match guard(|| {
                        let got = nrun(n, ops[i]);
                        let ok = njudge(ctx, &m, ops[i], &got, &how);
                        if !ok || got.as_ref().is_ok_and(|g| g.base_start_tick > 1 << 31) {
                            Err(())
                        } else {
                            got
                        }
                    }) {
                        Ok(Ok(g)) => go(ctx, t, ops, b, &g, None, path, left - 1),
                        Ok(Err(())) => {}
                        Err(e) => ctx.violation("panic", format!("{:?} crashed: {}", ops[i], e.0), how()),
                    }
                }
                path.pop();
            }
        }
        at(&[0, b as u64, o as u64]);
        if o == 0 {
            t.states += 1;
        }
        go(ctx, t, &ops, b, &bases[b], Some(o), &mut vec![], depth);
    });
    // effective values over a grid of base values and trims
    let tv: [i16; 12] = [i16::MIN, -128, -127, -64, -30, 0, 1, 30, 63, 127, 128, i16::MAX];
    let rates: [u16; 9] = [0, 1, 333, 500, 999, 1000, 1001, 1500, 2000];
    let ticks = [0u32, 1, 29, 30, 31, 240, 32767, 32768, 131_068, 131_072, 1 << 31, u32::MAX - 5, u32::MAX];
    let bad = |ctx: &Ctx, what: &str, exp: u64, got: u64, n: &Note| {
        ctx.violation("effective", format!("effective {what} is {got}, expected {exp}"), format!("{:?}", note_of(n)))
    };
    ctx.par(12 * 12 * 12 * 12, |u, t| {
        let tr = t4(tv[u % 12], tv[u / 12 % 12], tv[u / 144 % 12], tv[u / 1728]);
        let sum: i64 = [u % 12, u / 12 % 12, u / 144 % 12, u / 1728].iter().map(|i| tv[*i] as i64).sum();
        at(&[1, u as u64]);
        let r = guard(|| {
            for tick in ticks {
                let n = note_with!(make_note(tick, 0), start_tick_trimmer = tr);
                let exp = (tick as i64 + sum).clamp(0, u32::MAX as i64) as u64;
                if n.start_tick() as u64 != exp {
                    bad(ctx, "start", exp, n.start_tick() as u64, &n);
                }
            }
            for v in 0..128u8 {
                let n = note_with!(make_note(0, 0), velocity_trimmer = tr, base_velocity = Velocity::new(v));
                let exp = (v as i64 + sum).clamp(0, 127) as u64;
                if n.velocity().as_u8() as u64 != exp {
                    bad(ctx, "velocity", exp, n.velocity().as_u8() as u64, &n);
                }
                if n.base_velocity().as_u8() != v {
                    bad(ctx, "base velocity", v as u64, n.base_velocity().as_u8() as u64, &n);
                }
            }
        });
        t.transitions += 128 + ticks.len() as u64;
        t.traces += 128 + ticks.len() as u64;
        t.states += 1;
        if let Err(p) = r {
            ctx.violation("panic", format!("effective values crashed: {}", p.0), format!("trim number {u}"));
        }
    });
    ctx.par(9 * 9 * 9 * 9, |u, t| {
        let ix = [u % 9, u / 9 % 9, u / 81 % 9, u / 729];
        let dt = RateTrimmer::from_array(ix.map(|i| PercentU16::from_value(rates[i])));
        let total = pct(dt.sum()) as u64;
        at(&[2, u as u64]);
        let r = guard(|| {
            for num in 0..8 {
                for dots in 0..8 {
                    for den in [2u8, 3, 5, 7, 12, 255] {
                        let d = dur(num, den, dots);
                        let n = note_with!(make_note(0, 0), duration_trimmer = dt, duration = d);
                        let exp = d.tick_length() as u64 * total / 1000;
                        if n.tick_len() as u64 != exp {
                            bad(ctx, "length", exp, n.tick_len() as u64, &n);
                        }
                    }
                }
            }
        });
        t.transitions += 8 * 8 * 6;
        t.traces += 8 * 8 * 6;
        t.states += 1;
        if let Err(p) = r {
            ctx.violation("panic", format!("effective length crashed: {}", p.0), format!("rate trim number {u}"));
        }
    });
    ctx.sample(|| format!("base note 3; {:?}, {:?}, {:?}", ops[14], ops[20], ops[23]));
    ctx.bound("edit sequences", format!("all sequences of {depth} of {} edits from {} notes", ops.len(), bases.len()));
    ctx.bound("effective values", "12^4 trims x 13 positions and 128 velocities; 9^4 rate trims x 384 durations");
}

// ---------------- C24 ----------------

const TICKS: [u32; 20] = [
    0, 1, 2, 59, 60, 239, 240, 959, 960, 32767, 32768, 65535, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, 3 << 30, u32::MAX - 960, u32::MAX - 1, u32::MAX,
];

fn deltas() -> Vec<i32> {
    let mut v: Vec<i32> = vec![i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX];
    for t in TICKS {
        for x in [-(t as i64), t as i64, -(t as i64) - 1, -(t as i64) + 1] {
            if let Ok(x) = i32::try_from(x) {
                v.push(x);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn drag_pitch(p: &PitchP, delta: i32) -> Vec<PitchP> {
    // where a drag may end: as far as asked, or at the outermost pitch with the same accidental
    let d = delta.clamp(-127, 127) as i64;
    let far = |max: i8| {
        let mut k = d;
        loop {
            match expect_shift(p, k) {
                Some(q) if q.offset <= max || k == 0 => return q,
                _ if k == 0 => return *p,
                _ => k -= k.signum(),
            }
        }
    };
    vec![far(74), far(76)]
}

/// A selection (kind, position), moved to each target.
fn judge_selection(ctx: &Ctx, t: &mut Tally, sel: &[(u8, u32)], targets: &[u32]) {
    t.states += 1;
    let mut m = Models::empty();
    for (k, tick) in sel {
        match k {
            0 => m.notes.push(make_note(*tick, 1)),
            1 => m.notes.push(make_note(*tick, 4)), // start trimmed by -200
            2 => m.bars.push(make_bar(*tick, 3)),
            3 => m.tempos.push(make_tempo(*tick, 1)),
            4 => m.dumpers.push(make_ctrl(*tick, 2)),
            _ => m.softs.push(make_ctrl(*tick, 3)),
        }
    }
    let before = models_of(&m);
    let min = sel.iter().map(|s| s.1).min();
    let shown = &sel[..sel.len().min(50)];
    for target in targets {
        t.transitions += 1;
        t.traces += 1;
        let off = min.map(|m| *target as i64 - m as i64).unwrap_or(0);
        let mut e = before.clone();
        let mv = |x: &mut u32| *x = (*x as i64 + off).min(u32::MAX as i64) as u32;
        e.notes.iter_mut().for_each(|n| {
            mv(&mut n.base);
            derive(n)
        });
        e.bars.iter_mut().for_each(|b| mv(&mut b.tick));
        e.tempos.iter_mut().for_each(|b| mv(&mut b.tick));
        e.dumpers.iter_mut().for_each(|b| mv(&mut b.tick));
        e.softs.iter_mut().for_each(|b| mv(&mut b.tick));
        let e = e.sorted();
        match guard(|| models_of(&m.clone().move_to_tick(*target)).sorted()) {
            Ok(g) if g == e => {}
            Ok(g) if sel.len() <= 50 => ctx.violation("selection", format!("selection {sel:?} moved to {target}: expected {e:?}, got {g:?}"), format!("{sel:?}")),
            Ok(_) => ctx.violation("selection", format!("selection of {} items, {shown:?} and so on, moved to {target}: distances or attributes changed", sel.len()), format!("{shown:?}")),
            Err(p) => ctx.violation("panic", format!("moving {shown:?} to {target} crashed: {}", p.0), format!("{shown:?}")),
        }
    }
}

/// Where an item is written, and where it takes effect.
trait Positions {
    fn positions(&self) -> (u32, u32);
}
impl Positions for NoteP {
    fn positions(&self) -> (u32, u32) {
        (self.base, self.start)
    }
}
impl Positions for BarP {
    fn positions(&self) -> (u32, u32) {
        (self.tick, self.tick)
    }
}
impl Positions for TempoP {
    fn positions(&self) -> (u32, u32) {
        (self.tick, self.tick)
    }
}
impl Positions for CtrlP {
    fn positions(&self) -> (u32, u32) {
        (self.tick, self.tick)
    }
}

pub fn c24(ctx: &Ctx) {
    let ds = deltas();
    let dense: Vec<u32> = (0..=ctx.pick(130, ctx.deepen(700, 3000))).collect();
    let dd = ctx.pick(200, ctx.deepen(900, 3100));
    let mut cases: Vec<(u32, Vec<i32>)> = TICKS.iter().map(|t| (*t, ds.clone())).collect();
    cases.extend(dense.iter().map(|t| (*t, (-dd..=dd).collect())));
    ctx.par(cases.len(), |u, t| {
        let (tick, ds) = &cases[u];
        t.states += 1;
        at(&[0, *tick as u64]);
        let r = guard(|| {
            for d in ds {
                let x = *tick as i64 + *d as i64;
                let fits = (0..=u32::MAX as i64).contains(&x);
                macro_rules! judge {
                    ($kind:expr, $item:expr, $of:expr, $setter:expr, $with:expr, $drag:expr) => {{
                        let item = $item;
                        let m = $of(&item);
                        t.transitions += 2;
                        t.traces += 2;
                        let how = || format!("{} at {tick} moved by {d}", $kind);
                        match $with(&item) {
                            Err(()) if !fits => {}
                            Err(()) => ctx.violation("refused", "the move was refused", how()),
                            Ok(g) if !fits => ctx.violation("wrapped", format!("a move to {x} gave {:?}", $of(&g)), how()),
                            Ok(g) => {
                                let mut e = m.clone();
                                $setter(&mut e, x as u32);
                                if $of(&g) != e {
                                    ctx.violation("move", format!("expected {e:?}, got {:?}", $of(&g)), how());
                                }
                            }
                        }
                        let dragged = $drag(&item);
                        let g = $of(&dragged);
                        let mut e = m.clone();
                        $setter(&mut e, x.clamp(0, u32::MAX as i64) as u32);
                        if g != e {
                            ctx.violation("drag", format!("dragged: expected {e:?}, got {g:?}"), how());
                        }
                        let told = (HaveBaseStartTick::base_start_tick(&dragged), HaveStartTick::start_tick(&dragged));
                        if told != e.positions() {
                            ctx.violation("position", format!("{dragged:?} says that its positions are {told:?}"), how());
                        }
                    }};
                }
                for v in [0, 3, 5] {
                    judge!("note", make_note(*tick, v), note_of, |e: &mut NoteP, x: u32| { e.base = x; derive(e) },
                        |n: &Note| n.with_tick_added(*d, false).map_err(|_| ()), |n: &Note| n.drag(*d, 0));
                }
                for v in [1, 2, 3] {
                    judge!("bar", make_bar(*tick, v), bar_of, |e: &mut BarP, x: u32| e.tick = x,
                        |n: &Bar| n.with_tick_added(*d).map_err(|_| ()), |n: &Bar| n.drag(*d));
                }
                judge!("tempo", make_tempo(*tick, 1), tempo_of, |e: &mut TempoP, x: u32| e.tick = x,
                    |n: &Tempo| n.with_tick_added(*d).map_err(|_| ()), |n: &Tempo| n.drag(*d, 0));
                judge!("pedal event", make_ctrl(*tick, 2), ctrl_of, |e: &mut CtrlP, x: u32| e.tick = x,
                    |n: &CtrlChg| n.with_tick_added(*d).map_err(|_| ()), |n: &CtrlChg| n.drag(*d));
            }
        });
        if let Err(p) = r {
            ctx.violation("panic", format!("moving an item at {tick} crashed: {}", p.0), format!("position {tick}"));
        }
    });
    // drag of pitch: all pitches x all staff distances
    let mut all: Vec<Pitch> = vec![];
    for s in SOLFAS {
        for o in OCTAVES {
            for f in SHARP_FLATS {
                if let Ok(p) = Pitch::value_of(s, o, f) {
                    all.push(p);
                }
            }
        }
    }
    let far = [i32::MIN, i32::MIN + 1, -70000, -65536, -32768, -256, 256, 32768, 65536, 70000, i32::MAX - 75, i32::MAX];
    ctx.par(all.len(), |u, t| {
        at(&[1, u as u64]);
        let r = guard(|| {
            for (tick, td) in [(0u32, 0i32), (0, -5), (480, 7), (480, -481), (1 << 31, i32::MIN)] {
                for sd in (-180..=180).chain(far) {
                    let n = note_with!(make_note(tick, 2), pitch = all[u]);
                    t.transitions += 1;
                    t.traces += 1;
                    let m = note_of(&n);
                    let g = note_of(&n.drag(td, sd));
                    let ok = drag_pitch(&m.pitch, sd).iter().any(|p| {
                        let mut e = m.clone();
                        e.pitch = *p;
                        e.base = (tick as i64 + td as i64).max(0) as u32;
                        derive(&mut e);
                        e == g
                    });
                    if !ok {
                        ctx.violation("drag-pitch", format!("{:?} at {tick} dragged by {td} and {sd} steps: {g:?}", m.pitch), format!("{m:?}"));
                    }
                }
            }
        });
        t.states += 1;
        if let Err(p) = r {
            ctx.violation("panic", format!("dragging a note crashed: {}", p.0), format!("{:?}", pitch_of(all[u])));
        }
    });
    // drag of tempo: all values x all distances
    let farv = [i32::MIN, i32::MIN + 1, -70000, -65536, 65534, 65536, 70000, i32::MAX - 1, i32::MAX];
    ctx.par(999, |u, t| {
        let v = u as u16 + 1;
        at(&[2, v as u64]);
        let r = guard(|| {
            for td in (-1100..=1100).chain(farv) {
                t.transitions += 1;
                t.traces += 1;
                let g = tempo_of(&Tempo::new(7, v).drag(if td % 2 == 0 { 3 } else { -8 }, td));
                let e = TempoP { tick: if td % 2 == 0 { 10 } else { 0 }, v: (v as i64 + td as i64).clamp(1, 999) as u16 };
                if g != e {
                    ctx.violation("drag-tempo", format!("tempo {v} dragged by {td}: expected {e:?}, got {g:?}"), "Tempo::drag");
                }
            }
        });
        t.states += 1;
        if let Err(p) = r {
            ctx.violation("panic", format!("dragging tempo {v} crashed: {}", p.0), "Tempo::drag");
        }
    });
    // moving a selection
    let ticks = [0u32, 1, 240, 961, 1 << 20, u32::MAX - 240];
    let targets = [0u32, 1, 100, 240, 960, 1 << 20, 1 << 31, u32::MAX - 241, u32::MAX];
    let mut items: Vec<(u8, u32)> = vec![];
    for k in 0..6u8 {
        for t in ticks {
            items.push((k, t));
        }
    }
    let n = items.len();
    let maxlen = ctx.pick(3, 5);
    let mut total = 0usize;
    for l in 0..=maxlen {
        total += n.pow(l as u32);
    }
    let chunk = 4096;
    ctx.par(total.div_ceil(chunk), |c, t| {
        for mut u in c * chunk..((c + 1) * chunk).min(total) {
            let mut l = 0u32;
            while u >= n.pow(l) {
                u -= n.pow(l);
                l += 1;
            }
            // order within a kind matters, order between kinds does not: canonical by kind
            let sel: Vec<(u8, u32)> = (0..l).map(|i| items[u / n.pow(i) % n]).collect();
            if sel.windows(2).any(|w| w[0].0 > w[1].0) {
                continue;
            }
            at(&[3, u as u64, l as u64]);
            judge_selection(ctx, t, &sel, &targets);
        }
    });
    // notes with every trim part in use, moved by position and by trim
    let parts = [0i16, 7, -31, i16::MAX, i16::MIN];
    let tick_few = [0u32, 1, 480, 40_000, u32::MAX - 100];
    let ds_few = [i32::MIN, -200_000, -131_068, -32_768, -481, -480, -100, -1, 0, 1, 100, 240, 32_767, 65_535, 131_068, 131_072, 200_000, i32::MAX];
    ctx.par(625, |u, t| {
        at(&[4, u as u64]);
        t.states += 1;
        let ix = [u % 5, u / 5 % 5, u / 25 % 5, u / 125];
        let tr = |k: usize| Trimmer::new(parts[ix[k % 4]], parts[ix[(k + 1) % 4]], parts[ix[(k + 2) % 4]], parts[ix[(k + 3) % 4]]);
        let rate = |k: usize| PercentU16::from_value([1000u16, 500, 1500, 2000, 0][ix[k]]);
        let r = guard(|| {
            for tick in tick_few {
                let n = note_with!(make_note(tick, 2), start_tick_trimmer = tr(0), velocity_trimmer = tr(1), duration_trimmer = RateTrimmer::from_array([rate(0), rate(1), rate(2), rate(3)]));
                let m = note_of(&n);
                for d in ds_few {
                    t.transitions += 3;
                    t.traces += 3;
                    let how = || format!("note at {tick} with trim {ix:?} of {parts:?} moved by {d}");
                    let op = NOp::Tick(d, true);
                    njudge(ctx, &m, op, &nrun(&n, op), &how);
                    let x = tick as i64 + d as i64;
                    let fits = (0..=u32::MAX as i64).contains(&x);
                    let mut e = m.clone();
                    e.base = x.clamp(0, u32::MAX as i64) as u32;
                    derive(&mut e);
                    match n.with_tick_added(d, false) {
                        Ok(g) if !fits || note_of(&g) != e => ctx.violation("move", format!("expected {e:?} (in range: {fits}), got {:?}", note_of(&g)), how()),
                        Err(_) if fits => ctx.violation("refused", "the move was refused", how()),
                        _ => {}
                    }
                    let dragged = n.drag(d, 0);
                    let g = note_of(&dragged);
                    if g != e {
                        ctx.violation("drag", format!("dragged: expected {e:?}, got {g:?}"), how());
                    }
                    let rc = Rc::new(dragged);
                    let told = [
                        (HaveBaseStartTick::base_start_tick(&*rc), HaveStartTick::start_tick(&*rc)),
                        (HaveBaseStartTick::base_start_tick(&rc), HaveStartTick::start_tick(&rc)),
                    ];
                    if told != [e.positions(); 2] {
                        ctx.violation("position", format!("{rc:?} says that its positions are {told:?}"), how());
                    }
                }
            }
        });
        if let Err(p) = r {
            ctx.violation("panic", format!("moving a note crashed: {}", p.0), format!("trim {ix:?} of {parts:?}"));
        }
    });
    ctx.bound("moves of trimmed notes", format!("all 625 trims of 4 parts of {parts:?} x {} positions x {} distances, as a move, a trim and a drag", tick_few.len(), ds_few.len()));
    // selections: how many of each kind, and which item is the earliest
    let per = ctx.pick(4usize, ctx.deepen(6, 8));
    ctx.bound("selections by number", format!("0 to {} items of each of 6 kinds x every item the earliest x {} targets; 10 to 70000 items", per - 1, targets.len()));
    ctx.par(per.pow(6), |u, t| {
        let counts: Vec<usize> = (0..6).map(|k| u / per.pow(k) % per).collect();
        let all: Vec<(u8, usize)> = (0..6u8).flat_map(|k| (0..counts[k as usize]).map(move |j| (k, j))).collect();
        for first in 0..all.len() {
            at(&[5, u as u64, first as u64]);
            let sel: Vec<(u8, u32)> =
                all.iter().enumerate().map(|(i, (k, j))| (*k, if i == first { 120 } else { 1000 + 37 * *k as u32 + 240 * (j * 5 % 7) as u32 })).collect();
            judge_selection(ctx, t, &sel, &targets);
        }
    });
    let big = [10usize, 100, 257, 1000, 70_000];
    ctx.par(big.len() * 18, |u, t| {
        let (n, k0, place) = (big[u / 18], (u % 6) as u8, u / 6 % 3);
        let first = [0, n / 2, n - 1][place];
        let sel: Vec<(u8, u32)> = (0..6u8)
            .flat_map(|k| (0..n).map(move |j| (k, if k == k0 && j == first { 120 } else { 1000 + 13 * k as u32 + 30 * (j * 7 % n) as u32 })))
            .collect();
        at(&[6, u as u64]);
        judge_selection(ctx, t, &sel, &[0, 1, 120, 5000, 1 << 31, u32::MAX - 5000]);
    });
    ctx.sample(|| "selection [(1, 961), (2, 0), (4, 240)] moved to 960".to_string());
    ctx.bound("positions", format!("{} positions x {} distances, and all positions 0-{} x all distances +-{dd}", TICKS.len(), ds.len(), dense.len() - 1));
    ctx.bound("pitch drags", format!("{} pitches x {} staff distances x 5 position drags", all.len(), 361 + far.len()));
    ctx.bound("tempo drags", "999 values x 2210 distances");
    ctx.bound("selections", format!("all selections of up to {maxlen} of {n} items x {} targets", targets.len()));
}

// ---------------- C19 ----------------

fn unit(num: u8, dots: u8) -> u64 {
    // in 1/256 notes; exact when num + dots <= 8
    let u = 256u64 >> num;
    2 * u - (u >> dots)
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}

/// one note of a group: (position, (numerator, dots), tuplet denominator before)
type G = (u32, (u8, u8), u8);

fn judge_tuplet(ctx: &Ctx, g: &[G]) -> Option<bool> {
    // each note carries its number in its velocity and channel, so that it can be told apart
    let notes: Vec<Rc<Note>> = g
        .iter()
        .enumerate()
        .map(|(i, (t, (num, dots), den))| {
            Rc::new(note_with!(make_note(0, [0, 1, 2, 3, 5][i % 5]), base_start_tick = *t, duration = dur(*num, *den, *dots), base_velocity = Velocity::new((i % 120) as u8), channel = Channel::new((i / 120) as u8)))
        })
        .collect();
    let before: Vec<NoteP> = notes.iter().map(|n| note_of(n)).collect();
    let how = || format!("group (position, (value, dots), denominator): {g:?}");
    let after: Vec<NoteP> = match guard(|| tuplize(notes.clone()).iter().map(|n| note_of(n)).collect::<Vec<_>>()) {
        Ok(a) => a,
        Err(p) => {
            ctx.violation("panic", format!("making a tuplet crashed: {}", p.0), how());
            return None;
        }
    };
    // groups: stable by position
    let mut order: Vec<usize> = (0..g.len()).collect();
    order.sort_by_key(|i| g[*i].0);
    let mut groups: Vec<(Vec<usize>, u64, u64)> = vec![]; // members, unit, ticks
    let len2 = |d: (u8, u8)| dur(d.0, 2, d.1).tick_length() as u64;
    for i in order {
        let (u, l) = (unit(g[i].1 .0, g[i].1 .1), len2(g[i].1));
        match groups.last_mut() {
            Some(x) if g[x.0[0]].0 == g[i].0 => {
                if (u < x.1) != (l < x.2) && u != x.1 {
                    return None; // rounding hides which note of the chord is the shorter one
                }
                x.0.push(i);
                if u < x.1 {
                    x.1 = u;
                    x.2 = l;
                }
            }
            _ => groups.push((vec![i], u, l)),
        }
    }
    let total_unit: u64 = groups.iter().map(|x| x.1).sum();
    let total_tick: u64 = groups.iter().map(|x| x.2).sum();
    let unit = g.iter().fold(0, |a, x| gcd(a, unit(x.1 .0, x.1 .1)));
    let n = if unit == 0 { 0 } else { total_unit / unit };
    if !(2..=255).contains(&n) {
        if after != before {
            ctx.violation("unchanged", format!("no tuplet can be formed (n = {n}), but the selection came back as {after:?}"), how());
        }
        return Some(false);
    }
    // past the last position there is no place for a note
    let first = g.iter().map(|x| x.0).min().unwrap() as u64;
    let before_last = total_unit - groups.last().unwrap().1;
    let last_start = first + 2 * total_tick * before_last / (n * total_unit);
    if last_start > u32::MAX as u64 + 4 {
        if after != before {
            ctx.violation("unchanged", format!("the tuplet does not fit before the last position, but the selection came back as {after:?}"), how());
        }
        return Some(false);
    }
    if first + 2 * total_tick / n > u32::MAX as u64 && after == before {
        return Some(false); // its last note would sound on past the last position
    }
    if after.len() != before.len() {
        ctx.violation("count", format!("{} notes became {}", before.len(), after.len()), how());
        return Some(true);
    }
    let id = |n: &NoteP| n.vel as usize + 120 * n.ch as usize;
    let mut got: Vec<Option<&NoteP>> = vec![None; before.len()];
    for a in &after {
        match got.get_mut(id(a)) {
            Some(s @ None) => *s = Some(a),
            _ => {
                ctx.violation("count", "a note is there twice, or an unknown one appeared", how());
                return Some(true);
            }
        }
    }
    let mut u = 0u64;
    for (members, gu, _) in &groups {
        // exact place: first + 2 * T * u / (n * U)
        let (num, den) = (2 * total_tick * u, n * total_unit);
        for i in members {
            let a = got[*i].unwrap();
            let off = a.base as i64 - first as i64;
            let exact = num % den == 0 && total_tick % n == 0;
            let ok = if u == 0 {
                off == 0
            } else if exact {
                off == (num / den) as i64
            } else {
                off * (den as i64) < (num + den) as i64 && (off + 3) * den as i64 > num as i64
            };
            if !ok {
                ctx.violation("place", format!("note {i} starts {off} ticks into the group, its place is {num}/{den}"), how());
                return Some(true);
            }
            let mut e = before[*i].clone();
            e.den = n as u8;
            e.base = a.base;
            derive(&mut e);
            if *a != e {
                ctx.violation("attributes", format!("expected {e:?}, got {a:?}"), how());
                return Some(true);
            }
        }
        if members.iter().any(|i| got[*i].unwrap().base != got[members[0]].unwrap().base) {
            ctx.violation("chord", "notes of one chord no longer start together", how());
            return Some(true);
        }
        u += gu;
    }
    let starts: Vec<u32> = groups.iter().map(|x| got[x.0[0]].unwrap().base).collect();
    if starts.windows(2).any(|w| w[0] > w[1]) {
        ctx.violation("order", format!("the notes changed order: {starts:?}"), how());
    }
    // after all: no position is listed out of order
    if after.windows(2).any(|w| w[0].base > w[1].base) {
        ctx.violation("order", "the notes are not returned in playing order", how());
    }
    Some(true)
}

pub fn c19(ctx: &Ctx) {
    let durs: Vec<(u8, u8)> = vec![(2, 0), (3, 0), (4, 0), (2, 1), (3, 1), (1, 0), (5, 0), (0, 0), (1, 2), (4, 2), (7, 0), (7, 1), (0, 3), (6, 0), (6, 2), (0, 7)];
    let dens = [2u8, 3, 5, 255];
    // (number of notes, number of durations)
    let plan: Vec<(usize, usize)> = ctx.pick(vec![(1, 16), (2, 16), (3, 11), (4, 5)], ctx.deepen(vec![(1, 16), (2, 16), (3, 16), (4, 11), (5, 5), (6, 2)], vec![(1, 16), (2, 16), (3, 16), (4, 16), (5, 8), (6, 3), (7, 1)]));
    let ends = [u32::MAX - 700, u32::MAX - 1300, u32::MAX - 4000];
    let at_end: Vec<(usize, usize, u32)> = ends.iter().flat_map(|e| plan.iter().filter(|p| p.0 <= 3).map(|p| (p.0, p.1, *e))).collect();
    for (k, nd, top) in &plan.iter().map(|p| (p.0, p.1, 120)).chain(at_end).collect::<Vec<_>>() {
        let per = (nd * k) as u64; // duration x position
        let total = per.pow(*k as u32);
        let chunk = 2000u64;
        ctx.par(total.div_ceil(chunk) as usize, |c, t| {
            for u in c as u64 * chunk..((c as u64 + 1) * chunk).min(total) {
                if ctx.stopped() {
                    return;
                }
                let g: Vec<G> = (0..*k)
                    .map(|i| {
                        let x = (u / per.pow(i as u32) % per) as usize;
                        (top + 240 * (x / nd) as u32, durs[x % nd], dens[(u as usize + i) % 4])
                    })
                    .collect();
                at(&[*k as u64, u, *top as u64]);
                t.transitions += 1;
                t.states += 1;
                match judge_tuplet(ctx, &g) {
                    Some(true) => t.count("tuplets"),
                    Some(false) => t.count("selections that form no tuplet"),
                    None => t.count("not judged (rounding hides the shorter note)"),
                }
                t.traces += 1;
            }
        });
    }
    // long runs: 1..=320 equal notes; with one longer note; positions far up
    ctx.par(320, |k, t| {
        let k = k + 1;
        for base in [0u32, 7, 1 << 30] {
            for d in 0..durs.len() {
                for longer in 0..durs.len() {
                    for step in [1u32, 97] {
                        let g: Vec<G> = (0..k)
                            .map(|i| (base + step * i as u32, durs[if i == k / 2 { longer } else { d }], 2))
                            .collect();
                        at(&[9, k as u64, base as u64, d as u64, longer as u64]);
                        t.transitions += 1;
                        t.traces += 1;
                        t.states += 1;
                        match judge_tuplet(ctx, &g) {
                            Some(true) => t.count("tuplets"),
                            Some(false) => t.count("selections that form no tuplet"),
                            None => t.count("not judged (rounding hides the shorter note)"),
                        }
                    }
                }
            }
        }
    });
    ctx.sample(|| "[(120, quarter), (360, eighth), (120, half)]: a chord and a note".to_string());
    ctx.bound("groups", format!("(notes, durations): {plan:?}, every assignment of durations and of positions (chords, any listing order), near the top and, up to 3 notes, 700, 1300 and 4000 ticks before the last position"));
    ctx.bound("long groups", format!("1-320 notes of one of {0} durations, the middle one of any of {0}", durs.len()));
    ctx.assume("durations whose last dot is shorter than a 256th note are not judged");
}
