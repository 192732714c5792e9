//! What is in force at a position (C07) and bar:offset locations (C08).
use crate::content::*;
use crate::driver::*;
use crate::ops::*;
use crate::proj::*;
use klavier_core::bar::{Bar, RepeatSet};
use klavier_core::location::Location;
use klavier_core::models::Models;
use klavier_core::project::{ctrl_chg_at, tempo_at, ModelChangeMetadata, Project, ProjectImpl, ProjectStore};
use klavier_core::rhythm::Rhythm;
use klavier_core::tempo::Tempo;
use serdo::undo_store::UndoStore;

fn around(ps: impl IntoIterator<Item = u32>) -> Vec<u32> {
    let mut v = vec![0, 1, 479, u32::MAX - 1, u32::MAX];
    for p in ps {
        v.extend([p.saturating_sub(1), p, p.saturating_add(1)]);
    }
    v.sort();
    v.dedup();
    v
}

/// Around the items of a list: all of them, or only some of a very long list.
fn around_list(ticks: &[u32]) -> Vec<u32> {
    let n = ticks.len();
    around(ticks.iter().enumerate().filter(|(i, _)| n <= 2000 || near(*i, n)).map(|(_, t)| *t))
}
fn near(i: usize, n: usize) -> bool {
    [0, 127, 128, 254, 255, 256, 511, 512, 32767, 32768, 65534, 65535, 65536, n - 1, n / 2].iter().any(|x| i.abs_diff(*x) <= 1) || i % 4999 == 0
}

fn last_at<T: Copy>(v: &[T], tick: impl Fn(&T) -> u32, at: u32) -> Option<T> {
    let mut best: Option<T> = None;
    for x in v {
        if tick(x) <= at && best.as_ref().is_none_or(|b| tick(b) < tick(x)) {
            best = Some(*x);
        }
    }
    best
}

/// Every lookup at every position around the items of `c`.
fn judge_lookups(store: &ProjectStore, c: &Content, t: &mut Tally) -> Result<(), Fault> {
    let mut positions = around_list(&c.bars.iter().map(|b| b.tick).collect::<Vec<_>>());
    positions.extend(around_list(&c.tempos.iter().map(|b| b.tick).collect::<Vec<_>>()));
    positions.extend(around_list(&c.dumpers.iter().map(|b| b.tick).collect::<Vec<_>>()));
    positions.extend(around_list(&c.softs.iter().map(|b| b.tick).collect::<Vec<_>>()));
    positions.sort();
    positions.dedup();
    judge_lookups_at(store, c, &positions, t)
}
pub fn judge_lookups_at(store: &ProjectStore, c: &Content, positions: &[u32], t: &mut Tally) -> Result<(), Fault> {
    let p = store.model();
    let with_rhythm: Vec<BarP> = c.bars.iter().copied().filter(|b| b.rhythm.is_some()).collect();
    let with_key: Vec<BarP> = c.bars.iter().copied().filter(|b| b.key.is_some()).collect();
    for x in positions.iter().copied() {
        t.transitions += 1;
        let tempo = last_at(&c.tempos, |e| e.tick, x).map(|e| e.v).unwrap_or(120);
        let dumper = last_at(&c.dumpers, |e| e.tick, x).map(|e| e.v).unwrap_or(0);
        let soft = last_at(&c.softs, |e| e.tick, x).map(|e| e.v).unwrap_or(0);
        let rhythm = last_at(&with_rhythm, |e| e.tick, x).and_then(|b| b.rhythm).unwrap_or(c.rhythm);
        let key = last_at(&with_key, |e| e.tick, x).and_then(|b| b.key).unwrap_or(c.key);
        let got = [
            ("tempo", p.tempo_at(x).as_u16() as i64, tempo as i64),
            ("tempo", store.tempo_at(x).as_u16() as i64, tempo as i64),
            ("tempo", tempo_at(x, p.tempo_repo()).as_u16() as i64, tempo as i64),
            ("damper", p.dumper_at(x).as_u8() as i64, dumper as i64),
            ("damper", store.dumper_at(x).as_u8() as i64, dumper as i64),
            ("damper", ctrl_chg_at(x, p.dumper_repo()).as_u8() as i64, dumper as i64),
            ("soft pedal", p.soft_at(x).as_u8() as i64, soft as i64),
            ("soft pedal", store.soft_at(x).as_u8() as i64, soft as i64),
            ("soft pedal", ctrl_chg_at(x, p.soft_repo()).as_u8() as i64, soft as i64),
            ("key", p.key_at(x).offset() as i64, key as i64),
            ("key", store.key_at(x).offset() as i64, key as i64),
        ];
        for (what, got, want) in got {
            if got != want {
                return Err(fault(what, format!("{what} at {x} is {got} instead of {want}; content {c:?}")));
            }
        }
        for r in [p.rhythm_at(x), store.rhythm_at(x)] {
            if rhythm_of(r) != rhythm {
                return Err(fault("rhythm", format!("rhythm at {x} is {:?} instead of {:?}; content {c:?}", rhythm_of(r), rhythm)));
            }
        }
        let probe = Bar::new(x, None, None, RepeatSet::EMPTY);
        let want = c.bars.iter().any(|b| b.tick == x).then(|| c.bars.iter().filter(|b| b.tick < x).count());
        for got in [p.bar_no(&probe), store.bar_no(&probe)] {
            if got != want {
                return Err(fault("bar-number", format!("number of the bar at {x} is {got:?} instead of {want:?}; content {c:?}")));
            }
        }
    }
    Ok(())
}

fn judge_locations(store: &ProjectStore, c: &Content, t: &mut Tally, deep: bool) -> Result<(), Fault> {
    let mut bars = c.bars.clone();
    bars.sort_by_key(|b| b.tick);
    let n = bars.len();
    let mut nos: Vec<usize> = (0..=n + 3).filter(|i| n <= 2000 || *i > n || near(*i, n)).collect();
    nos.extend([n + 10, 1000, u32::MAX as usize / 960, u32::MAX as usize / 15, u32::MAX as usize / 15 + 2]);
    if deep {
        nos.extend([
            4473924, 4473925, 4473926, (u32::MAX - 1) as usize, u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1usize << 53) + 1,
            usize::MAX / 960, usize::MAX / 960 + 1, usize::MAX - 1, usize::MAX,
        ]);
    }
    let mut offs: Vec<usize> = vec![0, 1, 959, 960, 100_000, u32::MAX as usize - 1, u32::MAX as usize, 1 << 32];
    for (_, b) in bars.iter().enumerate().filter(|(i, _)| n <= 300 || (n <= 2000 && i % 7 == 0) || near(*i, n)) {
        offs.extend([u32::MAX as usize - b.tick as usize, u32::MAX as usize - b.tick as usize + 1]);
    }
    if deep {
        offs.extend([(1 << 32) + 1, usize::MAX - 1, usize::MAX]);
    }
    offs.sort();
    offs.dedup();
    judge_locations_at(store, c, &around_list(&bars.iter().map(|b| b.tick).collect::<Vec<_>>()), &nos, &offs, t)
}
pub fn judge_locations_at(store: &ProjectStore, c: &Content, positions: &[u32], nos: &[usize], offs: &[usize], t: &mut Tally) -> Result<(), Fault> {
    let p = store.model();
    let mut bars = c.bars.clone();
    bars.sort_by_key(|b| b.tick);
    for x in positions.iter().copied() {
        t.transitions += 1;
        // 1-based number of the last bar line at or before x, 0 before the first
        let no = bars.iter().filter(|b| b.tick <= x).count();
        let off = x - if no == 0 { 0 } else { bars[no - 1].tick };
        for loc in [p.tick_to_location(x), store.tick_to_location(x)] {
            if (loc.bar_no(), loc.offset()) != (no, off as usize) {
                return Err(fault("to-location", format!("position {x} converts to {loc} instead of {no}:{off}; bars {bars:?}")));
            }
        }
        match p.location_to_tick(p.tick_to_location(x)) {
            Ok(y) if y == x => {}
            r => return Err(fault("round-trip", format!("position {x} converts to {} and back to {r:?}; bars {bars:?}", p.tick_to_location(x)))),
        }
    }
    let n = bars.len();
    for no in nos.iter().copied() {
        for off in offs {
            t.transitions += 1;
            let base: u128 = if no == 0 {
                0
            } else if no <= n {
                bars[no - 1].tick as u128
            } else if n == 0 {
                no as u128 * bar_len(c.rhythm) as u128
            } else {
                let last = bars[n - 1].tick;
                last as u128 + (no - n) as u128 * bar_len(c.rhythm_at(last)) as u128
            };
            let sum = base + *off as u128;
            let want = (sum <= u32::MAX as u128).then_some(sum as u32);
            t.count(if want.is_some() { "locations that fit" } else { "locations that overflow" });
            for got in [p.location_to_tick(Location::new(no, *off)), store.location_to_tick(Location::new(no, *off))] {
                if got.as_ref().ok().copied() != want {
                    return Err(fault("to-position", format!("{no}:{off} converts to {got:?} instead of {want:?}; tune rhythm {:?}, bars {bars:?}", c.rhythm)));
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy)]
pub enum Which {
    Lookup,
    Location,
}
pub struct Probe(Which, bool);
impl Judge for Probe {
    type S = Option<ProjectStore>;
    fn init(&self, store: &ProjectStore, _c: &Content) -> Result<Self::S, Fault> {
        Ok(Some(store.clone()))
    }
    fn step(&self, pre: &Content, op: &Op, store: &ProjectStore, post: &Content, s: &mut Self::S, t: &mut Tally) -> Result<(), Fault> {
        // the same question before an edit, after it, and after taking it back
        for x in asked(pre, post) {
            let mut p = s.clone().expect("store");
            self.ask(&p, pre, x, t)?;
            op.apply(&mut p);
            self.ask(&p, post, x, t)?;
            if op.is_edit() && p.pos() > 0 && p.pos() > s.as_ref().expect("store").pos() {
                p.undo();
                self.ask(&p, pre, x, t)?;
            }
        }
        *s = Some(store.clone());
        self.run(store, post, t)
    }
}

/// A few positions to ask about, those where the content may have changed first.
fn asked(pre: &Content, post: &Content) -> Vec<u32> {
    let ticks = |c: &Content| -> Vec<u32> {
        c.bars.iter().map(|b| b.tick).chain(c.tempos.iter().map(|b| b.tick)).chain(c.dumpers.iter().map(|b| b.tick)).chain(c.softs.iter().map(|b| b.tick)).collect()
    };
    let mut v: Vec<u32> = ticks(pre).into_iter().chain(ticks(post)).collect();
    v.sort();
    v.dedup();
    let mut w: Vec<u32> = v.iter().copied().take(3).collect();
    w.extend(v.last().map(|x| x.saturating_add(1)));
    w.dedup();
    w
}
impl Probe {
    fn ask(&self, store: &ProjectStore, c: &Content, x: u32, t: &mut Tally) -> Result<(), Fault> {
        match self.0 {
            Which::Lookup => judge_lookups_at(store, c, &[x], t),
            Which::Location => judge_locations_at(store, c, &[x], &[1, c.bars.len(), c.bars.len() + 2], &[0, x as usize], t),
        }
    }
    fn run(&self, store: &ProjectStore, c: &Content, t: &mut Tally) -> Result<(), Fault> {
        match self.0 {
            Which::Lookup => judge_lookups(store, c, t),
            Which::Location => judge_locations(store, c, t, self.1),
        }
    }
}

fn no_meta() -> ModelChangeMetadata {
    ModelChangeMetadata::new()
}

/// A project holding exactly `c` in bars, tempos and pedal events.
fn build(c: &Content) -> ProjectStore {
    let mut s: ProjectStore = ProjectStore::from_model(ProjectImpl::default());
    s.set_rhythm(Rhythm::new(c.rhythm.0, c.rhythm.1 as u8));
    s.set_key(key_by_ix(c.key));
    let mut m = Models::empty();
    for b in &c.bars {
        m.bars.push(Bar::new(b.tick, b.rhythm.map(|r| Rhythm::new(r.0, r.1)), b.key.map(key_by_ix), RepeatSet::EMPTY));
    }
    for b in &c.tempos {
        m.tempos.push(Tempo::new(b.tick, b.v));
    }
    for (from, to) in [(&c.dumpers, &mut m.dumpers), (&c.softs, &mut m.softs)] {
        for b in from {
            to.push(klavier_core::ctrl_chg::CtrlChg::new(
                b.tick,
                klavier_core::velocity::Velocity::new(b.v),
                klavier_core::channel::Channel::new(b.ch),
            ));
        }
    }
    s.bulk_add(m, no_meta());
    s
}

fn judge_config(ctx: &Ctx, c: &Content, probe: &Probe, t: &mut Tally) {
    t.states += 1;
    t.traces += 1;
    let r = guard(|| {
        let s = build(c);
        let got = read_store(&s).map_err(|e| fault("inconsistent", e))?;
        if got.bars != c.bars || got.tempos != c.tempos || got.dumpers != c.dumpers || got.softs != c.softs {
            return Err(fault("setup", format!("cannot set up the content: {}", diff(c, &got))));
        }
        probe.run(&s, c, t)
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(f)) => ctx.violation(&f.key, &f.msg, format!("{c:?}")),
        Err(Panicked(m)) => ctx.violation("panic", format!("crashed: {m}"), format!("{c:?}")),
    }
}

const BAR_VARIANTS: [(Option<(u8, u8)>, Option<i8>); 4] = [(None, None), (Some((0, 0)), None), (None, Some(0)), (Some((0, 0)), Some(0))];
const RHYTHMS: [(u8, u8); 7] = [(3, 4), (5, 8), (1, 64), (99, 2), (2, 2), (6, 8), (11, 16)];
const KEYS: [i8; 7] = [1, 0, 7, -7, 0, -4, 2];

fn bar_config(ticks: &[u32], mut code: usize) -> Content {
    let mut c = Content { rhythm: (7, 8), key: -2, ..Default::default() };
    for (i, tk) in ticks.iter().enumerate() {
        let d = code % 5;
        code /= 5;
        if d > 0 {
            let (r, k) = BAR_VARIANTS[d - 1];
            c.bars.push(BarP { tick: *tk, rhythm: r.map(|_| RHYTHMS[i % 7]), key: k.map(|_| KEYS[i % 7]), mask: 0 });
        }
    }
    c
}

fn many_bars(n: usize, step: u32) -> Content {
    let mut c = Content { rhythm: (4, 4), key: 0, ..Default::default() };
    for i in 0..n {
        c.bars.push(BarP {
            tick: i as u32 * step + 5,
            rhythm: (i % 3 == 1).then(|| RHYTHMS[i / 3 % 7]),
            key: (i % 4 == 2).then(|| KEYS[i / 4 % 7]),
            mask: 0,
        });
    }
    c
}

/// `n` plain bars of which bar `r` sets the rhythm and bar `k` the key (none if `n`).
fn sparse_bars(n: usize, r: usize, k: usize) -> Content {
    let mut c = Content { rhythm: (7, 8), key: -2, ..Default::default() };
    for i in 0..n {
        c.bars.push(BarP { tick: i as u32 * 7 + 3, rhythm: (i == r).then_some((3, 4)), key: (i == k).then_some(5), mask: 0 });
    }
    c
}

pub fn sparse(ctx: &Ctx, probe: &Probe, code: u64) {
    let max = ctx.pick(24, 72);
    let big: &[usize] = ctx.pick(&[70, 140], &[140, 300, 1100]);
    ctx.bound(
        "settings far back",
        format!("1..={max} bars, any one of them (or none) setting the rhythm, any one the key; {big:?} bars with the settings at either end and in the middle"),
    );
    ctx.par(max, |u, t| {
        let n = u + 1;
        for r in 0..=n {
            for k in 0..=n {
                // the lookups agree with the scan whatever the other setting is: every pair only for short lists
                if n > 12 && r != k && r != 0 && k != 0 && r != n && k != n {
                    continue;
                }
                at(&[code, n as u64, r as u64, k as u64]);
                judge_config(ctx, &sparse_bars(n, r, k), probe, t);
            }
        }
    });
    ctx.par(big.len() * 16, |u, t| {
        let n = big[u / 16];
        let at_ = |i: usize| [0, n / 2, n - 1, n][i];
        at(&[code + 1, u as u64]);
        judge_config(ctx, &sparse_bars(n, at_(u % 4), at_(u / 4 % 4)), probe, t);
    });
}

/// Lists longer than any small counter, in every kind the probe looks at.
fn very_long(ctx: &Ctx, probe: &Probe, code: u64) {
    let sizes: &[usize] = ctx.pick(&[127, 128, 129, 255, 256, 257, 300, 513, 1100, 33_000, 70_000], &[127, 128, 129, 255, 256, 257, 300, 511, 513, 1100, 2049, 5000, 33_000, 66_000, 70_000, 140_000]);
    ctx.bound("very long lists", format!("{sizes:?} bars (and tempos and pedal events), settings everywhere, or only in the first, the middle or the last bar"));
    ctx.par(sizes.len() * 4, |u, t| {
        let n = sizes[u / 4];
        at(&[code, u as u64]);
        let mut c = match u % 4 {
            0 => many_bars(n, 3),
            1 => sparse_bars(n, 0, 0),
            2 => sparse_bars(n, n / 2, n - 1),
            _ => sparse_bars(n, n - 1, n),
        };
        if matches!(probe.0, Which::Lookup) {
            c.bars.push(BarP { tick: 10_000_000, rhythm: None, key: None, mask: 0 });
            for i in 0..n as u32 {
                c.tempos.push(TempoP { tick: i * 4 + 2, v: 1 + (i * 37 % 999) as u16 });
                c.dumpers.push(CtrlP { tick: i * 5 + 1, v: (i * 29 % 128) as u8, ch: 0 });
                c.softs.push(CtrlP { tick: i * 7, v: (i * 31 % 128) as u8, ch: 0 });
            }
        }
        judge_config(ctx, &c, probe, t);
    });
}

/// Every value of every attribute, alone and after any other.
fn values(ctx: &Ctx, probe: &Probe, code: u64) {
    let rhythms: Vec<(u8, u8)> = (1..=99u8).flat_map(|n| [2u8, 4, 8, 16, 32, 64].map(|d| (n, d))).collect();
    let few: [Option<(u8, u8)>; 5] = [None, Some((4, 4)), Some((3, 4)), Some((1, 64)), Some((99, 2))];
    ctx.bound(
        "every value",
        format!("every ordered triple of keys (tune, bar, later bar: none or any of 15), {} rhythms of the tune, a bar and a later bar with each of 5 before and after, every pair of velocities of a pedal, every tempo before and after 5 others", rhythms.len()),
    );
    let bar = |tick, rhythm, key| BarP { tick, rhythm, key, mask: 0 };
    // 15 tune keys x 16 x 16, the first bar at 0 or later, with or without rhythms
    ctx.par(15 * 16, |u, t| {
        at(&[code, u as u64]);
        let tune = (u % 15) as i8 - 7;
        let k = |i: usize| (i > 0).then(|| i as i8 - 8);
        for b in 0..16 {
            for (t0, r) in [(0, None), (480, None), (480, Some((3, 4)))] {
                let mut c = Content { rhythm: (7, 8), key: tune, ..Default::default() };
                c.bars = vec![bar(t0, r, k(u / 15)), bar(t0 + 480, None, k(b)), bar(t0 + 900, r, None)];
                judge_config(ctx, &c, probe, t);
            }
        }
    });
    ctx.par(rhythms.len(), |u, t| {
        at(&[code + 1, u as u64]);
        let r = rhythms[u];
        for tune in [Some(r), few[1], few[2]] {
            for a in few.into_iter().chain([Some(r)]) {
                for b in few.into_iter().chain([Some(r)]) {
                    for t0 in [0, 481] {
                        let mut c = Content { rhythm: tune.expect("rhythm"), key: 1, ..Default::default() };
                        c.bars = vec![bar(t0, a, None), bar(t0 + 480, b, (u % 2 == 0).then_some(0)), bar(t0 + 481, None, None)];
                        judge_config(ctx, &c, probe, t);
                    }
                }
            }
        }
    });
    if matches!(probe.0, Which::Location) {
        return;
    }
    ctx.par(128, |u, t| {
        at(&[code + 2, u as u64]);
        for v in 0..128u8 {
            for ch in [0, 15] {
                let mut c = Content { rhythm: (4, 4), key: 0, ..Default::default() };
                c.bars = vec![bar(10_000, None, None)];
                c.dumpers = vec![CtrlP { tick: 0, v: u as u8, ch }, CtrlP { tick: 481, v, ch: 0 }];
                c.softs = vec![CtrlP { tick: 1, v, ch: 3 }, CtrlP { tick: 481, v: u as u8, ch }];
                judge_config(ctx, &c, probe, t);
            }
        }
    });
    ctx.par(999, |u, t| {
        at(&[code + 3, u as u64]);
        for o in [1u16, 119, 120, 121, 999] {
            for (a, b) in [(u as u16 + 1, o), (o, u as u16 + 1)] {
                let mut c = Content { rhythm: (4, 4), key: 0, ..Default::default() };
                c.bars = vec![bar(10_000, None, None)];
                c.tempos = vec![TempoP { tick: 1, v: a }, TempoP { tick: 481, v: b }];
                judge_config(ctx, &c, probe, t);
            }
        }
    });
}

pub fn c07(ctx: &Ctx) {
    let probe = Probe(Which::Lookup, false);
    for mut sc in with_reopen(scenarios(ctx, false)) {
        sc.depth = sc.depth.min(ctx.deepen(4, 5));
        explore(ctx, &sc, &probe);
    }
    // bars
    let ticks: &[u32] = ctx.pick(&[0, 1, 480, 481, 1920, u32::MAX], &[0, 1, 2, 480, 481, 1920, u32::MAX]);
    let n = 5usize.pow(ticks.len() as u32);
    ctx.bound("bar arrangements", format!("every subset of positions {ticks:?} x rhythm set or not x key set or not: {n}"));
    ctx.par(n, |u, t| {
        at(&[1, u as u64]);
        judge_config(ctx, &bar_config(ticks, u), &probe, t);
    });
    // tempos and pedals; a bar at the very end keeps the project from adding millions of bars
    let ticks: &[u32] = &[0, 1, 2, 479, 480, 481, 1920, 1921, 0x7fff_ffff, u32::MAX - 1, u32::MAX];
    let masks = 1usize << ticks.len();
    ctx.bound("tempo and pedal arrangements", format!("every subset of positions {ticks:?} for each of the three kinds: {masks}"));
    ctx.par(masks, |u, t| {
        at(&[2, u as u64]);
        let mut c = Content { rhythm: (7, 8), key: -2, ..Default::default() };
        c.bars.push(BarP { tick: u32::MAX, rhythm: None, key: None, mask: 0 });
        for (i, tk) in ticks.iter().enumerate() {
            let on = |m: usize| m >> i & 1 == 1;
            if on(u) {
                c.tempos.push(TempoP { tick: *tk, v: [1, 999, 121, 200][i % 4] + if i % 4 < 2 { 0 } else { i as u16 } });
            }
            if on(u.rotate_left(3) | u >> 8) {
                c.dumpers.push(CtrlP { tick: *tk, v: [127, 0, 5][i % 3] + if i % 3 == 2 { i as u8 } else { 0 }, ch: i as u8 });
            }
            if on(!u) {
                c.softs.push(CtrlP { tick: *tk, v: [0, 1, 64][i % 3] + i as u8, ch: 0 });
            }
        }
        judge_config(ctx, &c, &probe, t);
    });
    // longer lists
    let max = ctx.pick(64, 300);
    ctx.bound("long lists", format!("1..={max} bars, tempos and pedal events each"));
    ctx.par(max, |u, t| {
        at(&[3, u as u64]);
        let n = u + 1;
        let mut c = many_bars(n, 3);
        c.bars.push(BarP { tick: 10_000_000, rhythm: None, key: None, mask: 0 });
        for i in 0..n as u32 {
            c.tempos.push(TempoP { tick: i * 4 + 2, v: 1 + (i * 37 % 999) as u16 });
            c.dumpers.push(CtrlP { tick: i * 5 + 1, v: (i * 29 % 128) as u8, ch: 0 });
            c.softs.push(CtrlP { tick: i * 7, v: (i * 31 % 128) as u8, ch: 0 });
        }
        judge_config(ctx, &c, &probe, t);
    });
    sparse(ctx, &probe, 10);
    very_long(ctx, &probe, 20);
    values(ctx, &probe, 30);
    ctx.sample(|| format!("{:?}", bar_config(&[0, 1, 480, 481, 1920, u32::MAX], 7003)));
}

pub fn c08(ctx: &Ctx) {
    let probe = Probe(Which::Location, false);
    for mut sc in with_reopen(scenarios(ctx, false)).into_iter().filter(|s| s.name.contains("Bar") || s.name.contains("mixed")) {
        sc.depth = sc.depth.min(ctx.deepen(4, 5));
        explore(ctx, &sc, &probe);
    }
    let probe = Probe(Which::Location, true);
    let ticks: &[u32] = ctx.pick(&[0, 1, 480, 481, 1920, u32::MAX], &[0, 1, 2, 480, 481, 1920, u32::MAX]);
    let n = 5usize.pow(ticks.len() as u32);
    ctx.bound("bar arrangements", format!("every subset of positions {ticks:?} x rhythm set or not x key set or not: {n}"));
    ctx.par(n, |u, t| {
        at(&[1, u as u64]);
        judge_config(ctx, &bar_config(ticks, u), &probe, t);
    });
    let mut rhythms = vec![];
    for num in [1u8, 2, 3, 4, 7, 12, 98, 99] {
        for den in [2u8, 4, 8, 16, 32, 64] {
            rhythms.push((num, den));
        }
    }
    ctx.bound("tune and last bar rhythms", format!("{} pairs, with 0 to 3 bars", rhythms.len() * rhythms.len()));
    ctx.par(rhythms.len() * rhythms.len(), |u, t| {
        at(&[2, u as u64]);
        let (a, b) = (rhythms[u / rhythms.len()], rhythms[u % rhythms.len()]);
        for (first, rest) in [(vec![], vec![]), (vec![100], vec![]), (vec![100], vec![1060]), (vec![0], vec![960, 4_000_000_000])] {
            let mut c = Content { rhythm: a, key: 0, ..Default::default() };
            c.bars.extend(first.iter().map(|t| BarP { tick: *t, rhythm: Some(b), key: None, mask: 0 }));
            c.bars.extend(rest.iter().map(|t| BarP { tick: *t, rhythm: None, key: None, mask: 0 }));
            judge_config(ctx, &c, &probe, t);
        }
    });
    let max = ctx.pick(64, 300);
    ctx.bound("long lists", format!("1..={max} bars"));
    ctx.par(max, |u, t| {
        at(&[3, u as u64]);
        judge_config(ctx, &many_bars(u + 1, 3), &probe, t);
    });
    sparse(ctx, &probe, 10);
    very_long(ctx, &probe, 20);
    values(ctx, &probe, 30);
    ctx.sample(|| format!("{:?}", bar_config(&[0, 1, 480, 481, 1920, u32::MAX], 7003)));
    ctx.assume("the position of a location is defined mathematically (no wrap), and every location whose position is above 2^32-1 counts as an overflow");
}
