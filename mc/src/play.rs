//! Playing order of a tune (C09, C10, C11) and playback positions (C12).
use crate::content::*;
use crate::driver::*;
use klavier_core::bar::{Bar, RepeatSet, VarIndex};
use klavier_core::global_repeat::RenderRegionWarning as W;
use klavier_core::key::Key;
use klavier_core::play_iter::PlayIter;
use klavier_core::play_start_tick::{PlayStartTick, ToAccumTickError};
use klavier_core::repeat::{render_region, Chunk, RenderRegionError as E};
use klavier_core::rhythm::Rhythm;

pub const START: u16 = 1;
pub const END: u16 = 2;
pub const DC: u16 = 4;
pub const FINE: u16 = 8;
pub const DS: u16 = 16;
pub const SEGNO: u16 = 32;
pub const CODA: u16 = 64;
pub const VARS: u16 = 0x780;
pub fn var(n: u16) -> u16 {
    0x40 << n
}

/// Documented compatibility of two marks on one bar.
pub fn compatible(a: u16, b: u16) -> bool {
    let bad = |x: u16, y: u16| (a & x != 0 && b & y != 0) || (a & y != 0 && b & x != 0);
    !(a != b && a & VARS != 0 && b & VARS != 0
        || bad(VARS, START | END | DC | DS | SEGNO)
        || bad(START, DC | DS)
        || bad(DC, DS | SEGNO))
}
pub fn legal(mask: u16) -> bool {
    (0..11).all(|i| (0..i).all(|j| mask >> i & 1 == 0 || mask >> j & 1 == 0 || compatible(1 << i, 1 << j)))
}
pub fn build_set(mask: u16, reverse: bool) -> Option<RepeatSet> {
    let mut s = RepeatSet::EMPTY;
    for k in 0..11 {
        let i = if reverse { 10 - k } else { k };
        if mask >> i & 1 == 1 {
            s = s.try_add(REPEATS[i]).ok()?;
        }
    }
    Some(s)
}
fn mask_str(m: u16) -> String {
    let names = ["|:", ":|", "DC", "Fine", "DS", "Segno", "Coda", "V1", "V2", "V3", "V4"];
    let v: Vec<&str> = (0..11).filter(|i| m >> i & 1 == 1).map(|i| names[i]).collect();
    v.join("+")
}

#[derive(Clone, Debug, PartialEq)]
enum Sec {
    Plain(u32, u32),
    Repeat(u32, u32),
    Var { from: u32, starts: Vec<u32>, end: u32 },
}

#[derive(Clone, Copy, Debug)]
pub struct BarIn {
    pub tick: u32,
    pub mask: u16,
    pub rhythm: Option<(u8, u8)>,
}

struct Parsed {
    secs: Vec<Sec>,
    /// first structural fault
    structural: Option<E>,
    /// the arrangement so far is broken whatever follows (the fault is not "unclosed at the end")
    fatal: bool,
    unspecified: bool,
}

fn vi(n: u8) -> VarIndex {
    [VarIndex::VI1, VarIndex::VI2, VarIndex::VI3, VarIndex::VI4][n as usize - 1]
}

/// Split the tune into sections, as a reader of the score would.
fn parse(bars: &[BarIn]) -> Parsed {
    enum St {
        Top,
        Plain(u32),
        Open(u32),
        Var(u32, Vec<u32>),
    }
    let mut secs = vec![];
    let mut st = St::Top;
    let mut unspecified = false;
    let mut jump_at_top: Option<u32> = None; // D.C./D.S. met before anything was opened or closed
    macro_rules! fail {
        ($e:expr) => {
            return Parsed { secs, structural: Some($e), fatal: true, unspecified }
        };
    }
    for b in bars {
        let (t, m) = (b.tick, b.mask);
        if !legal(m) {
            unspecified = true;
        }
        let v = (1..=4).find(|n| m & var(*n) != 0).map(|n| n as u8);
        st = match st {
            St::Top => {
                if m & END != 0 && t == 0 || m & (DC | DS) != 0 && t == 0 {
                    unspecified = true; // nothing precedes the mark
                }
                if m & END != 0 {
                    if let Some(j) = jump_at_top {
                        fail!(E::DcDsWhileRepeat { tick: j });
                    }
                    secs.push(Sec::Repeat(0, t));
                    if m & START != 0 { St::Open(t) } else { St::Plain(t) }
                } else if m & START != 0 {
                    secs.push(Sec::Plain(0, t));
                    St::Open(t)
                } else if let Some(n) = v {
                    if let Some(j) = jump_at_top {
                        fail!(E::DcDsWhileVariation { tick: j });
                    }
                    if n != 1 {
                        fail!(E::InvalidRegionIndex { tick: t, actual: vi(n), expected: vi(1) });
                    }
                    St::Var(0, vec![t])
                } else {
                    if m & (DC | DS) != 0 && jump_at_top.is_none() {
                        jump_at_top = Some(t);
                    }
                    St::Top
                }
            }
            St::Plain(from) => {
                if m & END != 0 {
                    fail!(E::OrphanRepeatEnd { tick: t });
                }
                if v.is_some() {
                    unspecified = true; // a variation mark where no repeat is open
                }
                if m & START != 0 {
                    secs.push(Sec::Plain(from, t));
                    St::Open(t)
                } else {
                    St::Plain(from)
                }
            }
            St::Open(from) => {
                if m & END != 0 {
                    secs.push(Sec::Repeat(from, t));
                    if m & START != 0 { St::Open(t) } else { St::Plain(t) }
                } else if m & START != 0 {
                    fail!(E::DuplicatedRepeatStart { tick: t });
                } else if m & (DC | DS) != 0 {
                    fail!(E::DcDsWhileRepeat { tick: t });
                } else if let Some(n) = v {
                    if n != 1 {
                        fail!(E::InvalidRegionIndex { tick: t, actual: vi(n), expected: vi(1) });
                    }
                    St::Var(from, vec![t])
                } else {
                    St::Open(from)
                }
            }
            St::Var(from, mut starts) => {
                if m & END != 0 {
                    fail!(E::RepeatInVariation { tick: t });
                }
                match v {
                    Some(n) => {
                        let cur = starts.len() as u8;
                        if n == cur {
                        } else if n == cur + 1 {
                            starts.push(t);
                        } else {
                            fail!(E::InvalidRegionIndex { tick: t, actual: vi(n), expected: vi((cur + 1).min(4)) });
                        }
                        St::Var(from, starts)
                    }
                    None => {
                        secs.push(Sec::Var { from, starts, end: t });
                        if m & START != 0 { St::Open(t) } else { St::Plain(t) }
                    }
                }
            }
        };
    }
    let structural = match st {
        St::Top => {
            secs.push(Sec::Plain(0, u32::MAX));
            None
        }
        St::Plain(from) => {
            secs.push(Sec::Plain(from, u32::MAX));
            None
        }
        St::Open(from) => Some(E::NoRepeatEnd { tick: from }),
        St::Var(_, starts) => Some(E::VariationNotClosed { tick: *starts.last().unwrap() }),
    };
    Parsed { secs, structural, fatal: false, unspecified }
}

fn ticks_of(bars: &[BarIn], mark: u16) -> Vec<u32> {
    bars.iter().filter(|b| b.mask & mark != 0).map(|b| b.tick).collect()
}

/// Faults that do not depend on the sections.
fn global_errors(bars: &[BarIn]) -> (Vec<E>, bool) {
    let mut v = vec![];
    let jumps = ticks_of(bars, DC | DS);
    let fines = ticks_of(bars, FINE);
    let segnos = ticks_of(bars, SEGNO);
    let codas = ticks_of(bars, CODA);
    if jumps.len() > 1 {
        v.push(E::DuplicatedDsDc { tick: [jumps[0], jumps[1]] });
    }
    if fines.len() > 1 {
        v.push(E::DuplicatedFine { tick: [fines[0], fines[1]] });
    }
    if segnos.len() > 1 {
        v.push(E::DuplicatedSegno { tick: [segnos[0], segnos[1]] });
    }
    if codas.len() > 2 {
        v.push(E::MoreThanTwoCodas { tick: [codas[0], codas[1], codas[2]] });
    }
    let fatal = !v.is_empty();
    let ds = ticks_of(bars, DS);
    if let Some(d) = ds.first() {
        if segnos.is_empty() {
            v.push(E::NoSegnoForDs { ds_tick: *d });
        }
        if codas.len() == 1 {
            v.push(E::OnlyOneCoda { tick: codas[0] });
        }
    }
    if !jumps.is_empty() && codas.len() >= 2 {
        if let Some(f) = fines.first() {
            if *f < codas[1] {
                v.push(E::CodaAfterFine { coda_from: codas[0], coda_to: codas[1], fine: *f });
            }
        }
    }
    (v, fatal)
}

/// Remove empty pieces and join adjacent ones.
fn flatten(v: impl IntoIterator<Item = (u32, u32)>) -> Vec<(u32, u32)> {
    let mut out: Vec<(u32, u32)> = vec![];
    for (a, b) in v {
        if a == b {
            continue;
        }
        match out.last_mut() {
            Some(l) if l.1 == a => l.1 = b,
            _ => out.push((a, b)),
        }
    }
    out
}

/// What is played before the jump (or to the end of the tune).
fn first_pass(secs: &[Sec], cut: u32) -> Vec<(u32, u32)> {
    let mut order = vec![];
    for s in secs {
        match s {
            Sec::Plain(a, b) => {
                if *a < cut {
                    order.push((*a, (*b).min(cut)));
                }
            }
            Sec::Repeat(a, b) => {
                if *a < cut {
                    order.extend([(*a, *b), (*a, *b)]);
                }
            }
            Sec::Var { from, starts, end } => {
                if *from < cut {
                    for (i, st) in starts.iter().enumerate() {
                        order.push((*from, starts[0]));
                        order.push((*st, starts.get(i + 1).copied().unwrap_or(*end)));
                    }
                }
            }
        }
    }
    order
}

/// Expected playing orders (several when the documentation leaves it open); `None`: not defined.
fn play_order(tune: (u8, u8), bars: &[BarIn], secs: &[Sec]) -> Option<Vec<Vec<(u32, u32)>>> {
    let jump = bars.iter().find(|b| b.mask & (DC | DS) != 0);
    let order = first_pass(secs, jump.map(|b| b.tick).unwrap_or(u32::MAX));
    let Some(jump) = jump else { return Some(vec![flatten(order)]) };
    if jump.tick == 0 {
        return None;
    }
    let fine = ticks_of(bars, FINE).first().copied();
    let codas = ticks_of(bars, CODA);
    let segno = ticks_of(bars, SEGNO).first().copied();
    let starts: Vec<u32> = if jump.mask & DS != 0 {
        vec![segno?]
    } else {
        let top = bars.iter().find(|b| b.tick == 0).and_then(|b| b.rhythm).unwrap_or(tune);
        let full = bar_len(top);
        let first = bars.iter().map(|b| b.tick).find(|t| *t > 0)?;
        let prev = bars.iter().map(|b| b.tick).filter(|t| *t < jump.tick).max().unwrap_or(0);
        let len = jump.tick - prev;
        let other_rhythms = bars.iter().any(|b| b.tick > 0 && b.rhythm.is_some());
        let mut v = if first >= full {
            vec![0]
        } else if other_rhythms {
            vec![0, first]
        } else if len == full {
            vec![first]
        } else if len + first == full {
            vec![0]
        } else {
            vec![0, first]
        };
        // D.C. in a tune that also has a Segno: the code documents a warning and resumes there
        v.extend(segno);
        v
    };
    let end = fine.unwrap_or(u32::MAX);
    let mut out = vec![];
    for start in starts {
        if end <= start {
            return None;
        }
        let windows: Vec<(u32, u32)> = if codas.len() == 2 {
            if codas[0] < start {
                return None;
            }
            vec![(start, codas[0]), (codas[1], end)]
        } else {
            vec![(start, end)]
        };
        // a mark inside a variation that the second pass skips
        for s in secs {
            if let Sec::Var { starts, .. } = s {
                let (a, b) = (starts[0], *starts.last().unwrap());
                let inside = |t: u32| a <= t && t < b;
                if inside(start) || fine.is_some_and(inside) || codas.len() == 2 && codas.iter().any(|c| inside(*c)) {
                    return None;
                }
            }
        }
        let mut o = order.clone();
        for (wa, wb) in windows {
            for s in secs {
                let parts: Vec<(u32, u32)> = match s {
                    Sec::Plain(a, b) | Sec::Repeat(a, b) => vec![(*a, *b)],
                    Sec::Var { from, starts, end } => vec![(*from, starts[0]), (*starts.last().unwrap(), *end)],
                };
                for (a, b) in parts {
                    let (a, b) = (a.max(wa), b.min(wb));
                    if a < b {
                        o.push((a, b));
                    }
                }
            }
        }
        out.push(flatten(o));
    }
    Some(out)
}

fn real_bars(bars: &[BarIn]) -> Option<Vec<Bar>> {
    bars.iter()
        .map(|b| {
            let rs = build_set(b.mask, false).or_else(|| build_set(b.mask, true))?;
            Some(Bar::new(b.tick, b.rhythm.map(|r| Rhythm::new(r.0, r.1)), b.rhythm.map(|_| Key::SHARP_2), rs))
        })
        .collect()
}

fn describe(tune: (u8, u8), bars: &[BarIn]) -> String {
    let mut s = format!("tune rhythm {}/{}; bars:", tune.0, tune.1);
    for b in bars {
        s += &format!(" {}[{}]", b.tick, mask_str(b.mask));
        if let Some(r) = b.rhythm {
            s += &format!("({}/{})", r.0, r.1);
        }
    }
    s
}

#[derive(Clone, Copy, PartialEq)]
enum What {
    Repeats,
    Jumps,
    Errors,
}

enum Fate {
    Fine,
    /// no extension of this arrangement can be well formed
    Dead,
}

fn judge(ctx: &Ctx, what: What, tune: (u8, u8), bars: &[BarIn], t: &mut Tally) -> Fate {
    let p = parse(bars);
    let (globals, gfatal) = global_errors(bars);
    let fate = if p.fatal || gfatal { Fate::Dead } else { Fate::Fine };
    let mut errors = globals;
    errors.extend(p.structural.clone());
    let has_jump = bars.iter().any(|b| b.mask & (DC | DS) != 0);
    let well = errors.is_empty() && !p.unspecified;
    match what {
        What::Repeats if has_jump || !well => return fate,
        What::Jumps if !has_jump || !well => return fate,
        _ => {}
    }
    let orders = if well { play_order(tune, bars, &p.secs) } else { None };
    if what != What::Errors && orders.is_none() {
        t.count("arrangements whose order is left open");
        if what == What::Repeats {
            return fate;
        }
    }
    t.traces += 1;
    let r = guard(|| {
        let Some(rb) = real_bars(bars) else { return None };
        match render_region(Rhythm::new(tune.0, tune.1), rb.iter()) {
            Ok((region, warnings)) => Some(Ok((region.to_chunks(), warnings))),
            Err(e) => Some(Err(e.current_context().clone())),
        }
    });
    let report = |key: &str, msg: String| ctx.violation(key, msg, describe(tune, bars));
    match r {
        Err(Panicked(m)) => report("panic", format!("computing the playing order crashed: {m}")),
        Ok(None) => t.count("arrangements that cannot be built"),
        Ok(Some(Err(e))) => {
            if well {
                report("rejected", format!("a well-formed arrangement is rejected: {e:?}"));
            } else if what == What::Errors && !p.unspecified && !errors.contains(&e) {
                report("wrong-error", format!("rejected with {e:?}, which is not a fault of the arrangement (its faults: {errors:?})"));
            }
            t.count("arrangements rejected");
        }
        Ok(Some(Ok((chunks, warnings)))) => {
            let got: Vec<(u32, u32)> = chunks.iter().map(|c| (c.start_tick(), c.end_tick())).collect();
            if what == What::Errors {
                if well {
                    judge_warnings(bars, &warnings, &report);
                    if has_jump && orders.is_none() {
                        judge_two_passes(bars, &p.secs, &got, &report);
                    }
                }
                if !p.unspecified && !errors.is_empty() {
                    report("accepted", format!("a malformed arrangement is accepted; its faults: {errors:?}; order {got:?}"));
                }
                let edges: Vec<u32> = [0, u32::MAX].into_iter().chain(bars.iter().map(|b| b.tick)).collect();
                for (a, b) in &got {
                    if a > b || !edges.contains(a) || !edges.contains(b) {
                        report("insane", format!("piece {a}..{b} of the playing order {got:?} is not a forward stretch between bar lines"));
                    }
                }
                for e in &edges {
                    let n = got.iter().filter(|(a, b)| a <= e && e < b).count();
                    if n > 5 {
                        report("insane", format!("position {e} is played {n} times: {got:?}"));
                    }
                }
                if got.iter().filter(|(_, b)| *b == u32::MAX).count() > 1 {
                    report("insane", format!("the playing order goes past the end of the tune: {got:?}"));
                }
                t.count("arrangements accepted");
            } else if orders.is_none() {
                judge_two_passes(bars, &p.secs, &got, &report);
            } else {
                let flat = flatten(got.iter().copied());
                let orders = orders.unwrap();
                if !orders.contains(&flat) {
                    report("order", format!("plays {flat:?} instead of {:?}", orders));
                }
                t.count(match flat.len() {
                    1 => "orders of one stretch",
                    2..=3 => "orders of 2 or 3 stretches",
                    4..=6 => "orders of 4 to 6 stretches",
                    _ => "orders of more stretches",
                });
            }
        }
    }
    fate
}

/// The playing order of a tune with these bars, judged in every way.
pub fn judge_bars(ctx: &Ctx, c: &crate::content::Content, t: &mut Tally) {
    let bars: Vec<BarIn> = c.bars.iter().map(|b| BarIn { tick: b.tick, mask: b.mask, rhythm: b.rhythm }).collect();
    for what in [What::Repeats, What::Jumps, What::Errors] {
        judge(ctx, what, c.rhythm, &bars, t);
    }
}

/// A D.C. that meets a Segno or a single Coda is warned of; no warning names a mark that is not there.
fn judge_warnings(bars: &[BarIn], warnings: &[W], report: &dyn Fn(&str, String)) {
    let (dc, segno, coda) = (ticks_of(bars, DC), ticks_of(bars, SEGNO), ticks_of(bars, CODA));
    for w in warnings {
        let true_one = match w {
            W::SegnoAndDcFound { segno_tick, dc_tick } => segno.contains(segno_tick) && dc.contains(dc_tick),
            W::OrphanCodaFound { coda_tick } => coda.len() == 1 && coda.contains(coda_tick),
        };
        if !true_one {
            report("warning", format!("{w:?} is not true of the arrangement"));
        }
    }
    let has = |w: W| warnings.contains(&w);
    if let Some(dc_tick) = dc.first().copied().filter(|t| *t > 0) {
        if let Some(segno_tick) = segno.first().copied() {
            if !has(W::SegnoAndDcFound { segno_tick, dc_tick }) {
                report("no-warning", format!("D.C. and Segno, but only {warnings:?}"));
            }
        }
        if coda.len() == 1 && !has(W::OrphanCodaFound { coda_tick: coda[0] }) {
            report("no-warning", format!("D.C. and one Coda, but only {warnings:?}"));
        }
    }
}

/// Whatever a D.C. or D.S. is read as: everything up to it as usual, then once straight through the tune.
fn judge_two_passes(bars: &[BarIn], secs: &[Sec], got: &[(u32, u32)], report: &dyn Fn(&str, String)) {
    let Some(jump) = bars.iter().find(|b| b.mask & (DC | DS) != 0).map(|b| b.tick) else { return };
    let first = flatten(first_pass(secs, jump));
    let mut cut: Vec<(u32, u32)> = vec![];
    for (a, b) in got {
        if *a < jump && jump < *b {
            cut.extend([(*a, jump), (jump, *b)]);
        } else if a < b {
            cut.push((*a, *b));
        }
    }
    let ok = (0..=cut.len()).any(|k| flatten(cut[..k].iter().copied()) == first && cut[k..].windows(2).all(|w| w[0].1 <= w[1].0));
    if !ok {
        report("insane", format!("{got:?} is not {first:?} followed by one walk through the tune"));
    }
}

#[derive(Clone, Copy)]
enum Layout {
    Regular,
    Top,
    Irregular,
    Extreme,
    /// as `Regular`, with a rhythm and a key on every bar
    Dressed,
}
/// A bar of the layout.
fn bar_at(l: Layout, i: usize, mask: u16) -> BarIn {
    let rhythm = match l {
        Layout::Dressed => Some([(3, 4), (4, 4), (6, 8)][i % 3]),
        _ => None,
    };
    BarIn { tick: tick_at(l, i), mask, rhythm }
}
fn tick_at(l: Layout, i: usize) -> u32 {
    match l {
        Layout::Regular | Layout::Dressed => 960 * (i as u32 + 1),
        Layout::Top => 960 * i as u32,
        Layout::Irregular => [240, 241, 1000, 5000, 5001, 9000, 9960, 10000, 20000, 20001, 20002, 30000][i],
        Layout::Extreme => [0, 1, 2, 3, 100_000, 100_001, 0x0fff_ffff, 0x1000_0000, 0x2000_0000, 0x2000_0001, 0x2000_0005, 0x3000_0000][i],
    }
}

fn dfs(ctx: &Ctx, what: What, l: Layout, alphabet: &[u16], n: usize, dead: usize, extra: usize, bars: &mut Vec<BarIn>, t: &mut Tally) {
    if bars.len() == n || ctx.stopped() {
        return;
    }
    for m in alphabet {
        bars.push(bar_at(l, bars.len(), *m));
        t.states += 1;
        t.transitions += 1;
        let d = match judge(ctx, what, (4, 4), bars, t) {
            Fate::Fine => 0,
            Fate::Dead => dead + 1,
        };
        if d <= extra {
            dfs(ctx, what, l, alphabet, n, d, extra, bars, t);
        }
        bars.pop();
    }
}

/// All arrangements of up to `n` bars over the alphabet; one that is already broken is extended
/// by `extra` more bars only.
fn arrangements(ctx: &Ctx, what: What, name: &str, layouts: &[Layout], alphabet: &[u16], n: usize, extra: usize) {
    ctx.bound(name, format!("{} mark sets, up to {n} bars, {} layouts; broken arrangements extended by {extra} bars", alphabet.len(), layouts.len()));
    for l in layouts {
        let k = alphabet.len();
        ctx.par(k * k, |u, t| {
            at(&[*l as u64, u as u64]);
            let (i, j) = (u / k, u % k);
            let mut bars = vec![bar_at(*l, 0, alphabet[i])];
            let mut dead = 0;
            if j == 0 {
                t.states += 1;
                t.transitions += 1;
            }
            // the one-bar arrangement is judged once per pair, counted once
            if let Fate::Dead = judge(ctx, what, (4, 4), &bars, &mut if j == 0 { ctx.tally() } else { ctx.scratch() }) {
                dead = 1;
            }
            if dead > extra || n < 2 {
                return;
            }
            bars.push(bar_at(*l, 1, alphabet[j]));
            t.states += 1;
            t.transitions += 1;
            let d = match judge(ctx, what, (4, 4), &bars, t) {
                Fate::Fine => 0,
                Fate::Dead => dead + 1,
            };
            if d <= extra {
                dfs(ctx, what, *l, alphabet, n, d, extra, &mut bars, t);
            }
        });
    }
    ctx.sample(|| {
        let bars: Vec<BarIn> = (0..n).map(|i| bar_at(layouts[0], i, alphabet[(i * 5 + 1) % alphabet.len()])).collect();
        format!("{name}: {}", describe((4, 4), &bars))
    });
}

/// Long tunes: every pattern of up to `n` bars repeated up to `times`, plainly and with every pair of
/// other bars before and after it.
fn long_tunes(ctx: &Ctx, what: What, alphabet: &[u16], outer: &[u16], n: usize, times: usize) {
    ctx.bound(&format!("long tunes of {n}-bar patterns"), format!("every pattern of {n} bars over {} mark sets repeated {times} times, preceded and followed by every one of {} mark sets", alphabet.len(), outer.len()));
    let k = alphabet.len();
    ctx.par(k.pow(n as u32), |u, t| {
        let pattern: Vec<u16> = (0..n).map(|i| alphabet[u / k.pow(i as u32) % k]).collect();
        for before in outer {
            for after in outer {
                if ctx.stopped() {
                    return;
                }
                at(&[77, u as u64, *before as u64, *after as u64]);
                let masks = std::iter::once(*before).chain((0..times * n).map(|i| pattern[i % n])).chain(std::iter::once(*after)).chain(std::iter::once(0));
                let bars: Vec<BarIn> = masks.enumerate().map(|(i, m)| bar_at(Layout::Regular, i, m)).collect();
                t.states += 1;
                t.transitions += bars.len() as u64;
                judge(ctx, what, (4, 4), &bars, t);
            }
        }
    });
}

fn all_sets() -> Vec<u16> {
    (0u16..2048).filter(|m| build_set(*m, false).is_some() || build_set(*m, true).is_some()).collect()
}

use Layout::*;

pub fn c09(ctx: &Ctx) {
    let (v1, v2, v3, v4) = (var(1), var(2), var(3), var(4));
    let plain = [0, START, END, START | END, v1, v2, v3, v4];
    arrangements(ctx, What::Repeats, "repeats and variations", &[Regular, Top, Irregular, Extreme], &plain, ctx.pick(9, ctx.deepen(10, 11)), 0);
    let marks = [0, START, END, START | END, v1, v2, v3, FINE, SEGNO, CODA, FINE | END, SEGNO | START, CODA | START | END, v2 | CODA, v1 | FINE, FINE | CODA | SEGNO];
    arrangements(ctx, What::Repeats, "with idle marks", &[Regular, Top, Irregular], &marks, ctx.pick(7, ctx.deepen(8, 9)), 0);
    let sets: Vec<u16> = all_sets().into_iter().filter(|m| m & (DC | DS) == 0).collect();
    arrangements(ctx, What::Repeats, "all mark sets", &[Regular, Top], &sets, ctx.pick(4, 5), 0);
    arrangements(ctx, What::Repeats, "bars with rhythm and key", &[Dressed], &plain, ctx.pick(7, ctx.deepen(8, 9)), 0);
    long_tunes(ctx, What::Repeats, &plain, &[0, START, END, v1], ctx.pick(3, 4), 90);
    long_tunes(ctx, What::Repeats, &plain, &[0, START, v1], 2, ctx.deepen(350, 2500));
    ctx.assume("a variation mark where no repeat is open, an end mark or jump on a bar at position 0: order left open (C11 checks sanity)");
    ctx.assume("played pieces are compared after joining adjacent ones");
}

pub fn c10(ctx: &Ctx) {
    let (v1, v2, v3, v4) = (var(1), var(2), var(3), var(4));
    let marks = [
        0, START, END, START | END, v1, v2, DC, DS, FINE, SEGNO, CODA, END | DC, END | DS, END | FINE, SEGNO | START, CODA | END, v2 | CODA, v2 | FINE, FINE | DS,
    ];
    arrangements(ctx, What::Jumps, "repeats, variations and jumps", &[Regular, Top, Irregular], &marks, ctx.pick(7, 7), 0);
    let few = [0, START, END, v1, v2, v3, DC, FINE, CODA, END | DC];
    arrangements(ctx, What::Jumps, "more bars", &[Regular], &few, ctx.pick(9, 9), 0);
    // longer tunes over fewer marks
    let few = [0, START, END, v1, v2, DS, SEGNO, CODA, FINE];
    arrangements(ctx, What::Jumps, "longer tunes, D.S.", &[Regular, Irregular], &few, ctx.pick(9, 9), 0);
    let few = [0, START, END, v1, v2, DC, CODA, FINE];
    arrangements(ctx, What::Jumps, "longer tunes, D.C.", &[Regular, Extreme], &few, ctx.pick(9, 9), 0);
    let few = [0, START, v1, v2, v3, v4, DS, SEGNO];
    arrangements(ctx, What::Jumps, "four variations", &[Regular, Irregular], &few, ctx.pick(9, 9), 0);
    let sets = all_sets();
    arrangements(ctx, What::Jumps, "all mark sets", &[Regular, Top], &sets, ctx.pick(4, 5), 0);
    let few = [0, START, END, v1, v2, DC, DS, SEGNO, CODA, FINE];
    arrangements(ctx, What::Jumps, "bars with rhythm and key", &[Dressed], &few, ctx.pick(7, 7), 0);
    long_tunes(ctx, What::Jumps, &[0, START, END, START | END, v1, v2, v3, v4], &[0, START, END | FINE, SEGNO, FINE, END | DC, DS, DC], ctx.pick(3, 4), 90);
    long_tunes(ctx, What::Jumps, &[0, START, END, START | END, v1, v2, v3, v4], &[0, START, SEGNO, END | FINE, DC, DS], 2, ctx.deepen(350, 2500));
    // pickup bars: every combination of bar lengths
    let lens: [u32; 6] = [240, 480, 720, 960, 961, 1];
    let marks = [0, DC, END | DC, FINE, START, END, CODA, DC | FINE];
    let n = ctx.pick(4usize, 5);
    ctx.bound("pickup bars", format!("{n} bars, lengths {lens:?}, {} mark sets, tune rhythms 4/4, 3/4, 2/4, 6/8, bar at the top: none, plain, 4/4 or 3/4, or 3/4 with a start mark or a Coda", marks.len()));
    ctx.par(lens.len().pow(n as u32), |u, t| {
        let mut ticks = vec![];
        let (mut c, mut at_tick) = (u, 0);
        for _ in 0..n {
            at_tick += lens[c % lens.len()];
            c /= lens.len();
            ticks.push(at_tick);
        }
        for tune in [(4, 4), (3, 4), (2, 4), (6, 8)] {
            let plain = 0;
            for top in [None, Some((None, plain)), Some((Some((4, 4)), plain)), Some((Some((3, 4)), plain)), Some((Some((3, 4)), START)), Some((Some((3, 4)), CODA))] {
                for code in 0..marks.len().pow(n as u32) {
                    let mut bars = vec![];
                    if let Some((r, m)) = top {
                        bars.push(BarIn { tick: 0, mask: m, rhythm: r });
                    }
                    let mut c = code;
                    let mut jumps = 0;
                    for tk in &ticks {
                        let m = marks[c % marks.len()];
                        c /= marks.len();
                        jumps += (m & DC != 0) as u32;
                        bars.push(BarIn { tick: *tk, mask: m, rhythm: None });
                    }
                    if jumps != 1 {
                        continue;
                    }
                    t.states += 1;
                    t.transitions += n as u64;
                    at(&[99, u as u64, code as u64, tune.0 as u64]);
                    judge(ctx, What::Jumps, tune, &bars, t);
                }
            }
        }
    });
    ctx.assume("D.C. in a tune with a pickup bar: strict when the bar ending at D.C. is full or completes the pickup; for other lengths both starting points are accepted");
    ctx.assume("D.C. in a tune that also has a Segno may resume at the Segno or as without it");
    ctx.assume("order left open (C11 checks sanity): Fine at or before the restart, a Coda before the restart, a mark inside a variation the second pass skips");
}

pub fn c11(ctx: &Ctx) {
    let (v1, v2, v3, v4) = (var(1), var(2), var(3), var(4));
    let sets = all_sets();
    arrangements(ctx, What::Errors, "all mark sets", &[Regular, Top], &sets, 3, 3);
    arrangements(ctx, What::Errors, "all mark sets, longer", &[Regular, Top][..ctx.pick(1, 2)], &sets, ctx.pick(4, 5), ctx.pick(1, 0));
    let marks = [0, START, END, START | END, v1, v2, v3, v4, DC, DS, FINE, SEGNO, CODA, END | DC, v2 | CODA];
    arrangements(ctx, What::Errors, "one mark per bar", &[Regular, Top, Irregular], &marks, ctx.pick(6, 7), 1);
    let marks = [0, START, END, v1, v2, v3, v4, DS];
    arrangements(ctx, What::Errors, "longer repeats and variations", &[Regular, Extreme], &marks, ctx.pick(9, 10), 0);
    arrangements(ctx, What::Errors, "repeats and variations", &[Regular, Extreme], &marks, ctx.pick(7, 8), ctx.pick(7, 8));
    let marks = [0, DC, DS, FINE, SEGNO, CODA, END];
    arrangements(ctx, What::Errors, "jumps", &[Regular, Top], &marks, ctx.pick(7, 8), ctx.pick(7, 8));
    let marks = [0, START, END, v1, v2, v3, DC, DS, FINE, SEGNO, CODA];
    arrangements(ctx, What::Errors, "bars with rhythm and key", &[Dressed], &marks, ctx.pick(5, 6), 1);
    long_tunes(ctx, What::Errors, &[0, START, END, START | END, v1, v2, v3, v4], &[0, START, END, FINE, CODA, SEGNO, DC, DS, v1], ctx.pick(3, 4), 90);
    ctx.assume("a malformed arrangement may be reported with any of its faults");
}

// ---------------------------------------------------------------- C12

fn elapsed(pieces: &[(u32, u32)], x: u32) -> Vec<u64> {
    let mut off = 0u64;
    let mut v = vec![];
    for (a, b) in pieces {
        if *a <= x && x < *b {
            v.push(off + (x - a) as u64);
        }
        off += (b - a) as u64;
    }
    v
}

fn judge_positions(ctx: &Ctx, pieces: &[(u32, u32)], t: &mut Tally) {
    let chunks: Vec<Chunk> = pieces.iter().map(|(a, b)| Chunk::new(*a, *b)).collect();
    let rep = |key: &str, m: String| ctx.violation(key, m, format!("playing order {pieces:?}"));
    let r = guard(|| {
        let merged = Chunk::optimize(&chunks);
        let flat = |c: &[Chunk]| flatten(c.iter().map(|c| (c.start_tick(), c.end_tick())));
        if flat(&merged) != flat(&chunks) {
            rep("merge", format!("merging changes the order into {merged:?}"));
        }
        for c in &chunks {
            if c.len() != c.end_tick() - c.start_tick() {
                rep("length", format!("{c:?} has length {}", c.len()));
            }
        }
        let mut xs: Vec<u32> = vec![0, 1, 7];
        let n = pieces.len();
        for (_, (a, b)) in pieces.iter().enumerate().filter(|(i, _)| n < 50 || *i < 3 || (252..260).contains(i) || n < *i + 4) {
            xs.extend([*a, a.saturating_add(1), b.saturating_sub(1), *b, b.saturating_add(1)]);
        }
        xs.sort();
        xs.dedup();
        xs.extend([1 << 16, 0x7fff_ffff, 0x8000_0000, 3_000_000_000, u32::MAX - 1]);
        // what is played after 2^32 ticks has no playback position
        xs.retain(|x| elapsed(pieces, *x).iter().all(|e| *e <= u32::MAX as u64));
        for list in [&chunks, &merged] {
            let table = Chunk::by_accum_tick(list);
            for x in &xs {
                let want = elapsed(pieces, *x);
                for n in 0..=8u8 {
                    t.transitions += 1;
                    let got = PlayStartTick::new(*x, n).to_accum_tick(&table);
                    let k = (n.clamp(1, 5) - 1) as usize;
                    let ok = match (&got, want.get(k)) {
                        (Ok(g), Some(w)) => *g as u64 == *w,
                        (Err(ToAccumTickError::CannotFind { specified_iter, max_iter }), None) => {
                            *max_iter as usize == want.len() && specified_iter.iter() as usize == k + 1
                        }
                        _ => false,
                    };
                    t.count(if got.is_ok() { "positions found" } else { "positions not played that often" });
                    if !ok {
                        rep("position", format!("position {x}, pass {n}: {got:?}; it is played at {want:?}; pieces {list:?}"));
                        return;
                    }
                }
            }
        }
    });
    if let Err(Panicked(m)) = r {
        rep("panic", format!("crashed: {m}"));
    }
}

pub fn c12(ctx: &Ctx) {
    // every list of pieces over a small set of positions
    let pos: &[u32] = ctx.pick(&[0, 1, 3, 10], ctx.deepen(&[0, 1, 3, 10, 11], &[0, 1, 3, 10, 11, 24]));
    let mut pieces = vec![];
    for i in 0..pos.len() {
        for j in i..pos.len() {
            pieces.push((pos[i], pos[j]));
        }
    }
    let n = ctx.pick(5usize, 5);
    ctx.bound("piece lists", format!("all lists of up to {n} pieces between positions {pos:?} (empty pieces included), each also with an endless last piece"));
    let k = pieces.len();
    ctx.par(k * k, |u, t| {
        for len in 2..=n {
            for code in 0..k.pow(len as u32 - 2) {
                let mut v = vec![pieces[u / k], pieces[u % k]];
                let mut c = code;
                for _ in 2..len {
                    v.push(pieces[c % k]);
                    c /= k;
                }
                at(&[len as u64, u as u64, code as u64]);
                t.states += 1;
                t.traces += 1;
                judge_positions(ctx, &v, t);
                if len < n {
                    for from in pos {
                        v.push((*from, u32::MAX));
                        t.states += 1;
                        t.traces += 1;
                        judge_positions(ctx, &v, t);
                        v.pop();
                    }
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    ctx.par(1, |_, t| {
        judge_positions(ctx, &[], t);
        for p in &pieces {
            t.states += 1;
            judge_positions(ctx, &[*p], t);
        }
        for p in pos {
            t.states += 1;
            judge_positions(ctx, &[(*p, u32::MAX)], t);
        }
    });
    // long pieces, and many pieces
    let far: Vec<u32> = ctx.pick(vec![0, 65_535, 65_536, 200_001, 0x2000_0000], vec![0, 255, 256, 65_535, 65_536, 200_001, 0x0100_0001, 0x2000_0000]);
    let mut long: Vec<(u32, u32)> = vec![];
    for i in 0..far.len() {
        for j in i + 1..far.len() {
            long.push((far[i], far[j]));
        }
    }
    ctx.bound("long pieces", format!("all lists of up to 4 pieces between positions {far:?}, each also with an endless last piece"));
    let k = long.len();
    ctx.par(k, |u, t| {
        for len in 1..=4 {
            for code in 0..k.pow(len as u32 - 1) {
                let mut v = vec![long[u]];
                let mut c = code;
                for _ in 1..len {
                    v.push(long[c % k]);
                    c /= k;
                }
                if v.iter().map(|(a, b)| (b - a) as u64).sum::<u64>() > u32::MAX as u64 {
                    continue;
                }
                at(&[len as u64, u as u64, code as u64]);
                t.states += 1;
                t.traces += 1;
                judge_positions(ctx, &v, t);
                if len < 4 {
                    v.push((far[code % far.len()], u32::MAX));
                    t.states += 1;
                    t.traces += 1;
                    judge_positions(ctx, &v, t);
                }
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    ctx.bound("many pieces", "every cycle of up to 3 pieces repeated to lists of 257 and 300 pieces, moving on through the tune");
    let k = pieces.len();
    ctx.par(k * k, |u, t| {
        for third in 0..=k {
            for n in [257usize, 300] {
                // the cycle is walked forward through the tune: pieces shifted by 20 ticks per round
                let mut cycle = vec![pieces[u / k], pieces[u % k]];
                if third < k {
                    cycle.push(pieces[third]);
                }
                let v: Vec<(u32, u32)> = (0..n).map(|i| (cycle[i % cycle.len()], 20 * (i / cycle.len()) as u32)).map(|((a, b), s)| (a + s, b + s)).collect();
                at(&[n as u64, u as u64, third as u64]);
                t.states += 1;
                t.traces += 1;
                judge_positions(ctx, &v, t);
                if ctx.stopped() {
                    return;
                }
            }
        }
    });
    // playing orders of real tunes
    let (v1, v2, v3, v4) = (var(1), var(2), var(3), var(4));
    let marks = [0, START, END, START | END, v1, v2, v3, v4, DC, DS, FINE, SEGNO, CODA, END | DC];
    let n = ctx.pick(5usize, ctx.deepen(6, 7));
    ctx.bound("tunes", format!("every playing order of a tune of up to {n} bars over {} mark sets", marks.len()));
    let k = marks.len();
    for l in [Regular, Top, Extreme] {
        ctx.par(k * k, |u, t| {
            let mut stack: Vec<Vec<BarIn>> = vec![vec![
                bar_at(l, 0, marks[u / k]),
                bar_at(l, 1, marks[u % k]),
            ]];
            while let Some(bars) = stack.pop() {
                if ctx.stopped() {
                    return;
                }
                let p = parse(&bars);
                if p.fatal || global_errors(&bars).1 {
                    continue;
                }
                let r = guard(|| {
                    let rb = real_bars(&bars)?;
                    render_region(Rhythm::new(4, 4), rb.iter()).ok().map(|(r, _)| r.to_chunks())
                });
                if let Ok(Some(chunks)) = r {
                    let pieces: Vec<(u32, u32)> = chunks.iter().map(|c| (c.start_tick(), c.end_tick())).collect();
                    let endless_inside = pieces.iter().rev().skip(1).any(|p| p.1 == u32::MAX);
                    if !endless_inside && pieces.iter().all(|(a, b)| a <= b) {
                        t.states += 1;
                        t.traces += 1;
                        judge_positions(ctx, &pieces, t);
                    }
                }
                if bars.len() < n {
                    for m in marks {
                        let mut b = bars.clone();
                        b.push(bar_at(l, bars.len(), m));
                        stack.push(b);
                    }
                }
            }
        });
    }
    // pass numbers: every sequence of settings
    ctx.par(256, |u, t| {
        let a = u as u8;
        let chk = |p: PlayIter, want: u8, how: String| {
            if p.iter() != want || !(1..=5).contains(&p.iter()) {
                ctx.violation("pass", format!("pass number {} instead of {want}", p.iter()), how);
            }
        };
        let r = guard(|| {
            chk(PlayIter::default(), 1, "default".into());
            let p = PlayIter::new(a);
            chk(p, a.clamp(1, 5), format!("new({a})"));
            chk(PlayStartTick::new(7, a).iter, a.clamp(1, 5), format!("PlayStartTick::new(7, {a})"));
            for b in 0..=255u8 {
                let mut q = p;
                let ok = q.set_iter(b);
                t.transitions += 1;
                if ok != (1..=5).contains(&b) {
                    ctx.violation("pass", format!("set_iter({b}) reports {ok}"), format!("new({a}), set_iter({b})"));
                }
                chk(q, if ok { b } else { a.clamp(1, 5) }, format!("new({a}), set_iter({b})"));
            }
        });
        if let Err(Panicked(m)) = r {
            ctx.violation("panic", m, format!("pass number {a}"));
        }
    });
    ctx.sample(|| format!("{:?}", [pieces[1], pieces[5], pieces[2], (pos[1], u32::MAX)]));
    ctx.assume("only the last piece of a playing order may be endless; the played length up to the position asked for stays below 2^32");
}
