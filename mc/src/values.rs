//! C20 lengths, C21 grid, C22 trims and percentages, C23 bounded edit history, C25 limited values.
use crate::content::*;
use crate::driver::*;
use crate::pitches::SEMIS;
use klavier_core::bar::VarIndex;
use klavier_core::can_apply::CanApply;
use klavier_core::channel::Channel;
use klavier_core::duration::{self, Dots, Duration};
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::models::Models;
use klavier_core::octave::Octave;
use klavier_core::percent::PercentU16;
use klavier_core::project::ModelChangeMetadata;
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::undo::{Undo, UndoStore};
use klavier_core::velocity::Velocity;

// ---------------- C20 ----------------

pub fn c20(ctx: &Ctx) {
    let mut t = ctx.tally();
    // len[num][dots][den-2]
    let mut len = vec![[[0u32; 254]; 8]; 8];
    for num in 0..8u8 {
        for dots in 0..8u8 {
            for den in 2..=255u8 {
                at(&[0, num as u64, dots as u64, den as u64]);
                t.states += 1;
                t.transitions += 1;
                t.traces += 1;
                let l = match guard(|| dur(num, den, dots).tick_length()) {
                    Ok(l) => l,
                    Err(p) => {
                        ctx.violation("panic", format!("length of value {num} dots {dots} denominator {den} crashed: {}", p.0), "Duration::tick_length");
                        continue;
                    }
                };
                len[num as usize][dots as usize][den as usize - 2] = l;
                // exact length: 960 * (2^(dots+1) - 1) * 2 / (2^num * 2^dots * den)
                let (p, q) = (960u64 * ((1 << (dots + 1)) - 1) * 2, (1u64 << num) * (1 << dots) * den as u64);
                let base_exact = 960 % (1u64 << num) == 0;
                let dots_exact = base_exact && (960u64 >> num) % (1 << dots) == 0;
                let what = || format!("note value 1/{}, {dots} dots, denominator {den}", 1u32 << num);
                if dots_exact && p % q == 0 {
                    t.count("lengths in whole ticks");
                    if l as u64 != p / q {
                        ctx.violation("exact", format!("{}: length {l}, should be exactly {}", what(), p / q), "Duration::tick_length");
                    }
                } else {
                    // one division each for the base value, the dots and the denominator
                    let e = p as f64 / q as f64;
                    let scale = 2.0 / den as f64;
                    let tol = 1.0 + scale * ((if dots_exact { 0.0 } else { 1.0 }) + (if base_exact { 0.0 } else { 2.0 }));
                    t.count("lengths rounded");
                    if (l as f64 - e).abs() >= tol {
                        ctx.violation("rounded", format!("{}: length {l}, exact {e}, more than {tol} off", what(), ), "Duration::tick_length");
                    }
                }
            }
        }
    }
    for num in 0..8usize {
        for dots in 0..8usize {
            for den in 0..254usize {
                t.transitions += 3;
                let l = len[num][dots][den];
                let what = format!("1/{} dots {dots} denominator {}", 1 << num, den + 2);
                if dots < 7 && len[num][dots + 1][den] < l {
                    ctx.violation("monotone-dots", format!("a further dot shortens {what}: {l} -> {}", len[num][dots + 1][den]), "Duration::tick_length");
                }
                if num < 7 && len[num + 1][dots][den] > l {
                    ctx.violation("monotone-value", format!("a smaller value lengthens {what}: {l} -> {}", len[num + 1][dots][den]), "Duration::tick_length");
                }
                if den < 253 && len[num][dots][den + 1] > l {
                    ctx.violation("monotone-denominator", format!("a larger denominator lengthens {what}: {l} -> {}", len[num][dots][den + 1]), "Duration::tick_length");
                }
            }
        }
    }
    // changing one part of a duration keeps the others (walks over all pairs)
    let parts = |d: Duration| (num_ix(d.numerator), d.denominator.value(), d.dots.value());
    let dens = [2u8, 3, 4, 5, 6, 7, 127, 128, 254, 255];
    for num in 0..8u8 {
        for dots in 0..8u8 {
            for den in dens {
                let d = dur(num, den, dots);
                let r = guard(|| {
                    for k in 0..8u8 {
                        t.transitions += 2;
                        if parts(d.with_numerator(NUMERATORS[k as usize])) != (k, den, dots) {
                            ctx.violation("with", format!("{:?}.with_numerator({k}) = {:?}", parts(d), parts(d.with_numerator(NUMERATORS[k as usize]))), "Duration");
                        }
                        if parts(d.with_dots(Dots::from_value(k).unwrap())) != (num, den, k) {
                            ctx.violation("with", format!("{:?}.with_dots({k})", parts(d)), "Duration");
                        }
                    }
                    for k in 2..=255u8 {
                        t.transitions += 1;
                        if parts(d.with_denominator(duration::Denominator::from_value(k).unwrap())) != (num, k, dots) {
                            ctx.violation("with", format!("{:?}.with_denominator({k})", parts(d)), "Duration");
                        }
                    }
                    for n2 in 0..8u8 {
                        for o2 in 0..8u8 {
                            for d2 in dens {
                                t.transitions += 1;
                                let e = dur(n2, d2, o2);
                                let m = d.min(e);
                                if m.tick_length() != d.tick_length().min(e.tick_length()) || (parts(m) != parts(d) && parts(m) != parts(e)) {
                                    ctx.violation("min", format!("shorter of {:?} and {:?} is {:?}", parts(d), parts(e), parts(m)), "Duration::min");
                                }
                            }
                        }
                    }
                });
                if let Err(p) = r {
                    ctx.violation("panic", format!("crashed: {}", p.0), format!("{:?}", parts(d)));
                }
            }
        }
    }
    for k in 0..8u8 {
        let o = NUMERATORS[k as usize].ord();
        if o != k || duration::Numerator::from_ord(k).map(num_ix) != Some(k) {
            ctx.violation("ord", format!("note value number {k} has ord {o}"), "Numerator::ord");
        }
    }
    // bars
    for n in 1..=99u8 {
        for d in [2u8, 4, 8, 16, 32, 64] {
            t.states += 1;
            t.transitions += 1;
            t.traces += 1;
            at(&[1, n as u64, d as u64]);
            match guard(|| Rhythm::value_of(n, d).map(|r| (r.tick_len(), rhythm_of(r)))) {
                Ok(Ok((l, parts))) => {
                    let e = 960 * n as u32 / d as u32;
                    if l != e || parts != (n, d) {
                        ctx.violation("bar", format!("rhythm {n}/{d}: bar of {l} ticks, expected {e}; parts {parts:?}"), "Rhythm::tick_len");
                    }
                }
                Ok(Err(e)) => ctx.violation("bar", format!("rhythm {n}/{d} refused: {e:?}"), "Rhythm::value_of"),
                Err(p) => ctx.violation("panic", format!("rhythm {n}/{d} crashed: {}", p.0), "Rhythm"),
            }
        }
    }
    drop(t);
    ctx.sample(|| "dotted eighth of a triplet group: 240 >> 1, + 1 dot, x 2/3 = 120 ticks".to_string());
    ctx.bound("durations", "all 8 values x 8 dots x 254 denominators");
    ctx.bound("rhythms", "all 99 numerators x 6 denominators");
}

// ---------------- C21 ----------------

pub fn c21(ctx: &Ctx) {
    let dense = ctx.pick(1000u32, ctx.deepen(4000, 20000));
    let mut grids: Vec<u32> = (1..=dense).collect();
    grids.extend([4095, 4096, 4800, 7680, 32767, 32768, 65535, 65536, (1 << 24) + 1, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX]);
    ctx.par(grids.len(), |u, t| {
        let g = grids[u];
        let gi = g as i64;
        t.states += 1;
        at(&[0, g as u64]);
        let grid = match guard(|| Grid::from_u32(g)) {
            Ok(Ok(x)) if x.as_u32() == g => x,
            Ok(r) => return ctx.violation("grid", format!("grid {g}: {r:?}"), "Grid::from_u32"),
            Err(p) => return ctx.violation("panic", format!("grid {g} crashed: {}", p.0), "Grid::from_u32"),
        };
        let mut runs: Vec<(i64, i64)> = vec![]; // ranges of positions, each in order
        if gi <= 10_000 {
            runs.push((-3 * gi - 2, 3 * gi + 2));
        }
        for c in [0i64, 1, 2, 1000, (1 << 32) / gi, (1i64 << 40) / gi] {
            for base in [c * gi, c * gi + gi / 2, -c * gi, -c * gi - gi / 2] {
                runs.push((base - 6, base + 6));
            }
        }
        // positions no 32-bit and no floating-point number can hold
        for b in [1i64 << 31, 1 << 32, (1 << 32) + 77, (1 << 52) + 9, 1 << 53, (1 << 53) + 5 * gi, 1 << 57, (1 << 61) + 12345] {
            let line = b / gi * gi;
            for base in [b, -b, line, -line, line + gi / 2, -line - gi / 2] {
                runs.push((base - 9, base + 9));
            }
        }
        let r = guard(|| {
            for (lo, hi) in &runs {
                let mut prev: Option<i64> = None;
                for p in *lo..=*hi {
                    t.transitions += 1;
                    t.traces += 1;
                    let s = grid.snap(p);
                    let how = || format!("grid {g}, position {p}: snapped to {s}");
                    if s % gi != 0 {
                        ctx.violation("multiple", "not on the grid", how());
                    }
                    if (s - p).abs() * 2 > gi {
                        ctx.violation("nearest", "farther away than half a step", how());
                    }
                    if p % gi == 0 && s != p {
                        ctx.violation("on-grid", "a position on the grid was moved", how());
                    }
                    if prev.is_some_and(|q| q > s) {
                        ctx.violation("order", format!("the position before snaps to {}", prev.unwrap()), how());
                    }
                    if grid.snap(-p) != -s {
                        ctx.violation("symmetry", format!("{} snaps to {}", -p, grid.snap(-p)), how());
                    }
                    prev = Some(s);
                }
            }
        });
        if let Err(p) = r {
            ctx.violation("panic", format!("snapping to grid {g} crashed: {}", p.0), format!("grid {g}"));
        }
        // shown as text and read back
        let txt = grid.to_string();
        match guard(|| Grid::value_of(&txt)) {
            Ok(Ok(x)) if x.as_u32() == g => {}
            Ok(r) => ctx.violation("text", format!("grid {g} shown as {txt:?} reads back as {r:?}"), "Grid::value_of"),
            Err(p) => ctx.violation("panic", format!("grid text {txt:?} crashed: {}", p.0), "Grid::value_of"),
        }
    });
    // no way to a grid of zero: numbers, text, stored form, default
    let mut t = ctx.tally();
    t.transitions += 4;
    if Grid::from_u32(0).is_ok() {
        ctx.violation("zero", "a grid of zero was created from a number", "Grid::from_u32(0)");
    }
    if Grid::default().as_u32() == 0 {
        ctx.violation("zero", "the default grid is zero", "Grid::default()");
    }
    for s in ["{\"value\":0}", "{\"value\":-0}", "0", "[0]"] {
        if let Ok(Ok(g)) = guard(|| serde_json::from_str::<Grid>(s)) {
            if g.as_u32() == 0 {
                ctx.violation("zero", "a grid of zero was read from its stored form", s);
            }
        }
    }
    if let Ok(Ok(g)) = guard(|| bincode::deserialize::<Grid>(&[0, 0, 0, 0])) {
        if g.as_u32() == 0 {
            ctx.violation("zero", "a grid of zero was read from its binary stored form", "[0, 0, 0, 0]");
        }
    }
    // all short texts over a small alphabet
    let alpha: Vec<char> = "0123456789+- .a".chars().collect();
    let maxlen = ctx.pick(4, ctx.deepen(6, 7));
    let mut words = vec![String::new()];
    for _ in 0..=maxlen {
        for w in &words {
            t.transitions += 1;
            match guard(|| Grid::value_of(w)) {
                Ok(Ok(g)) => {
                    let typed = w.strip_prefix('+').unwrap_or(w).parse::<u64>().ok();
                    if g.as_u32() == 0 || typed != Some(g.as_u32() as u64) {
                        ctx.violation("text", format!("text {w:?} gives grid {}", g.as_u32()), "Grid::value_of");
                    }
                }
                Ok(Err(_)) => {
                    if !w.is_empty() && w.chars().all(|c| c.is_ascii_digit()) && w.parse::<u32>().is_ok_and(|x| x > 0) {
                        ctx.violation("text", format!("valid grid text {w:?} refused"), "Grid::value_of");
                    }
                }
                Err(p) => ctx.violation("panic", format!("grid text {w:?} crashed: {}", p.0), "Grid::value_of"),
            }
        }
        if words[0].len() == maxlen {
            break;
        }
        words = words.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
    }
    drop(t);
    ctx.sample(|| "grid 7: positions -23..23 in order, and around 2^32 and 2^40".to_string());
    ctx.bound("grids", format!("1..={dense} and {} large ones", grids.len() - dense as usize));
    ctx.bound("positions", "all within 3 grid steps of 0; +-6 around grid lines and midpoints up to 2^40; +-9 around positions, grid lines and midpoints at 2^31, 2^32, 2^52, 2^53, 2^57, 2^61");
    ctx.bound("grid texts", format!("all texts up to {maxlen} characters over 15 characters"));
}

// ---------------- C22 ----------------

fn trim_ok(ctx: &Ctx, t: &Trimmer, e: [i64; 4], how: &dyn Fn() -> String) -> bool {
    let got: Vec<i64> = (0..4).map(|i| t.value(i) as i64).collect();
    let sum: i64 = e.iter().sum();
    let same = |v: &[i16]| v.len() == 4 && v.iter().zip(e).all(|(a, b)| *a as i64 == b);
    if got != e || !same(t.values()) || !same(&t.to_vec()) || !same(&t.to_array()) {
        ctx.violation("parts", format!("parts {got:?}, expected {e:?}"), how());
        return false;
    }
    if t.sum() as i64 != sum {
        ctx.violation("total", format!("parts {e:?} have total {}", t.sum()), how());
        return false;
    }
    true
}

pub fn c22(ctx: &Ctx) {
    let tv: [i16; 11] = [i16::MIN, i16::MIN + 1, -20000, -100, -1, 0, 1, 100, 20000, i16::MAX - 1, i16::MAX];
    let adds: [i32; 21] = [
        i32::MIN, -1_000_000, -131_073, -131_072, -65_536, -65_535, -32_768, -32_767, -100, -1, 0, 1, 100, 32_767, 32_768, 65_535, 65_536,
        131_068, 131_069, 1_000_000, i32::MAX,
    ];
    let depth = ctx.pick(2, ctx.deepen(3, 4));
    ctx.par(11usize.pow(4), |u, t| {
        let a: [i16; 4] = [tv[u % 11], tv[u / 11 % 11], tv[u / 121 % 11], tv[u / 1331]];
        let e = a.map(|x| x as i64);
        t.states += 1;
        at(&[0, u as u64]);
        let how = |w: &'static str| move || format!("{w} of {a:?}");
        let r = guard(|| {
            trim_ok(ctx, &Trimmer::new(a[0], a[1], a[2], a[3]), e, &how("new"));
            let base = Trimmer::from_array(a);
            trim_ok(ctx, &base, e, &how("from_array"));
            trim_ok(ctx, &Trimmer::from_vec(&a.to_vec()), e, &how("from_vec"));
            trim_ok(ctx, &Trimmer::ZERO.updated(|v| *v = a), e, &how("update of zero"));
            let j = serde_json::to_string(&base).expect("json");
            trim_ok(ctx, &serde_json::from_str::<Trimmer>(&j).expect("json"), e, &how("reload (text)"));
            let b = bincode::serialize(&base).expect("bin");
            trim_ok(ctx, &bincode::deserialize::<Trimmer>(&b).expect("bin"), e, &how("reload (binary)"));
            t.transitions += 6;
            for i in 0..4 {
                for v in tv {
                    let mut e2 = e;
                    e2[i] = v as i64;
                    t.transitions += 1;
                    trim_ok(ctx, &base.updated(|x| x[i] = v), e2, &|| format!("update part {i} of {a:?} to {v}"));
                }
            }
            fn go(ctx: &Ctx, t: &mut Tally, adds: &[i32], x: Trimmer, total: i64, path: &mut Vec<i32>, a: &[i16; 4], left: usize) {
                if left == 0 {
                    t.traces += 1;
                    return;
                }
                for d in adds {
                    path.push(*d);
                    t.transitions += 1;
                    let y = x.added(*d);
                    let exp = (total + *d as i64).clamp(4 * i16::MIN as i64, 4 * i16::MAX as i64);
                    let parts: i64 = (0..4).map(|i| y.value(i) as i64).sum();
                    if y.sum() as i64 != exp || parts != exp {
                        ctx.violation("added", format!("adding {path:?}: total {}, parts add up to {parts}, expected {exp}", y.sum()), format!("{a:?} + {path:?}"));
                    } else {
                        go(ctx, t, adds, y, exp, path, a, left - 1);
                    }
                    path.pop();
                }
            }
            go(ctx, t, &adds, base, e.iter().sum(), &mut vec![], &a, depth);
        });
        if let Err(p) = r {
            ctx.violation("panic", format!("trim {a:?} crashed: {}", p.0), format!("{a:?}"));
        }
    });
    // every amount on a few trims
    let starts: Vec<[i16; 4]> = vec![[0; 4], [i16::MAX; 4], [i16::MIN; 4], [100, -100, i16::MAX, i16::MIN], [i16::MAX, 0, 0, 5], [i16::MIN, -7, 3, i16::MAX]];
    ctx.par(starts.len(), |u, t| {
        let a = starts[u];
        let sum: i64 = a.iter().map(|x| *x as i64).sum();
        at(&[1, u as u64]);
        let r = guard(|| {
            for d in -270_000..=270_000i32 {
                t.transitions += 1;
                let y = Trimmer::from_array(a).added(d);
                let exp = (sum + d as i64).clamp(4 * i16::MIN as i64, 4 * i16::MAX as i64);
                let parts: i64 = (0..4).map(|i| y.value(i) as i64).sum();
                if y.sum() as i64 != exp || parts != exp {
                    ctx.violation("added", format!("adding {d} to {a:?}: total {}, parts {parts}, expected {exp}", y.sum()), format!("{a:?}"));
                }
            }
        });
        if let Err(p) = r {
            ctx.violation("panic", format!("adding to {a:?} crashed: {}", p.0), format!("{a:?}"));
        }
    });
    // percentages: all of them
    {
        let mut t = ctx.tally();
        let ticks = [0u32, 1, 2, 3, 7, 15, 119, 239, 240, 959, 960, 999, 1000, 1001, 3826, 100_000, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX];
        for v in 0..=65535u32 {
            at(&[2, v as u64]);
            t.states += 1;
            let e = v.min(2000);
            let r = guard(|| {
                let p = PercentU16::from_value(v as u16);
                if pct(p) != e {
                    ctx.violation("percent", format!("percentage from {v} reads {}", pct(p)), "PercentU16::from_value");
                }
                if v > 2000 {
                    return;
                }
                t.transitions += 3 + ticks.len() as u64;
                t.traces += 1;
                if pct(PercentU16::from(p.to_f32())) != e {
                    ctx.violation("percent-f32", format!("{v} -> {} -> {}", p.to_f32(), pct(PercentU16::from(p.to_f32()))), "PercentU16::from");
                }
                let s = p.to_string();
                match s.parse::<f32>() {
                    Ok(f) if pct(PercentU16::from(f)) == e => {}
                    r => ctx.violation("percent-text", format!("{v} shown as {s:?} reads back as {r:?}"), "PercentU16::to_string"),
                }
                let j = serde_json::to_string(&p).expect("json");
                if pct(serde_json::from_str::<PercentU16>(&j).expect("json")) != e {
                    ctx.violation("percent-reload", format!("{v} stored as {j}"), "PercentU16");
                }
                for x in ticks {
                    let exp = x as u64 * v as u64 / 1000;
                    if exp <= u32::MAX as u64 && p.apply(x) as u64 != exp {
                        ctx.violation("apply", format!("{v}/1000 of {x} is {exp}, got {}", p.apply(x)), "PercentU16::apply");
                    }
                }
            });
            if let Err(p) = r {
                ctx.violation("panic", format!("percentage {v} crashed: {}", p.0), "PercentU16");
            }
        }
        let consts = [(PercentU16::MAX, 2000), (PercentU16::MIN, 0), (PercentU16::ZERO, 0), (PercentU16::HUNDRED, 1000)];
        for (p, e) in consts {
            if pct(p) != e {
                ctx.violation("percent", format!("constant reads {}, expected {e}", pct(p)), "PercentU16");
            }
        }
        // from any number: the nearest tenth of a percent, limited
        let mut fs: Vec<f32> = (-20_000..=60_000).map(|i| i as f32 / 16_384.0).collect();
        fs.extend([f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MIN_POSITIVE, f32::MAX, f32::MIN, 1e30, -1e30, 2.0 + f32::EPSILON * 2.0]);
        for f in fs {
            t.transitions += 1;
            match guard(|| pct(PercentU16::from(f))) {
                Ok(g) => {
                    let ok = if f.is_nan() {
                        g <= 2000
                    } else {
                        let e = (f as f64 * 1000.0).clamp(0.0, 2000.0);
                        (g as f64 - e).abs() <= 0.5005
                    };
                    if !ok {
                        ctx.violation("percent-from", format!("{f} became {g}/1000"), "PercentU16::from");
                    }
                }
                Err(p) => ctx.violation("panic", format!("percentage from {f} crashed: {}", p.0), "PercentU16::from"),
            }
        }
    }
    // rate trims
    let pv: Vec<u16> = ctx.pick(
        vec![0, 1, 3, 333, 500, 501, 667, 707, 999, 1000, 1001, 1333, 1414, 1500, 1999, 2000],
        vec![0, 1, 2, 3, 7, 10, 100, 125, 250, 333, 334, 499, 500, 501, 625, 667, 707, 750, 800, 866, 999, 1000, 1001, 1111, 1250, 1333, 1414, 1500, 1600, 1732, 1998, 1999, 2000],
    );
    let n = pv.len();
    let rate = |ctx: &Ctx, t: &mut Tally, a: [u16; 4], full: bool| {
        let ps = a.map(PercentU16::from_value);
        let prod: u128 = a.iter().map(|x| *x as u128).product();
        let q = 1_000_000_000u128;
        let (lo, hi) = (prod / q, prod.div_ceil(q));
        let how = |w: &'static str| move || format!("{w} of {a:?}");
        let mut first: Option<u32> = None;
        let mut judge = |r: &RateTrimmer, how: &dyn Fn() -> String| {
            t.transitions += 1;
            let s = pct(r.sum());
            let ok = s as u128 == lo.min(2000) || s as u128 == hi.min(2000);
            if !ok {
                ctx.violation("product", format!("total {s}/1000, expected {}..{}", lo.min(2000), hi.min(2000)), how());
            }
            if first.is_some_and(|f| f != s) {
                ctx.violation("same-however-built", format!("total {s}/1000, but {}/1000 when built from an array", first.unwrap()), how());
            }
            first.get_or_insert(s);
            let parts = |v: &[PercentU16]| v.len() == 4 && v.iter().zip(a).all(|(x, y)| pct(*x) == y as u32);
            if !parts(r.values()) || !parts(&r.to_vec()) || (0..4).any(|i| pct(r.value(i)) != a[i] as u32) {
                ctx.violation("rate-parts", format!("parts {:?}, expected {a:?}", r.values()), how());
            }
        };
        let base = RateTrimmer::from_array(ps);
        judge(&base, &how("from_array"));
        judge(&RateTrimmer::from_vec(&ps.to_vec()), &how("from_vec"));
        judge(&RateTrimmer::new(ps[0].to_f32(), ps[1].to_f32(), ps[2].to_f32(), ps[3].to_f32()), &how("new"));
        if full {
            let b = bincode::serialize(&base).expect("bin");
            judge(&bincode::deserialize(&b).expect("bin"), &how("reload (binary)"));
            let j = serde_json::to_string(&base).expect("json");
            judge(&serde_json::from_str(&j).expect("json"), &how("reload (text)"));
        }
        let s = pct(base.sum()) as u64;
        for x in [0u32, 1, 119, 240, 961, 3826, 1 << 30] {
            if base.apply(x) as u64 != x as u64 * s / 1000 {
                ctx.violation("rate-apply", format!("{s}/1000 of {x} gives {}", base.apply(x)), how("apply")());
            }
        }
    };
    ctx.par(n * n * n * n, |u, t| {
        let a = [pv[u % n], pv[u / n % n], pv[u / n / n % n], pv[u / n / n / n]];
        t.states += 1;
        t.traces += 1;
        at(&[3, u as u64]);
        if let Err(p) = guard(|| rate(ctx, t, a, true)) {
            ctx.violation("panic", format!("rate trim {a:?} crashed: {}", p.0), format!("{a:?}"));
        }
    });
    // all pairs of percentages in two of the parts
    let step = ctx.pick(7usize, 1);
    ctx.par(2001 / step + 1, |u, t| {
        let x = (u * step).min(2000) as u16;
        at(&[4, x as u64]);
        for y in 0..=2000u16 {
            for a in [[x, y, 1000, 1000], [1000, x, 2000, y], [500, 2000, x, y]] {
                t.states += 1;
                t.traces += 1;
                if let Err(p) = guard(|| rate(ctx, t, a, false)) {
                    ctx.violation("panic", format!("rate trim {a:?} crashed: {}", p.0), format!("{a:?}"));
                }
            }
        }
    });
    for (r, e) in [(RateTrimmer::ONE, 1000), (RateTrimmer::default(), 1000)] {
        if pct(r.sum()) != e || (0..4).any(|i| pct(r.value(i)) != 1000) {
            ctx.violation("rate-one", "the neutral rate trim is not 100%", "RateTrimmer::ONE");
        }
    }
    for z in [Trimmer::ZERO, Trimmer::default()] {
        trim_ok(ctx, &z, [0; 4], &|| "neutral trim".to_string());
    }
    ctx.sample(|| "[32767, 0, -1, -32768] + 65536, then - 131073".to_string());
    ctx.bound("trims", format!("11^4 trims x all sequences of {depth} of {} additions; 6 trims x all amounts +-270000", adds.len()));
    ctx.bound("percentages", "all 0..=65535; all applied to 20 values");
    ctx.bound("rate trims", format!("{n}^4 combinations; {} x 2001 pairs in 3 places", 2001 / step + 1));
}

// ---------------- C23 ----------------

struct Hist {
    list: std::collections::VecDeque<u32>, // newest first, undone ones included
    index: usize,
    cap: usize,
    frozen: bool,
}

fn entry(i: u32) -> Undo {
    let mut added = Models::empty();
    added.tempos.push(Tempo::new(i, 120));
    Undo::Changed { added, removed: Models::empty(), metadata: ModelChangeMetadata::new() }
}
fn entry_id(u: &Undo) -> Option<u32> {
    #[allow(unreachable_patterns)]
    match u {
        Undo::Changed { added, .. } => added.tempos.first().map(|t| t.start_tick),
        _ => None,
    }
}

const HOPS: [&str; 5] = ["add", "undo", "redo", "freeze", "unfreeze"];

fn hist_run(ctx: &Ctx, t: &mut Tally, cap: usize, store: UndoStore, ops: &[u8]) {
    let mut s = store;
    let mut h = Hist { list: Default::default(), index: 0, cap, frozen: false };
    let mut next = 1u32;
    for (k, op) in ops.iter().enumerate() {
        let how = || format!("capacity {cap}: {}", ops[..=k].iter().map(|o| HOPS[*o as usize]).collect::<Vec<_>>().join(", "));
        t.transitions += 1;
        match op {
            0 => {
                s.add(entry(next));
                if !h.frozen && h.cap > 0 {
                    h.list.drain(..h.index);
                    h.index = 0;
                    h.list.push_front(next);
                    h.list.truncate(h.cap);
                }
                next += 1;
            }
            1 => {
                let can = s.can_undo();
                let got = s.undo().map(entry_id);
                let exp = h.list.get(h.index).copied();
                if exp.is_some() {
                    h.index += 1;
                }
                if got.is_some() != can {
                    ctx.violation("can-undo", format!("said can_undo = {can}, but undo gave {got:?}"), how());
                }
                if got != exp.map(Some) {
                    ctx.violation("undo", format!("undo gave {got:?}, expected {exp:?}"), how());
                    return;
                }
            }
            2 => {
                let can = s.can_redo();
                let got = s.redo().map(entry_id);
                let exp = if h.index > 0 {
                    h.index -= 1;
                    h.list.get(h.index).copied()
                } else {
                    None
                };
                if got.is_some() != can {
                    ctx.violation("can-redo", format!("said can_redo = {can}, but redo gave {got:?}"), how());
                }
                if got != exp.map(Some) {
                    ctx.violation("redo", format!("redo gave {got:?}, expected {exp:?}"), how());
                    return;
                }
            }
            3 => {
                s.freeze(true);
                h.frozen = true;
            }
            _ => {
                s.freeze(false);
                h.frozen = false;
            }
        }
        if s.can_undo() != (h.index < h.list.len()) || s.can_redo() != (h.index > 0) {
            ctx.violation("can", format!("can_undo {} can_redo {}, expected {} {}", s.can_undo(), s.can_redo(), h.index < h.list.len(), h.index > 0), how());
            return;
        }
        // the whole list: after every operation of a short history, every now and then and at every turn of a long one
        let all = ops.len() < 30 || ops.get(k + 1) != Some(op) || k % (cap + 1) == 0;
        if s.len() != h.list.len() || all && !s.iter().map(entry_id).eq(h.list.iter().map(|x| Some(*x))) {
            let got: Vec<Option<u32>> = s.iter().map(entry_id).take(300).collect();
            ctx.violation("list", format!("{} edits kept: {got:?}, expected {:?}", s.len(), h.list.iter().take(300).collect::<Vec<_>>()), how());
            return;
        }
    }
    t.traces += 1;
}

pub fn c23(ctx: &Ctx) {
    let depth = ctx.pick(8u32, ctx.deepen(10, 12));
    let caps: Vec<usize> = vec![0, 1, 2, 3, 4, 5];
    let head = 5usize.pow(3);
    ctx.par(caps.len() * head, |u, t| {
        let cap = caps[u / head];
        at(&[0, u as u64]);
        let rest = 5u64.pow(depth - 3);
        for r in 0..rest {
            if ctx.stopped() {
                return;
            }
            let mut x = (u % head) as u64 * rest + r;
            let mut ops = vec![0u8; depth as usize];
            for o in ops.iter_mut() {
                *o = (x % 5) as u8;
                x /= 5;
            }
            t.states += 1;
            if let Err(p) = guard(|| hist_run(ctx, t, cap, UndoStore::new(cap), &ops)) {
                ctx.violation("panic", format!("crashed: {}", p.0), format!("capacity {cap}: {ops:?}"));
            }
        }
    });
    // long histories: a adds, u undos, r redos, a2 adds, all undos, all redos
    let caps: &[usize] = &[1, 2, 7, 31, 32, 33, 64, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 65535, 65536, 65537];
    let sizes = |cap: usize| -> Vec<usize> {
        match cap {
            0..=200 => vec![0, 1, 2, cap / 2, cap - 1, cap, cap + 1, 2 * cap, 2 * cap + 3],
            201..=2000 => vec![0, 1, cap - 1, cap, cap + 1, 2 * cap + 3],
            _ => vec![1, cap + 2],
        }
    };
    ctx.par((caps.len() + 1) * 9, |u, t| {
        let c = u / 9;
        let cap = *caps.get(c).unwrap_or(&100);
        at(&[1, cap as u64, u as u64]);
        let sizes = sizes(cap);
        let Some(a) = sizes.get(u % 9) else { return };
        for u in &sizes {
            for r in &sizes {
                for a2 in &sizes {
                    for freeze in 0..=1usize {
                        let mut ops = vec![0u8; *a];
                        ops.extend(vec![1u8; *u]);
                        ops.extend(vec![3u8; freeze]);
                        ops.extend(vec![2u8; *r]);
                        ops.extend(vec![0u8; *a2]);
                        ops.extend(vec![4u8; freeze]);
                        ops.extend(vec![0u8; freeze]);
                        ops.extend(vec![1u8; cap + 2]);
                        ops.extend(vec![2u8; cap + 2]);
                        t.states += 1;
                        let store = if c < caps.len() { UndoStore::new(cap) } else { UndoStore::default() };
                        if let Err(p) = guard(|| hist_run(ctx, t, cap, store, &ops)) {
                            ctx.violation("panic", format!("crashed: {}", p.0), format!("capacity {cap}: {a} adds, {u} undos, {r} redos, {a2} adds, frozen {freeze}"));
                        }
                        if ctx.stopped() {
                            return;
                        }
                    }
                }
            }
        }
    });
    // no limit to speak of
    ctx.par(1, |_, t| {
        at(&[2]);
        let mut ops = vec![0u8; 3000];
        ops.extend(vec![1u8; 1500]);
        ops.extend(vec![2u8; 700]);
        ops.extend(vec![0u8; 5]);
        ops.extend(vec![1u8; 4000]);
        ops.extend(vec![2u8; 4000]);
        if let Err(p) = guard(|| hist_run(ctx, t, usize::MAX - 1, UndoStore::new(usize::MAX - 1), &ops)) {
            ctx.violation("panic", format!("crashed: {}", p.0), "a history without a limit".to_string());
        }
    });
    ctx.sample(|| "capacity 2: add, add, undo, freeze, add, unfreeze, add, redo".to_string());
    ctx.bound("operation sequences", format!("all sequences of {depth} of 5 operations, capacities 0-5"));
    ctx.bound("long histories", format!("add/undo/redo/add/undo all/redo all with 2-9 sizes each, recording or frozen in the middle, capacities {caps:?} (100 also as the default), and without a limit"));
}

// ---------------- C25 ----------------

/// Clipping to a range: the nearest value inside it.
fn clips(ctx: &Ctx, t: &mut Tally) {
    use klavier_core::clipper;
    let bad = |what: &str, v: String, lo: String, hi: String, got: String| {
        ctx.violation("clip", format!("{v} clipped to {lo}..{hi} gives {got}"), what);
    };
    let edge = [i32::MIN, i32::MIN + 1, -65536, -32769, -32768, -300, -129, -2, -1, 0, 1, 2, 127, 128, 300, 32767, 32768, 65535, 65536, i32::MAX - 1, i32::MAX];
    for (i, lo) in edge.iter().enumerate() {
        for hi in &edge[i..] {
            for v in &edge {
                t.transitions += 1;
                t.traces += 1;
                let got = clipper::for_i32(*lo, *hi).clip(*v);
                if got != *v.max(lo).min(hi) {
                    bad("for_i32", v.to_string(), lo.to_string(), hi.to_string(), got.to_string());
                }
                let (l, h, x) = (*lo as i16, *hi as i16, *v as i16);
                if l <= h {
                    let got = clipper::for_i16(l, h).clip(x);
                    if got != x.max(l).min(h) {
                        bad("for_i16", x.to_string(), l.to_string(), h.to_string(), got.to_string());
                    }
                }
                let (l, h, x) = (*lo as f32 / 16.0, *hi as f32 / 16.0, *v as f32 / 16.0);
                let got = clipper::for_f32(l, h).clip(x);
                if got != x.max(l).min(h) {
                    bad("for_f32", x.to_string(), l.to_string(), h.to_string(), got.to_string());
                }
            }
        }
    }
}

pub fn c25(ctx: &Ctx) {
    let mut t = ctx.tally();
    /// `got`: Ok(Some(v)) created, Ok(None) refused, Err: crashed
    fn judge(ctx: &Ctx, t: &mut Tally, what: &str, input: i64, got: Result<Option<i64>, Panicked>, range: (i64, i64), valid: bool, panic_refuses: bool) {
        t.transitions += 1;
        t.traces += 1;
        let how = || format!("{what}({input})");
        match got {
            Ok(Some(v)) => {
                if v < range.0 || v > range.1 {
                    ctx.violation("range", format!("created {v}, outside {}..{}", range.0, range.1), how());
                } else if valid && v != input {
                    ctx.violation("value", format!("created {v} from {input}"), how());
                } else if !valid {
                    t.count("limited");
                    if v != input.clamp(range.0, range.1) {
                        ctx.violation("limit", format!("{input} limited to {v}"), how());
                    }
                } else {
                    t.count("created");
                }
            }
            Ok(None) => {
                t.count("refused");
                if valid {
                    ctx.violation("refused", format!("valid value {input} refused"), how());
                }
            }
            Err(p) => {
                t.count("refused");
                if valid || !panic_refuses {
                    ctx.violation("panic", format!("crashed: {}", p.0), how());
                }
            }
        }
    }
    let inside = |v: i64, r: (i64, i64)| v >= r.0 && v <= r.1;
    clips(ctx, &mut t);
    // 8-bit values: all
    for v in 0..=255u8 {
        let i = v as i64;
        at(&[0, v as u64]);
        let r = (0, 127);
        judge(ctx, &mut t, "Velocity::new", i, guard(|| Some(Velocity::new(v).as_u8() as i64)), r, inside(i, r), false);
        let r = (0, 15);
        judge(ctx, &mut t, "Channel::new", i, guard(|| Some(Channel::new(v).as_u8() as i64)), r, inside(i, r), true);
        judge(ctx, &mut t, "Channel::try_from", i, guard(|| Channel::try_from(v).ok().map(|c| c.as_u8() as i64)), r, inside(i, r), false);
        let r = (1, 4);
        judge(ctx, &mut t, "VarIndex::from_value", i, guard(|| VarIndex::from_value(v).ok().map(|c| c.value() as i64)), r, inside(i, r), false);
        judge(ctx, &mut t, "u8 into VarIndex", i, guard(|| { let x: VarIndex = v.into(); Some(x.value() as i64) }), r, inside(i, r), true);
        let r = (1, 99);
        judge(ctx, &mut t, "rhythm numerator", i, guard(|| rhythm::Numerator::from_value(v).ok().map(|c| c.value() as i64)), r, inside(i, r), false);
        judge(ctx, &mut t, "rhythm numerator try_from", i, guard(|| rhythm::Numerator::try_from(v).ok().map(|c| c.value() as i64)), r, inside(i, r), false);
        let r = (2, 64);
        let ok = [2, 4, 8, 16, 32, 64].contains(&v);
        let got = guard(|| rhythm::Denominator::from_value(v).ok().map(|c| (c.value() as i64, den_of(c) as i64)));
        match got {
            Ok(Some((a, b))) if a == b && ok && a == i => t.count("created"),
            Ok(None) if !ok => t.count("refused"),
            Ok(x) => ctx.violation("value", format!("rhythm denominator {v} gives {x:?}"), "rhythm::Denominator::from_value"),
            Err(p) => ctx.violation("panic", format!("rhythm denominator {v} crashed: {}", p.0), "rhythm::Denominator::from_value"),
        }
        t.transitions += 1;
        let _ = r;
        for n in 0..=255u8 {
            t.transitions += 2;
            let exp = (1..=99).contains(&n) && ok;
            match guard(|| Rhythm::value_of(n, v).map(rhythm_of).ok()) {
                Ok(Some(p)) if exp && p == (n, v) => {}
                Ok(None) if !exp => {}
                Ok(x) => ctx.violation("value", format!("rhythm {n}/{v} gives {x:?}"), "Rhythm::value_of"),
                Err(p) => ctx.violation("panic", format!("rhythm {n}/{v} crashed: {}", p.0), "Rhythm::value_of"),
            }
            match guard(|| rhythm_of(Rhythm::new(n, v))) {
                Ok(p) if exp && p == (n, v) => {}
                Err(_) if !exp => {}
                r => ctx.violation("value", format!("Rhythm::new({n}, {v}) gives {:?}", r.map_err(|p| p.0)), "Rhythm::new"),
            }
        }
        let r = (0, 7);
        judge(ctx, &mut t, "Dots::from_value", i, guard(|| Dots::from_value(v).map(|c| c.value() as i64)), r, inside(i, r), false);
        judge(ctx, &mut t, "Dots::try_from", i, guard(|| Dots::try_from(v).ok().map(|c| c.value() as i64)), r, inside(i, r), false);
        let r = (2, 255);
        judge(ctx, &mut t, "duration::Denominator::from_value", i, guard(|| duration::Denominator::from_value(v).map(|c| c.value() as i64)), r, inside(i, r), false);
        let r = (0, 7);
        judge(ctx, &mut t, "duration::Numerator::from_ord", i, guard(|| duration::Numerator::from_ord(v).map(|c| num_ix(c) as i64)), r, inside(i, r), false);
        let s = v as i8;
        let r = (-7, 7);
        judge(ctx, &mut t, "Key::try_from", s as i64, guard(|| Key::try_from(s).ok().map(|k| k.offset() as i64)), r, inside(s as i64, r), false);
    }
    // tempo: all 16-bit values
    for v in 0..=65535u16 {
        let i = v as i64;
        let r = (1, 999);
        at(&[1, v as u64]);
        judge(ctx, &mut t, "TempoValue::safe_new", i, guard(|| Some(TempoValue::safe_new(v).as_u16() as i64)), r, inside(i, r), false);
        if v <= 1200 || v % 257 == 0 || v >= 65530 {
            judge(ctx, &mut t, "TempoValue::new", i, guard(|| Some(TempoValue::new(v).as_u16() as i64)), r, inside(i, r), true);
            judge(ctx, &mut t, "Tempo::new", i, guard(|| Some(Tempo::new(5, v).value.as_u16() as i64)), r, inside(i, r), true);
        }
    }
    for o in (-1000..=1000).chain([i32::MIN, i32::MIN + 1, i32::MIN + 2, i32::MAX - 2, i32::MAX - 1, i32::MAX, -65536, 65536, 256, -256]) {
        at(&[2, o as u32 as u64]);
        let r = (-2, 8);
        judge(ctx, &mut t, "Octave::value_of", o as i64, guard(|| Octave::value_of(o).ok().map(|x| oct_val(x) as i64)), r, inside(o as i64, r), false);
        let r = (0, 10);
        judge(ctx, &mut t, "Octave::from_score_offset", o as i64, guard(|| Octave::from_score_offset(o).ok().map(|x| oct_val(x) as i64 + 2)), r, inside(o as i64, r), false);
    }
    // stepping: every value, up and down
    let chk = |ctx: &Ctx, what: &str, v: i64, got: Result<Option<i64>, Panicked>, exp: Option<i64>, panic_ok: bool| match got {
        Ok(g) if g == exp => {}
        Err(_) if panic_ok && exp.is_none() => {}
        Ok(g) => ctx.violation("step", format!("{what} from {v}: {g:?}, expected {exp:?}"), what),
        Err(p) => ctx.violation("panic", format!("{what} from {v} crashed: {}", p.0), what),
    };
    for v in 1..=999u16 {
        t.states += 1;
        t.transitions += 4;
        let x = TempoValue::new(v);
        let i = v as i64;
        if x.value() != v || x.as_u16() != v {
            ctx.violation("value", format!("tempo {v} reads {} and {}", x.value(), x.as_u16()), "TempoValue");
        }
        let (up, down) = ((v < 999).then_some(i + 1), (v > 1).then_some(i - 1));
        chk(ctx, "TempoValue::up", i, guard(|| x.up().ok().map(|y| y.as_u16() as i64)), up, false);
        chk(ctx, "TempoValue::down", i, guard(|| x.down().ok().map(|y| y.as_u16() as i64)), down, false);
        let tp = Tempo::new(77, v);
        let at77 = |r: Result<Tempo, ()>| r.ok().map(|y| if y.start_tick == 77 { y.value.as_u16() as i64 } else { -1 });
        chk(ctx, "Tempo::up", i, guard(|| at77(tp.up().map_err(|_| ()))), up, false);
        chk(ctx, "Tempo::down", i, guard(|| at77(tp.down().map_err(|_| ()))), down, false);
    }
    for v in 1..=4u8 {
        t.states += 1;
        t.transitions += 3;
        let x = VarIndex::from_value(v).ok().unwrap();
        chk(ctx, "VarIndex::next", v as i64, guard(|| x.next().ok().map(|y| y.value() as i64)), (v < 4).then_some(v as i64 + 1), false);
        chk(ctx, "VarIndex::prev", v as i64, guard(|| x.prev().ok().map(|y| y.value() as i64)), (v > 1).then_some(v as i64 - 1), false);
        if x.to_repeat() != REPEATS[6 + v as usize] {
            ctx.violation("value", format!("variation {v} has mark {:?}", x.to_repeat()), "VarIndex::to_repeat");
        }
    }
    for o in OCTAVES {
        t.states += 1;
        let i = oct_val(o) as i64;
        let r = |v: i64| (-2..=8).contains(&v).then_some(v);
        if o.value() as i64 != i || o.offset() as i64 != i + 2 {
            ctx.violation("value", format!("octave {i} reads {} and {}", o.value(), o.offset()), "Octave");
        }
        for d in -14..=14i32 {
            t.transitions += 2;
            chk(ctx, "Octave += ", i, guard(|| { let mut x = o; x += d; Some(oct_val(x) as i64) }), r(i + d as i64), true);
            chk(ctx, "Octave -= ", i, guard(|| { let mut x = o; x -= d; Some(oct_val(x) as i64) }), r(i - d as i64), true);
        }
        for p in OCTAVES {
            t.transitions += 1;
            chk(ctx, "Octave + Octave", i, guard(|| Some(oct_val(o + p) as i64)), r(i + oct_val(p) as i64), true);
        }
    }
    if klavier_core::solfa::Solfa::ALL.iter().map(|s| solfa_ix(*s)).collect::<Vec<_>>() != (0..7).collect::<Vec<_>>() {
        ctx.violation("value", "the list of note names is not C to B", "Solfa::ALL");
    }
    if Octave::ALL.iter().map(|o| oct_val(*o)).collect::<Vec<_>>() != (-2..=8).collect::<Vec<_>>() {
        ctx.violation("value", "the list of octaves is not -2..8", "Octave::ALL");
    }
    for (i, s) in SOLFAS.iter().enumerate() {
        t.states += 1;
        t.transitions += 2;
        if s.score_offset() != i as i32 || s.pitch_offset() != SEMIS[i] {
            ctx.violation("value", format!("note name {s:?} has staff step {} and {} semitones", s.score_offset(), s.pitch_offset()), "Solfa");
        }
    }
    for o in -20..=20i32 {
        t.transitions += 1;
        let got = guard(|| solfa_ix(klavier_core::solfa::Solfa::from_score_offset(o)) as i64);
        chk(ctx, "Solfa::from_score_offset", o as i64, got.map(Some), Some(o.clamp(0, 6) as i64), false);
    }
    // values and limits that have a name
    let dots = [Dots::ZERO, Dots::ONE, Dots::TWO, Dots::THREE, Dots::FOUR, Dots::FIVE, Dots::SIX, Dots::SEVEN];
    let sharps = [Key::NONE, Key::SHARP_1, Key::SHARP_2, Key::SHARP_3, Key::SHARP_4, Key::SHARP_5, Key::SHARP_6, Key::SHARP_7];
    let flats = [Key::NONE, Key::FLAT_1, Key::FLAT_2, Key::FLAT_3, Key::FLAT_4, Key::FLAT_5, Key::FLAT_6, Key::FLAT_7];
    for i in 0..8i64 {
        let c = i as usize;
        for (what, got, exp) in [
            ("dots", dots[c].value() as i64, i),
            ("key with sharps", sharps[c].offset() as i64, i),
            ("key with flats", flats[c].offset() as i64, -i),
            ("note value", num_ix(NUMERATORS[c]) as i64, i),
        ] {
            t.transitions += 1;
            if got != exp {
                ctx.violation("named", format!("the {what} named {i} is {got}"), what);
            }
        }
    }
    use klavier_core::{octave, pitch, tempo, velocity};
    for (what, got, exp) in [
        ("lowest tempo", tempo::MIN_TEMPO.as_u16() as i64, 1),
        ("highest tempo", tempo::MAX_TEMPO.as_u16() as i64, 999),
        ("lowest tempo value", tempo::MIN_TEMPO_VALUE as i64, 1),
        ("highest tempo value", tempo::MAX_TEMPO_VALUE as i64, 999),
        ("lowest velocity", velocity::MIN.as_u8() as i64, 0),
        ("highest velocity", velocity::MAX.as_u8() as i64, 127),
        ("lowest octave", oct_val(octave::MIN) as i64, -2),
        ("highest octave", oct_val(octave::MAX) as i64, 8),
        ("lowest octave", oct_val(Octave::MIN_VALUE) as i64, -2),
        ("highest octave", oct_val(Octave::MAX_VALUE) as i64, 8),
        ("lowest pitch", pitch_of(pitch::MIN).value as i64, 0),
        ("highest pitch", pitch_of(pitch::MAX).value as i64, 127),
        ("lowest numerator", rhythm::MIN_NUMERATOR as i64, 1),
        ("highest numerator", rhythm::MAX_NUMERATOR as i64, 99),
        ("most dots", Duration::MAX_DOT as i64, 7),
        ("lowest tuplet denominator", Duration::MIN_DENOMINATOR as i64, 2),
        ("highest tuplet denominator", Duration::MAX_DENOMINATOR as i64, 255),
        ("longest note value", Duration::MAX_NUMERATOR as i64, 7),
        ("ticks of a quarter", Duration::TICK_RESOLUTION as i64, 240),
        ("lowest staff position", pitch::MIN_SCORE_OFFSET as i64, 0),
        ("highest staff position", pitch::MAX_SCORE_OFFSET as i64, 74),
        ("lowest pitch number", pitch::MIN_VALUE as i64, 0),
        ("highest pitch number", pitch::MAX_VALUE as i64, 127),
        ("lowest velocity number", velocity::MIN_VALUE as i64, 0),
        ("highest velocity number", velocity::MAX_VALUE as i64, 127),
        ("most passes", klavier_core::play_iter::MAX_ITER as i64, 5),
        ("default tempo", TempoValue::default().as_u16() as i64, 120),
        ("default dots", Dots::default().value() as i64, 0),
        ("default tuplet denominator", duration::Denominator::default().value() as i64, 2),
        ("default channel", Channel::default().as_u8() as i64, 0),
        ("default key", Key::default().offset() as i64, 0),
        ("default numerator of a rhythm", rhythm_of(Rhythm::default()).0 as i64, 4),
        ("default denominator of a rhythm", rhythm_of(Rhythm::default()).1 as i64, 4),
        ("default pass", klavier_core::play_iter::PlayIter::default().iter() as i64, 1),
        ("neutral trim", Trimmer::ZERO.sum() as i64, 0),
        ("default trim", Trimmer::default().sum() as i64, 0),
        ("lowest percentage", pct(PercentU16::MIN) as i64, 0),
        ("no percentage", pct(PercentU16::ZERO) as i64, 0),
        ("whole percentage", pct(PercentU16::HUNDRED) as i64, 1000),
        ("highest percentage", pct(PercentU16::MAX) as i64, 2000),
    ] {
        t.transitions += 1;
        if got != exp {
            ctx.violation("named", format!("the {what} is {got}, expected {exp}"), what);
        }
    }
    // shown as text: its own number or name
    let mut shown: Vec<(&str, String, String)> = vec![];
    for v in 0..=255u8 {
        if v <= 127 {
            shown.push(("velocity", Velocity::new(v).to_string(), v.to_string()));
        }
        if let Ok(n) = rhythm::Numerator::from_value(v) {
            shown.push(("rhythm numerator", n.to_string(), v.to_string()));
        }
        if let Some(d) = duration::Denominator::from_value(v) {
            shown.push(("tuplet denominator", d.to_string(), v.to_string()));
        }
    }
    for (s, name) in SOLFAS.iter().zip(["C", "D", "E", "F", "G", "A", "B"]) {
        shown.push(("note name", s.to_string(), name.to_string()));
    }
    for (what, got, exp) in shown {
        t.transitions += 1;
        if got != exp {
            ctx.violation("shown", format!("the {what} {exp} is shown as {got:?}"), what);
        }
    }
    if REPEATS.iter().map(|r| r.to_string()).collect::<std::collections::BTreeSet<_>>().len() != REPEATS.len() {
        ctx.violation("shown", "two kinds of marks are shown by the same text", "Repeat");
    }
    if rhythm::DENOMINATORS.map(den_of) != [2, 4, 8, 16, 32, 64] {
        ctx.violation("named", "the list of rhythm denominators is not 2..64", "rhythm::DENOMINATORS");
    }
    if Key::ALL.iter().map(|k| k.offset()).collect::<std::collections::BTreeSet<_>>() != (-7..=7).collect() {
        ctx.violation("named", "the list of keys is not seven flats to seven sharps", "Key::ALL");
    }
    // random access to stored forms: every integer from -70000 to 70000 in place of the stored one
    for i in (-300..=1200i64).chain([-65536, -65535, 32767, 32768, 65535, 65536, 1 << 31, 1 << 32, i64::MAX, i64::MIN]) {
        let s = i.to_string();
        let w = format!("{{\"value\":{i}}}");
        at(&[3, i as u64]);
        macro_rules! stored {
            ($what:expr, $t:ty, $get:expr, $lo:expr, $hi:expr) => {{
                t.transitions += 2;
                for x in [&s, &w] {
                    match guard(|| serde_json::from_str::<$t>(x).ok().map($get)) {
                        Ok(Some(v)) if (v as i64) < $lo || v as i64 > $hi => {
                            ctx.violation("stored", format!("stored {} {x} read as {v}", $what), x.clone())
                        }
                        Ok(_) => {}
                        Err(p) => ctx.violation("panic", format!("reading stored {} {x} crashed: {}", $what, p.0), x.clone()),
                    }
                }
            }};
        }
        stored!("velocity", Velocity, |v| v.as_u8(), 0, 127);
        stored!("channel", Channel, |v| v.as_u8(), 0, 15);
        stored!("tempo", TempoValue, |v| v.as_u16(), 1, 999);
        stored!("rhythm numerator", rhythm::Numerator, |v| v.value(), 1, 99);
        stored!("dots", Dots, |v| v.value(), 0, 7);
        stored!("tuplet denominator", duration::Denominator, |v| v.value(), 2, 255);
        stored!("key", Key, |v| v.offset(), -7, 7);
        stored!("percentage", PercentU16, pct, 0, 2000);
        stored!("grid", Grid, |v| v.as_u32(), 1, u32::MAX as i64);
    }
    drop(t);
    ctx.sample(|| "TempoValue::new(0) refused; safe_new(1000) limited to 999; 999.up() refused".to_string());
    ctx.bound("inputs", "all 8-bit inputs (velocity, channel, variation, rhythm parts, dots, denominators, keys), all 16-bit tempos, octaves -1000..1000 and the ends of the integers");
    ctx.bound("steps", "every value up and down; octave +- 14 and all octave pairs");
    ctx.assume("constructors documented to panic (Channel::new, TempoValue::new, Tempo::new, Rhythm::new, u8 into VarIndex, octave arithmetic) refuse by panicking");
}
