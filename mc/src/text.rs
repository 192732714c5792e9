//! C14 stored forms and clipboard text, C15 hostile text, C16 text fields.
use crate::ops::note_with;
use crate::content::*;
use crate::driver::*;
use crate::notes::derive;
use crate::ops::{key_by_ix, make_bar, make_ctrl, make_note, make_tempo, Meta, METAS};
use crate::pitches::expect_pitch;
use crate::play::{build_set, legal};
use klavier_core::bar::{Bar, RepeatSet};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::exported_project::ExportedProject;
use klavier_core::grid::Grid;
use klavier_core::location::Location;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, Project, ProjectCmd, ProjectImpl, ProjectStore};
use klavier_core::rhythm::{self, Rhythm};
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::text_input::{self, TextInput, Validated};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use klavier_core::duration;
use serde_json::Value;
use serdo::undo_store::UndoStore;
use std::str::FromStr;

// ---------------- C14 ----------------

fn round_clip(ctx: &Ctx, t: &mut Tally, m: &Models) {
    t.transitions += 2;
    t.traces += 1;
    let before = models_of(m);
    let r = guard(|| {
        let text = m.to_clipboard_text();
        let back = Models::from_clipboard_text(text.clone());
        (text, back.map(|b| models_of(&b)))
    });
    match r {
        Ok((_, Ok(b))) if b == before => {}
        Ok((text, Ok(b))) => ctx.violation("clipboard", format!("written {before:?}\nread    {b:?}"), text),
        Ok((text, Err(e))) => ctx.violation("clipboard-error", format!("own clipboard text refused: {e:?}"), text),
        Err(p) => ctx.violation("panic", format!("clipboard round trip crashed: {}", p.0), format!("{before:?}")),
    }
}

/// Binary and text round trip of a record holding the models.
fn round_record(ctx: &Ctx, t: &mut Tally, added: &Models, removed: &Models, meta: Meta) {
    t.transitions += 2;
    t.traces += 1;
    let (a, r) = (models_of(added), models_of(removed));
    let cmd = ProjectCmd::ModelChanged { added: added.clone(), removed: removed.clone(), metadata: meta.real() };
    let same = |c: &ProjectCmd| match c {
        ProjectCmd::ModelChanged { added, removed, metadata } => {
            models_of(added) == a && models_of(removed) == r && metadata.need_select == meta.select && metadata.dragged == meta.dragged
        }
        _ => false,
    };
    match guard(|| {
        let b = bincode::serialize(&cmd).map_err(|e| e.to_string())?;
        let c: ProjectCmd = bincode::deserialize(&b).map_err(|e| e.to_string())?;
        let j = serde_json::to_string(&cmd).map_err(|e| e.to_string())?;
        let d: ProjectCmd = serde_json::from_str(&j).map_err(|e| e.to_string())?;
        Ok::<_, String>((same(&c), same(&d)))
    }) {
        Ok(Ok((true, true))) => {}
        Ok(r) => ctx.violation("record", format!("stored edit record reads back as something else: {r:?}"), format!("added {a:?} removed {:?}", models_of(removed))),
        Err(p) => ctx.violation("panic", format!("edit record round trip crashed: {}", p.0), format!("{a:?}")),
    }
}

fn round_project(ctx: &Ctx, t: &mut Tally, store: &ProjectStore, how: &dyn Fn() -> String) {
    t.transitions += 2;
    t.traces += 1;
    match guard(|| {
        let p = store.model();
        let c = read(p)?;
        let b = bincode::serialize(p).map_err(|e| e.to_string())?;
        let c2 = read(&bincode::deserialize::<ProjectImpl>(&b).map_err(|e| e.to_string())?)?;
        let j = serde_json::to_string(p).map_err(|e| e.to_string())?;
        let c3 = read(&serde_json::from_str::<ProjectImpl>(&j).map_err(|e| e.to_string())?)?;
        Ok::<_, String>((c, c2, c3))
    }) {
        Ok(Ok((c, c2, c3))) => {
            if c != c2 {
                ctx.violation("snapshot", format!("snapshot (binary): {}", diff(&c, &c2)), how());
            }
            if c != c3 {
                ctx.violation("snapshot-text", format!("snapshot (text): {}", diff(&c, &c3)), how());
            }
        }
        Ok(Err(e)) => ctx.violation("snapshot-error", e, how()),
        Err(p) => ctx.violation("panic", format!("snapshot round trip crashed: {}", p.0), how()),
    }
}

fn one_note(n: Note) -> Models {
    let mut m = Models::empty();
    m.notes.push(n);
    m
}

pub fn all_pitches() -> Vec<Pitch> {
    let mut all = vec![];
    for s in SOLFAS {
        for o in OCTAVES {
            for f in SHARP_FLATS {
                if let Ok(p) = Pitch::value_of(s, o, f) {
                    all.push(p);
                }
            }
        }
    }
    all
}

pub fn c14(ctx: &Ctx) {
    let all = all_pitches();
    // notes: pitch x value x dots x ties
    ctx.par(all.len(), |u, t| {
        at(&[0, u as u64]);
        for num in 0..8 {
            for dots in 0..8 {
                for tie in 0..4 {
                    let den = [2u8, 3, 5, 7, 255][(num as usize + dots as usize + tie) % 5];
                    let n = note_with!(make_note(240 * num as u32, 0), pitch = all[u], duration = dur(num, den, dots), tie = tie & 1 == 1, tied = tie & 2 == 2);
                    t.states += 1;
                    round_clip(ctx, t, &one_note(n));
                }
            }
        }
    });
    // velocity x channel x tuplet denominator, positions
    ctx.par(128, |v, t| {
        at(&[1, v as u64]);
        for ch in 0..16u8 {
            for den in (2..=255u8).filter(|d| !ctx.quick() || [2, 3, 4, 127, 128, 255].contains(d)) {
                let n = note_with!(make_note([0u32, 1, 255, 256, 65535, 65536, 1 << 24, 1 << 31, u32::MAX][(v + ch as usize) % 9], 1), base_velocity = Velocity::new(v as u8), channel = Channel::new(ch), duration = dur(3, den, 0));
                t.states += 1;
                round_clip(ctx, t, &one_note(n));
            }
        }
    });
    // trims
    let tv: [i16; 9] = [i16::MIN, -20000, -128, -1, 0, 1, 127, 20000, i16::MAX];
    let pv: [u16; 9] = [0, 1, 333, 500, 999, 1000, 1414, 1999, 2000];
    ctx.par(9usize.pow(4), |u, t| {
        at(&[2, u as u64]);
        let ix = [u % 9, u / 9 % 9, u / 81 % 9, u / 729];
        let tr = Trimmer::from_array(ix.map(|i| tv[i]));
        let rt = RateTrimmer::from_array(ix.map(|i| PercentU16::from_value(pv[i])));
        let base = make_note(100_000, 2);
        for n in [
            note_with!(base.clone(), start_tick_trimmer = tr),
            note_with!(base.clone(), velocity_trimmer = tr),
            note_with!(base.clone(), duration_trimmer = rt),
            note_with!(base.clone(), start_tick_trimmer = tr, duration_trimmer = rt, velocity_trimmer = Trimmer::from_array(tr.to_array().map(|x| x / 3))),
        ] {
            t.states += 1;
            let m = one_note(n);
            round_clip(ctx, t, &m);
            round_record(ctx, t, &m, &one_note(base.clone()), METAS[u % METAS.len()]);
        }
    });
    // all percentages
    ctx.par(2001, |v, t| {
        at(&[3, v as u64]);
        let p = PercentU16::from_value(v as u16);
        for k in 0..4 {
            let mut a = [PercentU16::HUNDRED; 4];
            a[k] = p;
            t.states += 1;
            round_clip(ctx, t, &one_note(note_with!(make_note(0, 0), duration_trimmer = RateTrimmer::from_array(a))));
        }
    });
    // bars: all legal sets of marks x rhythms x keys
    let masks: Vec<u16> = (0..2048).filter(|m| legal(*m)).collect();
    let rhythms: Vec<Option<(u8, u8)>> = std::iter::once(None)
        .chain((1..=99u8).filter(|n| !ctx.quick() || [1, 2, 3, 4, 64, 99].contains(n)).flat_map(|n| [2u8, 4, 8, 16, 32, 64].map(|d| Some((n, d)))))
        .collect();
    ctx.par(masks.len(), |u, t| {
        at(&[4, u as u64]);
        let Some(set) = build_set(masks[u], false) else { return };
        for (i, r) in rhythms.iter().enumerate() {
            for k in -8..=7i8 {
                let key = (k > -8).then(|| key_by_ix(k));
                let mut m = Models::empty();
                m.bars.push(Bar::new(960 * i as u32, r.map(|(n, d)| Rhythm::new(n, d)), key, set));
                t.states += 1;
                round_clip(ctx, t, &m);
                if k % 5 == 0 {
                    round_record(ctx, t, &Models::empty(), &m, METAS[i % METAS.len()]);
                }
            }
        }
    });
    // tempos and pedals
    ctx.par(999, |v, t| {
        at(&[5, v as u64]);
        let mut m = Models::empty();
        m.tempos.push(Tempo::new(v as u32 * 7, v as u16 + 1));
        for s in 0..16u32 {
            let c = CtrlChg::new((1 << s) * (v as u32 + 1), Velocity::new((v % 128) as u8), Channel::new(s as u8));
            m.dumpers.push(c);
            m.softs.push(CtrlChg::new(s, Velocity::new(127 - (v % 128) as u8), Channel::new(15 - s as u8)));
        }
        t.states += 1;
        round_clip(ctx, t, &m);
        round_record(ctx, t, &m, &Models::empty(), METAS[v % METAS.len()]);
    });
    // selections: order and number of items are kept; the same items as a whole project
    let mut items: Vec<(u8, u32, u16)> = vec![];
    for v in 0..10 {
        items.push((0, [240, 0][v as usize % 2], v));
    }
    for v in 0..7 {
        items.push((1, 480 * (v as u32 % 3), v));
    }
    for v in 0..4 {
        items.push((2, 240 * (v as u32 % 3), v));
        items.push((3, 240 * (v as u32 % 3), v));
        items.push((4, 240 * (v as u32 % 3), v));
    }
    let n = items.len();
    let maxlen = ctx.pick(3u32, ctx.deepen(4, 5));
    let settings = [(4u8, 4u8, 0i8, 60u32), (3, 8, -7, 1), (99, 64, 7, u32::MAX), (1, 2, 3, 480)];
    let total: usize = (0..=maxlen).map(|l| n.pow(l)).sum();
    let chunk = 512;
    ctx.par(total.div_ceil(chunk), |c, t| {
        for u0 in c * chunk..((c + 1) * chunk).min(total) {
            if ctx.stopped() {
                return;
            }
            let (mut u, mut l) = (u0, 0u32);
            while u >= n.pow(l) {
                u -= n.pow(l);
                l += 1;
            }
            let sel: Vec<(u8, u32, u16)> = (0..l).map(|i| items[u / n.pow(i) % n]).collect();
            if sel.windows(2).any(|w| w[0].0 > w[1].0) {
                continue; // order between kinds is not kept apart
            }
            at(&[6, u0 as u64]);
            let mut m = Models::empty();
            for (k, tick, v) in &sel {
                match k {
                    0 => m.notes.push(make_note(*tick, *v)),
                    1 => m.bars.push(make_bar(*tick, *v)),
                    2 => m.tempos.push(make_tempo(*tick, *v)),
                    3 => m.dumpers.push(make_ctrl(*tick, *v)),
                    _ => m.softs.push(make_ctrl(*tick, *v)),
                }
            }
            t.states += 1;
            round_clip(ctx, t, &m);
            let half = m.clone();
            round_record(ctx, t, &m, &half, METAS[u0 % METAS.len()]);
            // as exported project text
            let (rn, rd, k, g) = settings[u0 % 4];
            let before = models_of(&m);
            let keyed = if u0 % 3 == 0 { None } else { Some(key_by_ix(k)) };
            let rhy = if u0 % 5 == 0 { None } else { Some(Rhythm::new(rn, rd)) };
            t.transitions += 1;
            match guard(|| {
                let e = ExportedProject { key: keyed, rhythm: rhy, notes: m.notes.clone(), bars: m.bars.clone(), tempos: m.tempos.clone(), dumpers: m.dumpers.clone(), softs: m.softs.clone() };
                let text = format!("1{}", serde_json::to_string(&e).expect("json"));
                let b = ExportedProject::from_clipboard_text(text).map_err(|e| format!("{e:?}"))?;
                Ok::<_, String>((b.key.map(key_ix), b.rhythm.map(rhythm_of), models_of(&b.to_models())))
            }) {
                Ok(Ok((a, b, c))) if a == keyed.map(key_ix) && b == rhy.map(rhythm_of) && c == before => {}
                Ok(r) => ctx.violation("exported", format!("exported project read back as {r:?}, expected {before:?} key {keyed:?} rhythm {rhy:?}"), format!("{sel:?}")),
                Err(p) => ctx.violation("panic", format!("exported project crashed: {}", p.0), format!("{sel:?}")),
            }
            // as a project
            match guard(|| {
                let mut s = ProjectStore::from_model(ProjectImpl::default());
                s.set_rhythm(Rhythm::new(rn.max(3), if rd > 16 { 4 } else { rd }));
                s.set_key(key_by_ix(k));
                s.set_grid(Grid::from_u32(g).expect("grid"));
                s.bulk_add(m.clone(), METAS[u0 % METAS.len()].real());
                s
            }) {
                Ok(s) => round_project(ctx, t, &s, &|| format!("project with {sel:?}")),
                Err(p) => ctx.violation("panic", format!("building a project crashed: {}", p.0), format!("{sel:?}")),
            }
        }
    });
    // large selections: every kind, apart and together, spread out and (notes) all in one place
    let sizes: Vec<u32> = ctx.pick(vec![15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000], (2..=300).chain([511, 512, 513, 999, 1000, 1023, 1024, 1025, 4096, 10000, 65535, 65536, 65537]).collect());
    ctx.par(sizes.len() * 7, |u, t| {
        let (n, which) = (sizes[u / 7], u % 7);
        at(&[7, n as u64, which as u64]);
        let mut m = Models::empty();
        for i in 0..n {
            let all = which == 6;
            if which == 0 || all {
                m.notes.push(make_note(97 * (i % 4000), 20 + (i % 21) as u16));
            }
            if which == 1 || all {
                m.bars.push(make_bar(480 + 960 * i, 20 + (i % 36) as u16));
            }
            if which == 2 || all {
                m.tempos.push(make_tempo(65521 * i, 20 + (i % 5) as u16));
            }
            if which == 3 || all {
                m.dumpers.push(make_ctrl(3 * i, 20 + (i % 9) as u16));
            }
            if which == 4 || all {
                m.softs.push(make_ctrl(u32::MAX - 3 * (n - i), 20 + (i % 9) as u16));
            }
            if which == 5 {
                m.notes.push(make_note(480, 20 + (i % 12) as u16));
            }
        }
        t.states += 1;
        round_clip(ctx, t, &m);
        round_record(ctx, t, &m, &Models::empty(), METAS[u % METAS.len()]);
        round_record(ctx, t, &Models::empty(), &m, METAS[(u + 1) % METAS.len()]);
        if n <= 11000 {
            match guard(|| {
                let mut s = ProjectStore::from_model(ProjectImpl::default());
                // the bar line at the end keeps the project from adding all the bars in between
                s.add_bar(make_bar(u32::MAX, 0), false);
                s.bulk_add(m.clone(), METAS[u % METAS.len()].real());
                s
            }) {
                Ok(s) => round_project(ctx, t, &s, &|| format!("project with {n} items, sort {which}")),
                Err(p) => ctx.violation("panic", format!("building a project crashed: {}", p.0), format!("{n} items, sort {which}")),
            }
        }
    });
    ctx.bound("large selections", format!("{} sizes up to {}, notes, bars, tempos, dampers, softs, notes in one place, all together; as clipboard text, record and snapshot", sizes.len(), sizes.last().unwrap()));
    // setting records
    let mut t = ctx.tally();
    let rs: Vec<(u8, u8)> = (1..=99).flat_map(|n| [2u8, 4, 8, 16, 32, 64].map(|d| (n, d))).collect();
    for (i, a) in rs.iter().enumerate() {
        let b = rs[(i * 7 + 3) % rs.len()];
        t.transitions += 1;
        let cmd = ProjectCmd::SetRhythm(Rhythm::new(a.0, a.1), Rhythm::new(b.0, b.1));
        let ok = |c: ProjectCmd| matches!(c, ProjectCmd::SetRhythm(x, y) if rhythm_of(x) == *a && rhythm_of(y) == b);
        if guard(|| again(&cmd).map(|(x, y)| ok(x) && ok(y))).ok().flatten() != Some(true) {
            ctx.violation("record", format!("record of setting rhythm {a:?} -> {b:?} reads back as something else"), "SetRhythm");
        }
    }
    for a in -7..=7i8 {
        for b in -7..=7i8 {
            t.transitions += 1;
            let cmd = ProjectCmd::SetKey(key_by_ix(a), key_by_ix(b));
            let ok = |c: ProjectCmd| matches!(c, ProjectCmd::SetKey(x, y) if x.offset() == a && y.offset() == b);
            if guard(|| again(&cmd).map(|(x, y)| ok(x) && ok(y))).ok().flatten() != Some(true) {
                ctx.violation("record", format!("record of setting key {a} -> {b} reads back as something else"), "SetKey");
            }
        }
    }
    for a in (1..2000u32).chain([65535, 65536, u32::MAX]) {
        let b = u32::MAX - a + 1;
        t.transitions += 1;
        let cmd = ProjectCmd::SetGrid(Grid::from_u32(a).unwrap(), Grid::from_u32(b).unwrap());
        let ok = |c: ProjectCmd| matches!(c, ProjectCmd::SetGrid(x, y) if x.as_u32() == a && y.as_u32() == b);
        if guard(|| again(&cmd).map(|(x, y)| ok(x) && ok(y))).ok().flatten() != Some(true) {
            ctx.violation("record", format!("record of setting grid {a} -> {b} reads back as something else"), "SetGrid");
        }
    }
    drop(t);
    ctx.sample(|| "[note variant 4 at 240, note variant 4 at 240, bar variant 3 at 0] as clipboard text, record, exported project, project snapshot".to_string());
    ctx.bound("notes", format!("{} pitches x 64 durations x 4 ties; 128 velocities x 16 channels x denominators; 9^4 trims; 2001 percentages in 4 places", all.len()));
    ctx.bound("bars", format!("{} legal sets of marks x {} rhythms x 16 keys", masks.len(), rhythms.len()));
    ctx.bound("selections", format!("all selections of up to {maxlen} of {n} items, also as record, exported project and project snapshot"));
    let _ = ModelChangeMetadata::new();
}

fn again(c: &ProjectCmd) -> Option<(ProjectCmd, ProjectCmd)> {
    let b = bincode::serialize(c).ok()?;
    let j = serde_json::to_string(c).ok()?;
    Some((bincode::deserialize(&b).ok()?, serde_json::from_str(&j).ok()?))
}

// ---------------- C15 ----------------

/// What is impossible about accepted content, if anything.
fn impossible(m: &ModelsP) -> Option<String> {
    for n in &m.notes {
        let p = &n.pitch;
        if expect_pitch(p.solfa, p.oct, p.sf) != Some(*p) {
            return Some(format!("pitch {p:?}"));
        }
        if n.dots > 7 || n.den < 2 || n.vel > 127 || n.ch > 15 {
            return Some(format!("note out of range: {n:?}"));
        }
        if n.st.iter().sum::<i32>() != n.st_sum || n.vt.iter().sum::<i32>() != n.vt_sum {
            return Some(format!("trim total does not match its parts: {n:?}"));
        }
        if n.dt.iter().any(|d| *d > 2000) {
            return Some(format!("percentage out of range: {n:?}"));
        }
        let prod: u128 = n.dt.iter().map(|x| *x as u128).product();
        let (lo, hi) = (prod / 1_000_000_000, prod.div_ceil(1_000_000_000));
        if n.dt_sum as u128 != lo.min(2000) && n.dt_sum as u128 != hi.min(2000) {
            return Some(format!("rate total does not match its parts: {n:?}"));
        }
        let mut e = n.clone();
        derive(&mut e);
        if e != *n {
            return Some(format!("effective values do not match: {n:?}"));
        }
    }
    for b in &m.bars {
        if b.rhythm.is_some_and(|(n, _)| !(1..=99).contains(&n)) || b.key.is_some_and(|k| !(-7..=7).contains(&k)) {
            return Some(format!("bar {b:?}"));
        }
    }
    if let Some(t) = m.tempos.iter().find(|t| !(1..=999).contains(&t.v)) {
        return Some(format!("tempo {t:?}"));
    }
    m.dumpers.iter().chain(&m.softs).find(|c| c.v > 127 || c.ch > 15).map(|c| format!("pedal event {c:?}"))
}

fn feed(ctx: &Ctx, t: &mut Tally, which: u8, text: &str) {
    t.transitions += 1;
    t.traces += 1;
    let r = guard(|| match which {
        0 => Models::from_clipboard_text(text.to_string()).ok().map(|m| (models_of(&m), None, None)),
        _ => ExportedProject::from_clipboard_text(text.to_string()).ok().map(|e| {
            let (k, r) = (e.key.map(key_ix), e.rhythm.map(rhythm_of));
            (models_of(&e.to_models()), k, r)
        }),
    });
    match r {
        Ok(None) => t.count("refused"),
        Ok(Some((m, k, r))) => {
            t.count("accepted");
            if let Some(what) = impossible(&m) {
                ctx.violation("impossible", format!("accepted impossible content: {what}"), text);
            }
            if k.is_some_and(|k| !(-7..=7).contains(&k)) || r.is_some_and(|r| !(1..=99).contains(&r.0)) {
                ctx.violation("impossible", format!("accepted impossible key {k:?} or rhythm {r:?}"), text);
            }
        }
        Err(p) => ctx.violation("panic", format!("reading text crashed: {}", p.0), text),
    }
}

fn paths(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                here.push(k.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}

fn at_path<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut cur = v;
    for k in p {
        cur = match cur {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(o) => o.get_mut(k)?,
            _ => return None,
        };
    }
    Some(cur)
}

fn hostile() -> Vec<Value> {
    let mut v: Vec<Value> = [
        i64::MIN, -2147483649, -2147483648, -65536, -32769, -32768, -1000, -129, -128, -127, -15, -9, -8, -7, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17,
        63, 64, 65, 74, 75, 76, 77, 99, 100, 101, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1999, 2000, 2001, 2047, 2048, 4095, 32767, 32768, 65535, 65536, 100_000,
        131_068, 2147483647, 2147483648, 4294967295, 4294967296, i64::MAX,
    ]
    .iter()
    .map(|i| Value::from(*i))
    .collect();
    v.extend([
        Value::from(u64::MAX),
        Value::Null,
        Value::Bool(true),
        Value::Bool(false),
        serde_json::json!(0.5),
        serde_json::json!(-0.0),
        serde_json::json!(1e300),
        serde_json::json!([]),
        serde_json::json!({}),
        serde_json::json!([0]),
        serde_json::json!([1, 2, 3, 4]),
        serde_json::json!([1, 2, 3, 4, 5]),
        serde_json::json!([32767, 32767, 32767, 32767]),
        serde_json::json!([-32768, -32768, -32768, -32768]),
        serde_json::json!([2000, 2000, 2000, 2000]),
        serde_json::json!([{"value": 65535}, {"value": 2000}, {"value": 2000}, {"value": 2001}]),
        serde_json::json!({"value": 0}),
        serde_json::json!({"value": 65535}),
        serde_json::json!({"values": []}),
        serde_json::json!({"sum": 7, "values": [1, 1, 1, 1]}),
        serde_json::json!({"numerator": 0, "denominator": "D4"}),
        serde_json::json!({"numerator": 255, "denominator": "D4"}),
    ]);
    for s in [
        "", "a", "0", "C", "D", "E", "F", "G", "A", "B", "H", "Null", "Sharp", "DoubleSharp", "Flat", "DoubleFlat", "Natural", "OctM2", "OctM1", "Oct0", "Oct7", "Oct8", "Oct9", "Whole",
        "N128th", "D2", "D64", "D128", "Start", "Var1", "\u{0}", "é", "\u{1F3B5}",
    ] {
        v.push(Value::from(s));
    }
    v
}

fn rich_models() -> Models {
    let mut m = Models::empty();
    m.notes.push(note_with!(make_note(480, 5), pitch = Pitch::value_of(SOLFAS[3], OCTAVES[6], SHARP_FLATS[1]).expect("pitch")));
    m.notes.push(make_note(0, 2));
    m.bars.push(make_bar(960, 3));
    m.bars.push(make_bar(1920, 0));
    m.tempos.push(make_tempo(240, 1));
    m.dumpers.push(make_ctrl(7, 2));
    m.softs.push(make_ctrl(9, 3));
    m
}

pub fn c15(ctx: &Ctx) {
    let m = rich_models();
    let clip = m.to_clipboard_text();
    let exported = format!(
        "1{}",
        serde_json::to_string(&ExportedProject {
            key: Some(key_by_ix(-3)),
            rhythm: Some(Rhythm::new(3, 4)),
            notes: vec![m.notes[0].clone()],
            bars: m.bars.clone(),
            tempos: m.tempos.clone(),
            dumpers: m.dumpers.clone(),
            softs: m.softs.clone(),
        })
        .expect("json")
    );
    let texts = [(0u8, clip), (1u8, exported)];
    for (w, text) in &texts {
        {
            let mut t = ctx.scratch();
            let r = guard(|| if *w == 0 { Models::from_clipboard_text(text.clone()).is_ok() } else { ExportedProject::from_clipboard_text(text.clone()).is_ok() });
            feed(ctx, &mut t, *w, text);
            if r.ok() != Some(true) {
                ctx.violation("own-text", "own text is refused", text);
                return;
            }
        }
        // 1. cut anywhere, from either end
        let n = text.len();
        ctx.par(n, |i, t| {
            at(&[0, *w as u64, i as u64]);
            t.states += 1;
            feed(ctx, t, *w, &text[..i]);
            feed(ctx, t, *w, &text[i..]);
            feed(ctx, t, *w, &format!("1{}", &text[i..]));
            feed(ctx, t, *w, &format!("{}{}", &text[..i], &text[(i + 1).min(n)..])); // one byte lost
            feed(ctx, t, *w, &format!("{}{}", &text[..=i.min(n - 1)], &text[i..])); // one byte doubled
            // every other byte here, and one more byte here
            let repl: Vec<char> = if ctx.quick() { "019-.eE\"{}[]:, \tnulltfsDaé\u{0}\\".chars().collect() } else { (0u8..128).map(|b| b as char).chain(['é', '\u{1F3B5}']).collect() };
            for c in &repl {
                feed(ctx, t, *w, &format!("{}{c}{}", &text[..i], &text[i + 1..]));
                feed(ctx, t, *w, &format!("{}{c}{}", &text[..i], &text[i..]));
            }
            // two bytes swapped
            if i + 1 < n {
                let mut b = text.as_bytes().to_vec();
                b.swap(i, i + 1);
                feed(ctx, t, *w, &String::from_utf8_lossy(&b));
            }
        });
        // two pieces cut out / doubled
        let stride = ctx.pick(9usize, 2);
        ctx.par(n / stride + 1, |k, t| {
            let i = k * stride;
            for j in (i..=n).step_by(stride) {
                at(&[1, *w as u64, i as u64, j as u64]);
                feed(ctx, t, *w, &format!("{}{}", &text[..i], &text[j..]));
                if (j - i) < 60 {
                    feed(ctx, t, *w, &format!("{}{}{}", &text[..j], &text[i..j], &text[j..]));
                }
            }
        });
        // 2. every value replaced by every hostile value; every pair of replacements
        let tree: Value = serde_json::from_str(&text[1..]).expect("json");
        let mut ps = vec![];
        paths(&tree, &mut vec![], &mut ps);
        let hv = hostile();
        ctx.par(ps.len(), |i, t| {
            for (k, h) in hv.iter().enumerate() {
                at(&[2, *w as u64, i as u64, k as u64]);
                t.states += 1;
                let mut v = tree.clone();
                *at_path(&mut v, &ps[i]).unwrap() = h.clone();
                feed(ctx, t, *w, &format!("1{v}"));
            }
            // members removed, doubled, renamed, reordered, unknown members added
            let mut v = tree.clone();
            match at_path(&mut v, &ps[i]).unwrap() {
                Value::Object(o) => {
                    let keys: Vec<String> = o.keys().cloned().collect();
                    for k in &keys {
                        let mut v2 = tree.clone();
                        let Value::Object(o2) = at_path(&mut v2, &ps[i]).unwrap() else { unreachable!() };
                        let old = o2.remove(k).unwrap();
                        feed(ctx, t, *w, &format!("1{v2}"));
                        let Value::Object(o2) = at_path(&mut v2, &ps[i]).unwrap() else { unreachable!() };
                        o2.insert(format!("{k}x"), old.clone());
                        feed(ctx, t, *w, &format!("1{v2}"));
                        for k2 in &keys {
                            if k2 != k {
                                let mut v3 = v2.clone();
                                let Value::Object(o3) = at_path(&mut v3, &ps[i]).unwrap() else { unreachable!() };
                                o3.insert(k2.clone(), old.clone());
                                feed(ctx, t, *w, &format!("1{v3}"));
                            }
                        }
                    }
                    // the same member twice, with different values (as text)
                    let s = tree_text(&tree, &ps[i], &hv, &keys);
                    for x in s {
                        feed(ctx, t, *w, &format!("1{x}"));
                    }
                }
                Value::Array(a) => {
                    let len = a.len();
                    for k in 0..len {
                        let mut v2 = tree.clone();
                        let Value::Array(a2) = at_path(&mut v2, &ps[i]).unwrap() else { unreachable!() };
                        let x = a2[k].clone();
                        a2.push(x);
                        feed(ctx, t, *w, &format!("1{v2}"));
                        let Value::Array(a2) = at_path(&mut v2, &ps[i]).unwrap() else { unreachable!() };
                        a2.remove(k);
                        a2.pop();
                        feed(ctx, t, *w, &format!("1{v2}"));
                    }
                }
                _ => {}
            }
        });
        let pairs = ctx.pick(13usize, 1);
        // leaves only, each with the values that are valid for some attribute
        let leaves: Vec<&Vec<String>> = ps.iter().filter(|p| { let mut v = tree.clone(); !matches!(at_path(&mut v, p), Some(Value::Array(_) | Value::Object(_))) }).collect();
        ctx.par(leaves.len(), |i, t| {
            for j in i + 1..leaves.len() {
                for (a, x) in hv.iter().enumerate() {
                    for (b, y) in hv.iter().enumerate() {
                        if (a * 31 + b * 7 + i + j) % (pairs * 7) != 0 {
                            continue;
                        }
                        if ctx.stopped() {
                            return;
                        }
                        at(&[3, *w as u64, i as u64, j as u64, a as u64, b as u64]);
                        let mut v = tree.clone();
                        *at_path(&mut v, leaves[i]).unwrap() = x.clone();
                        *at_path(&mut v, leaves[j]).unwrap() = y.clone();
                        feed(ctx, t, *w, &format!("1{v}"));
                    }
                }
            }
        });
    }
    // 3. all combinations of pitch parts, stated values and staff positions disagreeing
    let tree: Value = serde_json::from_str(&texts[0].1[1..]).expect("json");
    let one = tree.get("notes").and_then(|n| n.get(0)).cloned();
    if let Some(note) = one {
        let names: [&[&str]; 3] = [
            &["C", "D", "E", "F", "G", "A", "B"],
            &["OctM2", "OctM1", "Oct0", "Oct1", "Oct4", "Oct7", "Oct8"],
            &["Null", "Sharp", "DoubleSharp", "Flat", "DoubleFlat", "Natural"],
        ];
        ctx.par(7 * 7 * 6, |u, t| {
            for value in [0i64, 1, 60, 127, 128, 200, 255] {
                for so in [-128i64, -1, 0, 35, 74, 75, 76, 127] {
                    at(&[4, u as u64, value as u64, so as u64]);
                    let mut n = note.clone();
                    if let Some(p) = n.get_mut("pitch") {
                        for (k, x) in [
                            ("solfa", Value::from(names[0][u % 7])),
                            ("octave", Value::from(names[1][u / 7 % 7])),
                            ("sharp_flat", Value::from(names[2][u / 49])),
                            ("value", Value::from(value)),
                            ("score_offset", Value::from(so)),
                        ] {
                            p[k] = x;
                        }
                    }
                    let v = serde_json::json!({"notes": [n], "bars": [], "tempos": [], "dumpers": [], "softs": []});
                    t.states += 1;
                    feed(ctx, t, 0, &format!("1{v}"));
                }
            }
        });
    }
    // 4. versions and short texts
    let body = &texts[0].1[1..];
    let alpha: Vec<char> = "012-+.eE \n\t{}[]\",:nultrfas\u{0}é".chars().collect();
    let len = ctx.pick(3usize, ctx.deepen(4, 5));
    let total: usize = (0..=len).map(|l| alpha.len().pow(l as u32)).sum();
    ctx.par(alpha.len() + 1, |first, t| {
        let mut words = if first == alpha.len() { vec![String::new()] } else { vec![alpha[first].to_string()] };
        for _ in 0..len {
            for x in &words {
                at(&[5, first as u64, x.len() as u64]);
                for w in 0..2u8 {
                    feed(ctx, t, w, x);
                    feed(ctx, t, w, &format!("{x}{body}"));
                    feed(ctx, t, w, &format!("1{x}"));
                    feed(ctx, t, w, &format!("1{x}{body}"));
                }
                t.states += 1;
            }
            if first == alpha.len() || words[0].chars().count() == len {
                break;
            }
            words = words.iter().flat_map(|w| alpha.iter().map(move |c| format!("{w}{c}"))).collect();
        }
    });
    {
        let mut t = ctx.tally();
        let mut vs: Vec<String> = (0..=300u32).map(|v| v.to_string()).collect();
        vs.extend(["18446744073709551615", "18446744073709551616", "18446744073709551617", "4294967297", "-1", "1.0", "1e0", "true", "null", "\"1\"", "[1]", "{}", "01", "1 ", " 1", "1\n", "1{}", "1[]", "1null", "1 1"].map(String::from));
        for v in &vs {
            for w in 0..2u8 {
                feed(ctx, &mut t, w, &format!("{v}{}", &texts[w as usize].1[1..]));
                // another version number is reported, not read
                let r = guard(|| if w == 0 { Models::from_clipboard_text(format!("{v}{}", &texts[0].1[1..])).is_ok() } else { ExportedProject::from_clipboard_text(format!("{v}{}", &texts[1].1[1..])).is_ok() });
                if v.chars().all(|c| c.is_ascii_digit()) && v.parse::<u128>().is_ok_and(|x| x != 1) && r.ok() == Some(true) {
                    ctx.violation("version", format!("text of version {v} was accepted"), v);
                }
            }
        }
        // deep nesting
        for depth in [10usize, 100, 127, 128, 129, 1000, 100_000] {
            for (o, c) in [("[", "]"), ("{\"a\":", "}")] {
                let x = format!("{}0{}", o.repeat(depth), c.repeat(depth));
                for w in 0..2u8 {
                    feed(ctx, &mut t, w, &x);
                    feed(ctx, &mut t, w, &format!("1{x}"));
                    feed(ctx, &mut t, w, &format!("1{}", o.repeat(depth)));
                }
            }
        }
    }
    ctx.sample(|| format!("own text with one value replaced, e.g. of {}", &texts[0].1[..texts[0].1.len().min(120)]));
    ctx.bound("alterations of own text", "cut at every byte from either end; every byte lost, doubled, swapped, replaced and preceded by each of a set of characters; every value replaced by each hostile value; every member removed, renamed, doubled, merged; pairs of values replaced (a regular subset in the quick tier)");
    ctx.bound("hostile values", hostile().len());
    ctx.bound("short texts", format!("all {total} texts of up to {len} characters over {} characters, alone, as version, after the version", alpha.len()));
    ctx.assume("which marks share a bar is not judged here");
}

/// Text of the tree with one member of the object at `p` written twice.
fn tree_text(tree: &Value, p: &[String], hv: &[Value], keys: &[String]) -> Vec<String> {
    let mut out = vec![];
    for k in keys {
        let mut v = tree.clone();
        let Some(Value::Object(o)) = at_path(&mut v, p) else { continue };
        o.insert("@@".into(), Value::from("@@"));
        let s = v.to_string();
        for h in hv.iter().step_by(7) {
            out.push(s.replace("\"@@\":\"@@\"", &format!("{}:{}", Value::from(k.as_str()), h)));
        }
    }
    out
}

// ---------------- C16 ----------------

#[derive(Clone, PartialEq, Debug)]
enum Shown {
    Empty,
    Val(i64),
    Loc(usize, usize),
    Err,
}

fn show<T, E>(r: &Result<Validated<Option<T>>, E>, f: impl Fn(&T) -> Shown) -> Shown {
    match r {
        Ok(Validated(None)) => Shown::Empty,
        Ok(Validated(Some(v))) => f(v),
        Err(_) => Shown::Err,
    }
}

const FIELDS: [&str; 7] = ["location", "trim", "tempo", "velocity", "rhythm numerator", "tuplet denominator", "percentage"];

fn parse_field(f: usize, s: &str) -> Shown {
    match f {
        0 => show(&Validated::<Option<Location>>::from_str(s), |l| Shown::Loc(l.bar_no(), l.offset())),
        1 => show(&Validated::<Option<i16>>::from_str(s), |v| Shown::Val(*v as i64)),
        2 => show(&Validated::<Option<TempoValue>>::from_str(s), |v| Shown::Val(v.as_u16() as i64)),
        3 => show(&Validated::<Option<Velocity>>::from_str(s), |v| Shown::Val(v.as_u8() as i64)),
        4 => show(&Validated::<Option<rhythm::Numerator>>::from_str(s), |v| Shown::Val(v.value() as i64)),
        5 => show(&Validated::<Option<duration::Denominator>>::from_str(s), |v| Shown::Val(v.value() as i64)),
        _ => show(&Validated::<Option<PercentU16>>::from_str(s), |v| Shown::Val(pct(*v) as i64)),
    }
}

fn range(f: usize) -> (i64, i64) {
    [(0, 0), (-32768, 32767), (1, 999), (0, 127), (1, 99), (2, 255), (0, 2000)][f]
}

/// Is the answer of the field acceptable for this text?
fn acceptable(f: usize, s: &str, got: &Shown) -> bool {
    if s.is_empty() {
        return *got == Shown::Empty;
    }
    if *got == Shown::Empty {
        return false;
    }
    let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
    if f == 0 {
        if let Some((a, b)) = s.split_once(':') {
            if digits(a) && digits(b) {
                return match (a.parse::<usize>(), b.parse::<usize>()) {
                    (Ok(x), Ok(y)) => *got == Shown::Loc(x, y),
                    _ => *got == Shown::Err,
                };
            }
        }
        return *got == Shown::Err;
    }
    let (lo, hi) = range(f);
    if f == 6 {
        let mut parts = s.splitn(2, '.');
        let (a, b) = (parts.next().unwrap(), parts.next());
        let plain = digits(a) && b.is_none_or(digits);
        // what std reads as a number; anything else must be refused
        return match s.parse::<f64>() {
            Err(_) => *got == Shown::Err,
            Ok(x) if x.is_nan() => !matches!(got, Shown::Val(v) if !(lo..=hi).contains(v)),
            Ok(x) => {
                let e = (x * 1000.0).clamp(0.0, 2000.0);
                match got {
                    Shown::Val(v) => (*v as f64 - e).abs() <= 0.5005,
                    _ => !(plain && x <= 2.0),
                }
            }
        };
    }
    // integers
    let t = s.trim();
    let (neg, body) = match t.as_bytes().first() {
        Some(b'-') => (true, &t[1..]),
        Some(b'+') => (false, &t[1..]),
        _ => (false, t),
    };
    if !digits(body) {
        return *got == Shown::Err;
    }
    let plain = s == body || (neg && s.len() == body.len() + 1);
    let v: Option<i64> = body.trim_start_matches('0').parse::<i64>().ok().or((body.bytes().all(|b| b == b'0')).then_some(0)).map(|x| if neg { -x } else { x });
    match (v, got) {
        (Some(v), Shown::Val(g)) if (lo..=hi).contains(&v) => *g == v,
        (Some(v), Shown::Val(g)) => *g == v.clamp(lo, hi) && f != 4 && f != 5 && f != 1,
        (None, Shown::Val(g)) => (*g == if neg { lo } else { hi }) && f != 4 && f != 5 && f != 1,
        // in range, plainly typed: must be accepted ("-0" may be refused)
        (Some(v), Shown::Err) => !(plain && !neg && (lo..=hi).contains(&v)) && !(plain && neg && v != 0 && (lo..=hi).contains(&v)),
        (None, Shown::Err) => true,
        _ => false,
    }
}

fn judge_field(ctx: &Ctx, t: &mut Tally, f: usize, s: &str) {
    t.transitions += 1;
    match guard(|| parse_field(f, s)) {
        Ok(g) => {
            match &g {
                Shown::Err => t.count("refused"),
                Shown::Empty => t.count("no value"),
                _ => t.count("accepted"),
            }
            if !acceptable(f, s, &g) {
                ctx.violation("field", format!("{} field: text {s:?} gives {g:?}", FIELDS[f]), format!("{} {s:?}", FIELDS[f]));
            }
        }
        Err(p) => ctx.violation("panic", format!("{} field: text {s:?} crashed: {}", FIELDS[f], p.0), format!("{s:?}")),
    }
}

/// A text field driven through a sequence of edits, generic over the value.
fn drive<T, E>(ctx: &Ctx, t: &mut Tally, f: usize, init: &str, ops: &[u8], shown: fn(&Result<Validated<Option<T>>, E>) -> Shown)
where
    Validated<Option<T>>: FromStr<Err = E>,
{
    const CH: [char; 5] = ['1', '9', ':', '.', 'é'];
    let mut text = init.to_string();
    let mut field: TextInput<Option<T>, E> = TextInput::from_string(init.to_string());
    let name = |o: u8| match o {
        0..=4 => format!("type {:?}", CH[o as usize]),
        5 => "delete last".into(),
        6 => "clear".into(),
        7 => "type '0' in front".into(),
        8 => "replace by \"12\"".into(),
        _ => "nothing".to_string(),
    };
    for k in 0..=ops.len() {
        let how = || format!("{} field {init:?}: {}", FIELDS[f], ops[..k].iter().map(|o| name(*o)).collect::<Vec<_>>().join(", "));
        if k > 0 {
            t.transitions += 1;
            let o = ops[k - 1];
            let edit = |s: &mut String| -> usize {
                match o {
                    0..=4 => s.push(CH[o as usize]),
                    5 => {
                        s.pop();
                    }
                    6 => s.clear(),
                    7 => s.insert(0, '0'),
                    8 => *s = "12".into(),
                    _ => {}
                }
                s.len()
            };
            let n = edit(&mut text);
            let r = field.mutate(edit);
            if r != n {
                ctx.violation("mutate", format!("the edit returned {r}, not {n}"), how());
            }
        }
        if field.input() != text {
            ctx.violation("buffer", format!("field holds {:?}, expected {text:?}", field.input()), how());
            return;
        }
        let got = shown(field.validate());
        let direct = shown(&text_input::from_str::<Option<T>, E>(&text));
        if got != direct || !acceptable(f, &text, &got) {
            ctx.violation("stale", format!("field shows {got:?} for {text:?} (read anew: {direct:?})"), how());
            return;
        }
    }
    t.traces += 1;
}

fn drive_field(ctx: &Ctx, t: &mut Tally, f: usize, init: &str, ops: &[u8]) {
    match f {
        0 => drive::<Location, _>(ctx, t, f, init, ops, |r| show(r, |l| Shown::Loc(l.bar_no(), l.offset()))),
        1 => drive::<i16, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(*v as i64))),
        2 => drive::<TempoValue, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(v.as_u16() as i64))),
        3 => drive::<Velocity, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(v.as_u8() as i64))),
        4 => drive::<rhythm::Numerator, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(v.value() as i64))),
        5 => drive::<duration::Denominator, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(v.value() as i64))),
        _ => drive::<PercentU16, _>(ctx, t, f, init, ops, |r| show(r, |v| Shown::Val(pct(*v) as i64))),
    }
}

pub fn c16(ctx: &Ctx) {
    // 1. all short texts
    let alphas = ["0123456789:+- x\u{0665}\n", "0123456789+-. _é\u{0665}", "0123456789+-. _é\u{0665}", "0123456789+-. _é\u{0665}", "0123456789+-. _é\u{0665}", "0123456789+-. _é\u{0665}", "0123456789.eE+-infNa_ "];
    let l = ctx.pick(5usize, ctx.deepen(6, 7));
    let len = [l, l, l, l, l, l, l - 1];
    // the location field is slow to check (it compiles its pattern anew): fewer texts
    let len0 = ctx.pick(3usize, ctx.deepen(4, 5));
    let units: Vec<(usize, char, Option<char>)> = (0..7)
        .flat_map(|f| {
            let a: Vec<char> = alphas[f].chars().collect();
            let b = a.clone();
            a.into_iter().flat_map(move |x| std::iter::once((f, x, None)).chain(b.clone().into_iter().map(move |y| (f, x, Some(y))))).collect::<Vec<_>>()
        })
        .collect();
    ctx.par(units.len(), |u, t| {
        let (f, a, b) = units[u];
        let l = if f == 0 { len0 } else { len[f] };
        let alpha: Vec<char> = alphas[f].chars().collect();
        fn go(ctx: &Ctx, t: &mut Tally, f: usize, alpha: &[char], s: &mut String, left: usize) {
            if ctx.stopped() {
                return;
            }
            t.states += 1;
            judge_field(ctx, t, f, s);
            if left == 0 {
                return;
            }
            for c in alpha {
                s.push(*c);
                go(ctx, t, f, alpha, s, left - 1);
                s.pop();
            }
        }
        at(&[0, u as u64]);
        let mut s = a.to_string();
        match b {
            None => {
                t.states += 1;
                judge_field(ctx, t, f, &s)
            }
            Some(b) => {
                s.push(b);
                go(ctx, t, f, &alpha, &mut s, l.saturating_sub(2));
            }
        }
    });
    // 2. numbers: every 17-bit number with either sign and padding; long digit strings; long locations
    ctx.par(1 << 17, |v, t| {
        at(&[1, v as u64]);
        for f in 1..6 {
            t.states += 1;
            for s in [v.to_string(), format!("-{v}"), format!("+{v}"), format!("{v:010}"), format!("{v} ")] {
                judge_field(ctx, t, f, &s);
            }
        }
        if v <= 30_000 {
            for s in [format!("{}", v as f64 / 10_000.0), format!("{}", v as f32 / 10_000.0), format!("{:.4}", v as f64 / 10_000.0), format!("0{:.3}", v as f64 / 10_000.0)] {
                judge_field(ctx, t, 6, &s);
            }
        }
    });
    {
        let mut t = ctx.tally();
        let mut big: Vec<String> = vec![];
        for n in 1..=40 {
            big.push("9".repeat(n));
            big.push(format!("1{}", "0".repeat(n)));
            big.push(format!("{}7", "0".repeat(n)));
        }
        for x in [u8::MAX as u128, u16::MAX as u128, i16::MAX as u128, u32::MAX as u128, u64::MAX as u128, i64::MAX as u128, usize::MAX as u128] {
            for d in [-1i128, 0, 1] {
                big.push((x as i128 + d).to_string());
            }
        }
        for b in &big {
            for f in 1..7 {
                for s in [b.clone(), format!("-{b}"), format!("+{b}"), format!("{b}.{b}"), format!("0.{b}"), format!("{b}e{b}"), format!("1e-{b}")] {
                    t.states += 1;
                    judge_field(ctx, &mut t, f, &s);
                }
            }
            for s in [format!("{b}:0"), format!("0:{b}"), format!("{b}:{b}"), format!("{b}:"), format!(":{b}"), format!("-{b}:1"), format!("{b}:1:1"), format!(" {b}:1"), format!("{b}: 1"), format!("{b}:1\n")] {
                t.states += 1;
                judge_field(ctx, &mut t, 0, &s);
            }
        }
        for f in 0..7 {
            for s in ["", " ", "\u{0}", "é", "٣", "٣:٣", "１", "１:２", "1\u{301}", "\u{1F3B5}", "NaN", "nan", "-nan", "inf", "-inf", "infinity", "+inf", "1e400", "-1e400", "1e-400", "0x10", "1_000", "1,5", ".5", "5.", ".", "-", "+", "--1", "+-1", "-0", "+0", "00", "1:2:3", ":", "::", "1:-2"] {
                t.states += 1;
                judge_field(ctx, &mut t, f, s);
            }
        }
    }
    // 3. shown as text and read back
    let nums: Vec<usize> = (0..ctx.pick(40usize, 130)).chain([255, 256, 999, 1000, 65535, 65536, u32::MAX as usize, usize::MAX - 1, usize::MAX]).collect();
    ctx.par(nums.len(), |i, t| {
        for b in &nums {
            t.states += 1;
            t.transitions += 1;
            let l = Location::new(nums[i], *b);
            match guard(|| (l.to_string(), Location::parse(&l.to_string()))) {
                Ok((_, Some(g))) if g.bar_no() == nums[i] && g.offset() == *b => {}
                Ok((s, g)) => ctx.violation("shown-location", format!("{l:?} shown as {s:?} reads back as {g:?}"), s),
                Err(p) => ctx.violation("panic", format!("location {l:?} crashed: {}", p.0), format!("{l:?}")),
            }
        }
    });
    {
        let mut t = ctx.tally();
        let mut back = |f: usize, s: String, v: i64| {
            t.transitions += 1;
            t.states += 1;
            match guard(|| parse_field(f, &s)) {
                Ok(Shown::Val(g)) if g == v => {}
                Ok(g) => ctx.violation("shown", format!("{} {v} shown as {s:?} reads back as {g:?}", FIELDS[f]), s),
                Err(p) => ctx.violation("panic", format!("{} text {s:?} crashed: {}", FIELDS[f], p.0), s),
            }
        };
        for v in 0..=2000u16 {
            back(6, PercentU16::from_value(v).to_string(), v as i64);
        }
        for v in 0..=127u8 {
            back(3, Velocity::new(v).to_string(), v as i64);
        }
        for v in 1..=99u8 {
            if let Ok(n) = rhythm::Numerator::from_value(v) {
                back(4, n.to_string(), v as i64);
            }
        }
        for v in 2..=255u8 {
            if let Some(n) = duration::Denominator::from_value(v) {
                back(5, n.to_string(), v as i64);
            }
        }
        for d in rhythm::DENOMINATORS {
            let s = d.to_string();
            let v = s.parse::<u8>().ok();
            if v != Some(den_of(d)) || d.value() != den_of(d) {
                ctx.violation("shown", format!("rhythm denominator {:?} shown as {s:?}", den_of(d)), s);
            }
        }
        for g in (1..200_000u32).chain((17..32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])).chain([u32::MAX - 1, u32::MAX]) {
            if let Ok(x) = Grid::from_u32(g) {
                let s = x.to_string();
                match guard(|| Grid::value_of(&s)) {
                    Ok(Ok(y)) if y.as_u32() == g => {}
                    r => ctx.violation("shown", format!("grid {g} shown as {s:?} reads back as {:?}", r.map_err(|p| p.0)), s),
                }
            }
        }
    }
    // 4. sequences of text edits
    let depth = ctx.pick(4u32, ctx.deepen(5, 6));
    let inits = ["", "5", "1:2", "0.25", "x"];
    ctx.par(7 * inits.len() * 10, |u, t| {
        let (f, i, first) = (u / (inits.len() * 10), u / 10 % inits.len(), u % 10);
        let d = if f == 0 { depth - 1 } else { depth };
        at(&[2, u as u64]);
        for x in 0..10usize.pow(d - 1) {
            if ctx.stopped() {
                return;
            }
            let mut ops = vec![first as u8];
            let mut y = x;
            for _ in 1..d {
                ops.push((y % 10) as u8);
                y /= 10;
            }
            t.states += 1;
            if let Err(p) = guard(|| drive_field(ctx, t, f, inits[i], &ops)) {
                ctx.violation("panic", format!("editing the {} field crashed: {}", FIELDS[f], p.0), format!("{:?} {ops:?}", inits[i]));
            }
        }
    });
    ctx.sample(|| "tempo field \"\": type '1', type '9', type '0' in front, delete last".to_string());
    ctx.bound("texts", format!("all texts of up to {} characters over 17 (percentage: {}, location: {len0}); all numbers to 131071 in 5 spellings; long digit strings", len[1], len[6]));
    ctx.bound("edit sequences", format!("all sequences of {depth} of 10 text edits from {} texts in 7 fields (location {})", inits.len(), depth - 1));
    ctx.assume("a leading '+', surrounding blanks, exponents, \"inf\" and \"nan\" may be accepted or refused; if accepted the value must match");
    let _ = RepeatSet::EMPTY;
}
