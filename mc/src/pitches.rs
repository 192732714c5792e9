//! C17: the graph of all pitches under all pitch operations. C13: the graph of all sets of repeat
//! marks under adding and removing.
use crate::content::*;
use crate::driver::*;
use crate::play::{compatible, VARS};
use klavier_core::bar::{RepeatSet, VarIndex};
use klavier_core::key::Key;
use klavier_core::pitch::{Pitch, PitchError};
use std::collections::BTreeMap;

pub const SEMIS: [i32; 7] = [0, 2, 4, 5, 7, 9, 11];

/// (solfa, octave, accidental) -> expected pitch, or None when it cannot sound
pub fn expect_pitch(solfa: u8, oct: i32, sf: u8) -> Option<PitchP> {
    if !(-2..=8).contains(&oct) {
        return None;
    }
    let v = SEMIS[solfa as usize] + 12 * (oct + 2) + sf_shift(sf);
    if !(0..=127).contains(&v) {
        return None;
    }
    Some(PitchP { solfa, oct, sf, value: v as u8, offset: (solfa as i32 + 7 * (oct + 2)) as i8 })
}

/// notes altered by a key signature, in the order they appear in it
const SHARP_ORDER: [u8; 7] = [3, 0, 4, 1, 5, 2, 6];
const FLAT_ORDER: [u8; 7] = [6, 2, 5, 1, 4, 0, 3];

pub fn key_alters(key: i32, solfa: u8) -> Option<u8> {
    let n = key.unsigned_abs() as usize;
    if key > 0 && SHARP_ORDER[..n].contains(&solfa) {
        Some(1)
    } else if key < 0 && FLAT_ORDER[..n].contains(&solfa) {
        Some(3)
    } else {
        None
    }
}

pub fn expect_toggle(p: &PitchP, which: u8) -> Option<PitchP> {
    let sf = match (which, p.sf) {
        (0, 1) => 2,
        (0, 2) => 0,
        (0, _) => 1,
        (1, 3) => 4,
        (1, 4) => 0,
        (1, _) => 3,
        (_, 5) => 0,
        (_, _) => 5,
    };
    expect_pitch(p.solfa, p.oct, sf)
}

/// Result of a move by staff steps: `None` = must be refused.
pub fn expect_shift(p: &PitchP, delta: i64) -> Option<PitchP> {
    let o = p.offset as i64 + delta;
    if !(0..=76).contains(&o) {
        return None;
    }
    expect_pitch((o % 7) as u8, (o / 7) as i32 - 2, p.sf)
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Up,
    Down,
    Toggle(u8),
    Key(i8),
    Shift(i32),
}

fn run(p: Pitch, op: Op, key: Option<Key>) -> Result<Pitch, PitchError> {
    match op {
        Op::Up => p.up(),
        Op::Down => p.down(),
        Op::Toggle(0) => p.toggle_sharp(),
        Op::Toggle(1) => p.toggle_flat(),
        Op::Toggle(_) => p.toggle_natural(),
        Op::Key(_) => p.apply_key(key.unwrap()),
        Op::Shift(d) => p.with_score_offset_delta(d),
    }
}

pub fn c17(ctx: &Ctx) {
    let mut t = ctx.tally();
    let keys: Vec<Key> = (-7..=7).map(crate::ops::key_by_ix).collect();
    for (i, k) in keys.iter().enumerate() {
        let n = i as i8 - 7;
        t.transitions += 1;
        if k.offset() != n || k.is_flat() != (n < 0) || k.is_sharp() != (n > 0) {
            ctx.violation("key", format!("key {n}: offset {}, flat {}, sharp {}", k.offset(), k.is_flat(), k.is_sharp()), "Key");
        }
    }
    let far = [i32::MIN, i32::MIN + 1, -1_000_000, -300, -256, -128, 127, 128, 255, 300, 1_000_000, i32::MAX - 75, i32::MAX - 1, i32::MAX];
    let mut ops: Vec<Op> = vec![Op::Up, Op::Down, Op::Toggle(0), Op::Toggle(1), Op::Toggle(2)];
    ops.extend((0..15).map(|i| Op::Key(i as i8 - 7)));
    ops.extend((-80..=80).map(Op::Shift));
    ops.extend(far.iter().map(|d| Op::Shift(*d)));
    // 1. every name: constructor
    let mut roots: Vec<Pitch> = vec![];
    for (si, s) in SOLFAS.iter().enumerate() {
        for o in OCTAVES {
            for (fi, f) in SHARP_FLATS.iter().enumerate() {
                t.transitions += 1;
                at(&[0, si as u64, (oct_val(o) + 2) as u64, fi as u64]);
                let exp = expect_pitch(si as u8, oct_val(o), fi as u8);
                let got = match guard(|| Pitch::value_of(*s, o, *f)) {
                    Ok(r) => r,
                    Err(p) => {
                        ctx.violation("panic", format!("making pitch {s:?} {o:?} {f:?} crashed: {}", p.0), "Pitch::value_of");
                        continue;
                    }
                };
                match (&got, &exp) {
                    (Ok(p), Some(e)) if pitch_of(*p) == *e => roots.push(*p),
                    (Err(_), None) => t.count("names that cannot sound, refused"),
                    _ => ctx.violation("construct", format!("pitch {s:?} octave {} {f:?}: expected {exp:?}, got {got:?}", oct_val(o)), "Pitch::value_of"),
                }
                // the unchecked constructor refuses (by panic) exactly what the checked one refuses
                match (guard(|| Pitch::new(*s, o, *f)), &exp) {
                    (Ok(p), Some(e)) if pitch_of(p) == *e => {}
                    (Err(_), None) => {}
                    (r, _) => ctx.violation("construct-new", format!("Pitch::new({s:?}, {o:?}, {f:?}): expected {exp:?}, got {:?}", r.map(pitch_of).map_err(|p| p.0)), "Pitch::new"),
                }
            }
        }
    }
    for d in (-100..=200).chain(far.iter().copied()) {
        t.transitions += 1;
        at(&[1, d as u32 as u64]);
        let o = d.clamp(0, 74);
        let exp = expect_pitch((o % 7) as u8, o / 7 - 2, 0);
        match guard(|| Pitch::from_score_offset(d)) {
            Ok(p) if Some(pitch_of(p)) == exp => {}
            Ok(p) => ctx.violation("staff", format!("staff position {d}: expected {exp:?}, got {:?}", pitch_of(p)), "Pitch::from_score_offset"),
            Err(p) => ctx.violation("panic", format!("staff position {d} crashed: {}", p.0), "Pitch::from_score_offset"),
        }
        if (0..77).contains(&d) {
            match guard(|| Pitch::score_offset_to_solfa_octave(d)) {
                Ok((s, o)) if solfa_ix(s) as i32 == d % 7 && oct_val(o) == d / 7 - 2 => {}
                Ok(x) => ctx.violation("staff", format!("staff position {d} named {x:?}"), "Pitch::score_offset_to_solfa_octave"),
                Err(p) => ctx.violation("panic", format!("staff position {d} crashed: {}", p.0), "Pitch::score_offset_to_solfa_octave"),
            }
        }
    }
    // 2. closure of the graph: every reachable pitch, every operation
    let mut seen: BTreeMap<PitchP, Pitch> = BTreeMap::new();
    let mut queue: Vec<Pitch> = vec![];
    for p in roots.iter().copied().chain([Pitch::default(), klavier_core::pitch::MIN, klavier_core::pitch::MAX]) {
        if seen.insert(pitch_of(p), p).is_none() {
            queue.push(p);
        }
    }
    while let Some(p) = queue.pop() {
        let pp = pitch_of(p);
        t.states += 1;
        // the pitch itself is consistent
        if expect_pitch(pp.solfa, pp.oct, pp.sf) != Some(pp) {
            ctx.violation("consistent", format!("reached a pitch whose parts disagree: {pp:?}"), "Pitch");
        }
        for (oi, op) in ops.iter().enumerate() {
            t.transitions += 1;
            at(&[2, pp.offset as u64, pp.sf as u64, oi as u64]);
            let key = if let Op::Key(k) = op { Some(keys[(*k as i32 + 7) as usize]) } else { None };
            let exp = match op {
                Op::Up => expect_shift(&pp, 1),
                Op::Down => expect_shift(&pp, -1),
                Op::Toggle(w) => expect_toggle(&pp, *w),
                Op::Key(k) => match key_alters(*k as i32, pp.solfa) {
                    Some(sf) if pp.sf == 0 => expect_pitch(pp.solfa, pp.oct, sf),
                    _ => Some(pp),
                },
                Op::Shift(d) => expect_shift(&pp, *d as i64),
            };
            let got = match guard(|| run(p, *op, key)) {
                Ok(r) => r,
                Err(e) => {
                    ctx.violation("panic", format!("{op:?} on {pp:?} crashed: {}", e.0), format!("{pp:?} {op:?}"));
                    continue;
                }
            };
            // A double-flat A8 sounds (127) but lies one step above the top of the staff: moves to
            // it may be refused or done.
            let edge = exp.is_some_and(|e| e.offset > 74) && !matches!(op, Op::Toggle(_) | Op::Key(_));
            match (&got, &exp) {
                (Ok(q), Some(e)) if pitch_of(*q) == *e => {
                    let qp = pitch_of(*q);
                    if !seen.contains_key(&qp) {
                        seen.insert(qp, *q);
                        queue.push(*q);
                    }
                    // there and back
                    if let Op::Shift(d) = op {
                        t.traces += 1;
                        match guard(|| q.with_score_offset_delta(-*d)) {
                            Ok(Ok(b)) if pitch_of(b) == pp => {}
                            Ok(Err(_)) if pp.offset > 74 => {}
                            Ok(r) => ctx.violation("there-and-back", format!("{d} steps and back from {pp:?} gives {r:?}"), format!("{pp:?} {op:?}")),
                            Err(e) => ctx.violation("panic", format!("moving back crashed: {}", e.0), format!("{pp:?} {op:?}")),
                        }
                    }
                }
                (Err(_), None) => t.count("operations refused at the end of the range"),
                (Err(_), Some(_)) if edge => t.count("moves onto A8 double-flat refused"),
                _ => ctx.violation("operation", format!("{op:?} on {pp:?}: expected {exp:?}, got {got:?}"), format!("{pp:?} {op:?}")),
            }
        }
    }
    // 3. walks: all sequences of toggles/steps/key from every pitch, model against implementation
    let walk_ops: Vec<Op> = vec![Op::Up, Op::Down, Op::Toggle(0), Op::Toggle(1), Op::Toggle(2), Op::Key(-7), Op::Key(7), Op::Key(2), Op::Key(-3), Op::Shift(7), Op::Shift(-7), Op::Shift(3)];
    let depth = ctx.pick(4, ctx.deepen(6, 7));
    let all: Vec<Pitch> = seen.values().copied().collect();
    drop(t);
    ctx.par(all.len(), |i, t| {
        fn go(ctx: &Ctx, t: &mut Tally, keys: &[Key], ops: &[Op], p: Pitch, m: PitchP, path: &mut Vec<Op>, left: usize) {
            if left == 0 || ctx.stopped() {
                t.traces += 1;
                return;
            }
            for op in ops {
                t.transitions += 1;
                let key = if let Op::Key(k) = op { Some(keys[(*k as i32 + 7) as usize]) } else { None };
                let exp = match op {
                    Op::Up => expect_shift(&m, 1),
                    Op::Down => expect_shift(&m, -1),
                    Op::Toggle(w) => expect_toggle(&m, *w),
                    Op::Key(k) => match key_alters(*k as i32, m.solfa) {
                        Some(sf) if m.sf == 0 => expect_pitch(m.solfa, m.oct, sf),
                        _ => Some(m),
                    },
                    Op::Shift(d) => expect_shift(&m, *d as i64),
                };
                path.push(*op);
                match guard(|| run(p, *op, key)) {
                    Ok(Ok(q)) if Some(pitch_of(q)) == exp => go(ctx, t, keys, ops, q, exp.unwrap(), path, left - 1),
                    // refused: the pitch is what it was; the walk goes on from there
                    Ok(Err(_)) if exp.is_none() || exp.unwrap().offset > 74 => {}
                    Ok(r) => ctx.violation("walk", format!("after {path:?}: expected {exp:?}, got {r:?}"), format!("{path:?} from {m:?}")),
                    Err(e) => ctx.violation("panic", format!("{path:?} crashed: {}", e.0), format!("{path:?}")),
                }
                path.pop();
            }
        }
        at(&[3, i as u64]);
        go(ctx, t, &keys, &walk_ops, all[i], pitch_of(all[i]), &mut vec![], depth);
    });
    ctx.sample(|| format!("{} reachable pitches, {} operations each", all.len(), ops.len()));
    ctx.bound("pitches", "all 462 names; closed under all operations");
    ctx.bound("operations", format!("{} per pitch: up, down, 3 toggles, 15 keys, staff moves -80..80 and {} far ones", ops.len(), far.len()));
    ctx.bound("walks", format!("all sequences of {} operations out of {} from every pitch", depth, walk_ops.len()));
    ctx.assume("A8 double-flat (value 127, staff position 75) lies outside the staff positions 0-74: moving onto or from it by staff steps may be refused");
}

// ---------------- C13 ----------------

fn mask(s: RepeatSet) -> u16 {
    let mut m = 0;
    for (i, r) in REPEATS.iter().enumerate() {
        if s.contains(*r) {
            m |= 1 << i;
        }
    }
    m
}

fn in_the_way(m: u16, r: usize) -> u16 {
    (0..11).filter(|i| m >> i & 1 == 1 && !compatible(1 << i, 1 << r)).map(|i| 1 << i).sum()
}

fn check_set(ctx: &Ctx, s: RepeatSet, m: u16, how: &dyn Fn() -> String) -> bool {
    let got = mask(s);
    if got != m {
        ctx.violation("content", format!("set holds marks {got:#b}, expected {m:#b}"), how());
        return false;
    }
    if s.len() != m.count_ones() as usize {
        ctx.violation("len", format!("set of {} marks says len {}", m.count_ones(), s.len()), how());
        return false;
    }
    let v = (0..4).find(|i| m >> (7 + i) & 1 == 1).map(|i| [VarIndex::VI1, VarIndex::VI2, VarIndex::VI3, VarIndex::VI4][i]);
    if s.region_index() != v {
        ctx.violation("region", format!("variation number {:?}, expected {v:?}", s.region_index()), how());
        return false;
    }
    true
}

/// One operation on the real set and on the model. Returns the next pair.
fn set_op(ctx: &Ctx, s: RepeatSet, m: u16, op: usize, how: &dyn Fn() -> String) -> Option<(RepeatSet, u16)> {
    if op < 11 {
        let before = mask(s);
        let way = in_the_way(m, op);
        match s.try_add(REPEATS[op]) {
            Ok(n) => {
                if way != 0 {
                    ctx.violation("accepted", format!("{:?} was accepted next to marks {way:#b}", REPEATS[op]), how());
                    return None;
                }
                Some((n, m | 1 << op))
            }
            Err(e) => {
                let em: u16 = REPEATS.iter().enumerate().filter(|(_, r)| e.contains(**r)).map(|(i, _)| 1 << i).sum();
                if way == 0 || em != way {
                    ctx.violation("refused", format!("adding {:?} to {m:#b} reports {em:#b} in the way, expected {way:#b}", REPEATS[op]), how());
                    return None;
                }
                if mask(s) != before {
                    ctx.violation("refused-changed", "a refused addition changed the set", how());
                    return None;
                }
                Some((s, m))
            }
        }
    } else if op < 22 {
        Some((s.remove(REPEATS[op - 11]), m & !(1 << (op - 11))))
    } else {
        Some((s.remove_resions(), m & !VARS))
    }
}

fn opname(op: usize) -> String {
    if op < 11 {
        format!("add {:?}", REPEATS[op])
    } else if op < 22 {
        format!("remove {:?}", REPEATS[op - 11])
    } else {
        "remove variations".to_string()
    }
}

pub fn c13(ctx: &Ctx) {
    // 1. every subset: reachable by adding if and only if its marks are pairwise compatible;
    //    all orders of adding
    let maxperm = ctx.pick(6, ctx.deepen(9, 11));
    ctx.par(2048, |m, t| {
        let m = m as u16;
        t.states += 1;
        let marks: Vec<usize> = (0..11).filter(|i| m >> i & 1 == 1).collect();
        let legal = marks.iter().all(|a| marks.iter().all(|b| a == b || compatible(1 << a, 1 << b)));
        if legal {
            t.count("legal sets");
        }
        fn perms(ctx: &Ctx, t: &mut Tally, s: RepeatSet, m: u16, rest: &mut Vec<usize>, order: &mut Vec<usize>, legal: bool, full: bool) {
            if ctx.stopped() {
                return;
            }
            if rest.is_empty() {
                t.traces += 1;
                let target: u16 = order.iter().map(|i| 1 << i).sum();
                if (m == target) != legal {
                    ctx.violation("order", format!("adding {:?} gives {m:#b}: compatible = {legal}", order), format!("{order:?}"));
                }
                return;
            }
            let n = if full { rest.len() } else { 1 };
            for k in 0..n {
                let r = rest.remove(k);
                order.push(r);
                t.transitions += 1;
                let how = || format!("adding in order {order:?}");
                at(&[1, m as u64, r as u64]);
                match guard(|| {
                    let x = set_op(ctx, s, m, r, &how)?;
                    check_set(ctx, x.0, x.1, &how).then_some(x)
                }) {
                    Ok(Some((s2, m2))) => perms(ctx, t, s2, m2, rest, order, legal, full),
                    Ok(None) => {}
                    Err(p) => ctx.violation("panic", format!("crashed: {}", p.0), how()),
                }
                order.pop();
                rest.insert(k, r);
            }
        }
        let full = marks.len() <= maxperm;
        if full {
            perms(ctx, t, RepeatSet::EMPTY, 0, &mut marks.clone(), &mut vec![], legal, true);
        } else {
            // rotations in both directions of the larger ones
            for k in 0..marks.len() {
                let mut a = marks.clone();
                a.rotate_left(k);
                perms(ctx, t, RepeatSet::EMPTY, 0, &mut a.clone(), &mut vec![], legal, false);
                a.reverse();
                perms(ctx, t, RepeatSet::EMPTY, 0, &mut a, &mut vec![], legal, false);
            }
        }
    });
    // 2. all operation sequences to a depth
    let depth = ctx.pick(5, ctx.deepen(6, 7));
    ctx.par(23 * 23, |u, t| {
        fn go(ctx: &Ctx, t: &mut Tally, s: RepeatSet, m: u16, path: &mut Vec<usize>, left: usize) {
            if left == 0 {
                t.traces += 1;
                return;
            }
            for op in 0..23 {
                if ctx.stopped() {
                    return;
                }
                step(ctx, t, s, m, path, op, left);
            }
        }
        fn step(ctx: &Ctx, t: &mut Tally, s: RepeatSet, m: u16, path: &mut Vec<usize>, op: usize, left: usize) {
            path.push(op);
            t.transitions += 1;
            let r = {
                let how = || path.iter().map(|o| opname(*o)).collect::<Vec<_>>().join(", ");
                match guard(|| {
                    let x = set_op(ctx, s, m, op, &how)?;
                    check_set(ctx, x.0, x.1, &how).then_some(x)
                }) {
                    Ok(r) => r,
                    Err(p) => {
                        ctx.violation("panic", format!("crashed: {}", p.0), how());
                        None
                    }
                }
            };
            if let Some((s2, m2)) = r {
                go(ctx, t, s2, m2, path, left - 1);
            }
            path.pop();
        }
        at(&[2, u as u64]);
        let mut path = vec![];
        let (a, b) = (u / 23, u % 23);
        // the first two operations are the unit
        path.push(a);
        let how = || opname(a);
        if let Ok(Some((s, m))) = guard(|| set_op(ctx, RepeatSet::EMPTY, 0, a, &how)) {
            step(ctx, t, s, m, &mut path, b, depth - 1);
        }
    });
    ctx.sample(|| "e.g. add D.C., add Segno (refused: D.C. in the way), remove D.C., add Segno".to_string());
    ctx.bound("subsets", format!("all 2048; all orders of adding for up to {maxperm} marks, rotations above"));
    ctx.bound("operation sequences", format!("all sequences of {depth} out of 23 operations"));
}
