//! C26: equality, hashing and order of items agree with their attributes.
use crate::content::*;
use crate::driver::*;
use crate::ops::*;
use crate::text::all_pitches;
use klavier_core::bar::{Bar, RepeatSet, VarIndex};
use klavier_core::channel::Channel;
use klavier_core::ctrl_chg::CtrlChg;
use klavier_core::duration::Duration;
use klavier_core::fly_weight::FlyWeight;
use klavier_core::grid::Grid;
use klavier_core::key::Key;
use klavier_core::location::Location;
use klavier_core::models::Models;
use klavier_core::note::Note;
use klavier_core::percent::PercentU16;
use klavier_core::pitch::Pitch;
use klavier_core::project::{ModelChangeMetadata, ProjectCmd};
use klavier_core::rhythm::Rhythm;
use klavier_core::tempo::{Tempo, TempoValue};
use klavier_core::trimmer::{RateTrimmer, Trimmer};
use klavier_core::velocity::Velocity;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// Every ordered pair: equal as the code has it exactly if equal in every attribute.
fn pairs<T: PartialEq + Debug + Sync, K: PartialEq + Debug + Sync>(ctx: &Ctx, id: u64, what: &str, vals: &[T], key: impl Fn(&T) -> K + Sync) {
    let keys: Vec<K> = vals.iter().map(&key).collect();
    ctx.bound(&format!("pairs of {what}"), format!("all {} ordered pairs of {} values", vals.len() * vals.len(), vals.len()));
    ctx.par(vals.len(), |i, t| {
        at(&[id, i as u64]);
        t.states += 1;
        let r = guard(|| {
            for j in 0..vals.len() {
                let (eq, ne, same) = (vals[i] == vals[j], vals[i] != vals[j], keys[i] == keys[j]);
                if eq != same || ne == same {
                    ctx.violation(
                        if same { "equal" } else { "different" },
                        format!("{what} {:?} and {:?}: == gives {eq}, != gives {ne}", vals[i], vals[j]),
                        format!("{:?} / {:?}", keys[i], keys[j]),
                    );
                    return;
                }
            }
        });
        t.transitions += vals.len() as u64;
        t.traces += vals.len() as u64;
        if let Err(p) = r {
            ctx.violation("panic", format!("comparing {what} crashed: {}", p.0), format!("{:?}", vals[i]));
        }
    });
}

fn hash_of<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// Every way of making a value gives the same hash (and an equal value).
fn same_hash<T: PartialEq + Hash + Debug>(ctx: &Ctx, t: &mut Tally, what: &str, ways: &[T]) {
    t.transitions += ways.len() as u64;
    t.traces += 1;
    for w in &ways[1..] {
        if ways[0] != *w {
            ctx.violation("equal", format!("{what} made in two ways differ: {:?} and {w:?}", ways[0]), what);
        } else if hash_of(&ways[0]) != hash_of(w) {
            ctx.violation("hash", format!("equal {what} hash differently: {:?} and {w:?}", ways[0]), what);
        }
    }
}

fn json<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    serde_json::from_str(&serde_json::to_string(x).expect("written")).expect("read")
}
fn bin<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T) -> T {
    bincode::deserialize(&bincode::serialize(x).expect("written")).expect("read")
}

fn variants(k: Kind) -> Vec<u16> {
    (20..20 + matrix_size(k)).chain(VALUES..VALUES + value_count(k)).collect()
}

pub fn c26(ctx: &Ctx) {
    // whole items: every value of every attribute, at several positions, and each stored and read back
    let ticks = [480u32, 481, u32::MAX];
    let mut notes: Vec<Note> = vec![];
    for v in variants(Kind::Note) {
        let n = make_note(480, v);
        notes.push(bin(&n));
        notes.push(n);
    }
    for v in 20..20 + matrix_size(Kind::Note) {
        notes.extend(ticks.iter().map(|x| json(&make_note(*x, v))));
    }
    // the same sounding start, length or velocity from other parts
    for (a, b) in [(0i16, 0i16), (10, -10), (-10, 10), (10, 0), (0, 10), (20, -10)] {
        for base in [470u32, 480, 490] {
            for vel in [54u8, 64, 74] {
                let tr = Trimmer::new(a, 0, b, 0);
                let zero = make_note(base, 0);
                notes.push(note_with!(zero.clone(), start_tick_trimmer = tr, base_velocity = Velocity::new(vel)));
                notes.push(note_with!(zero, velocity_trimmer = tr, base_velocity = Velocity::new(vel)));
            }
        }
    }
    pairs(ctx, 0, "notes", &notes, note_of);
    let mut bars: Vec<Bar> = variants(Kind::Bar).into_iter().map(|v| make_bar(480, v)).collect();
    for v in 20..20 + matrix_size(Kind::Bar) {
        bars.extend(ticks.iter().map(|x| bin(&make_bar(*x, v))));
    }
    pairs(ctx, 1, "bars", &bars, bar_of);
    let mut tempos: Vec<Tempo> = (1..=999u16).flat_map(|v| [Tempo::new(480, v), bin(&Tempo::new(480, v))]).collect();
    for v in [1u16, 2, 120, 121, 256, 257, 999] {
        tempos.extend(ticks.iter().map(|x| Tempo::new(*x, v)));
    }
    pairs(ctx, 2, "tempos", &tempos, tempo_of);
    let mut ctrls: Vec<CtrlChg> = vec![];
    for v in 0..128u8 {
        for ch in 0..16u8 {
            ctrls.push(CtrlChg::new(480, Velocity::new(v), Channel::new(ch)));
            if v % 32 == 1 || ch == 0 {
                ctrls.extend(ticks.iter().map(|x| json(&CtrlChg::new(*x, Velocity::new(v), Channel::new(ch)))));
            }
        }
    }
    pairs(ctx, 3, "pedal events", &ctrls, ctrl_of);

    // notes that differ in one or two attributes, from every combination of few values of each
    combined(ctx);

    // attribute values
    let all: Vec<Pitch> = all_pitches().into_iter().flat_map(|p| [p, bin(&p)]).collect();
    pairs(ctx, 10, "pitches", &all, |p| pitch_of(*p));
    let mut durs: Vec<Duration> = vec![];
    for num in 0..8u8 {
        for dots in 0..8u8 {
            for den in 2..=255u8 {
                if !ctx.quick() || den < 34 || den > 250 || den % 16 == 0 {
                    durs.push(dur(num, den, dots));
                }
            }
        }
    }
    pairs(ctx, 11, "durations", &durs, |d| (num_ix(d.numerator), d.denominator.value(), d.dots.value()));
    let tv: [i16; 9] = [i16::MIN, -129, -10, -1, 0, 1, 10, 128, i16::MAX];
    let four: Vec<[usize; 4]> = (0..9usize.pow(4)).map(|u| [u % 9, u / 9 % 9, u / 81 % 9, u / 729]).collect();
    let trs: Vec<Trimmer> = four.iter().map(|ix| Trimmer::from_array(ix.map(|i| tv[i]))).collect();
    pairs(ctx, 12, "trims", &trs, |x| [0, 1, 2, 3].map(|i| x.value(i)));
    let pv: [u16; 9] = [0, 1, 500, 707, 1000, 1414, 1500, 1999, 2000];
    let rates: Vec<RateTrimmer> = four.iter().map(|ix| RateTrimmer::from_array(ix.map(|i| PercentU16::from_value(pv[i])))).collect();
    pairs(ctx, 13, "length trims", &rates, |x| [0, 1, 2, 3].map(|i| pct(x.value(i))));
    let pcts: Vec<PercentU16> = (0..=2000).map(PercentU16::from_value).collect();
    pairs(ctx, 14, "percentages", &pcts, |x| pct(*x));
    let mut rhythms: Vec<Rhythm> = vec![];
    for n in 1..=99u8 {
        rhythms.extend([2u8, 4, 8, 16, 32, 64].map(|d| Rhythm::new(n, d)));
    }
    pairs(ctx, 15, "rhythms", &rhythms, |r| rhythm_of(*r));
    pairs(ctx, 16, "keys", &Key::ALL, |k| k.offset());
    let vels: Vec<Velocity> = (0..=127).map(Velocity::new).collect();
    pairs(ctx, 17, "velocities", &vels, |v| v.as_u8());
    let chs: Vec<Channel> = (0..16).map(Channel::new).collect();
    pairs(ctx, 18, "channels", &chs, |v| v.as_u8());
    pairs(ctx, 19, "octaves", &OCTAVES, |v| oct_val(*v));
    pairs(ctx, 20, "note names", &SOLFAS, |v| solfa_ix(*v));
    pairs(ctx, 21, "accidentals", &SHARP_FLATS, |v| sf_ix(*v));
    let vars: Vec<VarIndex> = (1..=4).filter_map(|v| VarIndex::from_value(v).ok()).collect();
    pairs(ctx, 22, "variation numbers", &vars, |v| v.value());
    let grids: Vec<Grid> = (1..=1500u32).chain([65535, 65536, 65537, 1 << 31, u32::MAX]).filter_map(|g| Grid::from_u32(g).ok()).collect();
    pairs(ctx, 23, "grids", &grids, |g| g.as_u32());
    let nums = [0usize, 1, 2, 9, 10, 255, 256, 65536, 1 << 32, usize::MAX - 1, usize::MAX];
    let locs: Vec<Location> = (0..nums.len() * nums.len()).map(|u| Location::new(nums[u / nums.len()], nums[u % nums.len()])).collect();
    pairs(ctx, 24, "locations", &locs, |l| (l.bar_no(), l.offset()));
    // mark sets: every legal set, its marks added in two orders
    let mut sets: Vec<(RepeatSet, u16)> = vec![];
    for m in 0..1u16 << REPEATS.len() {
        let marks: Vec<_> = (0..REPEATS.len()).filter(|i| m >> i & 1 == 1).collect();
        let up = marks.iter().try_fold(RepeatSet::EMPTY, |s, i| s.try_add(REPEATS[*i]).ok());
        let down = marks.iter().rev().try_fold(RepeatSet::EMPTY, |s, i| s.try_add(REPEATS[*i]).ok());
        sets.extend(up.into_iter().chain(down).map(|s| (s, m)));
    }
    pairs(ctx, 25, "mark sets", &sets.iter().map(|s| s.0).collect::<Vec<_>>(), |s| REPEATS.map(|r| s.contains(r)));
    let metas: Vec<ModelChangeMetadata> = METAS.iter().flat_map(|m| [m.real(), bin(&m.real())]).collect();
    pairs(ctx, 26, "edit intents", &metas, |m| (m.need_select, m.dragged));

    // selections and edit records: all lists of up to 2 (3) of a few items, in one order per kind
    let items = [
        It(Kind::Note, 480, 20), It(Kind::Note, 480, 21), It(Kind::Note, 481, 20), It(Kind::Bar, 480, 20), It(Kind::Bar, 480, 21), It(Kind::Tempo, 480, 20), It(Kind::Tempo, 480, 21),
        It(Kind::Dumper, 480, 20), It(Kind::Dumper, 480, 21), It(Kind::Soft, 480, 20), It(Kind::Soft, 480, 21),
    ];
    let n = items.len();
    let mut lists: Vec<Vec<It>> = vec![vec![]];
    for i in 0..n {
        lists.push(vec![items[i]]);
        for j in i..n {
            lists.push(vec![items[i], items[j]]);
            if !ctx.quick() {
                for k in j..n {
                    lists.push(vec![items[i], items[j], items[k]]);
                }
            }
        }
    }
    let sel: Vec<Models> = lists.iter().map(|l| models(l)).collect();
    pairs(ctx, 27, "selections", &sel, |m| models_of(m).sorted());
    let mut cmds: Vec<(ProjectCmd, String)> = vec![];
    for (i, a) in lists.iter().enumerate() {
        for b in [&lists[0], &lists[(i + 1) % lists.len()]] {
            for m in &METAS[..if i < 8 { METAS.len() } else { 1 }] {
                cmds.push((
                    ProjectCmd::ModelChanged { added: models(a), removed: models(b), metadata: m.real() },
                    format!("{a:?} {b:?} {m:?}"),
                ));
            }
        }
    }
    for a in &rhythms[..12] {
        for b in &rhythms[..12] {
            cmds.push((ProjectCmd::SetRhythm(*a, *b), format!("rhythm {:?} {:?}", rhythm_of(*a), rhythm_of(*b))));
        }
    }
    for a in Key::ALL {
        for b in Key::ALL {
            cmds.push((ProjectCmd::SetKey(a, b), format!("key {} {}", a.offset(), b.offset())));
        }
    }
    for a in &grids[..12] {
        for b in &grids[..12] {
            cmds.push((ProjectCmd::SetGrid(*a, *b), format!("grid {} {}", a.as_u32(), b.as_u32())));
        }
    }
    cmds.extend((0..cmds.len()).step_by(3).map(|i| (bin(&cmds[i].0), cmds[i].1.clone())).collect::<Vec<_>>());
    let names: Vec<&String> = cmds.iter().map(|c| &c.1).collect();
    let recs: Vec<&ProjectCmd> = cmds.iter().map(|c| &c.0).collect();
    let ix: Vec<usize> = (0..cmds.len()).collect();
    struct ByIx<'a>(usize, &'a ProjectCmd);
    impl PartialEq for ByIx<'_> {
        fn eq(&self, o: &Self) -> bool {
            self.1 == o.1
        }
        #[allow(clippy::partialeq_ne_impl)]
        fn ne(&self, o: &Self) -> bool {
            self.1 != o.1
        }
    }
    impl Debug for ByIx<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            self.1.fmt(f)
        }
    }
    let by: Vec<ByIx> = ix.iter().map(|i| ByIx(*i, recs[*i])).collect();
    pairs(ctx, 28, "edit records", &by, |b| names[b.0].clone());

    // equal values hash alike, however they were made
    let mut t = ctx.tally();
    for (p, q) in all_pitches().into_iter().zip(all_pitches()) {
        same_hash(ctx, &mut t, "pitch", &[p, q, bin(&p), json(&p)]);
        if let Ok(u) = p.up() {
            if let Ok(d) = u.down() {
                if pitch_of(d) == pitch_of(p) {
                    same_hash(ctx, &mut t, "pitch", &[p, d]);
                }
            }
        }
    }
    for d in &durs {
        let e = dur(num_ix(d.numerator), d.denominator.value(), d.dots.value());
        same_hash(ctx, &mut t, "duration", &[*d, e, dur(0, 2, 0).with_numerator(d.numerator).with_denominator(d.denominator).with_dots(d.dots)]);
        same_hash(ctx, &mut t, "dots", &[d.dots, e.dots, bin(&d.dots)]);
        same_hash(ctx, &mut t, "tuplet", &[d.denominator, e.denominator, bin(&d.denominator)]);
        same_hash(ctx, &mut t, "note value", &[d.numerator, e.numerator, bin(&d.numerator)]);
    }
    for (ix, tr) in four.iter().zip(&trs) {
        let a = ix.map(|i| tv[i]);
        let up = Trimmer::ZERO.updated(|v| *v = a);
        same_hash(ctx, &mut t, "trim", &[*tr, Trimmer::new(a[0], a[1], a[2], a[3]), Trimmer::from_vec(&a.to_vec()), up, up.added(0), bin(tr), json(tr)]);
    }
    for (ix, r) in four.iter().zip(&rates) {
        let a = ix.map(|i| PercentU16::from_value(pv[i]));
        let ways = [*r, RateTrimmer::from_vec(&a.to_vec()), RateTrimmer::from_array(a), bin(r), json(r)];
        t.transitions += ways.len() as u64;
        if ways.iter().any(|w| w != r) {
            ctx.violation("equal", format!("length trims made in two ways differ: {ways:?}"), "RateTrimmer");
        }
    }
    for v in 0..=127u8 {
        same_hash(ctx, &mut t, "velocity", &[Velocity::new(v), Velocity::new(v), bin(&Velocity::new(v))]);
    }
    for k in Key::ALL {
        same_hash(ctx, &mut t, "key", &[k, json(&k), bin(&k), key_by_ix(k.offset())]);
    }
    for c in &chs {
        same_hash(ctx, &mut t, "channel", &[*c, Channel::new(c.as_u8()), bin(c)]);
    }
    // tempo values are ordered by their number
    for a in 1..=999u16 {
        for b in 1..=999u16 {
            t.transitions += 1;
            let (x, y) = (TempoValue::new(a), TempoValue::new(b));
            if x.cmp(&y) != a.cmp(&b) || x.partial_cmp(&y) != a.partial_cmp(&b) || (x < y) != (a < b) || x.max(y).as_u16() != a.max(b) {
                ctx.violation("order", format!("tempos {a} and {b} compare as {:?}", x.cmp(&y)), "TempoValue");
            }
        }
    }
    // shared values: every sequence of requests
    let pool = [make_note(0, 20).pitch, make_note(0, 22).pitch, make_note(0, 21).pitch, bin(&make_note(0, 20).pitch), bin(&make_note(0, 21).pitch), make_note(0, 20).pitch];
    let len = ctx.pick(6u32, ctx.deepen(8, 9));
    for u in 0..(pool.len() as u64).pow(len) {
        t.traces += 1;
        let seq: Vec<usize> = (0..len).map(|i| (u / (pool.len() as u64).pow(i)) as usize % pool.len()).collect();
        let mut f = FlyWeight::new();
        for (k, s) in seq.iter().enumerate() {
            t.transitions += 1;
            let first = seq[..=k].iter().find(|x| pitch_of(pool[**x]) == pitch_of(pool[*s])).expect("itself");
            if !std::ptr::eq(f.intern(&pool[*s]), &pool[*first]) {
                ctx.violation("shared", format!("request {k} of {seq:?} does not give the first equal value"), "FlyWeight::intern");
            }
        }
    }
    // long runs of different values, each asked for again after every distance
    let copies = trs.clone();
    for gap in [1usize, 2, 15, 16, 17, 31, 64, 100, 127, 128, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 6561] {
        t.traces += 1;
        let mut f = FlyWeight::new();
        for (i, x) in trs.iter().enumerate() {
            t.transitions += 2;
            let first = f.intern(x);
            let back = (i + 1).saturating_sub(gap);
            if !std::ptr::eq(first, x) || !std::ptr::eq(f.intern(&copies[back]), &trs[back]) {
                ctx.violation("shared", format!("after {} values, value {back} is not the one first put in", i + 1), "FlyWeight::intern");
                break;
            }
        }
    }
    drop(t);
    ctx.bound("requests for shared values", format!("all sequences of {len} from 6 values, some of them equal"));
    ctx.assume("selections are compared with the items of each kind listed in one order");
    ctx.sample(|| "note with start trim (10,-10,0,0) / (-10,10,0,0): different, though they start at the same time".to_string());
}

/// Every combination of a few values of every attribute, against the ones that differ in one or two.
fn combined(ctx: &Ctx) {
    const N: usize = 11;
    let build = |d: &[usize; N]| Note::new([480, 490, 0][d[0]], [make_note(0, 20).pitch, make_note(0, 24).pitch, make_note(0, 23).pitch][d[1]], [dur(2, 2, 0), dur(2, 4, 0), dur(3, 2, 0)][d[2]], d[3] > 0, d[4] > 0, Velocity::new([64, 65, 0][d[5]]), [Trimmer::ZERO, Trimmer::new(10, -10, 0, 0), Trimmer::new(-10, 0, 0, 0)][d[6]], [RateTrimmer::ONE, RateTrimmer::new(0.5, 2.0, 1.0, 1.0), RateTrimmer::new(2.0, 1.0, 1.0, 1.0)][d[7]], [Trimmer::ZERO, Trimmer::new(0, 1, 0, -1), Trimmer::new(0, 1, 0, 0)][d[8]], Channel::new([0, 1, 15][d[9]]));
    let radix = |i: usize| match i {
        3 | 4 => 2,
        10 => 1,
        _ => ctx.pick(2, 3),
    };
    let total: usize = (0..N).map(radix).product();
    ctx.bound("notes that differ in one or two attributes", format!("{total} combinations of attribute values, all their neighbours"));
    ctx.par(total, |u, t| {
        at(&[5, u as u64]);
        t.states += 1;
        let mut d = [0; N];
        let mut r = u;
        for i in 0..N {
            d[i] = r % radix(i);
            r /= radix(i);
        }
        let a = build(&d);
        t.transitions += 1;
        if a != build(&d) || a != a.clone() {
            ctx.violation("equal", format!("{a:?} differs from itself"), "Note");
        }
        for i in 0..N {
            for j in i..N {
                for x in 0..radix(i) {
                    for y in 0..radix(j) {
                        if x == d[i] || (i != j && y == d[j]) || (i == j && x != y) {
                            continue;
                        }
                        let mut e = d;
                        e[i] = x;
                        e[j] = y;
                        t.transitions += 1;
                        t.traces += 1;
                        let b = build(&e);
                        if a == b {
                            ctx.violation("different", format!("{a:?} equals {b:?}"), "Note");
                        }
                    }
                }
            }
        }
    });
}
