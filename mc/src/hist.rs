//! Histories explored on the real on-disk store (C03), and the form in which the in-memory
//! explorer and the on-disk explorer compare the traces they have in common.
use crate::content::*;
use crate::ops::*;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Act {
    Do(Op),
    Reopen,
}

pub struct DiskScenario {
    pub name: String,
    pub setup: Vec<Op>,
    pub acts: Vec<Act>,
    pub depth: usize,
    pub limits: Vec<usize>,
}

pub fn scenarios(quick: bool) -> Vec<DiskScenario> {
    use Kind::*;
    let m = |i: usize| METAS[i];
    let with = |edits: Vec<Op>| {
        let mut v: Vec<Act> = edits.into_iter().map(Act::Do).collect();
        v.extend([Act::Do(Op::Undo), Act::Do(Op::Redo), Act::Reopen]);
        v
    };
    fn pick<T>(quick: bool, q: T, t: T) -> T {
        if quick { q } else { t }
    }
    macro_rules! d {
        ($q:expr, $t:expr) => {
            pick(quick, $q, $t)
        };
    }
    let mut v = vec![
        DiskScenario {
            name: "bulk edits of every kind of item".into(),
            setup: vec![],
            acts: with(vec![
                Op::BulkAdd(
                    vec![It(Note, 0, 0), It(Note, 0, 0), It(Note, 240, 3), It(Bar, 960, 2), It(Tempo, 0, 1), It(Dumper, 960, 0), It(Soft, 1920, 2)],
                    m(0),
                ),
                Op::BulkRemove(vec![It(Note, 0, 0), It(Bar, 960, 0), It(Tempo, 0, 1), It(Soft, 1920, 2)], m(1)),
                Op::Change(
                    vec![
                        (It(Note, 0, 0), It(Note, 960, 2)),
                        (It(Bar, 960, 0), It(Bar, 480, 3)),
                        (It(Tempo, 0, 1), It(Tempo, 1000, 2)),
                        (It(Dumper, 960, 0), It(Dumper, 2000, 1)),
                        (It(Soft, 1920, 2), It(Soft, 1200, 0)),
                    ],
                    m(3),
                ),
                Op::Add(It(Note, 3000, 4), true),
                Op::SetRhythm(3, 4),
                Op::Tuplize(vec![It(Note, 0, 0), It(Note, 240, 3)]),
            ]),
            depth: d!(4, 5),
            limits: vec![1, 2, 100],
        },
        DiskScenario {
            name: "single edits that replace items and add bars".into(),
            setup: vec![Op::Add(It(Tempo, 1000, 0), false)],
            acts: with(vec![
                Op::Add(It(Bar, 960, 3), false),
                Op::Add(It(Tempo, 1000, 1), true),
                Op::Add(It(Dumper, 2000, 0), true),
                Op::Add(It(Soft, 2500, 3), false),
                Op::SetKey(-7),
                Op::SetGrid(30),
                Op::Change(vec![(It(Bar, 960, 0), It(Bar, 1920, 1)), (It(Bar, 1920, 0), It(Bar, 960, 5))], m(4)),
            ]),
            depth: d!(4, 5),
            limits: vec![1, 3],
        },
        DiskScenario {
            name: "note edits".into(),
            setup: vec![Op::BulkAdd(vec![It(Note, 0, 0), It(Note, 0, 1), It(Note, 240, 0)], m(2))],
            acts: with(vec![
                Op::Add(It(Note, 0, 2), true),
                Op::Add(It(Note, 100, 5), false),
                Op::Change(vec![(It(Note, 0, 0), It(Note, 0, 1)), (It(Note, 0, 1), It(Note, 0, 0)), (It(Note, 240, 0), It(Note, 0, 0))], m(1)),
                Op::BulkRemove(vec![It(Note, 0, 1), It(Note, 0, 1)], m(0)),
                Op::Tuplize(vec![It(Note, 0, 0), It(Note, 0, 1), It(Note, 240, 0)]),
            ]),
            depth: d!(4, 5),
            limits: vec![2, 5],
        },
    ];
    // edits of many items at once
    let no_undo = |v: Vec<Op>| v.into_iter().filter(|o| !matches!(o, Op::Undo | Op::Redo)).collect::<Vec<_>>();
    let sizes: &[u32] = if quick { &[40] } else { &[40, 130] };
    for n in sizes {
        v.push(DiskScenario { name: format!("edits of {n} items of every kind"), setup: vec![], acts: with(no_undo(sized_alphabet(*n))), depth: d!(2, 3), limits: d!(vec![100], vec![2, 100]) });
    }
    let n = if quick { 300 } else { 1100 };
    v.push(DiskScenario {
        name: format!("{n} notes at one position and in one edit"),
        setup: vec![],
        acts: with(vec![
            Op::BulkAdd((0..n).map(|i| It(Note, 480, [0, 1, 8][i as usize % 3])).collect(), m(0)),
            Op::BulkAdd((0..n).flat_map(|i| [It(Note, 7 * i, 0), It(Dumper, 3 * i, 1), It(Soft, 5 * i, 2), It(Tempo, 2 * i, 0)]).collect(), m(1)),
            Op::BulkRemove((0..n / 2).map(|i| It(Note, 480, [1, 0][i as usize % 2])).collect(), m(2)),
            Op::Change((0..n).map(|i| (It(Dumper, 3 * i, 1), It(Dumper, 3 * i + 1, 0))).collect(), m(3)),
        ]),
        depth: d!(2, 3),
        limits: vec![100],
    });
    // thousands of items of one kind
    let n: u32 = if quick { 5000 } else { 70000 };
    for k in [Note, Bar, Tempo, Dumper, Soft] {
        v.push(DiskScenario {
            name: format!("{n} items of kind {k:?}"),
            setup: vec![Op::BulkAdd((0..n).map(|i| It(k, 480 * i, (i % 3) as u16)).collect(), m(0))],
            acts: vec![Act::Do(Op::Undo), Act::Do(Op::Add(It(k, 240, 1), false)), Act::Reopen],
            depth: d!(2, 2),
            limits: vec![1],
        });
    }
    // every version of every kind
    for k in [Note, Bar, Tempo, Dumper, Soft] {
        let vs: Vec<u16> = (20..20 + matrix_size(k)).collect();
        let at = |i: usize| 480 * (i as u32 + 1);
        let next = |i: usize, by: usize| vs[(i + by) % vs.len()];
        v.push(DiskScenario {
            name: format!("every version of a {k:?}"),
            setup: vec![],
            acts: with(vec![
                Op::BulkAdd(vs.iter().enumerate().map(|(i, w)| It(k, at(i), *w)).collect(), m(0)),
                Op::Change(vs.iter().enumerate().map(|(i, w)| (It(k, at(i), *w), It(k, at(i), next(i, 1)))).collect(), m(3)),
                Op::BulkAdd(vs.iter().enumerate().map(|(i, _)| It(k, at(i), next(i, 7))).collect(), m(1)),
                Op::BulkRemove(vs.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(i, w)| It(k, at(i), *w)).collect(), m(4)),
            ]),
            depth: d!(3, 4),
            limits: d!(vec![2], vec![1, 2, 100]),
        });
    }
    // every value of every attribute, every setting
    for k in [Note, Bar, Tempo, Dumper, Soft] {
        let n = value_count(k) as u32;
        let at = |i: u32| 480 * (i + 1);
        v.push(DiskScenario {
            name: format!("every value of a {k:?}"),
            setup: vec![],
            acts: with(vec![
                Op::BulkAdd((0..n).map(|i| It(k, at(i), VALUES + i as u16)).collect(), m(0)),
                Op::Change((0..n).map(|i| (It(k, at(i), VALUES + i as u16), It(k, at(i), VALUES + ((i + 1) % n) as u16))).collect(), m(2)),
                Op::BulkRemove((0..n).filter(|i| i % 3 > 0).map(|i| It(k, at(i), VALUES + i as u16)).collect(), m(4)),
            ]),
            depth: d!(2, 3),
            limits: d!(vec![100], vec![1, 100]),
        });
    }
    let settings = every_setting();
    for (i, part) in settings.chunks(200).enumerate() {
        v.push(DiskScenario {
            name: format!("every setting, part {}", i + 1),
            setup: part.to_vec(),
            acts: vec![Act::Do(Op::Undo), Act::Reopen],
            depth: d!(1, 2),
            limits: d!(vec![1000], vec![3, 1000]),
        });
    }
    // long histories
    let steps = if quick { 60 } else { 140 };
    for p in [[1usize, 3], [4, 5], [7, 0], [2, 1], [6, 3]].iter().take(if quick { 2 } else { 5 }) {
        v.push(DiskScenario {
            name: format!("{steps} edits of pattern {p:?}"),
            setup: (0..steps).map(|i| long_edit(p[i % 2], i)).collect(),
            acts: vec![Act::Do(Op::Undo), Act::Reopen, Act::Do(Op::Add(It(Note, 480, 1), true))],
            depth: d!(1, 2),
            limits: d!(vec![20], vec![3, 50, 1000]),
        });
    }
    v.push(DiskScenario {
        name: "far from the top of the tune".into(),
        // the settings come last: the far bar line is never taken back within the depth explored
        setup: vec![Op::Add(It(Bar, u32::MAX, 0), false), Op::Add(It(Bar, 0, 0), true), Op::SetKey(1), Op::SetKey(2), Op::SetKey(3)],
        acts: with(no_undo(far_alphabet())),
        depth: d!(2, 3),
        limits: vec![100],
    });
    v
}

pub fn paths(n: usize, depth: usize) -> usize {
    n.pow(depth as u32)
}
pub fn path(mut i: usize, n: usize, depth: usize) -> Vec<usize> {
    let mut v = vec![0; depth];
    for k in (0..depth).rev() {
        v[k] = i % n;
        i /= n;
    }
    v
}

/// Fold one step into a trace digest.
pub fn digest(h: u64, c: &Content) -> u64 {
    let mut h = h;
    for b in format!("{c:?}").bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
