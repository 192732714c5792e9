HEAD = r'''
use klavier_core::{bar::*, channel::*, ctrl_chg::*, duration::*, grid::*, key::*, location::*, models::*, note::*, octave::*, percent::*, pitch::*, play_iter::*, play_start_tick::*, project::*, repeat::*, rhythm::*, sharp_flat::*, solfa::*, tempo::*, text_input::*, trimmer::*, tuple::*, undo, velocity::*, key, rhythm, duration, velocity, can_apply::CanApply};
use serdo::{cmd::Cmd, undo_store::{Options, SqliteUndoStore, UndoStore}};
use std::rc::Rc;
type Proj = SqliteUndoStore<ProjectCmd, ProjectImpl, ProjectCmdErr>;
fn meta() -> ModelChangeMetadata { ModelChangeMetadata::new() }
fn dir() -> std::path::PathBuf { std::env::temp_dir().join("project") }
fn open() -> Proj { Proj::open(dir(), Options::new()).unwrap() }
fn cc(t: u32, v: u8) -> CtrlChg { CtrlChg::new(t, Velocity::new(v), Channel::new(0)) }
fn dur(n: duration::Numerator, dots: u8) -> Duration { Duration::new(n, duration::Denominator::from_value(2).unwrap(), Dots::from_value(dots).unwrap()) }
fn note(t: u32) -> Note { let mut n = Note::default(); n.base_start_tick = t; n }
fn settle(p: &mut Proj) { for _ in 0..10000 { if p.saved().unwrap_or(false) { return } std::thread::sleep(std::time::Duration::from_millis(1)); } }
'''
P = {}
def plant(pid, prop, needs, breaks, edits, body):
    P[pid] = dict(property=prop, needs=needs, breaks=breaks, edits=edits, demo=HEAD + body)

