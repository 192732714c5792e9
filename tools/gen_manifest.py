#!/usr/bin/env python3
"""Writes MANIFEST.json. Edit here, run, commit both."""
import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRECT="runs the real code (no model of it) on every case of the stated finite space"
C={
"C01":("exhaustive enumeration of edit/undo/redo histories on the real project","All histories of the listed scenarios up to the stated depth, with a full undo/redo sweep at each leaf, on the real project over an in-memory stand-in for the serdo store that keeps its undo semantics. Trusts the stand-in (its log and position semantics are those of serdo; C03 exercises the real store)."),
"C02":("exhaustive enumeration of histories x snapshot points x crash cuts, recorded edits replayed after (de)serialization","Every history up to the depth, every snapshot position, every cut of the record; commands and snapshots go through real bincode/serde as the store does."),
"C03":("exhaustive enumeration of histories with close/reopen and crash images at every point on the real SQLite-backed store","Every history up to the stated (small) depth for each undo limit, on the real serdo store in scratch directories. Crash images are copies of the database file taken when the store reports everything saved; torn database pages are SQLite's business and not explored."),
"C04":("explicit-state exploration of edit histories against a map/multiset reference model, step by step","Every step of every history up to the depth is compared with an independent reference model; bars added automatically are judged by C05."),
"C05":("explicit-state exploration of edit histories, coverage by bars judged in every state","Every state reached by the enumerated histories, including irregular bars, trimmed and very long notes."),
"C06":("explicit-state exploration of edit histories with an observer model that applies the notifications","Every history up to the depth, observer compared with the project after every step. One open known finding (selection of automatic bars when an edit is redone)."),
"C07":("exhaustive enumeration of event arrangements x query positions","All arrangements over a small position alphabet incl. extremes, each queried at all positions around them, against a linear scan."),
"C08":("exhaustive enumeration of bar arrangements x locations","All bar arrangements over small position sets; all positions and locations around them plus numeric extremes, against a direct definition."),
"C09":("exhaustive enumeration of repeat-mark layouts against a step-by-step performer model","All layouts of repeat starts/ends/variations up to a number of bars; the order of played sections compared with an independent performer automaton."),
"C10":("exhaustive enumeration of D.C./D.S./Fine/Coda/pickup layouts against a performer model","All layouts up to a number of bars, compared with the independent performer automaton."),
"C11":("exhaustive enumeration of all mark layouts incl. malformed ones, totality and rejection judged","Every assignment of mark sets to a few bars, incl. malformed; never crashes or hangs, malformed ones of the listed kinds are reported."),
"C12":("exhaustive enumeration of played section lists x positions","Every cycle, tick of playback structures built from the enumerated layouts; total length and inverse mapping checked at every tick."),
"C13":("explicit-state exploration of the graph of all repeat-mark sets","All 2^11 subsets reachable, all additions and removals from each, all add orders up to the stated length."),
"C14":("exhaustive enumeration of small projects and selections through real encode/decode","All single items over full attribute tables and all small combinations, through clipboard JSON, snapshot and record forms."),
"C15":("exhaustive single- and multi-fault enumeration over encoded texts","Every field replaced by every hostile value, every truncation and every byte fault of the seed texts; a value accepted must be a legal one."),
"C16":("exhaustive enumeration of input strings up to a length over an alphabet, plus numeric ranges","All strings up to the length over each field's alphabet and all listed extreme numbers, against an independent parser; malformed syntax with several readings may be accepted or refused but must keep the value."),
"C17":("explicit-state exploration of the graph of all pitches under all pitch operations","All pitches reachable from all names, all operations and parameters from each, against an independent arithmetic definition."),
"C18":("exhaustive enumeration of notes x edit operations","All notes over boundary attribute tables, every edit and parameter; all fields other than the intended one compared."),
"C19":("exhaustive enumeration of note selections in every input order against a proportional-placement oracle","All selections up to the size bound; rounding tolerance stated in DESIGN.md."),
"C20":("exhaustive enumeration of all durations and all rhythms","The whole space of values (8 x 254 x 8 durations, 99 x 6 rhythms) against exact rational arithmetic."),
"C21":("exhaustive enumeration of grids x positions","All selectable grids and boundary sizes x positions around grid lines and the numeric extremes, against the definition of nearest."),
"C22":("exhaustive enumeration of trimmer edit sequences against exact arithmetic","All combinations of boundary values in all four slots through every way of building them."),
"C23":("explicit-state exploration of the bounded edit history against a list model","All operation sequences up to the depth for capacities 0 to 5 and larger."),
"C24":("exhaustive enumeration of positions x moves over all movable kinds","All boundary positions x boundary deltas, each kind, plus bulk drags."),
"C25":("explicit-state exploration of the graphs of all bounded values under all operations","All values of each type, all operations and operands incl. numeric extremes."),
"C26":("exhaustive enumeration of all pairs of values, and of all sequences of requests for shared values","All ordered pairs from the full (or boundary) tables of every type, all notes differing in one or two attributes, every way of making the same value; compared with the attributes read through the public fields and accessors."),
"C27":("explicit-state exploration of all interleavings of the edits of two and three open projects","All interleavings of 13 edits per project (same positions and numbers of items, other values) plus closing and reopening; after every step every project is asked everything in turn and judged as if it were alone."),
}
NA={}
import sys
for a in sys.argv[1:]:
    k,r=a.split("=",1); NA[k]=r
m=dict(version=1,setup_cmd="./build.sh" if "C03" not in NA else "./build.sh mc",checks=[],not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
  notes="No hooks: every check uses only the crate's public interface. See DESIGN.md.")
for k,(t,n) in C.items():
    if k in NA: continue
    m["checks"].append(dict(property=k,quick_cmd=f"./run.sh {k} quick",thorough_cmd=f"./run.sh {k} thorough",technique="model checking: "+t,level="model_checking",level_note=n+" In short: "+DIRECT+"." if False else n))
json.dump(m,open(ROOT+"/MANIFEST.json","w"),indent=1)
open(ROOT+"/MANIFEST.json","a").write("\n")
