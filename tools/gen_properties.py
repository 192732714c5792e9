#!/usr/bin/env python3
"""Writes properties.jsonl. Edit here, run, commit both."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],
        observe_at=observe,hook_needed=None)))

PJ="src/project.rs"
p("C01","Undo and redo restore the project content exactly",
 "After any history of edits, undoing k steps leaves the project with exactly the content it had before those k edits (tune rhythm, key, grid, notes with multiplicity, bars, tempos, damper and soft pedal events), and redoing them brings back exactly the content after them. This holds when one edit touches several items, replaces existing items, makes several items land on the same position, names items that are not in the project, or adds bars automatically.",
 ["histories","inputs"],"every interleaving of edits, undos and redos up to a depth, over every kind of edit and every kind of item, including bulk edits whose items collide with each other, with existing items, or name absent items",
 "The tests undo a handful of single edits; inverses go wrong only for particular combinations (collisions within one edit, absent items, edits on top of automatically added bars) and for one item kind out of five.",
 [PJ,"src/models.rs"],[("inverse of a recorded command","ProjectCmd::undo"),("forward application","ProjectCmd::redo"),("what each edit records as added and removed","impl Project for SqliteUndoStore: bulk_add, change, tuplize, add_*")],
 ["project content seen through the repositories after each edit, undo and redo"],
 [("added/removed lists","what an edit claims to have added and removed","ProjectCmd::ModelChanged")])
p("C02","Replaying the recorded edits rebuilds the live project from any point",
 "The sequence of recorded edits, each written out and read back, applied to the project as it was at any earlier point of the history (the empty project or a saved snapshot of any intermediate state) yields exactly the live project. It therefore does not matter where a crash cuts the record or where the last snapshot was taken: what is restored is the project as it was after the last recorded edit, and undoing further after the restore works as it would have on the live project.",
 ["histories","crash_points"],"every history up to a depth x every snapshot position x every cut of the record, for every kind of edit",
 "Tests reopen a store after one or two edits with the default undo limit; the equality between live mutation and replayed command has to hold for every edit on every state and from every snapshot point.",
 [PJ],[("live mutation must equal redo of the recorded command","impl Project for SqliteUndoStore + ProjectCmd::redo"),("snapshot form","impl From<ExportedProject> for ProjectImpl, Into<ExportedProject>"),("command form","ProjectCmd serde")],
 ["project content of a replica that applied only deserialized commands"],)
p("C03","Closing and reopening the saved project loses nothing",
 "A project that is edited, undone and redone in any order and then closed shows exactly the same content when it is reopened from disk, whatever the undo limit, and undo and redo after reopening keep moving through the same states as before closing, as far as the undo limit retains them. The same holds when it is opened from a copy of its files taken after an edit has been saved, without ever being closed.",
 ["histories","crash_points","configurations"],"every history up to a depth with a close/reopen, or a crash image, after every step, for undo limits from 1 up",
 "The existing tests persist single edits with the default limit, so snapshots, trimming and the undo position across a reopen are almost never exercised.",
 [PJ],[("persisted commands","impl SerializableCmd for ProjectCmd"),("persisted snapshot","ProjectImpl serde via ExportedProject")],
 ["project content after reopening the directory"],)
p("C04","An edit changes exactly what it names and nothing else",
 "Every edit operation has the documented effect: adding keeps all notes and replaces only the bar, tempo or pedal event at the same position; removing takes away one occurrence of each named item; changing replaces each named existing item by its new version; setting rhythm, key or grid changes only that. Items that an edit does not name, other than replaced items at the same position and automatically added trailing bars, stay as they were.",
 ["histories","inputs"],"every sequence of edits up to a depth compared step by step with a plain map-and-multiset model, over all item kinds",
 "Unit tests check one edit on a near-empty project; wrong keys, wrong repository or lost neighbours show only with several items present.",
 [PJ,"src/models.rs"],[("edit operations","trait Project and its implementation")],
 ["repository content after each edit"],)
p("C05","Bars always extend past all the music",
 "After any edit that adds or changes notes, tempos or pedal events, either the last bar line lies at or after the end of every note and the position of every tempo and pedal event, or no further bar line fits, or there is nothing after the start of the tune. Bars added automatically follow the previous last bar (or the top of the tune) at distances of exactly one bar length of the rhythm in force there, carry no marks, stop at the first bar line that covers everything (or where the next one would lie past the last position there is), and existing bars are never touched.",
 ["histories","inputs"],"every sequence of edits up to a depth, including trimmed and very long notes, rhythm changes and earlier bars at irregular positions",
 "Tests cover a few single additions; the longest-note window, trimmed starts, and rhythm in force at the last bar only matter in combinations.",
 [PJ,"src/note.rs"],[("automatic bars","ProjectImpl::replenish_bars"),("end of the music","ProjectImpl::note_max_end_tick"),("longest possible note","Note::LONGEST_TICK_LEN")],
 ["bar repository after each edit"],)
p("C06","Change notifications are complete and carry the caller's intent",
 "An observer that starts from any known project content and applies the published change notifications in order always ends with exactly the current notes, bars, tempos and pedal events, through edits, undos and redos. Notifications for added or changed items carry the selection and drag intent that the edit was made with, automatically added bars never ask to be selected, and acknowledging the notifications empties them without altering content.",
 ["histories"],"every history of edits, undos, redos and acknowledgements up to a depth",
 "The tests look at the notifications of a few single additions only.",
 [PJ],[("change events of each repository","ProjectImpl repositories, created with events held"),("selection intent","ModelChangeMetadata"),("acknowledge","Project::clear_model_events")],
 ["*_events() after each operation"],)
p("C07","Rhythm, key, tempo and pedal in force at any position are the right ones",
 "At every position of the tune the tempo, damper and soft pedal values are those of the last event at or before that position, and the rhythm and key are those set by the last bar at or before it that sets one. Where there is none, tempo is 120, pedals are 0, and rhythm and key are those of the tune; the number of a bar is its rank among the bars.",
 ["configurations","inputs"],"every arrangement of up to a handful of events over small and extreme positions, each queried at every position around them",
 "Tests query a few positions of one or two hand-made arrangements.",
 [PJ],[("lookups","tempo_at, ctrl_chg_at, rhythm_at, key_at, bar_no")],
 ["the lookup functions of the project"],)
p("C08","Bar:offset locations and positions convert consistently",
 "Converting any position to its bar number and offset and back gives the same position, and the conversion names the last bar line at or before it. Converting any bar number and offset to a position gives that bar's start plus the offset, where bar numbers past the last bar continue with the rhythm in force there; if the result does not fit, an overflow is reported, never a wrong position or a crash.",
 ["configurations","inputs"],"every arrangement of bars over a small position set and every location around it, plus the numeric extremes of bar number and offset",
 "Tests convert a few fixed locations on fixed bars.",
 [PJ,"src/location.rs"],[("location to position","location_to_tick"),("position to location","tick_to_location")],
 ["conversion results"],)
p("C09","Repeats and variations play in the documented order",
 "For every well-formed arrangement of repeats and variations without D.C. or D.S., the tune plays each repeat section twice, each variation section as common part plus variation 1, common part plus variation 2 and so on, and everything else once, in order and to the end of the tune. The first section needs no start mark; Fine, Segno and Coda marks have no influence without D.C. or D.S.",
 ["programs","configurations"],"every arrangement of marks over a bounded number of bars, at regular and irregular positions, including a bar at the top of the tune",
 "Tests pick about a dozen arrangements; the order depends on the combination of neighbouring sections.",
 ["src/repeat.rs","src/bar.rs"],[("parsing of marks into sections","render_region"),("expansion","VariationRegion, RepeatRegion, SequenceRegion")],
 ["list of played tick ranges, flattened"],)
p("C10","D.C., D.S., Fine and Coda play in the documented order",
 "With D.C. or D.S., everything plays as usual up to that mark, then playing resumes at the Segno (D.S.) or at the top of the tune (D.C.) and continues with each repeat played once and each variation section played as common part plus last variation, jumping from the first Coda to the second, and ending at Fine or else at the end of the tune. When the tune starts with a pickup bar and the bar that ends at D.C. is a full bar of the tune's rhythm, D.C. resumes after the pickup bar; when the two together make up a full bar, or there is no pickup, it resumes at the top.",
 ["programs","configurations"],"every well-formed arrangement of these marks combined with repeats and variations over a bounded number of bars, with full, pickup and short bars",
 "Tests pick about a dozen arrangements out of thousands and none with the lengths in the documented pickup examples.",
 ["src/repeat.rs","src/global_repeat.rs"],[("second pass","GlobalRepeatBuilder::build, to_interval_set"),("pickup rule","GlobalRepeatBuilder::on_bar/build"),("first pass cut","render_chunks DcDsIter0")],
 ["list of played tick ranges, flattened"],)
p("C11","Any arrangement of bar marks gives a sane playing order or a clear error",
 "For every arrangement of marks on bars, computing the playing order ends without crashing, and either reports an error or gives a list of forward, in-order, non-overlapping passes that stays inside the tune. Malformed arrangements are always reported with an error that names a real fault of the arrangement: an unopened, unclosed or doubly opened repeat, a wrong variation number, an unclosed variation, D.C. or D.S. inside a repeat or variation, more than one D.C./D.S., Fine or Segno, D.S. without Segno, wrong number of Codas, or Fine before the second Coda. A result given with warnings names only faults whose marks are there, and warns of a Segno that a D.C. leaves unused and of a single Coda without a partner.",
 ["programs","inputs"],"every combination of marks that can be put on each of a bounded number of bars, including on a bar at the top of the tune",
 "Tests cover a few errors; crashes come from combinations nobody wrote down.",
 ["src/repeat.rs","src/global_repeat.rs"],[("error cases","RenderRegionError in render_region and GlobalRepeatBuilder")],
 ["result of computing the playing order"],)
p("C12","Playback positions map one to one to bar positions and passes",
 "For every playing order, asking for the time at which a position is played for the n-th time gives exactly the time elapsed when it is reached for the n-th time, and reports how often the position is played at all when n is too large. Merging adjacent pieces of the playing order changes neither the order nor any of these times, and the pass number always stays between 1 and 5.",
 ["inputs","configurations"],"every playing order of up to a handful of pieces over small positions, each position and each pass number, plus all pass numbers",
 "Tests check a few positions on fixed orders.",
 ["src/repeat.rs","src/play_start_tick.rs","src/play_iter.rs"],[("elapsed time table","Chunk::by_accum_tick"),("lookup","PlayStartTick::to_accum_tick"),("merging","Chunk::optimize"),("pass range","PlayIter")],
 ["elapsed time returned for (position, pass)"],)
p("C13","Which repeat marks may share a bar does not depend on the order of adding",
 "A set of repeat marks can be built on a bar if and only if all its marks are pairwise compatible, in whatever order they are added. A refused addition leaves the set unchanged and reports exactly the marks in the way, an accepted one adds exactly that mark, and removing a mark or all variation marks removes exactly those.",
 ["histories"],"every sequence of additions and removals from every reachable set (all subsets of the 11 marks)",
 "The tests try a few pairs in one order.",
 ["src/bar.rs"],[("compatibility tables","RepeatSet::*_DISLIKE"),("guarded addition","RepeatSet::try_add")],
 ["result of try_add/remove, contains, len, region_index"],)
p("C14","Clipboard text and saved snapshots give back exactly what was stored",
 "Any selection of notes, bars, tempos and pedal events written as clipboard text and read back is equal to the original in every attribute, including derived ones such as sounding pitch and effective length, with items in the same order and number. The same holds for a whole project stored in its snapshot form, and every setting and edit record in its stored form.",
 ["inputs"],"every value of every attribute of every item (one and two at a time), and every combination of up to two items of each kind",
 "Tests round-trip a few fixed items.",
 ["src/models.rs",PJ,"src/pitch.rs","src/trimmer.rs","src/percent.rs","src/duration.rs"],[("clipboard format","Models::to_clipboard_text/from_clipboard_text"),("derived fields rebuilt","Pitch, Trimmer, RateTrimmer deserialization"),("snapshot format","ExportedProject in project.rs")],
 ["items read back"],)
p("C15","Malformed clipboard or project text never crashes or yields impossible values",
 "Reading clipboard text or exported project text, however truncated, altered or wrongly versioned, ends with either an error or valid content, never a crash. Content that is accepted contains only values that the editor itself can produce: pitches, velocities, channels, tempos, rhythms, keys, dots, denominators and percentages in range and derived values consistent with their parts.",
 ["inputs"],"every single-field and field-pair substitution from a table of boundary values, every deletion and truncation of a valid text, every version prefix",
 "The tests read a few broken texts.",
 ["src/models.rs","src/exported_project.rs","src/pitch.rs","src/duration.rs","src/rhythm.rs","src/key.rs","src/channel.rs","src/percent.rs","src/tempo.rs","src/velocity.rs"],[("version check","from_clipboard_text"),("validation on reading","serde from/try_from of the value types")],
 ["result of from_clipboard_text; accepted values"],)
p("C16","Text fields accept exactly valid input and never crash",
 "For every text, each input field (location, trim, tempo, velocity, rhythm numerator, tuplet denominator, percentage) reports either no value for empty text, a value in range equal to what was typed (or limited to the range where the field limits), or an error; it never crashes. After any sequence of text edits the reported result is that of the current text, and locations, grids and rhythms shown as text read back as the same value.",
 ["inputs","histories"],"every string up to a length over an alphabet of digits, signs, separators, letters and non-ASCII digits, plus all numbers around every range limit, and every edit sequence up to a depth",
 "Tests cover hardly any of the fields, and no out-of-range text.",
 ["src/text_input.rs","src/location.rs","src/grid.rs","src/tempo.rs","src/rhythm.rs"],[("parsing","FromStr for Validated<..>, parse_location, Grid::value_of"),("revalidation","TextInput::mutate")],
 ["validated value and error for each text"],)
p("C17","Pitch arithmetic stays consistent and in range",
 "Every pitch that can be reached by any sequence of pitch operations sounds as its note name, octave and accidental say and lies between 0 and 127, and its staff position matches its name and octave. Moving by n staff steps on the staff (positions 0 to 74) and back returns the same pitch, moving one step equals moving by one staff step, toggling accidentals cycles as documented, applying a key signature alters exactly the notes of that signature, and an operation whose result would leave the range reports an error and nothing else.",
 ["histories","inputs"],"every reachable pitch (all names, octaves and accidentals) and every operation and parameter on it",
 "Tests check some pitches at the range ends.",
 ["src/pitch.rs","src/octave.rs","src/solfa.rs","src/sharp_flat.rs","src/key.rs"],[("construction check","Pitch::value_of"),("staff arithmetic","with_score_offset_delta, up, down"),("key signature","apply_key")],
 ["fields of the resulting pitch"],)
p("C18","Note edits change only the intended attribute",
 "Changing the duration, tuplet numerator, dots, accidental, tie, staff position or start of a note changes exactly that attribute and keeps all others; dots stay between 0 and 7 or the edit is refused, and toggling the tie walks through its four states in a fixed cycle. The effective start, length and velocity of a note are always its base values combined with its trims, limited to the valid range.",
 ["inputs","histories"],"every note over a product of attribute values, every edit with every parameter, and every sequence of edits up to a depth",
 "Tests try a few edits on default notes.",
 ["src/note.rs","src/duration.rs"],[("note edits","Note::with_*, add_dots, toggle_*, up/down_score_offset"),("effective values","Note::start_tick, tick_len, velocity")],
 ["fields of the resulting note"],)
p("C19","Making a tuplet keeps the notes, their order and their chords",
 "Turning a selection of notes into a tuplet keeps the number of notes and all their attributes other than start and tuplet denominator, keeps the first note's start, and keeps notes that start together starting together and the others in the same order. The whole group takes 2/n of its notated length, where n is the number of the smallest common units it contains and becomes the denominator of every note, and each note starts at its proportional place in it; a selection that cannot form a tuplet, or whose tuplet does not fit before the last position there is, is returned unchanged.",
 ["inputs","configurations"],"every selection of up to a handful of notes over durations, dots, chords and starting positions, in every input order",
 "Tests use single-voice groups of equal notes.",
 ["src/tuple.rs",PJ],[("tuplet computation","tuple::tuplize")],
 ["returned notes"],)
p("C20","Durations and bars have the right length in ticks",
 "Every note duration is the notated fraction of a whole note of 960 ticks, with dots and tuplet denominator applied, exact when each of the three comes out in whole ticks and otherwise off by less than one tick per rounding step. More dots never shorten, a smaller note value or larger denominator never lengthens it, and every rhythm's bar length is its numerator times the length of its denominator note.",
 ["inputs"],"all note values x all denominators x all dots, all rhythms",
 "Tests sample a few durations and rhythms.",
 ["src/duration.rs","src/rhythm.rs"],[("length","Duration::tick_length, Rhythm::tick_len")],
 ["lengths"],)
p("C21","Snapping to the grid goes to the nearest grid line",
 "For every grid and every position, positive or negative, snapping returns a multiple of the grid that is no farther from the position than half a grid step, leaves positions on the grid alone, never reverses the order of two positions, and is symmetric about zero. A grid of zero can never be created.",
 ["inputs"],"all grids and positions in a bounded range, plus boundary values",
 "Tests sample a few positions of one or two grids.",
 ["src/grid.rs"],[("snapping","Grid::snap"),("validation","Grid::from_u32, value_of")],
 ["snapped positions"],)
p("C22","Trims and percentages combine exactly, however they are built",
 "A trim's total is always the sum of its four parts and a rate trim's total is the product of its four rates limited to 0-200%, no matter whether it was built from parts, a list, an update, a reload or a sequence of additions. Adding an amount to a trim changes its total by exactly that amount unless all parts are at their limit, in which case the total stops at the limit; applying a percentage scales exactly, rounding down, and percentages survive conversion to a number or text and back.",
 ["inputs","histories"],"all boundary combinations of the four parts, all additions from every reachable trim up to a depth, all percentages and all pairs of rates",
 "Tests sample a few small values where overflow and rounding do not occur.",
 ["src/trimmer.rs","src/percent.rs"],[("totals","Trimmer::*, RateTrimmer::*"),("carry on overflow","Trimmer::added"),("percentage","PercentU16")],
 ["values, totals, results of apply"],)
p("C23","The bounded edit history keeps the most recent edits in order",
 "A bounded edit history behaves as a list limited to its capacity: undo steps back through the most recent edits newest first, redo steps forward again over the same edits, adding an edit discards the undone ones and then the oldest beyond capacity, and nothing is added while recording is frozen. What it says about being able to undo or redo always agrees with what undo and redo then do.",
 ["histories"],"every sequence of add, undo, redo, freeze and unfreeze up to a depth, for several capacities including 0 and 1",
 "Tests follow a few fixed sequences with one capacity.",
 ["src/undo.rs"],[("bounded history","UndoStore")],
 ["returned edits, len, can_undo, can_redo, iteration"],)
p("C24","Moving and dragging shifts positions exactly and never wraps around",
 "Moving a note, bar, tempo or pedal event by an amount shifts its position by exactly that amount and changes nothing else, and reports an error when the position would become negative or larger than a position can be; moving a whole selection to a position puts its earliest item there and keeps all distances. Dragging does the same and also shifts pitch or tempo by the given amount. Where a drag or a moved selection would leave the valid range, it stops at the limit instead of wrapping around or crashing. Every way of asking an item for its position gives that position, and for a note's sounding start the position plus its trim.",
 ["inputs"],"every item over boundary positions and values with every boundary delta; every selection of up to a few items",
 "Tests drag a few items by small amounts inside the range.",
 ["src/note.rs","src/bar.rs","src/tempo.rs","src/ctrl_chg.rs","src/models.rs"],[("moving","with_tick_added, drag"),("moving a selection","Models::move_to_tick")],
 ["positions and values of the results"],)
p("C25","Range-limited values never leave their range under any operation sequence",
 "Tempo (1 to 999), velocity (0 to 127), channel (0 to 15), variation number (1 to 4), rhythm numerator (1 to 99) and denominator (2 to 64, powers of two), octave (-2 to 8), dots (0 to 7) and tuplet denominator (2 to 255) can only be created within their range from any input: every other input is refused or limited. Stepping up or down moves by exactly one and is refused at the ends, every named value and limit is the value its name says, and a value shown as text is its own number or name. Clipping a value to a range gives the nearest value inside it.",
 ["inputs","histories"],"all inputs of every constructor and every stepping operation from every reachable value",
 "Tests check some limits of some types.",
 ["src/tempo.rs","src/velocity.rs","src/channel.rs","src/bar.rs","src/rhythm.rs","src/octave.rs","src/duration.rs","src/solfa.rs","src/clipper.rs"],[("constructors","TempoValue, Velocity, Channel, VarIndex, rhythm::Numerator/Denominator, Octave, Dots, duration::Denominator")],
 ["constructed values and errors"],)
p("C26","Items and values are equal exactly when all their attributes are equal",
 "Two notes, bars, tempos, pedal events, selections or edit records, and any two attribute values (pitch, duration, trim, percentage, rhythm, key, velocity, channel, mark set, grid, location...), compare equal exactly when every attribute is equal, no matter how they were made, combined, stored or read back: two notes that merely sound alike stay different, and two values made in different ways from the same parts are the same. Equal values hash alike, tempo values are ordered by their number, and a pool of shared values gives back the first equal value put into it and never a different one.",
 ["inputs","histories"],"every pair of values from the full tables of every type, items differing in any one or two attributes, every way of making a value, every sequence of requests for shared values up to a length",
 "Undo, removal and change find items by equality and caches find them by hash, so one attribute left out, or compared by what it adds up to, silently edits the wrong item; tests compare a few identical items.",
 ["src/note.rs","src/trimmer.rs","src/percent.rs","src/bar.rs","src/pitch.rs","src/duration.rs","src/models.rs","src/project.rs","src/fly_weight.rs"],[("equality and hashing","impl PartialEq / Hash for Trimmer, RateTrimmer, PercentU16; derived ones elsewhere"),("shared values","FlyWeight")],
 ["==, !=, hash, order, FlyWeight::intern"],)
p("C27","Projects open at the same time do not influence each other",
 "Whatever is done to one project - editing, undoing, redoing, clearing, reading it back, closing it, or asking it anything - never changes another project's content, undo history, notifications, lookups, conversions between positions and bars, or playing order. However the use of several open projects is interleaved, each of them answers as if it were the only one.",
 ["histories","interleavings"],"every interleaving of the edits and questions of two and three open projects up to a depth, with equal positions and numbers of items but other values in each",
 "An editor keeps several documents open; a cache, a counter or a table shared by accident lets one document show or save what belongs to another, and every test opens one project at a time.",
 ["src/project.rs","src/models.rs","src/repeat.rs","src/fly_weight.rs","src/global_repeat.rs","src/play_iter.rs"],[("project state","ProjectImpl, ProjectStore"),("answers","tempo_at, rhythm_at, key_at, tick_to_location, note_max_tick_loc, create_chunks")],
 ["two or more ProjectStore values used in turn"],)
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
