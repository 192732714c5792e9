From 42530d62de93886ca25efd06114eefc8b833245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:15 +0000
Subject: [PATCH 01/24] fix: record the net effect of a batch edit whose items
 meet at one position

change and bulk_add recorded every named item as removed/added, so undoing an
edit in which several items ended at one tick, swapped places or named an item
that is not in the project did not restore the previous content.
---
 src/project.rs | 105 +++++++++++++++++++++++++++----------------------
 1 file changed, 57 insertions(+), 48 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c90196c..c47b920 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -1,3 +1,4 @@
+use std::collections::{BTreeMap, BTreeSet};
 use std::rc::Rc;
 
 use klavier_helper::bag_store::{BagStore, BagStoreEvent};
@@ -391,6 +392,32 @@ pub fn ctrl_chg_at(tick: u32, store: &Store<u32, CtrlChg, ModelChangeMetadata>)
     }
 }
 
+/// Returns the values stored at the specified ticks.
+fn values_at<T: Clone>(store: &Store<u32, T, ModelChangeMetadata>, ticks: &BTreeSet<u32>) -> Vec<T> {
+    ticks.iter().filter_map(|t| store.find(t).ok()).map(|idx| store[idx].1.clone()).collect()
+}
+
+/// Applies the change and returns its net effect: the values removed and the values added.
+/// Elements whose 'from' does not exist are ignored.
+fn change_store<T: Clone>(
+    store: &mut Store<u32, T, ModelChangeMetadata>, from_to: &[(T, T)], tick: impl Fn(&T) -> u32, metadata: ModelChangeMetadata
+) -> (Vec<T>, Vec<T>) {
+    let mut from_ticks: BTreeSet<u32> = BTreeSet::new();
+    let mut ticks: BTreeSet<u32> = BTreeSet::new();
+    let mut change: Vec<(u32, (u32, T))> = Vec::with_capacity(from_to.len());
+    for (from, to) in from_to.iter() {
+        if store.find(&tick(from)).is_ok() && from_ticks.insert(tick(from)) {
+            ticks.insert(tick(from));
+            ticks.insert(tick(to));
+            change.push((tick(from), (tick(to), to.clone())));
+        }
+    }
+    let removed = values_at(store, &ticks);
+    let change: Vec<(&u32, (u32, T))> = change.iter().map(|(from, to)| (from, to.clone())).collect();
+    store.change(&change, metadata);
+    (removed, values_at(store, &ticks))
+}
+
 impl Default for ProjectImpl {
     fn default() -> Self {
         ProjectImpl {
@@ -723,26 +750,38 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
             for b in to_add.bars.iter() {
                 buf.push((b.start_tick, *b));
             }
-            removed.bars = proj.bar_repo.bulk_add(buf, metadata).iter().map(|(_, bar)| *bar).collect();
+            let ticks: BTreeSet<u32> = buf.iter().map(|(tick, _)| *tick).collect();
+            removed.bars = values_at(&proj.bar_repo, &ticks);
+            proj.bar_repo.bulk_add(buf, metadata);
+            to_add.bars = values_at(&proj.bar_repo, &ticks);
     
             let mut buf = Vec::with_capacity(to_add.tempos.len());
             for t in to_add.tempos.iter() {
                 buf.push((t.start_tick, *t));
             }
-            removed.tempos = proj.tempo_repo.bulk_add(buf, metadata).iter().map(|(_, t)| *t).collect();
+            let ticks: BTreeSet<u32> = buf.iter().map(|(tick, _)| *tick).collect();
+            removed.tempos = values_at(&proj.tempo_repo, &ticks);
+            proj.tempo_repo.bulk_add(buf, metadata);
+            to_add.tempos = values_at(&proj.tempo_repo, &ticks);
     
     
             let mut buf = Vec::with_capacity(to_add.dumpers.len());
             for d in to_add.dumpers.iter() {
                 buf.push((d.start_tick, *d));
             }
-            removed.dumpers = proj.dumper_repo.bulk_add(buf, metadata).iter().map(|(_, d)| *d).collect();
+            let ticks: BTreeSet<u32> = buf.iter().map(|(tick, _)| *tick).collect();
+            removed.dumpers = values_at(&proj.dumper_repo, &ticks);
+            proj.dumper_repo.bulk_add(buf, metadata);
+            to_add.dumpers = values_at(&proj.dumper_repo, &ticks);
     
             let mut buf = Vec::with_capacity(to_add.softs.len());
             for s in to_add.softs.iter() {
                 buf.push((s.start_tick, *s));
             }
-            removed.softs = proj.soft_repo.bulk_add(buf, metadata).iter().map(|(_, s)| *s).collect();
+            let ticks: BTreeSet<u32> = buf.iter().map(|(tick, _)| *tick).collect();
+            removed.softs = values_at(&proj.soft_repo, &ticks);
+            proj.soft_repo.bulk_add(buf, metadata);
+            to_add.softs = values_at(&proj.soft_repo, &ticks);
             
             let replenished_bars = proj.replenish_bars();
             to_add.bars.extend(replenished_bars);
@@ -770,54 +809,24 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
             );
 
             let mut note_change: Vec<((u32, Rc<Note>), (u32, Rc<Note>))> = Vec::with_capacity(from_to.notes.len());
+            let mut rest: BTreeMap<u32, Vec<Rc<Note>>> = BTreeMap::new();
             for (from, to) in from_to.notes.iter() {
-                note_change.push((
-                    (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
-                ));
-                added.notes.push(to.clone());
-                removed.notes.push(from.clone());
+                let notes = rest.entry(from.start_tick()).or_insert_with(|| proj.note_repo.get(from.start_tick()).clone());
+                if let Some(idx) = notes.iter().position(|n| **n == *from) {
+                    notes.remove(idx);
+                    note_change.push((
+                        (from.start_tick(), Rc::new(from.clone())), (to.start_tick(), Rc::new(to.clone()))
+                    ));
+                    added.notes.push(to.clone());
+                    removed.notes.push(from.clone());
+                }
             }
             proj.note_repo.change(&note_change, metadata);
 
-            let mut bar_change: Vec<(&u32, (u32, Bar))> = Vec::with_capacity(from_to.bars.len());
-            for (from, to) in from_to.bars.iter() {
-                bar_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.bars.push(*to);
-                removed.bars.push(*from);
-            }
-            removed.bars.extend(proj.bar_repo.change(&bar_change, metadata).iter().map(|(_, b)| *b).collect::<Vec<Bar>>());
-
-            let mut tempo_change: Vec<(&u32, (u32, Tempo))> = Vec::with_capacity(from_to.tempos.len());
-            for (from, to) in from_to.tempos.iter() {
-                tempo_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.tempos.push(*to);
-                removed.tempos.push(*from);
-            }
-            removed.tempos.extend(proj.tempo_repo.change(&tempo_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<Tempo>>());
-
-            let mut dumper_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.dumpers.len());
-            for (from, to) in from_to.dumpers.iter() {
-                dumper_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.dumpers.push(*to);
-                removed.dumpers.push(*from);
-            }
-            removed.dumpers.extend(proj.dumper_repo.change(&dumper_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
-
-            let mut soft_change: Vec<(&u32, (u32, CtrlChg))> = Vec::with_capacity(from_to.softs.len());
-            for (from, to) in from_to.softs.iter() {
-                soft_change.push((
-                    &from.start_tick, (to.start_tick, *to)
-                ));
-                added.softs.push(*to);
-                removed.softs.push(*from);
-            }
-            removed.softs.extend(proj.soft_repo.change(&soft_change,metadata).iter().map(|(_, t)| *t).collect::<Vec<CtrlChg>>());
+            (removed.bars, added.bars) = change_store(&mut proj.bar_repo, &from_to.bars, |b| b.start_tick, metadata);
+            (removed.tempos, added.tempos) = change_store(&mut proj.tempo_repo, &from_to.tempos, |t| t.start_tick, metadata);
+            (removed.dumpers, added.dumpers) = change_store(&mut proj.dumper_repo, &from_to.dumpers, |d| d.start_tick, metadata);
+            (removed.softs, added.softs) = change_store(&mut proj.soft_repo, &from_to.softs, |s| s.start_tick, metadata);
 
             added.bars.extend(proj.replenish_bars());
             Ok(ProjectCmd::ModelChanged {
-- 
2.43.0


From 6e825c4356c9ac024a61c66774d1e37ff40792ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 02/24] fix: bulk_remove and tuplize record only what they
 really removed

Naming an element that is not in the project (or a different bar, tempo or
pedal event at the same tick) made undo add the named element.
---
 src/project.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index c47b920..a16d3d1 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -297,6 +297,26 @@ impl ProjectImpl {
         self.key
     }
 
+    /// Returns the elements of this project which are named by the specified models.
+    fn existing(&self, models: &Models) -> Models {
+        let mut notes: Vec<Note> = Vec::with_capacity(models.notes.len());
+        let mut rest: BTreeMap<u32, Vec<Rc<Note>>> = BTreeMap::new();
+        for n in models.notes.iter() {
+            let stored = rest.entry(n.start_tick()).or_insert_with(|| self.note_repo.get(n.start_tick()).clone());
+            if let Some(idx) = stored.iter().position(|s| **s == *n) {
+                stored.remove(idx);
+                notes.push(n.clone());
+            }
+        }
+        Models {
+            notes,
+            bars: values_at(&self.bar_repo, &models.bars.iter().map(|b| b.start_tick).collect()),
+            tempos: values_at(&self.tempo_repo, &models.tempos.iter().map(|t| t.start_tick).collect()),
+            dumpers: values_at(&self.dumper_repo, &models.dumpers.iter().map(|d| d.start_tick).collect()),
+            softs: values_at(&self.soft_repo, &models.softs.iter().map(|s| s.start_tick).collect()),
+        }
+    }
+
     /// Returns bar no(0 offset) and bar.
     #[inline]
     fn last_bar(&self) -> Option<(usize, Bar)> {
@@ -711,7 +731,8 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                     to_remove.push((n.start_tick(), n.clone()));
                 }
                 let tupled = tuple::tuplize(notes.clone());
-                proj.note_repo.bulk_remove(&to_remove, ModelChangeMetadata::new());
+                let removed: Vec<Rc<Note>> = proj.note_repo.bulk_remove(&to_remove, ModelChangeMetadata::new())
+                    .into_iter().map(|(_, n)| n).collect();
                 proj.note_repo.bulk_add(
                     tupled.iter().map(|n| (n.start_tick(), n.clone())).collect(),
                     metadata
@@ -721,7 +742,7 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
                 Ok(
                     ProjectCmd::ModelChanged {
                         added: Models::empty().with_notes(&tupled).with_bars(replenishid_bars),
-                        removed: Models::empty().with_notes(&notes),
+                        removed: Models::empty().with_notes(&removed),
                         metadata,
                     }
                 )
@@ -733,7 +754,8 @@ impl Project for SqliteUndoStore::<ProjectCmd, ProjectImpl, ProjectCmdErr> {
     }
 
     fn bulk_remove(&mut self, to_remove: Models, metadata: ModelChangeMetadata) {
-        self.add_cmd(ProjectCmd::ModelChanged { added: Models::empty(), removed: to_remove, metadata });
+        let removed = self.model().existing(&to_remove);
+        self.add_cmd(ProjectCmd::ModelChanged { added: Models::empty(), removed, metadata });
     }
 
     fn bulk_add(&mut self, mut to_add: Models, metadata: ModelChangeMetadata) {
-- 
2.43.0


From 1588b439f1c4abeea910c2da65100a0c5279b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 03/24] fix: keep the tempo between 1 and 999

Dragging below the minimum wrapped around to 999, 0 was accepted, and typing a
tempo above 999 panicked.
---
 src/tempo.rs      | 8 ++++++--
 src/text_input.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/tempo.rs b/src/tempo.rs
index bf1412d..0433971 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -36,6 +36,8 @@ impl TempoValue {
     pub const fn new(value: u16) -> Self {
         if MAX_TEMPO_VALUE < value {
             panic!("Too large value.");
+        } else if value < MIN_TEMPO_VALUE {
+            panic!("Too small value.");
         } else {
             TempoValue(value)
         }
@@ -69,7 +71,7 @@ impl TempoValue {
     }
 
     pub fn safe_new(value: u16) -> TempoValue {
-        Self::new(if MAX_TEMPO_VALUE < value { MAX_TEMPO_VALUE } else { value })
+        Self::new(value.clamp(MIN_TEMPO_VALUE, MAX_TEMPO_VALUE))
     }
 }
 
@@ -100,7 +102,9 @@ impl Tempo {
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
              start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
-             value: TempoValue::safe_new((self.value.as_u16() as i32 + tempo_delta) as u16),
+             value: TempoValue::safe_new(
+                (self.value.as_u16() as i32).saturating_add(tempo_delta).clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
+             ),
              ..*self
         }
     }
diff --git a/src/text_input.rs b/src/text_input.rs
index 5d4d82e..abde235 100644
--- a/src/text_input.rs
+++ b/src/text_input.rs
@@ -83,7 +83,7 @@ impl FromStr for Validated<Option<TempoValue>> {
         if s.is_empty() {
             Ok(Validated(None))
         } else {
-            s.parse::<u16>().map(|u| Validated(Some(TempoValue::new(u))))
+            s.parse::<u16>().map(|u| Validated(Some(TempoValue::safe_new(u))))
         }
     }
 }
-- 
2.43.0


From 93507cc7c99724959d7ba517cdcf1a797bdca78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:57 +0000
Subject: [PATCH 04/24] fix: report locations that do not fit instead of
 panicking

Digits that do not fit usize (or are not ASCII) made parse_location panic, and
large offsets overflowed while converting a location to a tick.
---
 src/location.rs | 10 +++++-----
 src/project.rs  |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/location.rs b/src/location.rs
index 6501c57..abf51fa 100644
--- a/src/location.rs
+++ b/src/location.rs
@@ -27,11 +27,11 @@ impl Display for Location {
 
 const LOCATION_PATTERN: once_cell::unsync::Lazy<Regex> = once_cell::unsync::Lazy::new(|| Regex::new(r"^(\d+):(\d+)$").unwrap());
 pub fn parse_location(s: &str) -> Option<Location> {
-    LOCATION_PATTERN.captures(s).map(|c| {
-        Location {
-            bar_no: c.get(1).unwrap().as_str().parse().unwrap(),
-            offset: c.get(2).unwrap().as_str().parse().unwrap(),
-        }
+    LOCATION_PATTERN.captures(s).and_then(|c| {
+        Some(Location {
+            bar_no: c.get(1)?.as_str().parse().ok()?,
+            offset: c.get(2)?.as_str().parse().ok()?,
+        })
     })
 }
 
diff --git a/src/project.rs b/src/project.rs
index a16d3d1..2085e53 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -221,7 +221,7 @@ impl ProjectImpl {
         } else {
             if loc.bar_no() <= self.bar_repo.len() {
                 let (tick, _) = self.bar_repo[loc.bar_no() - 1];
-                let sum = (tick as usize) + loc.offset();
+                let sum = (tick as usize).saturating_add(loc.offset());
                 if (u32::MAX as usize) < sum {
                     Err(LocationError::Overflow)
                 } else {
@@ -230,12 +230,12 @@ impl ProjectImpl {
             } else {
                 let tick = match self.last_bar() {
                     None => {
-                        loc.bar_no() * (self.rhythm.tick_len() as usize) + loc.offset()
+                        (loc.bar_no() * (self.rhythm.tick_len() as usize)).saturating_add(loc.offset())
                     },
                     Some((last_bar_no, last_bar)) => {
                         let last_tick = last_bar.start_tick;
                         let tick_len = self.rhythm_at(last_tick).tick_len() as usize;
-                        (loc.bar_no() - last_bar_no - 1) * tick_len + loc.offset() + last_bar.start_tick as usize
+                        ((loc.bar_no() - last_bar_no - 1) * tick_len + last_bar.start_tick as usize).saturating_add(loc.offset())
                     },
                 };
 
-- 
2.43.0


From 5c63cccbee9bcc2d5d0d620ab8e834e166e04c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 05/24] fix: sum up trimmer values without i16 overflow

---
 src/trimmer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trimmer.rs b/src/trimmer.rs
index c3b5da5..b27bc99 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -44,14 +44,14 @@ impl Trimmer {
     pub const fn from_array(values: [i16; 4]) -> Self {
         Self {
             values: values,
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
     pub fn from_vec(values: &Vec<i16>) -> Self {
         Self {
             values: [values[0], values[1], values[2], values[3]],
-            sum: (values[0] + values[1] + values[2] + values[3]) as i32,
+            sum: values[0] as i32 + values[1] as i32 + values[2] as i32 + values[3] as i32,
         }
     }
 
@@ -83,7 +83,7 @@ impl Trimmer {
 
     pub fn added(mut self, mut tick: i32) -> Self {
         for i in 0..4 {
-            let t: i32 = self.values[i] as i32 + tick as i32;
+            let t: i32 = (self.values[i] as i32).saturating_add(tick);
             if (i16::MAX as i32) < t {
                 tick = t - i16::MAX as i32;
                 self.values[i] = i16::MAX;
-- 
2.43.0


From d9a35e17153e7b114fba8c5b313279270f6634b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 06/24] fix: make percentages and rate trims independent of how
 they were built

The f32 conversion truncated, so a percentage did not survive conversion to a
number or text and back, and RateTrimmer::new computed its total from rates
that were not yet limited or rounded, unlike a reloaded trimmer.
---
 src/percent.rs | 2 +-
 src/trimmer.rs | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/percent.rs b/src/percent.rs
index a8487b2..600cd9b 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -57,7 +57,7 @@ impl From<f32> for PercentU16 {
         } else if MAX_F32_VALUE < rate {
             PercentU16 { value: MAX_VALUE as u16 }
         } else {
-            let i: i32 = (rate * 1000.0) as i32; // 1.0 means 100% = 100.0% = 1000
+            let i: i32 = (rate * 1000.0).round() as i32; // 1.0 means 100% = 100.0% = 1000
             PercentU16 { value: i as u16 }
         }
     }
diff --git a/src/trimmer.rs b/src/trimmer.rs
index b27bc99..4ba772b 100644
--- a/src/trimmer.rs
+++ b/src/trimmer.rs
@@ -157,10 +157,9 @@ impl RateTrimmer {
     };
 
     pub fn new(rate0: f32, rate1: f32, rate2: f32, rate3: f32) -> RateTrimmer {
-        RateTrimmer {
-            values: [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)],
-            sum: PercentU16::from(rate0 * rate1 * rate2 * rate3),
-        }
+        Self::from_array(
+            [PercentU16::from(rate0), PercentU16::from(rate1), PercentU16::from(rate2), PercentU16::from(rate3)]
+        )
     }
 
     pub fn from_array(values: [PercentU16; 4]) -> Self {
-- 
2.43.0


From 34ebb05953fea010d9db2fb6c56e9a4c745fa2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:34 +0000
Subject: [PATCH 07/24] fix: refuse the score offset just above the highest
 octave instead of panicking

---
 src/octave.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octave.rs b/src/octave.rs
index de23210..60acfd4 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -39,7 +39,7 @@ impl Octave {
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-        if idx < 0 || Self::ALL.len() < (idx as usize) {
+        if idx < 0 || Self::ALL.len() <= (idx as usize) {
             Err(OctaveError::InvalidValue(idx))
         } else {
             Ok(Self::ALL[idx as usize])
-- 
2.43.0


From aabb7eb5491bae28780db5e039cb3238927c1718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:03 +0000
Subject: [PATCH 08/24] fix: refuse or limit out-of-range values while
 deserializing

Hostile or damaged clipboard and project text could make Pitch panic, or yield
dots, numerators, channels, keys, grids and percentages that no constructor
allows. Stored forms are unchanged.
---
 src/channel.rs  |  9 +++++++++
 src/duration.rs |  9 +++++++++
 src/grid.rs     | 14 ++++++++++++++
 src/key.rs      |  9 +++++++++
 src/percent.rs  | 14 +++++++++++++-
 src/pitch.rs    | 10 ++++++----
 src/rhythm.rs   |  9 +++++++++
 7 files changed, 69 insertions(+), 5 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9964692..a10a807 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -1,7 +1,16 @@
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
 pub struct Channel(u8);
 
+impl TryFrom<u8> for Channel {
+  type Error = String;
+
+  fn try_from(value: u8) -> Result<Self, String> {
+    if value < 16 { Ok(Self(value)) } else { Err(format!("Invalid channel({})", value)) }
+  }
+}
+
 impl Channel {
   pub fn new(value: u8) -> Self {
     if value < 16 {
diff --git a/src/duration.rs b/src/duration.rs
index 441e933..4661ef5 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -89,9 +89,18 @@ impl Denominator {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
 pub struct Dots(u8);
 
+impl TryFrom<u8> for Dots {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, String> {
+        Dots::from_value(value).ok_or_else(|| format!("Invalid dots({})", value))
+    }
+}
+
 impl Default for Dots {
     fn default() -> Self {
         Self::ZERO
diff --git a/src/grid.rs b/src/grid.rs
index 5c9e611..372c8ac 100644
--- a/src/grid.rs
+++ b/src/grid.rs
@@ -5,11 +5,25 @@ pub enum GridError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="GridSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
 pub struct Grid {
     value: u32,
 }
 
+#[derive(serde::Deserialize)]
+struct GridSerializedForm {
+    value: u32,
+}
+
+impl TryFrom<GridSerializedForm> for Grid {
+    type Error = String;
+
+    fn try_from(from: GridSerializedForm) -> Result<Self, String> {
+        Self::from_u32(from.value).map_err(|_| format!("Invalid grid({})", from.value))
+    }
+}
+
 impl Grid {
     pub fn value_of(s: &str) -> Result<Self, GridError> {
         s.parse::<u32>()
diff --git a/src/key.rs b/src/key.rs
index a4dbe23..6a9759c 100644
--- a/src/key.rs
+++ b/src/key.rs
@@ -5,9 +5,18 @@ use once_cell::unsync::Lazy;
 use crate::solfa::Solfa;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="i8")]
 #[derive(Debug, PartialEq, Eq, Copy, Clone, Hash)]
 pub struct Key(i8);
 
+impl TryFrom<i8> for Key {
+    type Error = String;
+
+    fn try_from(value: i8) -> Result<Self, String> {
+        if (-7..=7).contains(&value) { Ok(Self(value)) } else { Err(format!("Invalid key({})", value)) }
+    }
+}
+
 impl Key {
     pub const NONE: Key = Key(0);
     pub const SHARP_1: Key = Key(1);
diff --git a/src/percent.rs b/src/percent.rs
index 600cd9b..81eb4f3 100644
--- a/src/percent.rs
+++ b/src/percent.rs
@@ -2,11 +2,23 @@ use crate::can_apply::CanApply;
 
 // 0.0% - 200.0%
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(from="PercentU16SerializedForm")]
 #[derive(Debug, Clone, Copy, Eq)]
 pub struct PercentU16 {
     value: u16,
 }
 
+#[derive(serde::Deserialize)]
+struct PercentU16SerializedForm {
+    value: u16,
+}
+
+impl From<PercentU16SerializedForm> for PercentU16 {
+    fn from(from: PercentU16SerializedForm) -> Self {
+        Self::from_value(from.value)
+    }
+}
+
 // 0 - 200%
 const MAX_VALUE: i32 = 2000;
 const MAX_F32_VALUE: f32 = 2.0;
@@ -24,7 +36,7 @@ impl PercentU16 {
 
     pub const fn from_value(value: u16) -> PercentU16 {
         PercentU16 {
-            value,
+            value: if (MAX_VALUE as u16) < value { MAX_VALUE as u16 } else { value },
         }
     }
 
diff --git a/src/pitch.rs b/src/pitch.rs
index 62b2fcd..373cce5 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -29,7 +29,7 @@ impl fmt::Display for PitchError {
 }
 
 #[derive(serde::Deserialize, serde::Serialize)]
-#[serde(from = "PitchSerializedForm")]
+#[serde(try_from = "PitchSerializedForm")]
 #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Builder)]
 #[builder(default)]
 pub struct Pitch {
@@ -49,9 +49,11 @@ impl Default for Pitch {
     }
 }
 
-impl From<PitchSerializedForm> for Pitch {
-    fn from(from: PitchSerializedForm) -> Self {
-        Self::new(from.solfa, from.octave, from.sharp_flat)
+impl TryFrom<PitchSerializedForm> for Pitch {
+    type Error = PitchError;
+
+    fn try_from(from: PitchSerializedForm) -> Result<Self, PitchError> {
+        Self::value_of(from.solfa, from.octave, from.sharp_flat)
     }
 }
 
diff --git a/src/rhythm.rs b/src/rhythm.rs
index 9397d99..6ffbd6a 100644
--- a/src/rhythm.rs
+++ b/src/rhythm.rs
@@ -6,9 +6,18 @@ pub const MIN_NUMERATOR: u8 = 1;
 pub const MAX_NUMERATOR: u8 = 99;
 
 #[derive(serde::Deserialize, serde::Serialize)]
+#[serde(try_from="u8")]
 #[derive(Debug, Copy, Clone, PartialEq, Eq)]
 pub struct Numerator(u8);
 
+impl TryFrom<u8> for Numerator {
+    type Error = String;
+
+    fn try_from(value: u8) -> Result<Self, String> {
+        Numerator::from_value(value).map_err(|_| format!("Invalid numerator({})", value))
+    }
+}
+
 impl Display for Numerator {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(f, "{}", self.0)
-- 
2.43.0


From 964584cc1f0e7dce8903b977e0c59b574ad1d877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:20 +0000
Subject: [PATCH 09/24] fix: keep chords together when making a tuplet

Every note of a chord moved the following notes, and a selection of more than
255 units panicked or got a wrong denominator.
---
 src/tuple.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tuple.rs b/src/tuple.rs
index e54e080..5272a85 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -14,7 +14,10 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let denominator = total_unit / min_unit;
         if denominator < 2 { return notes; }
         let total_tick = total_tick / denominator * 2;
-        let denominator = Denominator::from_value(denominator as u8).unwrap();
+        let denominator = match u8::try_from(denominator).ok().and_then(Denominator::from_value) {
+            Some(d) => d,
+            None => return notes,
+        };
         let mut u = 0;
         let mut ret = Vec::with_capacity(work.len());
 
@@ -26,9 +29,9 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
                         let mut note = (**n).clone();
                         note.base_start_tick = (start_tick + (total_tick * u / total_unit)) as u32;
                         note.duration = n.duration.with_denominator(denominator);
-                        u += numerator_unit(note.duration);
                         ret.push(Rc::new(note));
                     }
+                    u += e.unit().unwrap_or(0);
                 },
             }
         }
-- 
2.43.0


From f6d510b23e5fae762c9d93f33fd355f2b61bf18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 10/24] fix: report D.C./D.S. inside an open repeat or
 variation, drop empty playback ranges

---
 src/global_repeat.rs | 18 +++++++-----------
 src/repeat.rs        | 16 ++++++++++++++--
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 0a4fa23..6b80289 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -193,17 +193,13 @@ impl GlobalRepeatBuilder {
   fn to_interval_set(start_tick: u32, fine: Option<u32>, coda: Option<[u32; 2]>) -> IntervalSet<u32> {
     let end_tick = fine.unwrap_or(u32::MAX);
     match coda {
-        Some([coda_from, coda_to]) => vec![
-          (start_tick, coda_from - 1), (coda_to, end_tick - 1)
-        ],
-        None => {
-          if end_tick <= start_tick {
-            vec![]
-          } else {
-            vec![(start_tick, end_tick - 1)]
-          }
-        }
-    }.to_interval_set()
+        Some([coda_from, coda_to]) => vec![(start_tick, coda_from), (coda_to, end_tick)],
+        None => vec![(start_tick, end_tick)],
+    }.into_iter()
+      .filter(|(from, to)| from < to)
+      .map(|(from, to)| (from, to - 1))
+      .collect::<Vec<(u32, u32)>>()
+      .to_interval_set()
   }
 
   pub fn build(self) -> Result<(Option<GlobalRepeat>, Vec<RenderRegionWarning>), RenderRegionError> {
diff --git a/src/repeat.rs b/src/repeat.rs
index fb0ee3c..476181e 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -148,7 +148,11 @@ impl Region for SequenceRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    if self.tick_range.is_empty() {
+      vec![].to_interval_set()
+    } else {
+      (self.tick_range.start, self.tick_range.end - 1).to_interval_set()
+    }
   }
 }
 
@@ -183,7 +187,7 @@ impl Region for RepeatRegion {
   }
 
   fn to_iter1_interval_set(&self) -> IntervalSet<u32> {
-    (self.region.start_tick(), self.region.end_tick() - 1).to_interval_set()
+    self.region.to_iter1_interval_set()
   }
 }
 
@@ -395,6 +399,14 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
 
     state = match &state {
       RenderRegionState::Idle => {
+        // The repeat or variation closed here has started at the top of the tune.
+        if let Some(tick) = global_repeat.ds_dc.map(|d| d.tick()).filter(|t| 0 < *t) {
+          if bar.repeats.contains(Repeat::End) && tick < bar.base_start_tick() {
+            return Err(report!(RenderRegionError::DcDsWhileRepeat { tick }));
+          } else if bar.repeats.region_index().is_some() {
+            return Err(report!(RenderRegionError::DcDsWhileVariation { tick }));
+          }
+        }
         if bar.repeats.contains(Repeat::Start) && bar.repeats.contains(Repeat::End) {
           regions.push(Box::new(RepeatRegion { region: SequenceRegion { tick_range: 0..bar.base_start_tick() }}));
           RenderRegionState::RepeatStart { start_tick: bar.base_start_tick() }
-- 
2.43.0


From f17a5e77f574c9b1ef0d9c3e8e7b9fe8c9f5a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:32 +0000
Subject: [PATCH 11/24] fix: measure the bar that D.C. closes to decide where
 the second pass starts

---
 src/global_repeat.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/global_repeat.rs b/src/global_repeat.rs
index 6b80289..5e3b71d 100644
--- a/src/global_repeat.rs
+++ b/src/global_repeat.rs
@@ -39,6 +39,8 @@ pub struct GlobalRepeatBuilder {
   pub first_bar_len: Option<u32>,
   pub top_rhythm: Rhythm,
   pub warnings: Vec<RenderRegionWarning>,
+  // The bar just before the one being processed.
+  prev_bar_tick: u32,
 }
 
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -74,6 +76,7 @@ impl GlobalRepeatBuilder {
       first_bar_len: None,
       top_rhythm: tune_rhythm,
       warnings: vec![],
+      prev_bar_tick: 0,
     }
   }
 
@@ -160,20 +163,15 @@ impl GlobalRepeatBuilder {
     }
 
     if repeats.contains(Repeat::Dc) {
-      match self.first_bar_len {
-        Some(first_bar_len) => {
-          self = self.adding_dc(tick, first_bar_len)?;
-        }
-        None => {
-          self = self.adding_dc(tick, 0)?;
-        }
-      }
+      let len = tick.saturating_sub(self.prev_bar_tick);
+      self = self.adding_dc(tick, len)?;
     }
 
     self = if repeats.contains(Repeat::Ds) { self.adding_ds(tick)? } else { self };
     self = if repeats.contains(Repeat::Fine) { self.adding_fine(tick)? } else { self };
     self = if repeats.contains(Repeat::Segno) { self.adding_segno(tick)? } else { self };
     self = if repeats.contains(Repeat::Coda) { self.adding_coda(tick)? } else { self };
+    self.prev_bar_tick = tick;
 
     Ok(self)
   }
@@ -216,10 +214,10 @@ impl GlobalRepeatBuilder {
                 segno_tick
               } else {
                 let rhythm_tick_len = self.top_rhythm.tick_len();
-                if len + first_bar_len == rhythm_tick_len {
-                  0
-                } else if len == rhythm_tick_len && first_bar_len == rhythm_tick_len {
-                  0
+                if rhythm_tick_len <= first_bar_len {
+                  0 // No auftakt.
+                } else if len.saturating_add(first_bar_len) <= rhythm_tick_len {
+                  0 // The last bar is short. The auftakt completes it.
                 } else {
                   first_bar_len
                 }
-- 
2.43.0


From 310d19d611596d80d441b9eddf9210a665817495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 12/24] fix: refuse clashing bar marks whichever of them is
 added first

---
 src/bar.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 812e7df..14495c7 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -117,7 +117,12 @@ impl RepeatSet {
     );
 
     const DS_DISLIKE: EnumSet<Repeat> = enum_set!(
-        Repeat::Start
+        Repeat::Start | Repeat::Dc
+        | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
+    );
+
+    const SEGNO_DISLIKE: EnumSet<Repeat> = enum_set!(
+        Repeat::Dc
         | Repeat::Var1 | Repeat::Var2 | Repeat::Var3 | Repeat::Var4
     );
 
@@ -162,7 +167,7 @@ impl RepeatSet {
             Repeat::Dc => self.try_add_repeat(Self::DC_DISLIKE, r),
             Repeat::Fine => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Ds => self.try_add_repeat(Self::DS_DISLIKE, r),
-            Repeat::Segno => self.try_add_repeat(EnumSet::empty(), r),
+            Repeat::Segno => self.try_add_repeat(Self::SEGNO_DISLIKE, r),
             Repeat::Coda => self.try_add_repeat(EnumSet::empty(), r),
             Repeat::Var1 => self.try_add_repeat(Self::REGION1_DISLIKE, r),
             Repeat::Var2 => self.try_add_repeat(Self::REGION2_DISLIKE, r),
-- 
2.43.0


From 779914242e67e5593b780d054a2cac58966ec071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:06 +0000
Subject: [PATCH 13/24] fix: stop a drag at tick 0 and at the outermost pitches

---
 src/bar.rs      |  2 +-
 src/ctrl_chg.rs |  2 +-
 src/note.rs     | 12 ++++++++++--
 src/tempo.rs    |  2 +-
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 14495c7..0c8ac07 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -248,7 +248,7 @@ impl Bar {
 
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: ((self.start_tick as i64) + tick_delta as i64) as u32,
+             start_tick: ((self.start_tick as i64) + tick_delta as i64).max(0) as u32,
              ..*self
         }
     }
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index 2d704ad..c3cd95a 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -16,7 +16,7 @@ impl CtrlChg {
     
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
+             start_tick: (self.start_tick as i64 + tick_delta as i64).max(0) as u32,
              ..*self
         }
     }
diff --git a/src/note.rs b/src/note.rs
index a247256..1580fa1 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -139,9 +139,17 @@ impl Note {
     
     pub fn drag(&self, tick_delta: i32, score_offset_delta: i32) -> Self {
         let tick = self.base_start_tick as i64 + tick_delta as i64;
-        let pitch = self.pitch.with_score_offset_delta(score_offset_delta).unwrap();
+        // Stop at the top and the bottom of the available pitches.
+        let mut delta = score_offset_delta.clamp(i8::MIN as i32, i8::MAX as i32);
+        let pitch = loop {
+            match self.pitch.with_score_offset_delta(delta) {
+                Ok(pitch) => break pitch,
+                Err(_) if delta == 0 => break self.pitch,
+                Err(_) => delta -= delta.signum(),
+            }
+        };
         Self {
-            base_start_tick: tick as u32,
+            base_start_tick: tick.max(0) as u32,
             pitch: pitch,
             ..*self
         }
diff --git a/src/tempo.rs b/src/tempo.rs
index 0433971..e322e1c 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -101,7 +101,7 @@ impl Tempo {
 
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64) as u32,
+             start_tick: (self.start_tick as i64 + tick_delta as i64).max(0) as u32,
              value: TempoValue::safe_new(
                 (self.value.as_u16() as i32).saturating_add(tempo_delta).clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
              ),
-- 
2.43.0


From 32a440d2633481782116109ddacc025ee176ee41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 14/24] fix: keep no undo entry when the undo store has
 capacity 0

---
 src/undo.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undo.rs b/src/undo.rs
index eb0b7e0..b8e6e59 100644
--- a/src/undo.rs
+++ b/src/undo.rs
@@ -37,7 +37,7 @@ impl UndoStore {
     }
     
     pub fn add(&mut self, undo: Undo) {
-        if self.is_freezed { return; }
+        if self.is_freezed || self.capacity == 0 { return; }
         if self.index != 0 {
             self.store = self.store.split_off(self.index);
             self.index = 0;
-- 
2.43.0


From 3b227eb37cbd981055394d5ec6d6273535de9482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:25 +0000
Subject: [PATCH 15/24] fix: report a wrong variation mark after the fourth
 variation instead of panicking

---
 src/repeat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repeat.rs b/src/repeat.rs
index 476181e..df56488 100644
--- a/src/repeat.rs
+++ b/src/repeat.rs
@@ -472,7 +472,7 @@ pub fn render_region<'a>(tune_rhythm: Rhythm, bars: impl Iterator<Item = &'a Bar
             RenderRegionState::Variation { start_tick: *start_tick, region_start_ticks: rst }
           } else {
             return Err(report!(RenderRegionError::InvalidRegionIndex {
-              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap()
+              tick: bar.base_start_tick(), actual: ri, expected: VarIndex::from_value(current_idx + 1).unwrap_or(VarIndex::VI4)
             }));
           }
         } else {
-- 
2.43.0


From 5cfd57647683a644f0477c9a94cfebb42a59ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:03 +0000
Subject: [PATCH 16/24] fix: report a staff move far out of range instead of
 overflowing

---
 src/pitch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pitch.rs b/src/pitch.rs
index 373cce5..9d30f56 100644
--- a/src/pitch.rs
+++ b/src/pitch.rs
@@ -164,7 +164,7 @@ impl Pitch {
     }
 
     pub fn with_score_offset_delta(self, score_offset_delta: i32) -> Result<Self, PitchError> {
-        let score_offset = self.score_offset as i32 + score_offset_delta;
+        let score_offset = (self.score_offset as i32).saturating_add(score_offset_delta);
         if score_offset < MIN_SCORE_OFFSET || MAX_SCORE_OFFSET < score_offset {
             return Err(PitchError::InvalidScoreOffset(score_offset));
         }
-- 
2.43.0


From cdc95a4f604295a20068bab203240727662dbbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:04 +0000
Subject: [PATCH 17/24] fix: report an octave number far out of range instead
 of overflowing

---
 src/octave.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/octave.rs b/src/octave.rs
index 60acfd4..39046ff 100644
--- a/src/octave.rs
+++ b/src/octave.rs
@@ -35,7 +35,7 @@ impl Octave {
     pub const BIAS_VALUE: i32 = 2;
 
     pub const fn value_of(value: i32) -> Result<Octave, OctaveError> {
-        Self::from_score_offset(value + Self::BIAS_VALUE)
+        Self::from_score_offset(value.saturating_add(Self::BIAS_VALUE))
     }
 
     pub const fn from_score_offset(idx: i32) -> Result<Octave, OctaveError> {
-- 
2.43.0


From e4fe0d69fe5bc2785bb903ddddbb37d55b975b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:06 +0000
Subject: [PATCH 18/24] fix: refuse adding a huge number of dots instead of
 overflowing

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index 1580fa1..d5df77e 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -156,7 +156,7 @@ impl Note {
     }
 
     pub fn add_dots(&self, dots_to_add: i32) -> Result<Self, InvalidDot> {
-        let new_dots = self.duration.dots.value() as i32 + dots_to_add;
+        let new_dots = (self.duration.dots.value() as i32).saturating_add(dots_to_add);
         if new_dots < 0 || (Duration::MAX_DOT as i32) < new_dots {
             Err(InvalidDot(new_dots))
         } else {
-- 
2.43.0


From 0636345cf5df132cee778e91bf2f79f8a3b5859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:39 +0000
Subject: [PATCH 19/24] fix: limit a note's trimmed start to the position range
 instead of wrapping around

---
 src/note.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/note.rs b/src/note.rs
index d5df77e..e26d682 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -72,7 +72,7 @@ impl Note {
     #[inline]
     pub fn start_tick(&self) -> u32 {
         let tick = self.base_start_tick as i64 + self.start_tick_trimmer.sum() as i64;
-        if tick < 0 { 0 } else { tick as u32 }
+        tick.clamp(0, u32::MAX as i64) as u32
     }
 
     #[inline]
-- 
2.43.0


From 3b4fa6fd98efc01543f35e076318801fabdb1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 20/24] fix: stop moves and drags at the last position instead
 of wrapping around

---
 src/bar.rs      | 4 +++-
 src/ctrl_chg.rs | 4 +++-
 src/note.rs     | 5 ++++-
 src/tempo.rs    | 4 +++-
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/bar.rs b/src/bar.rs
index 0c8ac07..19c6d4b 100644
--- a/src/bar.rs
+++ b/src/bar.rs
@@ -248,7 +248,7 @@ impl Bar {
 
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: ((self.start_tick as i64) + tick_delta as i64).max(0) as u32,
+             start_tick: ((self.start_tick as i64) + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
              ..*self
         }
     }
@@ -257,6 +257,8 @@ impl Bar {
         let tick = (self.start_tick as i64) + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
diff --git a/src/ctrl_chg.rs b/src/ctrl_chg.rs
index c3cd95a..ea935e4 100644
--- a/src/ctrl_chg.rs
+++ b/src/ctrl_chg.rs
@@ -16,7 +16,7 @@ impl CtrlChg {
     
     pub fn drag(&self, tick_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64).max(0) as u32,
+             start_tick: (self.start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
              ..*self
         }
     }
@@ -25,6 +25,8 @@ impl CtrlChg {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
diff --git a/src/note.rs b/src/note.rs
index e26d682..c6496a4 100644
--- a/src/note.rs
+++ b/src/note.rs
@@ -21,6 +21,7 @@ use derive_builder::Builder;
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
 pub enum TickError {
     Minus,
+    Overflow,
 }
 
 #[derive(Clone, Copy, PartialEq, Eq, Debug)]
@@ -126,6 +127,8 @@ impl Note {
                 let mut copied = self.clone();
                 copied.start_tick_trimmer = self.start_tick_trimmer.added(tick_delta);
                 Ok(copied)
+            } else if (u32::MAX as i64) < tick {
+                Err(TickError::Overflow)
             } else {
                 Ok(
                     Self {
@@ -149,7 +152,7 @@ impl Note {
             }
         };
         Self {
-            base_start_tick: tick.max(0) as u32,
+            base_start_tick: tick.clamp(0, u32::MAX as i64) as u32,
             pitch: pitch,
             ..*self
         }
diff --git a/src/tempo.rs b/src/tempo.rs
index e322e1c..1f7493f 100644
--- a/src/tempo.rs
+++ b/src/tempo.rs
@@ -101,7 +101,7 @@ impl Tempo {
 
     pub fn drag(&self, tick_delta: i32, tempo_delta: i32) -> Self {
         Self {
-             start_tick: (self.start_tick as i64 + tick_delta as i64).max(0) as u32,
+             start_tick: (self.start_tick as i64 + tick_delta as i64).clamp(0, u32::MAX as i64) as u32,
              value: TempoValue::safe_new(
                 (self.value.as_u16() as i32).saturating_add(tempo_delta).clamp(MIN_TEMPO_VALUE as i32, MAX_TEMPO_VALUE as i32) as u16
              ),
@@ -113,6 +113,8 @@ impl Tempo {
         let tick = self.start_tick as i64 + tick_delta as i64;
         if tick < 0 {
             Err(TickError::Minus)
+        } else if (u32::MAX as i64) < tick {
+            Err(TickError::Overflow)
         } else {
             Ok(
                 Self {
-- 
2.43.0


From f9cb3eb0706c9ac436e49248a75ea046fcc029ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:55 +0000
Subject: [PATCH 21/24] fix: find playback times of positions near the end of
 the tick range

---
 src/play_start_tick.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/play_start_tick.rs b/src/play_start_tick.rs
index c00406e..1a33e18 100644
--- a/src/play_start_tick.rs
+++ b/src/play_start_tick.rs
@@ -26,7 +26,7 @@ impl PlayStartTick {
         for (accum_tick, chunk) in chunks {
             if chunk.contains(self.tick) {
                 if cur_iter == self.iter.iter() {
-                    return Ok(accum_tick + self.tick - chunk.start_tick());
+                    return Ok(accum_tick + (self.tick - chunk.start_tick()));
                 }
                 cur_iter += 1;
             }
-- 
2.43.0


From e2989b47929397ab1cf34f4740fc5e1dc5c8a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:27 +0000
Subject: [PATCH 22/24] fix: stop adding bars where no further bar line fits,
 instead of wrapping around

---
 src/project.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/project.rs b/src/project.rs
index 2085e53..5805cc3 100644
--- a/src/project.rs
+++ b/src/project.rs
@@ -330,7 +330,7 @@ impl ProjectImpl {
         if start_tick < 0 { start_tick = 0; }
         let mut max_tick_loc = 0;
         for (tick, note) in self.note_repo.range(start_tick as u32..) {
-            let end_tick = tick + note.tick_len();
+            let end_tick = tick.saturating_add(note.tick_len());
             max_tick_loc = max_tick_loc.max(end_tick);
         }
         
@@ -365,7 +365,10 @@ impl ProjectImpl {
         if max_end_tick <= bar_tick { return replenished_bars; }
         let bar_tick_len = self.rhythm_at(bar_tick).tick_len();
         while bar_tick < max_end_tick {
-            bar_tick += bar_tick_len;
+            bar_tick = match bar_tick.checked_add(bar_tick_len) {
+                Some(tick) => tick,
+                None => break,
+            };
             let bar = Bar::new(bar_tick, None, None, RepeatSet::EMPTY);
             self.add_bar_internal(bar, false);
             replenished_bars.push(bar);
-- 
2.43.0


From 93bf8d022530f3080626fa8229743b4b94940ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 23/24] fix: a tuplet that does not fit before the last
 position wrapped around

---
 src/tuple.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tuple.rs b/src/tuple.rs
index 5272a85..774b7c8 100644
--- a/src/tuple.rs
+++ b/src/tuple.rs
@@ -14,6 +14,8 @@ pub fn tuplize(notes: Vec<Rc<Note>>) -> Vec<Rc<Note>> {
         let denominator = total_unit / min_unit;
         if denominator < 2 { return notes; }
         let total_tick = total_tick / denominator * 2;
+        // The tuplet does not fit before the last position.
+        if start_tick.checked_add(total_tick).is_none() { return notes; }
         let denominator = match u8::try_from(denominator).ok().and_then(Denominator::from_value) {
             Some(d) => d,
             None => return notes,
-- 
2.43.0


From 2cd488a9e7f701a171db847204738640800cfa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:44 +0000
Subject: [PATCH 24/24] fix: moving a selection past the last position wrapped
 around to the start of the tune

---
 src/models.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/models.rs b/src/models.rs
index 6a569e7..39f86f3 100644
--- a/src/models.rs
+++ b/src/models.rs
@@ -71,21 +71,23 @@ impl Models {
 
         let offset: i64 = (tick as i64) - (smallest_tick as i64);
         if offset == 0 { return self }
+        // Stop at the last position.
+        let moved = |tick: u32| (tick as i64 + offset).clamp(0, u32::MAX as i64) as u32;
 
         for n in self.notes.iter_mut() {
-            n.base_start_tick = ((n.base_start_tick as i64) + offset) as u32;
+            n.base_start_tick = moved(n.base_start_tick);
         }
         for b in self.bars.iter_mut() {
-            b.start_tick = ((b.start_tick as i64) + offset) as u32;
+            b.start_tick = moved(b.start_tick);
         }
         for t in self.tempos.iter_mut() {
-            t.start_tick = ((t.start_tick as i64) + offset) as u32;
+            t.start_tick = moved(t.start_tick);
         }
         for d in self.dumpers.iter_mut() {
-            d.start_tick = ((d.start_tick as i64) + offset) as u32;
+            d.start_tick = moved(d.start_tick);
         }
         for s in self.softs.iter_mut() {
-            s.start_tick = ((s.start_tick as i64) + offset) as u32;
+            s.start_tick = moved(s.start_tick);
         }
 
         self
-- 
2.43.0

