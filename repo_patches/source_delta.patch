From e03466e42d848640cf4279837f21fe4f0a051c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 01/11] fix: reject out-of-range literals when loading a CNF
 file

SatSolverIF::build documents InvalidLiteral for a literal whose variable is
not declared, but inject pushed it unchecked: an index out of bounds (undefined
behaviour with unsafe_access), and a number too big for i32 was dropped.
---
 src/solver/build.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index b47a399..ea87e0d 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -12,6 +12,7 @@ use {
 use std::{
     fs::File,
     io::{BufRead, BufReader},
+    num::IntErrorKind,
     path::Path,
 };
 
@@ -302,7 +303,18 @@ impl Solver {
                                 ends_zero = true;
                                 break;
                             }
+                            Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Ok(val) => v.push(Lit::from(val)),
+                            Err(e)
+                                if matches!(
+                                    e.kind(),
+                                    IntErrorKind::PosOverflow | IntErrorKind::NegOverflow
+                                ) =>
+                            {
+                                return Err(SolverError::InvalidLiteral);
+                            }
                             Err(_) => (),
                         }
                     }
-- 
2.43.0


From bfdf39e018c8bd0099971d086759b7f1423aa702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 02/11] fix: read a DIMACS file as 0-terminated clauses, not as
 lines

A clause is ended by 0, not by the line break.  inject took one clause per
line: of several clauses on a line only the first was loaded ('1 0 -1 0' was
satisfiable), and a clause written on two lines became two clauses.
---
 src/solver/build.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/solver/build.rs b/src/solver/build.rs
index ea87e0d..4f12ab0 100644
--- a/src/solver/build.rs
+++ b/src/solver/build.rs
@@ -288,20 +288,20 @@ impl Solver {
         self.state.progress(&self.asg, &self.cdb);
         self.state.flush("Initialization phase: loading...");
         let mut buf = String::new();
+        let mut v: Vec<Lit> = Vec::new();
         loop {
             buf.clear();
-            let mut ends_zero = false;
             match reader.read_line(&mut buf) {
                 Ok(0) => break,
                 Ok(_) if buf.starts_with('c') => continue,
                 Ok(_) => {
-                    let iter = buf.split_whitespace();
-                    let mut v: Vec<Lit> = Vec::new();
-                    for s in iter {
+                    for s in buf.split_whitespace() {
                         match s.parse::<i32>() {
                             Ok(0) => {
-                                ends_zero = true;
-                                break;
+                                if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+                                    return Err(SolverError::EmptyClause);
+                                }
+                                v.clear();
                             }
                             Ok(val) if self.asg.num_vars < val.unsigned_abs() as usize => {
                                 return Err(SolverError::InvalidLiteral);
@@ -318,18 +318,14 @@ impl Solver {
                             Err(_) => (),
                         }
                     }
-                    if v.is_empty() {
-                        if ends_zero {
-                            return Err(SolverError::EmptyClause);
-                        }
-                        continue;
-                    } else if self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
-                        return Err(SolverError::EmptyClause);
-                    }
                 }
                 Err(e) => panic!("{}", e),
             }
         }
+        // the terminator of the last clause can be omitted
+        if !v.is_empty() && self.add_unchecked_clause(&mut v) == RefClause::EmptyClause {
+            return Err(SolverError::EmptyClause);
+        }
         debug_assert_eq!(self.asg.num_vars, self.state.target.num_of_variables);
         // s.state[Stat::NumBin] = s.cdb.iter().skip(1).filter(|c| c.len() == 2).count();
         Ok(self)
-- 
2.43.0


From 6559055f71044fddc77ea842968494fa3a0d8232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 03/11] fix: report a malformed CNF header as IOError instead
 of panicking

---
 src/types/cnf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types/cnf.rs b/src/types/cnf.rs
index f9145f1..98446bd 100644
--- a/src/types/cnf.rs
+++ b/src/types/cnf.rs
@@ -120,8 +120,8 @@ impl TryFrom<&Path> for CNFReader {
                     let mut iter = buf.split_whitespace();
                     if iter.next() == Some("p")
                         && iter.next() == Some("cnf")
-                        && let Some(v) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
-                        && let Some(c) = iter.next().map(|s| s.parse::<usize>().ok().unwrap())
+                        && let Some(v) = iter.next().and_then(|s| s.parse::<usize>().ok())
+                        && let Some(c) = iter.next().and_then(|s| s.parse::<usize>().ok())
                     {
                         nv = v;
                         nc = c;
-- 
2.43.0


From 18aa60d4e495a510a8757bc484a3a7cd6e42a1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:38 +0000
Subject: [PATCH 04/11] fix: check literal ranges in inject_assignment

An assignment naming 0 or an undeclared variable was an index out of bounds
(undefined behaviour with unsafe_access); report InvalidLiteral as
add_assignment does, before assigning anything.
---
 src/solver/validate.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solver/validate.rs b/src/solver/validate.rs
index acdb66d..9741fb6 100644
--- a/src/solver/validate.rs
+++ b/src/solver/validate.rs
@@ -12,7 +12,8 @@ pub trait ValidateIF {
     ///
     /// # Errors
     ///
-    /// if solver becomes inconsistent.
+    /// if solver becomes inconsistent, or `SolverError::InvalidLiteral` if a literal is
+    /// out of range for var index.
     fn inject_assignment(&mut self, vec: &[i32]) -> MaybeInconsistent;
     /// return `true` is the loaded assignment set is satisfiable (a model of a problem).
     fn validate(&self) -> Option<Vec<i32>>;
@@ -40,6 +41,12 @@ impl ValidateIF for Solver {
         if vec.is_empty() {
             return Err(SolverError::Inconsistent);
         }
+        if vec
+            .iter()
+            .any(|i| *i == 0 || self.asg.num_vars < i.unsigned_abs() as usize)
+        {
+            return Err(SolverError::InvalidLiteral);
+        }
         for i in vec {
             self.asg.assign_at_root_level(Lit::from(*i))?;
         }
-- 
2.43.0


From fbf9b121c584858446fd7b002a90f1999dbc139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:31 +0000
Subject: [PATCH 05/11] read access for verification tools behind
 cfg(splr_verif)

---
 src/assign/heap.rs         | 18 ++++++++++++++++++
 src/cdb/binary.rs          | 11 +++++++++++
 src/cdb/db.rs              | 27 +++++++++++++++++++++++++++
 src/lib.rs                 |  1 +
 src/processor/eliminate.rs | 26 ++++++++++++++++++++++++++
 src/processor/mod.rs       |  6 ++++++
 src/processor/subsume.rs   | 17 +++++++++++++++++
 src/solver/mod.rs          |  2 ++
 8 files changed, 108 insertions(+)

diff --git a/src/assign/heap.rs b/src/assign/heap.rs
index 2552dca..0826e33 100644
--- a/src/assign/heap.rs
+++ b/src/assign/heap.rs
@@ -255,3 +255,21 @@ impl VarIdHeap {
         println!(" - pass var_order test at {s}");
     }
 }
+
+/// Read access for external verification tools (built with `--cfg splr_verif`).
+#[cfg(splr_verif)]
+impl AssignStack {
+    pub fn verif_heap(&self) -> (&[u32], &[u32]) {
+        (&self.var_order.heap, &self.var_order.idxs)
+    }
+    pub fn verif_trail(&self) -> (&[usize], usize, &[Lit]) {
+        #[cfg(feature = "trail_saving")]
+        let saved: &[Lit] = &self.trail_saved;
+        #[cfg(not(feature = "trail_saving"))]
+        let saved: &[Lit] = &[];
+        (&self.trail_lim, self.q_head, saved)
+    }
+    pub fn verif_remove_from_heap(&mut self, vi: VarId) {
+        self.remove_from_heap(vi);
+    }
+}
diff --git a/src/cdb/binary.rs b/src/cdb/binary.rs
index 1613e37..1094a8c 100644
--- a/src/cdb/binary.rs
+++ b/src/cdb/binary.rs
@@ -147,3 +147,14 @@ impl BinaryLinkIF for BinaryLinkDB {
     }
     */
 }
+
+/// Read access for external verification tools (built with `--cfg splr_verif`).
+#[cfg(splr_verif)]
+impl BinaryLinkDB {
+    pub fn verif_lookup(&self) -> &HashMap<(Lit, Lit), ClauseId> {
+        &self.hash
+    }
+    pub fn verif_num_lits(&self) -> usize {
+        self.list.len()
+    }
+}
diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 650a669..b154df4 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1436,3 +1436,30 @@ impl Clause {
         self.rank as f64
     }
 }
+
+/// Read access for external verification tools (built with `--cfg splr_verif`).
+#[cfg(splr_verif)]
+impl ClauseDB {
+    pub fn verif_watches(&self, l: Lit) -> &[(ClauseId, Lit)] {
+        &self.watch_cache[usize::from(l)]
+    }
+    pub fn verif_num_lits(&self) -> (usize, usize, usize) {
+        (
+            self.watch_cache.len(),
+            self.binary_link.verif_num_lits(),
+            self.lbd_temp.len(),
+        )
+    }
+    pub fn verif_lookup(&self) -> &HashMap<(Lit, Lit), ClauseId> {
+        self.binary_link.verif_lookup()
+    }
+    pub fn verif_search(&self, l0: Lit, l1: Lit) -> Option<ClauseId> {
+        self.link_to_cid(l0, l1).copied()
+    }
+    pub fn verif_freelist(&self) -> &[ClauseId] {
+        &self.freelist
+    }
+    pub fn verif_counts(&self) -> (usize, usize, usize) {
+        (self.num_clause, self.num_bi_clause, self.num_learnt)
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index d1a107a..460a0fb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,4 +1,5 @@
 #![allow(clippy::upper_case_acronyms)]
+#![allow(unexpected_cfgs)]
 /*!
 # A modern CDCL SAT solver in Rust
 
diff --git a/src/processor/eliminate.rs b/src/processor/eliminate.rs
index 47522f3..a2bd4d4 100644
--- a/src/processor/eliminate.rs
+++ b/src/processor/eliminate.rs
@@ -317,6 +317,32 @@ fn make_eliminated_clause(
     println!("# make_eliminated_clause: eliminate({}) clause {}", vi, c);
 }
 
+/// Access for external verification tools (built with `--cfg splr_verif`).
+#[cfg(splr_verif)]
+pub fn verif_merge(
+    asg: &mut impl AssignIF,
+    cdb: &mut impl ClauseDBIF,
+    cip: ClauseId,
+    ciq: ClauseId,
+    vi: VarId,
+    vec: &mut Vec<Lit>,
+) -> (Option<usize>, usize) {
+    (
+        merge_cost(asg, cdb, cip, ciq, vi),
+        merge(asg, cdb, cip, ciq, vi, vec),
+    )
+}
+#[cfg(splr_verif)]
+pub fn verif_record(
+    cdb: &mut impl ClauseDBIF,
+    store: &mut Vec<Lit>,
+    v: VarId,
+    pos: &[ClauseId],
+    neg: &[ClauseId],
+) {
+    make_eliminated_clauses(cdb, store, v, pos, neg);
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/processor/mod.rs b/src/processor/mod.rs
index c470346..bd52e0e 100644
--- a/src/processor/mod.rs
+++ b/src/processor/mod.rs
@@ -25,6 +25,12 @@ mod heap;
 mod simplify;
 mod subsume;
 
+#[cfg(splr_verif)]
+pub use self::{
+    eliminate::{eliminate_var as verif_eliminate_var, verif_merge, verif_record},
+    subsume::verif_subsuming,
+};
+
 use {
     crate::{
         assign::AssignIF,
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index eb15d73..8c4eb08 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -121,3 +121,20 @@ fn strengthen_clause(
         RefClause::Dead | RefClause::EmptyClause => unreachable!("strengthen_clause"),
     }
 }
+
+/// Access for external verification tools (built with `--cfg splr_verif`).
+/// - `Ok(true)`: `other` is subsumed by `cid`
+/// - `Ok(false)`: nothing to do
+/// - `Err(l)`: `!l` can be removed from `other`
+#[cfg(splr_verif)]
+pub fn verif_subsuming(
+    cdb: &mut impl ClauseDBIF,
+    cid: ClauseId,
+    other: ClauseId,
+) -> Result<bool, Lit> {
+    match have_subsuming_lit(cdb, cid, other) {
+        Subsumable::Success => Ok(true),
+        Subsumable::None => Ok(false),
+        Subsumable::By(l) => Err(l),
+    }
+}
diff --git a/src/solver/mod.rs b/src/solver/mod.rs
index b9ea893..dbed514 100644
--- a/src/solver/mod.rs
+++ b/src/solver/mod.rs
@@ -3,6 +3,8 @@
 mod build;
 /// Module 'conflict' handles conflicts.
 mod conflict;
+#[cfg(splr_verif)]
+pub use self::conflict::handle_conflict as verif_handle_conflict;
 /// Module `restart` provides restart heuristics.
 pub mod restart;
 /// CDCL search engine
-- 
2.43.0


From dc5671a4c7f8128533ef5e6943774cb65c03498f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:55 +0000
Subject: [PATCH 06/11] fix: keep the learnt-clause count when a learnt clause
 replaces a subsumed one

---
 src/cdb/db.rs            | 7 +++++++
 src/cdb/mod.rs           | 2 ++
 src/processor/subsume.rs | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index b154df4..23c5b88 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1027,6 +1027,13 @@ impl ClauseDBIF for ClauseDB {
         }
         learnt
     }
+    fn promote_learnt(&mut self, cid: ClauseId) {
+        let c = &mut self.clause[NonZeroU32::get(cid.ordinal) as usize];
+        if c.is(FlagClause::LEARNT) {
+            c.turn_off(FlagClause::LEARNT);
+            self.num_learnt -= 1;
+        }
+    }
     /// reduce the number of 'learnt' or *removable* clauses.
     fn reduce(&mut self, asg: &mut impl AssignIF, setting: ReductionType) {
         let ClauseDB {
diff --git a/src/cdb/mod.rs b/src/cdb/mod.rs
index dced024..c7fe8a4 100644
--- a/src/cdb/mod.rs
+++ b/src/cdb/mod.rs
@@ -115,6 +115,8 @@ pub trait ClauseDBIF:
     fn transform_by_replacement(&mut self, cid: ClauseId, vec: &mut Vec<Lit>) -> RefClause;
     /// check satisfied and nullified literals in a clause
     fn transform_by_simplification(&mut self, asg: &mut impl AssignIF, cid: ClauseId) -> RefClause;
+    /// make a clause a non-removable one.
+    fn promote_learnt(&mut self, cid: ClauseId);
     /// reduce learnt clauses
     /// # CAVEAT
     /// *precondition*: decision level == 0.
diff --git a/src/processor/subsume.rs b/src/processor/subsume.rs
index 8c4eb08..b639226 100644
--- a/src/processor/subsume.rs
+++ b/src/processor/subsume.rs
@@ -28,7 +28,7 @@ impl Eliminator {
                 );
                 debug_assert!(!cdb[did].is_dead());
                 if !cdb[did].is(FlagClause::LEARNT) {
-                    cdb[cid].turn_off(FlagClause::LEARNT);
+                    cdb.promote_learnt(cid);
                 }
                 self.remove_cid_occur(asg, did, &mut cdb[did]);
                 cdb.remove_clause(did);
-- 
2.43.0


From e39756e7af4155cf84046ca4e7ff66ec6036068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 07/11] fix: count a variable added to a solver in its CNF
 description

solve() sizes the eliminator's tables by state.cnf, which add_var left
unchanged; an occurrence of an added variable was out of their bounds.
---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index d5b9845..0019352 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -229,6 +229,7 @@ impl Instantiate for State {
     fn handle(&mut self, e: SolverEvent) {
         match e {
             SolverEvent::NewVar => {
+                self.cnf.num_of_variables += 1;
                 self.target.num_of_variables += 1;
             }
             SolverEvent::Assert(_) => (),
-- 
2.43.0


From 25d5290bc8fb5718e8dc0bc342032902a86e06db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:48 +0000
Subject: [PATCH 08/11] fix: don't take variables for pure literals when the
 eliminator is disabled

With enable_eliminator off the occurrence lists stay empty, so solve()
asserted every variable as a pure literal and answered UNSAT.
---
 src/processor/simplify.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index f62dbdb..931e87a 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -309,7 +309,8 @@ impl EliminateIF for Eliminator {
     }
     fn stats(&self, vi: VarId) -> Option<(usize, usize)> {
         let w = &self[vi];
-        if w.aborted {
+        // The occurrence lists are filled only while the eliminator runs.
+        if !self.is_running() || w.aborted {
             None
         } else {
             Some((w.pos_occurs.len(), w.neg_occurs.len()))
-- 
2.43.0


From 5edb3b96498a97198e9bae80f9d22e7c7eb81a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:47 +0000
Subject: [PATCH 09/11] fix: keep the watch search position of a clause of
 65536 or more literals valid

---
 src/assign/propagate.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assign/propagate.rs b/src/assign/propagate.rs
index 6246f73..9d4b410 100644
--- a/src/assign/propagate.rs
+++ b/src/assign/propagate.rs
@@ -512,7 +512,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k + 1) as u16;
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert_ne!(self.assigned(new_watch), Some(true));
                             check_in!(
                                 cid,
@@ -692,7 +692,7 @@ impl PropagateIF for AssignStack {
                             let new_watch = !*lk;
                             cdb.detach_watch_cache(propagating, &mut source);
                             cdb.transform_by_updating_watch(cid, false_watch_pos, k, true);
-                            cdb[cid].search_from = (k as u16).saturating_add(1);
+                            cdb[cid].search_from = (k + 1).min(u16::MAX as usize) as u16;
                             debug_assert!(
                                 self.assigned(!new_watch) == Some(true)
                                     || self.assigned(!new_watch).is_none()
-- 
2.43.0


From e2b6818a2599d15232467a69de10942e66852811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:04 +0000
Subject: [PATCH 10/11] fix: a clause limit above usize::MAX / 3 overflows in
 check_size

---
 src/cdb/db.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdb/db.rs b/src/cdb/db.rs
index 23c5b88..77930e8 100644
--- a/src/cdb/db.rs
+++ b/src/cdb/db.rs
@@ -1148,7 +1148,7 @@ impl ClauseDBIF for ClauseDB {
     fn check_size(&self) -> Result<bool, SolverError> {
         if self.soft_limit == 0 || self.num_clause <= self.soft_limit {
             let nc = self.derefer(property::Tusize::NumClause);
-            Ok(0 == self.soft_limit || 4 * nc < 3 * self.soft_limit)
+            Ok(0 == self.soft_limit || 4 * nc < self.soft_limit.saturating_mul(3))
         } else {
             Err(SolverError::OutOfMemory)
         }
-- 
2.43.0


From 6113f67c52dae51149c8632e9115daa5c708a815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:45 +0000
Subject: [PATCH 11/11] fix: simplification can leave a clause watched by a
 literal already false at the root level

---
 src/processor/simplify.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/processor/simplify.rs b/src/processor/simplify.rs
index 931e87a..c7ad038 100644
--- a/src/processor/simplify.rs
+++ b/src/processor/simplify.rs
@@ -302,6 +302,10 @@ impl EliminateIF for Eliminator {
         }
         self.var_queue.clear(asg);
         debug_assert!(self.clause_queue.is_empty());
+        // A resolvent or a strengthened clause may have a literal which was falsified
+        // and propagated before at a watching position.
+        asg.clear_asserted_literals(cdb)?;
+        self.bwdsub_assigns = 0;
         cdb.check_size().map(|_| ())
     }
     fn sorted_iterator(&self) -> Iter<'_, u32> {
-- 
2.43.0

