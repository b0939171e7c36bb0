From 7e10bbe445db41eec1af4ed356994a410f40c722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 01/17] fix: threshold_total retracts records whose weight
 accumulates to zero

---
 differential-dataflow/src/operators/threshold.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/differential-dataflow/src/operators/threshold.rs b/differential-dataflow/src/operators/threshold.rs
index 2909a0c..6adaf6b 100644
--- a/differential-dataflow/src/operators/threshold.rs
+++ b/differential-dataflow/src/operators/threshold.rs
@@ -41,13 +41,14 @@ pub trait ThresholdTotal<'scope, T: Timestamp + TotalOrder + Lattice, K: Exchang
     /// ```
     fn threshold_total<R2: Abelian+'static, F: FnMut(&K,&R)->R2+'static>(self, mut thresh: F) -> VecCollection<'scope, T, K, R2> {
         self.threshold_semigroup(move |key, new, old| {
-            let mut new = thresh(key, new);
-            if let Some(old) = old {
-                let mut add = thresh(key, old);
-                add.negate();
-                new.plus_equals(&add);
-            }
-            if !new.is_zero() { Some(new) } else { None }
+            // A record whose weight accumulates to zero is absent, and has no threshold to report.
+            let new = if !new.is_zero() { Some(thresh(key, new)) } else { None };
+            let old = old.filter(|old| !old.is_zero()).map(|old| { let mut old = thresh(key, old); old.negate(); old });
+            let result = match (new, old) {
+                (Some(mut new), Some(old)) => { new.plus_equals(&old); Some(new) },
+                (new, old) => new.or(old),
+            };
+            result.filter(|result| !result.is_zero())
         })
     }
     /// Reduces the collection to one occurrence of each distinct element.
-- 
2.43.0


From 8c9ced567e17eb0999c69a93b32eccccc473dc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 02/17] fix: capture sink retries queued progress statements
 without a further frontier advance

---
 differential-dataflow/src/capture.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index ba1522a..7fa47f8 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -698,16 +698,17 @@ pub mod sink {
 
                             // Advance our frontier to track our progress utterance.
                             frontier = frontiers[0].frontier().to_owned();
+                        }
 
-                            while let Some(message) = send_queue.front() {
-                                if let Some(duration) = sink.poll(message) {
-                                    // Reschedule after `duration` and then bail.
-                                    reactivator.activate_after(duration);
-                                    // Signal that work remains to be done.
-                                    return true;
-                                } else {
-                                    send_queue.pop_front();
-                                }
+                        // Send queued statements, including those the sink previously asked us to retry.
+                        while let Some(message) = send_queue.front() {
+                            if let Some(duration) = sink.poll(message) {
+                                // Reschedule after `duration` and then bail.
+                                reactivator.activate_after(duration);
+                                // Signal that work remains to be done.
+                                return true;
+                            } else {
+                                send_queue.pop_front();
                             }
                         }
                         // Signal incompleteness if messages remain to be sent.
-- 
2.43.0


From bd01ae25937088d2a1921b5b97f911d7888cd992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 03/17] fix: capture iterator deduplicates updates within a
 single message

---
 differential-dataflow/src/capture.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/differential-dataflow/src/capture.rs b/differential-dataflow/src/capture.rs
index 7fa47f8..6176f9b 100644
--- a/differential-dataflow/src/capture.rs
+++ b/differential-dataflow/src/capture.rs
@@ -129,14 +129,13 @@ pub mod iterator {
                 match message {
                     Message::Updates(mut updates) => {
                         // Discard updates at reported times, or duplicates at unreported times.
+                        // Recording each update as we go also discards duplicates within the message.
                         updates.retain(|dtr| {
-                            self.reported_frontier.less_equal(&dtr.1) && !self.updates.contains(dtr)
+                            self.reported_frontier.less_equal(&dtr.1) && self.updates.insert(dtr.clone())
                         });
                         // Decrement our counts of accounted-for messages.
                         self.messages_frontier
-                            .update_iter(updates.iter().map(|(_, t, _)| (t.clone(), -1)));
-                        // Record the messages in our de-duplication collection.
-                        self.updates.extend(updates.into_iter());
+                            .update_iter(updates.into_iter().map(|(_, t, _)| (t, -1)));
                     }
                     Message::Progress(progress) => {
                         // A progress statement may not be immediately actionable.
-- 
2.43.0


From e634cae6daf3ccbf78bc9fa323569dd3626b32f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 04/17] fix: CursorList::seek_val only moves cursors at the
 current key

---
 differential-dataflow/src/trace/cursor/cursor_list.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/differential-dataflow/src/trace/cursor/cursor_list.rs b/differential-dataflow/src/trace/cursor/cursor_list.rs
index 4f39fcf..d239436 100644
--- a/differential-dataflow/src/trace/cursor/cursor_list.rs
+++ b/differential-dataflow/src/trace/cursor/cursor_list.rs
@@ -183,8 +183,9 @@ impl<C: Cursor> Cursor for CursorList<C> {
     }
     #[inline]
     fn seek_val(&mut self, storage: &Vec<C::Storage>, val: Self::Val<'_>) {
-        for (cursor, storage) in self.cursors.iter_mut().zip(storage) {
-            cursor.seek_val(storage, val);
+        // Only the cursors at the current key should move; others are at later keys or exhausted.
+        for &index in self.min_key.iter() {
+            self.cursors[index].seek_val(&storage[index], val);
         }
         self.minimize_vals(storage);
     }
-- 
2.43.0


From f9d10007163dbaaccf3c20f8fdca2db7f334920d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 05/17] fix: PointStamp equality with slices considers all
 coordinates

---
 differential-dataflow/src/dynamic/pointstamp.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/dynamic/pointstamp.rs b/differential-dataflow/src/dynamic/pointstamp.rs
index b256ac9..cc60deb 100644
--- a/differential-dataflow/src/dynamic/pointstamp.rs
+++ b/differential-dataflow/src/dynamic/pointstamp.rs
@@ -31,14 +31,14 @@ impl<T: Timestamp> PartialEq<[T]> for PointStamp<T> {
         self.vector.iter()
             .zip(other.iter().chain(std::iter::repeat(&T::minimum())))
             .all(|(t1, t2)| t1.eq(t2))
+            // Any further coordinates of `other` must be the minimum.
+            && other.iter().skip(self.vector.len()).all(|t| t.eq(&T::minimum()))
     }
 }
 
 impl<T: Timestamp> PartialEq<PointStamp<T>> for [T] {
     fn eq(&self, other: &PointStamp<T>) -> bool {
-        self.iter()
-            .zip(other.vector.iter().chain(std::iter::repeat(&T::minimum())))
-            .all(|(t1, t2)| t1.eq(t2))
+        other.eq(self)
     }
 }
 
-- 
2.43.0


From 4dbf17c9da61e7f3b6ed63abe1f02cb4b18e19b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:38 +0000
Subject: [PATCH 06/17] fix: SliceContainer::clone_onto supports items of
 differing lengths

---
 differential-dataflow/src/trace/implementations/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/differential-dataflow/src/trace/implementations/mod.rs b/differential-dataflow/src/trace/implementations/mod.rs
index 9b69cb1..b042a39 100644
--- a/differential-dataflow/src/trace/implementations/mod.rs
+++ b/differential-dataflow/src/trace/implementations/mod.rs
@@ -543,7 +543,7 @@ pub mod containers {
         type ReadItem<'a> = &'a [B];
 
         #[inline(always)] fn into_owned<'a>(item: Self::ReadItem<'a>) -> Self::Owned { item.to_vec() }
-        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { other.clone_from_slice(item); }
+        #[inline(always)] fn clone_onto<'a>(item: Self::ReadItem<'a>, other: &mut Self::Owned) { other.clear(); other.extend_from_slice(item); }
 
         fn reborrow<'b, 'a: 'b>(item: Self::ReadItem<'a>) -> Self::ReadItem<'b> { item }
 
-- 
2.43.0


From 41830ae998446b3d78bc5ecc61183c62af1f9c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 07/17] fix: entering an arrangement maintains the order of its
 batches

---
 .../src/operators/arrange/arrangement.rs      | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/differential-dataflow/src/operators/arrange/arrangement.rs b/differential-dataflow/src/operators/arrange/arrangement.rs
index 6bbce64..bc83fd7 100644
--- a/differential-dataflow/src/operators/arrange/arrangement.rs
+++ b/differential-dataflow/src/operators/arrange/arrangement.rs
@@ -17,7 +17,7 @@
 //! see ill-defined data at times for which the trace is not complete. (All current implementations
 //! commit only completed data to the trace).
 
-use timely::dataflow::operators::{Enter, vec::Map};
+use timely::dataflow::operators::Enter;
 use timely::order::PartialOrder;
 use timely::dataflow::{Scope, Stream};
 use timely::dataflow::operators::generic::Operator;
@@ -38,6 +38,21 @@ use trace::wrappers::enter_at::BatchEnter as BatchEnterAt;
 
 use super::TraceAgent;
 
+/// Applies `logic` to each batch of a stream, maintaining the order of the batches.
+///
+/// The order of batches is meaningful, as each continues from the upper frontier of the prior batch, and
+/// timely's `map` does not maintain it for batches with different capabilities that it receives together.
+fn map_batches<'scope, T: Timestamp, B1: Clone+'static, B2: Clone+'static, L>(stream: Stream<'scope, T, Vec<B1>>, mut logic: L) -> Stream<'scope, T, Vec<B2>>
+where
+    L: FnMut(B1) -> B2+'static,
+{
+    stream.unary(Pipeline, "MapBatches", move |_,_| move |input, output| {
+        input.for_each(|time, data| {
+            output.session(&time).give_iterator(data.drain(..).map(&mut logic));
+        });
+    })
+}
+
 /// An arranged collection of `(K,V)` values.
 ///
 /// An `Arranged` allows multiple differential operators to share the resources (communication,
@@ -76,7 +91,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         TInner: Refines<Tr::Time>+Lattice,
     {
         Arranged {
-            stream: self.stream.enter(child).map(|bw| BatchEnter::make_from(bw)),
+            stream: map_batches(self.stream.enter(child), |bw| BatchEnter::make_from(bw)),
             trace: TraceEnter::make_from(self.trace),
         }
     }
@@ -108,7 +123,7 @@ impl<'scope, Tr: TraceReader> Arranged<'scope, Tr> {
         let logic2 = logic.clone();
         Arranged {
             trace: TraceEnterAt::make_from(self.trace, logic1, prior),
-            stream: self.stream.enter(child).map(move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
+            stream: map_batches(self.stream.enter(child), move |bw| BatchEnterAt::make_from(bw, logic2.clone())),
         }
     }
 
-- 
2.43.0


From 5b66837a6011330f69cae5c045a1293c2132814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:40 +0000
Subject: [PATCH 08/17] fix: reduce slices its source trace only at batch
 boundaries

---
 differential-dataflow/src/operators/reduce.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 8323810..4a52c77 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -154,6 +154,11 @@ where
             let mut upper_limit = Antichain::from_elem(<Tr1::Time as Timestamp>::minimum());
             let mut lower_limit = Antichain::from_elem(<Tr1::Time as Timestamp>::minimum());
 
+            // The upper frontier of the source batches received so far. This can trail `upper_limit`, which
+            // also reflects the input frontier: with partially ordered times the input frontier can reveal a
+            // frontier that is not the boundary of any batch, and we must only slice the source at boundaries.
+            let mut source_upper = Antichain::from_elem(<Tr1::Time as Timestamp>::minimum());
+
             move |(input, frontier), output| {
 
                 // The operator receives input batches, which it treats as contiguous and will collect and
@@ -169,29 +174,29 @@ where
                 // Downgrade previous upper limit to be current lower limit.
                 lower_limit.clear();
                 lower_limit.extend(upper_limit.borrow().iter().cloned());
+                let source_lower = source_upper.clone();
 
                 // Drain input batches in order, capturing capabilities and the last upper.
                 input.for_each(|capability, batches| {
                     capabilities.insert(capability.retain(0));
                     for batch in batches.drain(..) {
-                        upper_limit.clone_from(batch.upper());
+                        source_upper.clone_from(batch.upper());
                         batch_storage.push(batch);
                     }
                 });
 
                 // Pull in any subsequent empty batches we believe to exist.
-                source_trace.advance_upper(&mut upper_limit);
+                source_trace.advance_upper(&mut source_upper);
                 // Incorporate the input frontier guarantees as well.
-                let mut joined = Antichain::new();
-                crate::lattice::antichain_join_into(&upper_limit.borrow()[..], &frontier.frontier()[..], &mut joined);
-                upper_limit = joined;
+                upper_limit.clear();
+                crate::lattice::antichain_join_into(&source_upper.borrow()[..], &frontier.frontier()[..], &mut upper_limit);
 
                 // We plan to retire the interval [lower_limit, upper_limit), which should be non-empty to proceed.
                 if upper_limit != lower_limit {
 
                     // Acquire the pre-existing input and output batches preceding the interval. Batch handles
                     // are cheap to clone, so we fetch them whether or not the tactic finds work to do.
-                    let source_batches = source_trace.batches_through(lower_limit.borrow()).expect("failed to acquire source batches");
+                    let source_batches = source_trace.batches_through(source_lower.borrow()).expect("failed to acquire source batches");
                     let output_batches = output_reader.batches_through(lower_limit.borrow()).expect("failed to acquire output batches");
 
                     // The times the operator currently holds capabilities for, as an antichain.
@@ -240,7 +245,7 @@ where
                     output_reader.set_logical_compaction(upper_limit.borrow());
 
                     // We will only slice the data between future batches.
-                    source_trace.set_physical_compaction(upper_limit.borrow());
+                    source_trace.set_physical_compaction(source_upper.borrow());
                     output_reader.set_physical_compaction(upper_limit.borrow());
                 }
 
-- 
2.43.0


From d2eed9d017e9b567edfa4d0a78670fbf46da5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 09/17] fix: reduce retains no capability for empty batches

---
 differential-dataflow/src/operators/reduce.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 4a52c77..7cad7fd 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -177,8 +177,12 @@ where
                 let source_lower = source_upper.clone();
 
                 // Drain input batches in order, capturing capabilities and the last upper.
+                // An empty batch needs no capability, and its interval may already have been retired if we
+                // saw the batch in the trace before we received it, in which case we would not release it.
                 input.for_each(|capability, batches| {
-                    capabilities.insert(capability.retain(0));
+                    if batches.iter().any(|batch| !batch.is_empty()) {
+                        capabilities.insert(capability.retain(0));
+                    }
                     for batch in batches.drain(..) {
                         source_upper.clone_from(batch.upper());
                         batch_storage.push(batch);
-- 
2.43.0


From 7022a2130d460307793470c8435ab88cb887354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 10/17] fix: columnar exchange communicates the record count of
 empty updates

---
 differential-dataflow/src/columnar/collection/exchange.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/differential-dataflow/src/columnar/collection/exchange.rs b/differential-dataflow/src/columnar/collection/exchange.rs
index ff71b55..3e20c58 100644
--- a/differential-dataflow/src/columnar/collection/exchange.rs
+++ b/differential-dataflow/src/columnar/collection/exchange.rs
@@ -68,6 +68,12 @@ impl<U: Update, H: for<'a> FnMut(columnar::Ref<'a, U::Key>)->u64> Distributor<Re
         // Distribute the input's record count across non-empty outputs.
         let total_records = container.records;
         let non_empty: usize = outputs.iter().filter(|o| !o.keys.values.is_empty()).count();
+        // The updates may have all cancelled, and the record count must still be communicated.
+        if non_empty == 0 && total_records > 0 {
+            let mut recorded = RecordedUpdates { updates: UpdatesTyped::default().into(), records: total_records, consolidated: container.consolidated };
+            Message::push_at(&mut recorded, time.clone(), &mut pushers[0]);
+            return;
+        }
         let mut first_records = total_records.saturating_sub(non_empty.saturating_sub(1));
         for (pusher, output) in pushers.iter_mut().zip(outputs) {
             if !output.keys.values.is_empty() {
-- 
2.43.0


From da4bca7cb7be1d114f21883a88a9a30711eae1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:05 +0000
Subject: [PATCH 11/17] fix: lookup_map holds capabilities only for its
 remaining requests

---
 dogsdogsdogs/src/operators/lookup_map.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dogsdogsdogs/src/operators/lookup_map.rs b/dogsdogsdogs/src/operators/lookup_map.rs
index 25cda23..0b63ce7 100644
--- a/dogsdogsdogs/src/operators/lookup_map.rs
+++ b/dogsdogsdogs/src/operators/lookup_map.rs
@@ -71,6 +71,9 @@ where
         // to observe the frontier and to drive scheduling.
         input2.for_each(|_, _| { });
 
+        // New entries to introduce to the stash after processing.
+        let mut stash_additions = HashMap::new();
+
         if let Some(ref mut trace) = propose_trace {
 
             for (capability, prefixes) in stash.iter_mut() {
@@ -117,6 +120,21 @@ where
                     }
 
                     prefixes.retain(|ptd| !ptd.2.is_zero());
+
+                    // Hold capabilities only for the lower bound of remaining update times.
+                    let mut antichain = timely::progress::frontier::Antichain::new();
+                    for (_, time, _) in prefixes.iter() {
+                        antichain.insert(time.clone());
+                    }
+                    if !antichain.less_equal(capability.time()) {
+                        for (prefix, time, diff) in prefixes.drain(..) {
+                            let lower = antichain.iter().find(|t| t.less_equal(&time)).unwrap();
+                            stash_additions
+                                .entry(capability.delayed(lower))
+                                .or_insert(Vec::new())
+                                .push((prefix, time, diff));
+                        }
+                    }
                 }
             }
 
@@ -125,6 +143,10 @@ where
         // drop fully processed capabilities.
         stash.retain(|_,prefixes| !prefixes.is_empty());
 
+        for (capability, prefixes) in stash_additions.into_iter() {
+            stash.entry(capability).or_insert(Vec::new()).extend(prefixes);
+        }
+
         // The logical merging frontier depends on both input1 and stash.
         let mut frontier = timely::progress::frontier::Antichain::new();
         for time in frontier1.frontier().to_vec() {
-- 
2.43.0


From dc8c330ef5b829f80c84c5f2b4183fcde33f939c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 12/17] fix: reduce pends joins of interesting times with later
 times beyond upper

---
 differential-dataflow/src/operators/common.rs |  5 +++++
 differential-dataflow/src/operators/reduce.rs | 13 +++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/differential-dataflow/src/operators/common.rs b/differential-dataflow/src/operators/common.rs
index aea8e59..39484a6 100644
--- a/differential-dataflow/src/operators/common.rs
+++ b/differential-dataflow/src/operators/common.rs
@@ -355,6 +355,11 @@ pub fn discover_times<T, RIn>(
             }
         } else if interesting {
             pended.push(next_time.clone());
+        } else {
+            // An uninteresting time, beyond `upper` by virtue of its advancement by `meet`. The time
+            // is not itself carried, but its joins with the interesting times already passed are.
+            let passed = batch_replay.buffer().iter().chain(times_current.iter());
+            pended.extend(passed.map(|t| t.join(&next_time)));
         }
 
         meet = None;
diff --git a/differential-dataflow/src/operators/reduce.rs b/differential-dataflow/src/operators/reduce.rs
index 7cad7fd..1b12fad 100644
--- a/differential-dataflow/src/operators/reduce.rs
+++ b/differential-dataflow/src/operators/reduce.rs
@@ -795,6 +795,14 @@ mod cursors {
                         new_interesting.push(next_time.clone());
                         debug_assert!(outputs.iter().any(|(t,_)| t.less_equal(&next_time)))
                     }
+                    else {
+                        // An uninteresting time beyond `upper_limit`, by virtue of its advancement by `meet`.
+                        //
+                        // The time is not itself reconsidered, but the interesting times we have already passed
+                        // have not been joined with it, and those joins must be reconsidered in the future.
+                        let interesting_times = batch_replay.buffer().iter().map(|((_,time),_)| time).chain(self.times_current.iter());
+                        new_interesting.extend(interesting_times.map(|time| time.join(&next_time)));
+                    }
 
                     // Update `meet` to track the meet of each source of times.
                     meet = None;
@@ -1230,6 +1238,11 @@ pub(crate) mod reference {
                     else if interesting {
                         new_interesting.push(next_time.clone());
                     }
+                    else {
+                        // Not reached, but its joins with times already reached are, and must be pended.
+                        let reached = batch_replay.buffer().iter().chain(self.times_current.iter());
+                        new_interesting.extend(reached.map(|t| t.join(&next_time)));
+                    }
 
                     // Running meet (a lower bound on every time still to visit); compact the reached
                     // partners `times_current` with it.
-- 
2.43.0


From 3f3f53251cc58549fb8e8d46e7f2220c32a1c87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 13/17] fix: fused linear operators accumulate delays and lift
 the delayed iteration

---
 interactive/src/backend/vec.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/interactive/src/backend/vec.rs b/interactive/src/backend/vec.rs
index 2a5001c..a898d36 100644
--- a/interactive/src/backend/vec.rs
+++ b/interactive/src/backend/vec.rs
@@ -46,10 +46,6 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
     use timely::dataflow::operators::core::Map;
     c.inner.flat_map(move |((key, val), t_in, d_in)| {
         use timely::progress::Timestamp;
-        let iter_at_level: i64 = level
-            .checked_sub(1)
-            .and_then(|idx| t_in.inner.get(idx).copied())
-            .unwrap_or(0) as i64;
         let mut results: smallvec::SmallVec<[((Row, Row), Time, Diff); 2]> = svec![((key, val), Time::minimum(), 1)];
         for op in &ops {
             let mut next = smallvec::SmallVec::new();
@@ -77,9 +73,14 @@ fn render_linear<'scope>(c: Col<'scope>, ops: Vec<LinearOp>, level: usize) -> Co
                         let mut coords = smallvec::SmallVec::<[u64; 1]>::new();
                         for _ in 0..level.saturating_sub(1) { coords.push(0); }
                         coords.push(delay);
-                        next.push(((k, v), Product::new(0u64, PointStamp::new(coords)), d));
+                        next.push(((k, v), t.join(&Product::new(0u64, PointStamp::new(coords))), d));
                     },
                     LinearOp::LiftIter => {
+                        // An earlier op in the chain may have delayed the row.
+                        let iter_at_level: i64 = level
+                            .checked_sub(1)
+                            .and_then(|idx| t_in.join(&t).inner.get(idx).copied())
+                            .unwrap_or(0) as i64;
                         next.push(((k, append_iter(v, iter_at_level)), t, d));
                     },
                     LinearOp::FlatMap(list_term) => {
-- 
2.43.0


From 728395a0099e1b88394d8f574218099addcf40ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 14/17] fix: defaults copied into case arms account for the
 payload's binder

---
 interactive/src/parse/mod.rs  | 31 +++++++++++++++++++++++++++++++
 interactive/src/parse/pipe.rs |  3 ++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/interactive/src/parse/mod.rs b/interactive/src/parse/mod.rs
index b2bb8f3..9b71826 100644
--- a/interactive/src/parse/mod.rs
+++ b/interactive/src/parse/mod.rs
@@ -62,6 +62,37 @@ pub enum Term {
     Hash(Vec<Term>),
 }
 
+impl Term {
+    /// The same term evaluated beneath `by` further binders: each `Bound` that
+    /// refers past the term's own binders moves outward by as many.
+    pub(crate) fn shifted(&self, by: usize) -> Term { self.shifted_from(by, 0) }
+
+    fn shifted_from(&self, by: usize, depth: usize) -> Term {
+        let at = |t: &Term, depth: usize| Box::new(t.shifted_from(by, depth));
+        let all = |ts: &[Term], depth: usize| ts.iter().map(|t| t.shifted_from(by, depth)).collect();
+        match self {
+            Term::Var(i) => Term::Var(*i),
+            Term::Bound(k) => Term::Bound(if *k < depth { *k } else { k + by }),
+            Term::Int(n) => Term::Int(*n),
+            Term::Tuple(ts) => Term::Tuple(all(ts, depth)),
+            Term::List(ts) => Term::List(all(ts, depth)),
+            Term::Spread(t) => Term::Spread(at(t, depth)),
+            Term::Proj(t, i) => Term::Proj(at(t, depth), *i),
+            Term::Inject(tag, t) => Term::Inject(at(tag, depth), at(t, depth)),
+            Term::Case { scrutinee, arms, default } => Term::Case {
+                scrutinee: at(scrutinee, depth),
+                arms: all(arms, depth + 1),
+                default: default.as_ref().map(|d| at(d, depth)),
+            },
+            Term::Fold { list, init, step } => Term::Fold { list: at(list, depth), init: at(init, depth), step: at(step, depth + 2) },
+            Term::If { cond, then, els } => Term::If { cond: at(cond, depth), then: at(then, depth), els: at(els, depth) },
+            Term::Unary(op, t) => Term::Unary(*op, at(t, depth)),
+            Term::Binary(op, l, r) => Term::Binary(*op, at(l, depth), at(r, depth)),
+            Term::Hash(ts) => Term::Hash(all(ts, depth)),
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy, serde::Serialize, serde::Deserialize)]
 pub enum UnOp {
     /// Integer negation.
diff --git a/interactive/src/parse/pipe.rs b/interactive/src/parse/pipe.rs
index 39e9dbe..fe5f2b5 100644
--- a/interactive/src/parse/pipe.rs
+++ b/interactive/src/parse/pipe.rs
@@ -467,7 +467,8 @@ impl Parser {
             match tagged.iter().find(|(tt, _)| *tt == t) {
                 Some((_, arm)) => arms.push(arm.clone()),
                 None => match &default {
-                    Some(d) => arms.push((**d).clone()),
+                    // As an arm, the default is evaluated beneath the payload.
+                    Some(d) => arms.push(d.shifted(1)),
                     None => panic!("case has no arm for tag {} and no `_` default", t),
                 },
             }
-- 
2.43.0


From 16ab32557d8797fb1d85fd9792230ce89b51e693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 15/17] fix: servers refuse program names that on-demand
 sources use

---
 interactive/src/server.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interactive/src/server.rs b/interactive/src/server.rs
index f4ee535..f76e546 100644
--- a/interactive/src/server.rs
+++ b/interactive/src/server.rs
@@ -233,6 +233,10 @@ impl Server {
         if self.programs.contains_key(name) {
             return Err(format!("a program named {:?} is already installed", name));
         }
+        // A source installed on demand would displace a program of the same name.
+        if name == "clock" || Recipe::parse(name).is_some() {
+            return Err(format!("{:?} names a source; choose another program name", name));
+        }
         // Resolve trace imports against canonical names, installing generated
         // sources (e.g. `random:...`) on demand. A name that is neither
         // registered nor a recipe is an error.
-- 
2.43.0


From 725507629ee129dffbe4942b9c4fc25b4dad8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:03 +0000
Subject: [PATCH 16/17] fix: explanations of flatmaps that read the key, or
 whose input is at another depth

---
 interactive/src/explain/mod.rs | 65 +++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/interactive/src/explain/mod.rs b/interactive/src/explain/mod.rs
index 1c1bba3..3b64b59 100644
--- a/interactive/src/explain/mod.rs
+++ b/interactive/src/explain/mod.rs
@@ -483,44 +483,43 @@ impl Sb {
     }
 
     /// FlatMap's (UNNEST's) backward rule — the universal backstop instantiated
-    /// for a cardinality-changing op. FlatMap is *same-depth* (it doesn't touch
-    /// iteration time) and its list rides as one opaque value, so this needs no
-    /// envelope change: build the `(output -> input)` pair table by running the
-    /// op forward on the input side, join the demand on the output, recover the
-    /// whole input (the `None` endpoint — `RESIDUAL` is the input value).
+    /// for a cardinality-changing op. The list rides as one opaque value, so this
+    /// needs no envelope change: build the `(output -> input)` pair table by
+    /// running the op forward on the input side, join the demand on the output,
+    /// recover the whole input (the `None` endpoint — `RESIDUAL` is the input
+    /// value). The input's site may be at another depth than the op (a scope's
+    /// export, or an enclosing collection); as in the other rules, chains are
+    /// compared outer-aligned and the input's own is kept.
     ///
-    /// The one wrinkle is that a plain flatmap drops the source row and the key
-    /// isn't unique, so we **re-key the input by itself** before exploding (the
-    /// source then rides through in the join key) and re-project to the packed
-    /// output afterwards. `output_shape.1 == 2` (the `tuple(pos, elem)` value).
+    /// The one wrinkle is that a plain flatmap drops the source value, so we
+    /// **carry it alongside each element** of the list. The list term continues
+    /// to see the input row itself. `output_shape.1 == 2` (the `tuple(pos, elem)`
+    /// value).
     fn emit_lookup_flatmap(&mut self, dep_y: Ref, side: &Side, output_shape: (usize, usize), out_user_len: usize, list_term: &Term) -> Ref {
-        let (_, v_in) = side.shape;
+        let (k_in, v_in) = side.shape;
         let v_out = output_shape.1;          // 2: pos, elem
-        let d = out_user_len;                // same depth for input and output
-        // Pair table: re-key the input by the whole input row, explode (the
-        // source survives in the key), then re-key to (k, pos, elem) carrying
-        // the source as the value.
+        let (in_len, out_len) = (side.user_len, out_user_len);
+        // Pair table: explode (elem, host_val) pairs, host_val = [V_in | chain_in],
+        // then re-key to (k, pos, elem) carrying the source as the value.
         let src = self.concat(vec![side.witness.clone(), side.forward.clone()]);
-        let rekeyed = self.project(src, Projection { key: tup(vec![var(0), var(1)]), val: var(1) });
-        let exploded = self.linear(rekeyed, vec![LinearOp::FlatMap(list_term.clone())]);
-        let pair = self.project(exploded, Projection { key: tup(vec![f(0, 0), f(1, 0), f(1, 1)]), val: var(0) });
+        let carrying = Term::Fold {
+            list: Box::new(list_term.clone()),
+            init: Box::new(Term::List(Vec::new())),
+            step: Box::new(Term::List(vec![Term::Spread(Box::new(Term::Bound(1))), tup(vec![Term::Bound(0), var(1)])])),
+        };
+        let exploded = self.linear(src, vec![LinearOp::FlatMap(carrying)]);
+        let pair = self.project(exploded, Projection { key: tup(vec![var(0), f(1, 0), fld(f(1, 1), 0)]), val: fld(f(1, 1), 1) });
         // Re-key the demand by the same packed output; keep its chain ++ q.
-        let dep_keyed = self.project(dep_y, Projection { key: tup(vec![var(0), f(1, 0), f(1, 1)]), val: tup(fidx(1, v_out, v_out + d + 1)) });
-        // Join into a wide row [V_in | chain_in | chain_out | q]. Source is `$2`
-        // = (k, host_val); host_val = [V_in | chain_in]. Dep' is `$1` = [chain_out | q].
-        let mut wide = (0..v_in).map(|c| fld(f(2, 1), c)).collect::<Vec<_>>();   // V_in
-        wide.extend((0..d).map(|c| fld(f(2, 1), v_in + c)));                     // chain_in
-        wide.extend(fidx(1, 0, d));                                             // chain_out
-        wide.push(f(1, d));                                                     // q
-        let joined = self.join(dep_keyed, pair, Projection { key: f(2, 0), val: tup(wide) });
-        // Soundness: chain_in ≤ chain_out (same depth, so coordinate-aligned).
-        let cond = and_all((0..d).map(|c| le(f(1, v_in + c), f(1, v_in + d + c))).collect());
-        let filtered = match cond { Some(c) => self.filter(joined, c), None => joined };
-        // Reform the demanded input (k ; V_in ++ chain_out ++ q).
-        let mut val = fidx(1, 0, v_in);
-        val.extend(fidx(1, v_in + d, v_in + 2 * d));
-        val.push(f(1, v_in + 2 * d));
-        self.project(filtered, Projection { key: var(0), val: tup(val) })
+        let dep_keyed = self.project(dep_y, Projection { key: tup(vec![var(0), f(1, 0), f(1, 1)]), val: tup(fidx(1, v_out, v_out + out_len + 1)) });
+        // Join into a wide row [V_in | chain_in | chain_out | q], keyed by k.
+        let mut wide = fidx(2, 0, v_in + in_len);                               // V_in, chain_in
+        wide.extend(fidx(1, 0, out_len));                                       // chain_out
+        wide.push(f(1, out_len));                                               // q
+        let joined = self.join(dep_keyed, pair, Projection { key: f(0, 0), val: tup(wide) });
+        // Soundness: chain_in ≤ chain_out, outer-aligned.
+        let filtered = match <Val as RowModel>::time_le(v_in, in_len, out_len) { Some(c) => self.filter(joined, c), None => joined };
+        // Reform the demanded input (k ; V_in ++ chain_in ++ q).
+        self.project(filtered, <Val as RowModel>::strip(k_in, v_in, in_len, out_len, in_len))
     }
 }
 
-- 
2.43.0


From 032b4a93960c072533801c6beb07cddc3ccd26b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:37 +0000
Subject: [PATCH 17/17] fix: yielding half joins promote stuck records that
 became eligible while others were ready

---
 dogsdogsdogs/src/operators/half_join2.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/dogsdogsdogs/src/operators/half_join2.rs b/dogsdogsdogs/src/operators/half_join2.rs
index e9deb66..ba3d3f0 100644
--- a/dogsdogsdogs/src/operators/half_join2.rs
+++ b/dogsdogsdogs/src/operators/half_join2.rs
@@ -326,11 +326,15 @@ where
 
                 // Remove fully-consumed blobs.
                 blobs.retain(|blob| !blob.data.is_empty());
-            }
 
-            // Re-activate if we have blobs with ready elements to process.
-            if blobs.iter().any(|b| b.data.len() > b.stuck_count) {
-                activator.activate();
+                // Re-activate if we have blobs with ready elements to process, or with stuck elements
+                // that became eligible while the blob still had ready elements (and so await promotion).
+                let work_remains = blobs.iter().any(|b| {
+                    b.data.len() > b.stuck_count || b.data.front().is_some_and(|(t, _, _)| eligible(t))
+                });
+                if work_remains {
+                    activator.activate();
+                }
             }
 
             // The logical merging frontier depends on input1 and all blobs.
-- 
2.43.0

