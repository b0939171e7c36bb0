#!/usr/bin/env python3
"""Writes properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)
D = 'differential-dataflow/src/'

p('C01', 'Any dataflow program is an exact incremental view of its inputs',
  'For every program composed of collection operators (map, filter, flat_map, explode, join_function, concat, negate, consolidate, delay, enter/leave, join, semijoin, antijoin, reduce, distinct, threshold, count, iterate), once the output is complete at a time t, the output changes at times up to t accumulate to exactly the program applied to the input changes accumulated up to t. This holds however the input history is cut into batches and input advances, for any number of workers and any scheduling of them, and for totally and partially ordered timestamps.',
  ['programs', 'histories', 'schedules', 'inputs', 'configurations'],
  'every operator composition, every history of insertions and deletions over partially ordered times, every batching, every worker count and interleaving',
  'The tests sample a handful of fixed programs with one total-ordered history each; they cannot quantify over programs, histories, batchings or worker schedules.',
  [D+'collection.rs', D+'operators/join.rs', D+'operators/reduce.rs', D+'operators/iterate.rs', D+'operators/arrange/arrangement.rs', D+'operators/count.rs', D+'operators/threshold.rs', D+'consolidation.rs'],
  [('stateless operators preserve times and scale differences', D+'collection.rs map/filter/flat_map/explode/join_function/negate/concat/delay'),
   ('stateful operators keep arrangements and emit corrections at joined times', D+'operators/reduce.rs, '+D+'operators/join.rs'),
   ('fixpoints by feedback with a delayed negated source', D+'operators/iterate.rs Variable'),
   ('leave/enter time mapping', D+'collection.rs enter/leave/ResultsIn')],
  ['inspect on output collections', 'probe frontiers'])

p('C02', 'Grouped reductions are exact at every, also partially ordered, time',
  'Reduction operators (reduce, reduce_abelian, reduce_core, distinct, threshold, count, and the alternative reduction implementations) produce, for every key and every time that is complete in the output, exactly the user logic applied to the key\'s non-zero, value-ordered accumulated input at that time, including at times that appear in no input update but arise as joins of input times. The reduction logic is only applied to non-empty input, output differences are consolidated corrections never earlier than the input change that caused them, and all implementations agree.',
  ['histories', 'inputs', 'schedules', 'configurations'],
  'every input history over a partially ordered time domain, every sequence of frontier advances (including multi-element antichains), every compaction of input and output traces',
  'tests/reduce.rs checks a few fixed partially ordered inputs delivered all at once; retaining and revisiting interesting join times across invocations depends on the order in which frontiers advance and traces compact.',
  [D+'operators/reduce.rs', D+'operators/common.rs', D+'operators/int_proxy/reduce.rs', D+'operators/mod.rs'],
  [('interesting times: synthetic joins queued and revisited', D+'operators/reduce.rs HistoryReplayer::compute'),
   ('pending times and capabilities held until the frontier passes them', D+'operators/reduce.rs reduce_trace retire loop'),
   ('output batches tile the input interval', D+'operators/common.rs tile_descriptions'),
   ('proxy replay of (key,time) windows', D+'operators/int_proxy/reduce.rs')],
  ['output collections and arrangements', 'logic callback arguments'])

p('C03', 'Joins pair every two updates exactly once at the join of their times',
  'For two arranged collections the join output is exactly the bilinear product: every pair of updates with equal keys contributes once, at the least upper bound of the two times and with the product of their differences, whichever side arrives first, however batches and frontier advances interleave, and whether traces are private, shared, self-joined, already populated or already compacted when the join is built. No pair is lost or doubled when a trace is compacted by its other readers or when one side becomes empty, and semijoin and antijoin are the corresponding key restrictions.',
  ['histories', 'schedules', 'configurations', 'inputs'],
  'every interleaving of batch arrivals on two inputs, every compaction state of either trace, both small and large key histories, deferred work with limited fuel, total and partial orders',
  'tests/join.rs covers two inputs loaded in one or two rounds; the acknowledgement logic matters only for interleavings, trace sharing and late construction that tests do not vary.',
  [D+'operators/join.rs', D+'operators/mod.rs', D+'operators/int_proxy/join.rs', D+'collection.rs'],
  [('acknowledged frontiers decide which historical prefix a new batch joins', D+'operators/join.rs join_traces'),
   ('trace compaction set from the opposite frontier', D+'operators/join.rs join_traces'),
   ('time-ordered replay of long key histories', D+'operators/mod.rs ValueHistory, '+D+'operators/join.rs JoinThinker'),
   ('fuelled deferred work', D+'operators/join.rs Deferred')],
  ['join output updates', 'batch arrivals', 'compaction frontiers of the input traces'])

p('C04', 'Iteration computes the fixed point for every version of its input',
  'iterate and explicit recursive variables (single, mutually recursive, nested, with or without an initial source) leave their scope holding, at each completed outer time, the collection reached by repeatedly applying the body from the source until it no longer changes. Incremental updates, including retractions that un-derive facts, give the same result as recomputing from scratch.',
  ['programs', 'histories', 'inputs', 'schedules'],
  'every loop body with a finite fixed point, every history of input changes including deletions in cycles, any nesting, any worker count',
  'Tests run BFS and SCC on random graphs against one reference; bodies, nesting, mutual recursion and adversarial deletions are not varied.',
  [D+'operators/iterate.rs', D+'collection.rs', D+'operators/reduce.rs'],
  [('feedback variable with delayed, negated source', D+'operators/iterate.rs Variable::new_from/set'),
   ('product-order timestamps and leave', D+'collection.rs leave, enter, enter_at'),
   ('iterate wrapper', D+'operators/iterate.rs Iterate::iterate')],
  ['collections after leave'])

p('C05', 'Completed times stay closed and closed inputs always finish',
  'No operator ever emits an update (or batch) at a time its output frontier has already declared complete, output frontiers only advance and never get ahead of what the inputs may still change, and a time that can no longer be affected by any input does eventually become complete. In particular once all inputs are closed every operator, probe and arrangement completes, for every operator and schedule.',
  ['schedules', 'histories', 'programs', 'configurations'],
  'every operator, every interleaving of input, frontier advances, worker steps and dropping of handles, any number of workers',
  'Unit tests only look at final contents; a premature or withheld frontier changes results only for a consumer that reacts at the right moment of an interleaving.',
  [D+'operators/arrange/arrangement.rs', D+'operators/reduce.rs', D+'operators/join.rs', D+'operators/arrange/upsert.rs', D+'operators/arrange/agent.rs', D+'operators/iterate.rs', D+'input.rs'],
  [('held capabilities track pending times', D+'operators/arrange/arrangement.rs arrange_core; '+D+'operators/reduce.rs'),
   ('import shares capabilities with the batch queue', D+'operators/arrange/agent.rs import_core'),
   ('deferred join work holds its capability', D+'operators/join.rs Deferred')],
  ['probe frontiers', 'timestamps of emitted updates and batches'])

p('C06', 'Arrangements cut time into batches holding exactly the right updates',
  'An arrangement emits a sequence of immutable batches whose lower and upper bounds tile time contiguously from the minimum with no gap or overlap, where each batch contains exactly the consolidated input changes at times in its interval, sorted by key, value and time with no zero, duplicate or empty entries. The trace behind the arrangement always holds the same batches, a batch becomes visible in the trace no later than downstream can see it, and the trace closes when the input does.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'every interleaving of updates (also out of time order), antichain-valued frontier advances, empty intervals, worker counts, key types and batch representations',
  'Tests read back arranged contents once after a fixed run; bounds under antichain frontiers and intermediate trace states are never examined.',
  [D+'operators/arrange/arrangement.rs', D+'operators/arrange/writer.rs', D+'operators/arrange/agent.rs', D+'trace/implementations/merge_batcher.rs', D+'trace/implementations/ord_neu.rs', D+'trace/description.rs'],
  [('one batch per held capability, sealed at the frontier', D+'operators/arrange/arrangement.rs arrange_core'),
   ('writer inserts into the trace and queues for readers', D+'operators/arrange/writer.rs TraceWriter'),
   ('batcher extraction by upper frontier', D+'trace/implementations/merge_batcher.rs seal')],
  ['batches on the arrangement stream', 'trace.map_batches', 'trace.read_upper'])

p('C07', 'Compaction never changes what any live trace handle may observe',
  'As long as a trace handle holds its compaction frontiers, every accumulation at a time in advance of the handle\'s logical frontier and every cut of the trace at a boundary in advance of its physical frontier stays readable and correct, no matter what other handles (clones, imports, downstream operators) do or when they are dropped. Conversely compaction is limited only by live handles: once they advance or are dropped, distinct historical times may be merged and cleared.',
  ['histories', 'schedules'],
  'every interleaving of batch insertion, clone, drop, set_logical_compaction, set_physical_compaction, exertion and reads over any number of handles and partially ordered frontiers',
  'tests/trace.rs makes one handle and a handful of calls; the hazard is a hold lost or double-counted among several handles under interleaved advances.',
  [D+'operators/arrange/agent.rs', D+'operators/arrange/writer.rs', D+'trace/mod.rs', D+'trace/implementations/spine_fueled.rs', D+'trace/wrappers/frontier.rs'],
  [('multiset of holds per trace', D+'operators/arrange/agent.rs TraceBox::adjust_logical_compaction/adjust_physical_compaction'),
   ('clone adds and drop removes holds', D+'operators/arrange/agent.rs Clone, Drop for TraceAgent'),
   ('merges use the held frontiers', D+'trace/implementations/spine_fueled.rs begin_merge, consider_merges')],
  ['cursor_through', 'map_batches', 'get_logical_compaction / get_physical_compaction'])

p('C08', 'Background merging keeps a trace equivalent to the batches inserted',
  'Whatever batches of whatever sizes are inserted, and however merging effort is spent, interrupted or forced, a trace stays equivalent (up to permitted compaction) to the batches inserted so far: its batches are contiguous, a cursor through any permitted boundary sees exactly the batches below it, and no update is lost, doubled or moved across a boundary a reader may still use. Merging makes progress: with no outstanding reader the number of batches stays logarithmic in the data and sufficient exertion reduces the trace to a single batch.',
  ['histories', 'inputs', 'schedules', 'configurations'],
  'every sequence of batch sizes (including empty batches), compaction frontier changes and effort amounts',
  'Tests insert two batches; merge scheduling across levels with fuel, empty batches and blocked physical frontiers explores a state space tests do not.',
  [D+'trace/implementations/spine_fueled.rs', D+'trace/mod.rs', D+'trace/description.rs'],
  [('layered merges with fuel', D+'trace/implementations/spine_fueled.rs introduce_batch, apply_fuel, roll_up, tidy_layers'),
   ('reading through a boundary', D+'trace/implementations/spine_fueled.rs batches_through/map_batches'),
   ('pending batches until physical frontier allows', D+'trace/implementations/spine_fueled.rs consider_merges')],
  ['map_batches', 'cursor_through', 'exert'])

p('C09', 'Batches can be built and merged with any effort without changing content',
  'Building a batch from sorted updates represents exactly those updates, and merging two adjacent batches in any number of interrupted steps with any effort yields a batch with the joined bounds whose content is exactly the union of both, with times advanced to the compaction frontier, equal times summed, and records that cancel entirely absent. This holds for every provided batch representation (row ordered key-value and key-only, reference-counted, and chunked).',
  ['inputs', 'schedules', 'configurations'],
  'every pair of adjacent batches over partially ordered times, every compaction frontier, every sequence of effort budgets, all batch representations',
  'Existing tests of chunk merging use a few hand-made batches, and row-ordered merging is only exercised incidentally; interrupted merges, cancellation of whole keys and the compressed single-update encoding are unsampled.',
  [D+'trace/implementations/ord_neu.rs', D+'trace/implementations/mod.rs', D+'trace/chunk/mod.rs', D+'trace/chunk/vec.rs', D+'trace/mod.rs'],
  [('fuelled key/value merge', D+'trace/implementations/ord_neu.rs OrdValMerger/OrdKeyMerger work'),
   ('singleton update compression', D+'trace/implementations/ord_neu.rs layers, UpdsBuilder'),
   ('chunk merge, advance and settle', D+'trace/chunk/mod.rs, '+D+'trace/chunk/vec.rs')],
  ['batch cursors', 'batch description and len'])

p('C10', 'A trace can be imported at any moment and yields the same collection',
  'Importing a shared arrangement into another dataflow, at any point of its life and any number of times (including after its source finished), yields a stream of batches which together equal the source collection with times advanced at most to the importer\'s held logical frontier, with no gap or repetition at the hand-over from history to live batches. Frontier-limited imports present exactly the updates before the requested upper frontier with times advanced to the lower one and then complete, and a shutdown handle promptly ends the import without disturbing other readers.',
  ['histories', 'schedules', 'configurations'],
  'every moment of import relative to batches, compaction and source completion, multiple importers, any since/until frontiers, any interleaving of worker steps',
  'tests/import.rs covers four fixed timings with total order; the hand-over race and frontier-limited variants depend on the interleaving.',
  [D+'operators/arrange/agent.rs', D+'operators/arrange/writer.rs', D+'trace/wrappers/frontier.rs'],
  [('listener queue seeded with history', D+'operators/arrange/agent.rs new_listener'),
   ('capability management of the imported stream', D+'operators/arrange/agent.rs import_core'),
   ('since/until restriction of reads', D+'operators/arrange/agent.rs import_frontier_core; '+D+'trace/wrappers/frontier.rs'),
   ('shutdown', D+'operators/arrange/agent.rs ShutdownButton')],
  ['imported collections', 'probe of the importing dataflow'])

p('C11', 'Upsert arrangements hold the last written value for each key',
  'A stream of keyed upserts (set a value, or clear it) over totally ordered times is arranged so that at every completed time each key maps to the value of its latest upsert at or before that time and is absent if that was a clear or there was none, with the largest value winning among upserts of one key at one time. The differences are exactly the changes between consecutive such states, whatever the delivery order, batching, compaction and worker count.',
  ['histories', 'schedules', 'inputs'],
  'every sequence of upserts with repeated keys, ties, no-op writes and deletions, delivered in any batching and order ahead of the frontier',
  'Only a documentation example runs the operator; ties, writes buffered ahead of the frontier and re-reads from a compacted trace are never checked.',
  [D+'operators/arrange/upsert.rs'],
  [('priority queue of future upserts per time', D+'operators/arrange/upsert.rs arrange_from_upsert'),
   ('prior value read from its own trace', D+'operators/arrange/upsert.rs arrange_from_upsert'),
   ('batch per retired frontier', D+'operators/arrange/upsert.rs')],
  ['arranged collection', 'batches'])

p('C12', 'Total-order count and threshold agree with their general definitions',
  'count_total, threshold_total, threshold_semigroup and distinct_total report, at every completed time of a totally ordered history, exactly what the general count, threshold and distinct would: one (record, count) per present record, respectively the threshold function of each non-zero weight, and nothing for records that are absent. They do so for records appearing, disappearing and reappearing any number of times, also several times inside one batch.',
  ['histories', 'inputs', 'schedules'],
  'every history of weight changes per record, every batching of it, with shared and compacted input arrangements',
  'Only doc-tests that never retract run these operators.',
  [D+'operators/count.rs', D+'operators/threshold.rs'],
  [('retract old count, assert new count', D+'operators/count.rs count_total'),
   ('difference of thresholds before and after', D+'operators/threshold.rs threshold_semigroup/threshold_total'),
   ('input trace read up to the previous batch', D+'operators/count.rs, '+D+'operators/threshold.rs')],
  ['output updates'])

p('C13', 'Captured collections survive duplicated, reordered and retried messages',
  'Capturing a consolidated stream writes each update exactly once per successful write together with progress statements whose intervals tile time and whose counts are exact, and everything is eventually written no matter how often the sink asks for a retry. Any reader given those messages with arbitrary duplication and reordering (also within and across messages, on any worker) reproduces each update exactly once, never reports a time complete before all its updates were delivered, and reaches the writer\'s final frontier once every message has arrived.',
  ['fault_sequences', 'schedules', 'histories'],
  'every duplication, permutation and splitting of messages, every retry pattern of the sink, any number of writers and readers',
  'There are no tests of capture in the suite; faults are combinatorial.',
  [D+'capture.rs'],
  [('deduplicating, re-ordering iterator', D+'capture.rs iterator::Iter'),
   ('source dataflow: messages, updates, progress, feedback', D+'capture.rs source::build'),
   ('sink with retry queues', D+'capture.rs sink::build')],
  ['messages given to the writer', 'iterator output', 'source stream and its frontier'])

p('C14', 'Timestamp lattices, frontiers and path summaries obey their laws',
  'For every provided timestamp type (integers, pairs, products, dynamic point stamps, alternating old/new times) and for frontiers of them, join and meet are the least upper and greatest lower bounds of the partial order, the total order used for sorting is compatible with it, and summaries act monotonically and compose. Advancing a time by a frontier gives a time indistinguishable from it at all times in advance of the frontier, and, for types whose order is a distributive lattice, two times that cannot be distinguished there become equal.',
  ['inputs'],
  'every pair or triple of times and every frontier of every supported time type',
  'Unit tests check a few joins; laws quantify over all triples and frontiers and subtle violations only surface as wrong accumulations elsewhere.',
  [D+'lattice.rs', D+'dynamic/pointstamp.rs', 'dogsdogsdogs/src/altneu.rs'],
  [('join/meet/advance_by', D+'lattice.rs Lattice'),
   ('antichain join/meet', D+'lattice.rs antichain_join, antichain_meet, impl Lattice for Antichain'),
   ('point stamps with implicit trailing minima', D+'dynamic/pointstamp.rs'),
   ('lexicographic old/new times', 'dogsdogsdogs/src/altneu.rs')],
  ['Lattice, PartialOrder, PathSummary methods'])

p('C15', 'Differences form the advertised algebra and consolidation preserves it',
  'Every provided difference type (integers, wrapping integers, tuples, vectors, presence, unit) satisfies the advertised laws: addition is associative and commutative with the stated zero, negation cancels, multiplication distributes over addition. Consolidating any collection of updates returns exactly the distinct data (and times) with non-zero summed difference, in sorted order, for every input order, length and container.',
  ['inputs'],
  'all combinations of differences, all update sequences of any length and order, in every consolidation entry point',
  'Tests consolidate a few vectors; small sizes, all-cancelling tails, already sorted or single elements and compound difference types are cases tests only touch by example.',
  [D+'difference.rs', D+'consolidation.rs'],
  [('semigroup, monoid, abelian and multiply impls', D+'difference.rs'),
   ('sort and sum in place', D+'consolidation.rs consolidate_slice, consolidate_updates_slice'),
   ('consolidating container builders', D+'consolidation.rs ConsolidatingContainerBuilder')],
  ['consolidation functions', 'difference traits'])

p('C16', 'Batchers release each buffered update exactly when its time completes',
  'A batcher fed arbitrary unordered updates in arbitrary pieces returns, when sealed at a frontier, exactly the consolidated updates not in advance of that frontier, in sorted order with the interval as description, keeps exactly the rest, and reports as its frontier exactly the minimal times of what it kept. No update is lost, duplicated or released early across any sequence of pushes and seals and regardless of internal buffer boundaries.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of pushes and seals with growing antichain frontiers, sizes below, at and above buffer capacities, all provided chunkers and mergers',
  'Batchers are only tested through whole dataflows with few updates, never crossing chunk or chain boundaries at chosen frontiers.',
  [D+'trace/implementations/merge_batcher.rs', D+'trace/implementations/chunker.rs', D+'trace/chunk/mod.rs', D+'trace/mod.rs'],
  [('geometric chains of sorted chunks', D+'trace/implementations/merge_batcher.rs MergeBatcher'),
   ('merge and extract by upper', D+'trace/implementations/merge_batcher.rs Merger::merge/extract'),
   ('chunking and consolidation', D+'trace/implementations/chunker.rs ContainerChunker'),
   ('chunk based merger', D+'trace/chunk/mod.rs ChunkMerger')],
  ['Batcher seal output and frontier()'])

p('C17', 'Cursors present the same sorted contents however they are navigated',
  'Every cursor (over one batch of any representation, over lists of batches, and through the enter, enter-at and frontier wrappers) presents keys in increasing order, under each key its values in increasing order, and under each value exactly its updates; seeking moves forward to the first key or value at least the target (and stays where it is when already there), stepping and rewinding visit the same contents, and an exhausted cursor stays well behaved. A cursor over several batches shows the sum of their contents, and a wrapped cursor shows the contents with its time mapping or time restriction applied.',
  ['programs', 'inputs', 'configurations'],
  'every sequence of step, seek and rewind calls on every storage content and cursor type',
  'Existing tests walk cursors front to back; interleavings of seek/step/rewind over multi-batch storage are unsampled.',
  [D+'trace/cursor/mod.rs', D+'trace/cursor/cursor_list.rs', D+'trace/implementations/ord_neu.rs', D+'trace/chunk/mod.rs', D+'trace/wrappers/enter.rs', D+'trace/wrappers/enter_at.rs', D+'trace/wrappers/frontier.rs', D+'trace/implementations/mod.rs'],
  [('galloping search', D+'trace/implementations/mod.rs BatchContainer::advance'),
   ('merging of several cursors', D+'trace/cursor/cursor_list.rs minimize_keys/minimize_vals'),
   ('straddling chunk boundaries', D+'trace/chunk/mod.rs ChunkBatchCursor'),
   ('wrapped map_times', D+'trace/wrappers/')],
  ['Cursor trait methods'])

p('C18', 'Input sessions deliver every change once at its assigned time',
  'Records inserted, removed or updated through input sessions and initial-collection constructors enter the dataflow exactly once with the assigned difference at the assigned time: the session\'s current time, or an explicit time at or after it. Buffered changes survive time advances, flushes and dropping or closing the session, nothing becomes complete before the session advanced past it, and after close the input is complete.',
  ['histories', 'schedules'],
  'every sequence of insert/remove/update/update_at/advance/flush/step/drop calls with any number of sessions and workers and any buffer sizes',
  'Tests always advance and flush in the canonical order.',
  [D+'input.rs'],
  [('local buffer flushed before time changes', D+'input.rs InputSession::advance_to/flush/update_at'),
   ('flush on drop', D+'input.rs Drop for InputSession'),
   ('initial data at the minimum time', D+'input.rs new_collection_from_raw')],
  ['inspected collection', 'probe'])

p('C19', 'Dynamically nested scopes compute the same results as static nesting',
  'Iterating with dynamic point-stamp timestamps (entering by extending the stamp, feeding back with a coordinate summary, leaving by truncating it) gives the same collections at the same outer times as statically nested iterative scopes, at any depth and for any mix of depths in one dataflow. Leaving a dynamic level never exposes updates before they are due nor holds back completion.',
  ['programs', 'histories', 'schedules'],
  'every nesting depth and program, every input history, any worker count',
  'One example uses the feature; no test compares it.',
  [D+'dynamic/mod.rs', D+'dynamic/pointstamp.rs', D+'operators/iterate.rs'],
  [('truncating leave with capability rewriting', D+'dynamic/mod.rs leave_dynamic'),
   ('feedback summary', D+'dynamic/pointstamp.rs PointStampSummary, feedback_summary')],
  ['collections after leave_dynamic', 'probe'])

p('C20', 'Columnar collections and arrangements match the row-based ones',
  'Collections, arrangements, exchanges and operators using the columnar representation (including negation, concatenation, entering and leaving scopes, consolidation, join and reduce, serialization between workers, and spilling batches out of memory) have exactly the same accumulated contents at every time as the row-based representation on the same inputs. Merging, extracting, compacting, sizing and encoding columnar chunks loses, duplicates or reorders nothing.',
  ['inputs', 'histories', 'schedules', 'configurations'],
  'every update set and arrival order, chunk sizes around every boundary, any worker count, any spill policy',
  'The columnar unit tests use small hand-picked tries and one random comparison of merging; whole-dataflow equivalence under batching, exchange and spill is unsampled.',
  [D+'columnar/updates.rs', D+'columnar/trie_merger.rs', D+'columnar/layout.rs', D+'columnar/collection/container.rs', D+'columnar/collection/exchange.rs', D+'columnar/collection/operators.rs', D+'columnar/collection/builder.rs', D+'columnar/trace/chunk.rs', D+'columnar/trace/chunker.rs', D+'columnar/trace/spill.rs'],
  [('trie consolidation and merge', D+'columnar/trie_merger.rs, '+D+'columnar/updates.rs'),
   ('container negate/enter/leave/results_in and codec', D+'columnar/collection/container.rs'),
   ('partition by key hash', D+'columnar/collection/exchange.rs'),
   ('chunk trait implementation and cursors', D+'columnar/trace/chunk.rs'),
   ('spilling', D+'columnar/trace/spill.rs')],
  ['columnar collections and cursors'])

p('C21', 'Delta-query joins and generic prefix extension equal the plain join',
  'Half-joins respond to each stream update exactly once with the matching arranged records at times the comparison admits, so that the sum of the delta-query paths for a multiway join with consistently ordered relations equals the ordinary join at every time. Prefix extension by counting, proposing and validating through any set of indexes returns exactly the extensions admitted by all of them, and temporal restriction to old or new updates neither loses nor doubles pairs at equal times.',
  ['histories', 'schedules', 'inputs', 'configurations'],
  'every history and interleaving of relation changes including same-time changes in several relations, every relation order, every yield bound, any worker count',
  'One regression test exercises lookup_map; delta-query tie-breaking matters only when several relations change at the same or incomparable times.',
  ['dogsdogsdogs/src/operators/half_join.rs', 'dogsdogsdogs/src/operators/half_join2.rs', 'dogsdogsdogs/src/operators/lookup_map.rs', 'dogsdogsdogs/src/operators/count.rs', 'dogsdogsdogs/src/operators/propose.rs', 'dogsdogsdogs/src/operators/validate.rs', 'dogsdogsdogs/src/altneu.rs', 'dogsdogsdogs/src/calculus.rs', 'dogsdogsdogs/src/lib.rs'],
  [('stash of undetermined updates until the arrangement frontier passes', 'dogsdogsdogs/src/operators/half_join.rs'),
   ('blob bookkeeping with capabilities and yielding', 'dogsdogsdogs/src/operators/half_join2.rs'),
   ('count/propose/validate', 'dogsdogsdogs/src/lib.rs ProposeExtensionMethod'),
   ('differentiate/integrate with old/new times', 'dogsdogsdogs/src/calculus.rs, altneu.rs')],
  ['output collections'])

p('C22', 'Library algorithms maintain their textbook results under change',
  'For inputs of non-negative multiplicity (and at most one value per position for prefix sums, which are exclusive), the provided algorithms keep, at every completed time, exactly the defined result for the current input: breadth-first distances, label propagation minima, strongly connected edges, bidirectional search distances, sequential greedy assignments, unique identifiers, and prefix sums. Edge deletions that disconnect or split structures are reflected exactly.',
  ['inputs', 'histories', 'schedules'],
  'every small graph or input and every history of edge and node insertions and deletions, any worker count',
  'bfs and scc tests use one random graph sequence each; other algorithms are untested.',
  [D+'algorithms/identifiers.rs', D+'algorithms/prefix_sum.rs', D+'algorithms/graphs/bfs.rs', D+'algorithms/graphs/bijkstra.rs', D+'algorithms/graphs/propagate.rs', D+'algorithms/graphs/scc.rs', D+'algorithms/graphs/sequential.rs'],
  [('iterative minimum with join', D+'algorithms/graphs/bfs.rs, propagate.rs'),
   ('alternating trimming', D+'algorithms/graphs/scc.rs'),
   ('tree-structured aggregation and broadcast', D+'algorithms/prefix_sum.rs'),
   ('rehash until unique', D+'algorithms/identifiers.rs')],
  ['output collections'])

p('C23', 'Interpreted programs mean the fixed point of their scopes on every path',
  'A program in the interpreted language assigns to each exported name the value obtained by synchronously iterating the variables of its scopes from empty to their fixed point, regardless of the order of statements, of which concrete syntax it is written in, and of whether and how it is optimised (merging of equal definitions, fusing of linear operators, removal of what is unused). Every scalar expression, pattern match, fold and reduction evaluates as documented, and outputs follow input changes incrementally at every completed time.',
  ['programs', 'histories', 'inputs', 'schedules'],
  'every well-formed program with nested scopes, every statement permutation, either syntax, every input history, with and without optimisation, any worker count',
  'Tests only run the explanation machinery on bundled example programs; semantics is never compared to the documented definition.',
  ['interactive/src/ir.rs', 'interactive/src/scope_ir.rs', 'interactive/src/lower.rs', 'interactive/src/parse/pipe.rs', 'interactive/src/parse/applicative.rs', 'interactive/src/backend/mod.rs', 'interactive/src/backend/vec.rs'],
  [('lowering to an operator graph', 'interactive/src/lower.rs'),
   ('IR evaluation and linear operators', 'interactive/src/ir.rs'),
   ('rewrites', 'interactive/src/scope_ir.rs optimize: dedup, fuse_linear, normalise'),
   ('dynamic-scope rendering', 'interactive/src/backend/mod.rs, vec.rs')],
  ['exported collections'])

p('C24', 'A live server keeps every published collection equal to its program',
  'A server into which programs are installed and dropped while it runs shows, for every published collection and at the last closed epoch, exactly what the publishing program means of its inputs as of that epoch and of the collections it imports: no matter in which order programs were installed or fed, how long after their sources, how far traces were compacted since, which worker supplied an update, how far ahead of its time it was supplied, or what was dropped meanwhile. Programs that others read from cannot be dropped, names are published at most once, sources made on demand are shared, and a command that is refused (an unknown import, a taken name, an update for a closed epoch) changes nothing. Listings report the programs, traces and importers there are.',
  ['histories', 'programs', 'schedules', 'configurations'],
  'every sequence of installs, feeds (now or ahead), ticks, drops and peeks, over programs that import one another, one or several workers',
  'No test runs the server; late imports of compacted traces, feeding ahead of time and dropping between ticks are unsampled.',
  ['interactive/src/server.rs', 'interactive/src/backend/vec.rs', D+'operators/arrange/agent.rs', D+'input.rs'],
  [('import of registered traces at installation', 'interactive/src/server.rs install'),
   ('tick: advance inputs, run, compact', 'interactive/src/server.rs tick'),
   ('drop gate', 'interactive/src/server.rs drop_program'),
   ('on-demand sources', 'interactive/src/server.rs Recipe')],
  ['peek', 'list'])

p('C25', 'Explanations suffice to reproduce the rows they explain',
  'For a program over flat rows whose results grow with its inputs (and for the final counts, minima and lists of such results, least labels along edges, and the strongly connected edges of the example program), the explanation of any set of rows of its first exported collection demands only rows that are present in the inputs, each once, and the program run on the demanded rows alone, as often as each was present, yields every row asked about. Nothing is demanded to which what is asked about is not due, tracing projections by their keys. This holds whatever scopes and recursion the rows came through, and cloning a program preserves what it computes.',
  ['programs', 'inputs'],
  'every flat relational program, recursive or not and of any nesting, every input including repeated rows, every set of rows asked about together',
  'Tests explain six fixed programs on fixed graphs; tracing through nested scopes, several derivations, projections that lose fields or flattened lists of keys is unsampled.',
  ['interactive/src/explain/mod.rs', 'interactive/src/explain/decouple.rs', 'interactive/src/scope_ir.rs', 'interactive/src/backend/vec.rs'],
  [('clones with lifted iterations', 'interactive/src/explain/mod.rs clone_into'),
   ('backward rule of each operator', 'interactive/src/explain/decouple.rs, mod.rs Reverse'),
   ('demands across scopes and feedback', 'interactive/src/explain/mod.rs resolve, route, walk'),
   ('lookup of rows by packed keys and times', 'interactive/src/explain/mod.rs RowModel for Val')],
  ['demand exports', 'exported collections'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
