//! Lives of arrangements: batches, shared traces, handles and imports (validated against spec/DDTrace).
//!
//! Events: ["in", ups] ["adv", f] ["batch", lower, upper, since, cap, len, content, [trace upper]]
//!   ["insert", lower, upper, ups] ["clone", h, from] ["drop", h] ["log", h, f, got] ["phy", h, f, got]
//!   ["read", h, cut, upper, ok, content] ["store", [[lower, upper, since, len, content]], upper]
//!   ["imp", j, h, limited, since, until] ["ib", j, lower, upper, since, cap, content] ["if", j, f]
//!   ["shut", j] ["quiet", [trace upper]] ["merged", [[upper, len]]]
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

use differential_dataflow::operators::arrange::agent::ShutdownButton;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::trace::cursor::{Cursor, Navigable};
use differential_dataflow::trace::wrappers::frontier::{BatchFrontier, TraceFrontier};
use differential_dataflow::trace::{BatchReader, Trace, TraceReader};
use serde_json::{json, Value};
use timely::dataflow::operators::generic::operator::Operator;
use timely::dataflow::operators::probe::Probe;
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::CapabilitySet;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::Stream;
use timely::progress::frontier::AntichainRef;
use timely::progress::timestamp::Refines;
use timely::progress::Antichain;

use crate::common::*;

pub trait Weight { fn weight(self) -> i64; }
impl Weight for isize { fn weight(self) -> i64 { self as i64 } }
impl Weight for i64 { fn weight(self) -> i64 { self } }
pub fn dump_cursor<C: Cursor<Diff: Weight>>(mut c: C, s: &C::Storage) -> Vec<Value>
where C::Time: TimeLike, for<'a> C::Key<'a>: AsI64, for<'a> C::Val<'a>: AsI64 {
    let mut out = Vec::new();
    while let Some(k) = c.get_key(s) {
        let k = k.int();
        while let Some(v) = c.get_val(s) {
            let v = v.int();
            c.map_times(s, |t, d| out.push(json!([[k, v], C::owned_time(t).vec(), C::owned_diff(d).weight()])));
            c.step_val(s);
        }
        c.step_key(s);
    }
    out
}

pub struct Ops<T: TimeLike, Tr: Trace<Time = T> + 'static> {
    pub arrange: for<'s> fn(Stream<'s, T, Vec<(Row, T, isize)>>) -> Arranged<'s, TraceAgent<Tr>>,
    pub batch: fn(&Tr::Batch) -> Vec<Value>,
    pub lim: fn(&BatchFrontier<Tr::Batch>) -> Vec<Value>,
    pub cut: fn(&mut TraceAgent<Tr>, AntichainRef<T>) -> Option<Vec<Value>>,
    pub limcut: fn(&mut TraceFrontier<TraceAgent<Tr>>, AntichainRef<T>) -> Option<Vec<Value>>,
    pub unit: bool,
}

#[macro_export]
macro_rules! trace_ops { ($t:ty, $tr:ty, $arr:expr, $unit:expr) => { $crate::traces::Ops::<$t, $tr> {
    arrange: $arr,
    batch: |b| $crate::traces::dump_cursor(b.cursor(), b),
    lim: |b| $crate::traces::dump_cursor(b.cursor(), b),
    cut: |tr, f| { let (c, s) = tr.cursor_through(f)?; Some($crate::traces::dump_cursor(c, &s)) },
    limcut: |tr, f| { let (c, s) = tr.cursor_through(f)?; Some($crate::traces::dump_cursor(c, &s)) },
    unit: $unit,
} } }

fn aj<T: TimeLike>(f: &Antichain<T>) -> Value { fj(f.elements().iter()) }
pub fn avec<T: TimeLike>(f: AntichainRef<T>) -> Vec<Vec<u64>> { let mut v: Vec<_> = f.iter().map(|t| t.vec()).collect(); v.sort(); v }
pub fn aof<T: TimeLike>(f: &[Vec<u64>]) -> Antichain<T> { f.iter().map(|t| T::of(t)).collect() }
pub fn fleq(f: &[Vec<u64>], g: &[Vec<u64>]) -> bool { g.iter().all(|t| beyond(f, t)) }

struct Imp<T: TimeLike> { probe: timely::dataflow::ProbeHandle<T>, last: Value, button: Option<ShutdownButton<CapabilitySet<T>>>, dataflow: usize }

/// Some antichain of times.
pub fn some_frontier(rng: &mut Rng, dim: usize, max: u64) -> Vec<Vec<u64>> {
    let n = if dim == 1 { 1 } else { 1 + rng.below(2) };
    let v: Vec<Vec<u64>> = (0..n).map(|_| (0..dim).map(|_| rng.below(max)).collect()).collect();
    if rng.chance(1, 20) { vec![] } else { antichain(&v) }
}
pub fn fjoin(f: &[Vec<u64>], g: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let v: Vec<Vec<u64>> = f.iter().flat_map(|a| g.iter().map(move |b| vjoin(a, b))).collect();
    antichain(&v)
}

pub fn run_trace<T: TimeLike + Refines<()>, Tr: Trace<Time = T> + 'static>(rng: &mut Rng, ops: Ops<T, Tr>, max: u64, len: usize) -> (Vec<Value>, Vec<Value>)
where Tr::Batch: Clone {
    let log = Log::new();
    let log2 = log.clone();
    let script: Rc<RefCell<Vec<Value>>> = Default::default();
    let mut rng2 = rng.clone();
    guarded(&log, || {
        let rng = &mut rng2;
        let log = log2;
        let mut config = timely::WorkerConfig::default();
        let mut effort = 0;
        if rng.chance(1, 2) {
            effort = *rng.pick(&[0isize, 1, 4, 1000]);
            differential_dataflow::configure(&mut config, &differential_dataflow::Config { idle_merge_effort: Some(effort) });
        }
        let alloc = timely::communication::Allocator::Thread(timely::communication::allocator::thread::Thread::default());
        let mut worker = timely::worker::Worker::new(config, alloc, Some(std::time::Instant::now()));
        let worker = &mut worker;
        let dim = T::DIM;
        let seen: Rc<RefCell<BTreeMap<usize, TraceAgent<Tr>>>> = Default::default();
        let bounds: Rc<RefCell<Vec<Vec<Vec<u64>>>>> = Rc::new(RefCell::new(vec![vec![vec![0; dim]]]));
        let upper_of = |h: &Rc<RefCell<BTreeMap<usize, TraceAgent<Tr>>>>| -> Option<Vec<Vec<u64>>> {
            let mut h = h.borrow_mut();
            h.values_mut().next().map(|t| { let mut u = Antichain::new(); t.read_upper(&mut u); avec(u.borrow()) })
        };
        let mut input: Input<T> = worker.dataflow::<T, _, _>(|scope| {
            let ((handle, cap), stream) = scope.new_unordered_input::<(Row, T, isize)>();
            let arranged = (ops.arrange)(stream);
            let (l, s, b) = (log.clone(), seen.clone(), bounds.clone());
            let dump = ops.batch;
            arranged.stream.clone().sink(Pipeline, "batches", move |(input, _)| input.for_each(|cap, batches| for batch in batches.drain(..) {
                let s = upper_of(&s);
                let d = batch.description();
                b.borrow_mut().push(avec(d.lower().borrow())); b.borrow_mut().push(avec(d.upper().borrow()));
                l.push(json!(["batch", aj(d.lower()), aj(d.upper()), aj(d.since()), tj(cap.time()), batch.len(), dump(&batch), s.into_iter().collect::<Vec<_>>()]));
            }));
            seen.borrow_mut().insert(0, arranged.trace);
            Input { handle, caps: vec![cap] }
        });
        let handles = seen;
        let upper_of = |h: &Rc<RefCell<BTreeMap<usize, TraceAgent<Tr>>>>| -> Option<Vec<Vec<u64>>> {
            let mut h = h.borrow_mut();
            h.values_mut().next().map(|t| { let mut u = Antichain::new(); t.read_upper(&mut u); avec(u.borrow()) })
        };
        let mut next = 1usize;
        let mut imps: Vec<Imp<T>> = Vec::new();
        let mut limtraces: Vec<(usize, TraceFrontier<TraceAgent<Tr>>)> = Vec::new();
        let mut fr: Vec<Vec<u64>> = vec![vec![0; dim]];
        let mut live: Vec<(Row, Vec<u64>, i64)> = Vec::new();
        let all = grid(dim, max);
        let report = |imps: &mut Vec<Imp<T>>| for (j, m) in imps.iter_mut().enumerate() {
            let f = m.probe.with_frontier(|f| fj(f.iter()));
            if f != m.last { log.push(json!(["if", j + 1, f])); m.last = f; }
        };
        let quiet = |worker: &mut timely::worker::Worker, imps: &mut Vec<Imp<T>>| {
            let mut idle = 0;
            while idle < 60 { let n = log.len(); worker.step(); report(imps); if n == log.len() { idle += 1 } else { idle = 0 } }
            log.push(json!(["quiet", upper_of(&handles).into_iter().collect::<Vec<_>>()]));
        };
        let adv = 1 + rng.below(3);
        for step in 0..len + 2 {
            let c = if step >= len { 100 + step - len } else { rng.below(22 + adv) as usize };
            let pick = |rng: &mut Rng| -> Option<usize> { let h: Vec<usize> = handles.borrow().keys().cloned().collect(); if h.is_empty() { None } else { Some(*rng.pick(&h)) } };
            let note = |v: Value| script.borrow_mut().push(v);
            match c {
                0..=4 => {
                    let open: Vec<&Vec<u64>> = all.iter().filter(|t| beyond(&fr, t)).collect();
                    if open.is_empty() { continue; }
                    let mut ups: Vec<Upd> = Vec::new();
                    for _ in 0..1 + rng.below(6) {
                        let t = (*rng.pick(&open)).clone();
                        if !live.is_empty() && rng.chance(1, 3) {
                            let j = rng.below(live.len() as u64) as usize;
                            let (r, t0, d) = live.swap_remove(j);
                            ups.push((r, vjoin(&t, &t0), -d));
                        } else {
                            let r = (rng.below(4) as i64, if ops.unit { 0 } else { rng.below(3) as i64 });
                            let d = *rng.pick(&[1, 1, 1, 2, -1]);
                            live.push((r, t.clone(), d)); ups.push((r, t, d));
                        }
                    }
                    note(json!(["send", ups.iter().map(uj).collect::<Vec<_>>()]));
                    log.push(json!(["in", ups.iter().map(uj).collect::<Vec<_>>()]));
                    input.send(&ups);
                }
                5..=7 => { let n = 1 + rng.below(3); note(json!(["step", n])); for _ in 0..n { worker.step(); report(&mut imps); } }
                8 => { note(json!(["quiet"])); quiet(worker, &mut imps); }
                9 => if let Some(h) = pick(rng) {
                    note(json!(["clone", h]));
                    log.push(json!(["clone", next, h]));
                    let t = handles.borrow()[&h].clone();
                    handles.borrow_mut().insert(next, t); next += 1;
                },
                10 => if let Some(h) = pick(rng) { if handles.borrow().len() > 1 || rng.chance(1, 8) {
                    note(json!(["drop", h]));
                    log.push(json!(["drop", h]));
                    let t = handles.borrow_mut().remove(&h); drop(t);
                } },
                11 | 12 => if let Some(h) = pick(rng) {
                    let mut hs = handles.borrow_mut(); let t = hs.get_mut(&h).unwrap();
                    let f = if rng.chance(2, 3) { fr.clone() } else { some_frontier(rng, dim, max) };
                    note(json!(["log", h, f]));
                    t.set_logical_compaction(aof::<T>(&f).borrow());
                    log.push(json!(["log", h, f, avec(t.get_logical_compaction())]));
                },
                13 | 14 => if let Some(h) = pick(rng) {
                    let mut hs = handles.borrow_mut(); let t = hs.get_mut(&h).unwrap();
                    let f = match rng.below(3) { 0 => rng.pick(&bounds.borrow()).clone(), 1 => fr.clone(), _ => some_frontier(rng, dim, max) };
                    note(json!(["phy", h, f]));
                    t.set_physical_compaction(aof::<T>(&f).borrow());
                    log.push(json!(["phy", h, f, avec(t.get_physical_compaction())]));
                },
                15 | 16 => if let Some(h) = pick(rng) {
                    let mut hs = handles.borrow_mut(); let t = hs.get_mut(&h).unwrap();
                    if t.get_logical_compaction().is_empty() { continue; }
                    let phy = avec(t.get_physical_compaction());
                    let mut cuts: Vec<Vec<Vec<u64>>> = bounds.borrow().iter().filter(|b| fleq(&phy, b)).cloned().collect();
                    cuts.push(vec![]);
                    let cut = rng.pick(&cuts).clone();
                    note(json!(["read", h, cut]));
                    let mut u = Antichain::new(); t.read_upper(&mut u);
                    let got = (ops.cut)(t, aof::<T>(&cut).borrow());
                    log.push(json!(["read", h, cut, avec(u.borrow()), got.is_some(), got.unwrap_or_default()]));
                },
                17 | 18 => if let Some(h) = pick(rng) {
                    note(json!(["store"]));
                    let mut hs = handles.borrow_mut(); let t = hs.get_mut(&h).unwrap();
                    let mut ds = Vec::new();
                    t.map_batches(|b| { let d = b.description(); bounds.borrow_mut().push(avec(d.upper().borrow()));
                        ds.push(json!([aj(d.lower()), aj(d.upper()), aj(d.since()), b.len(), (ops.batch)(b)])) });
                    let mut u = Antichain::new(); t.read_upper(&mut u);
                    log.push(json!(["store", ds, avec(u.borrow())]));
                },
                19 | 20 => if let Some(h) = pick(rng) {
                    if imps.len() > 5 { continue; }
                    let j = imps.len() + 1;
                    let mut t = handles.borrow_mut().remove(&h).unwrap();
                    let limited = rng.chance(1, 2);
                    let held = avec(t.get_logical_compaction());
                    let (since, until): (Vec<Vec<u64>>, Vec<Vec<u64>>) = if !limited { (vec![], vec![]) } else {
                        let s = if rng.chance(1, 2) { held.clone() } else { fjoin(&held, &some_frontier(rng, dim, max)) };
                        let s = if s.is_empty() { held.clone() } else { s };
                        (s, if rng.chance(1, 3) { vec![] } else { some_frontier(rng, dim, max + 1) })
                    };
                    let keep = rng.chance(1, 3);
                    note(json!(["import", h, limited, since, until, keep]));
                    log.push(json!(["imp", j, h, limited, since, until]));
                    let mut probe = timely::dataflow::ProbeHandle::new();
                    let probe2 = &mut probe;
                    let (l, b) = (log.clone(), bounds.clone());
                    let dataflow = worker.next_dataflow_index();
                    let hs = handles.clone();
                    let lt = &mut limtraces;
                    let button = worker.dataflow::<T, _, _>(|scope| {
                        if limited {
                            let (arranged, button) = if until.is_empty() && since == held { t.import_frontier(scope, "import") } else { t.import_frontier_core(scope, "import", aof(&since), aof(&until)) };
                            let dump = ops.lim;
                            let stream = arranged.stream.clone().unary(Pipeline, "batches", move |_, _| move |input, output| input.for_each(|cap, batches| { for batch in batches.iter() {
                                let d = batch.description();
                                l.push(json!(["ib", j, aj(d.lower()), aj(d.upper()), aj(d.since()), tj(cap.time()), dump(batch)]));
                            } output.session(&cap).give_container(batches); }));
                            stream.probe_with(probe2);
                            if keep { log.push(json!(["clone", 1000 + j, h])); lt.push((j, arranged.trace)); }
                            button
                        } else {
                            let (arranged, button) = t.import_core(scope, "import");
                            let dump = ops.batch;
                            let stream = arranged.stream.clone().unary(Pipeline, "batches", move |_, _| move |input, output| input.for_each(|cap, batches| { for batch in batches.iter() {
                                let d = batch.description();
                                b.borrow_mut().push(avec(d.upper().borrow()));
                                l.push(json!(["ib", j, aj(d.lower()), aj(d.upper()), aj(d.since()), tj(cap.time()), dump(batch)]));
                            } output.session(&cap).give_container(batches); }));
                            stream.probe_with(probe2);
                            if keep { log.push(json!(["clone", next, h])); hs.borrow_mut().insert(next, arranged.trace); next += 1; }
                            button
                        }
                    });
                    handles.borrow_mut().insert(h, t);
                    imps.push(Imp { probe, last: fj(&[T::minimum()]), button: Some(button), dataflow });
                },
                21 => if !imps.is_empty() {
                    let j = rng.below(imps.len() as u64) as usize;
                    if rng.chance(1, 2) { if let Some(mut b) = imps[j].button.take() {
                        note(json!(["shut", j + 1]));
                        log.push(json!(["shut", j + 1]));
                        b.press();
                    } } else if let Some((j, t)) = limtraces.first_mut() {
                        let cut = if rng.chance(1, 2) { vec![] } else { fr.clone() };
                        if t.get_logical_compaction().is_empty() || !cut.is_empty() { continue; }
                        note(json!(["limread", *j]));
                        let mut u = Antichain::new(); t.read_upper(&mut u);
                        let got = (ops.limcut)(t, aof::<T>(&cut).borrow());
                        log.push(json!(["limread", *j, avec(u.borrow()), got.is_some(), got.unwrap_or_default()]));
                        if rng.chance(1, 2) { log.push(json!(["drop", 1000 + *j])); limtraces.remove(0); }
                    }
                },
                100 => {
                    log.push(json!(["adv", []]));
                    input.caps(&[]);
                }
                101 => quiet(worker, &mut imps),
                _ => {
                    if fr.is_empty() { continue; }
                    fr = advance_frontier(rng, &fr, max);
                    note(json!(["caps", fr]));
                    log.push(json!(["adv", fr]));
                    input.caps(&fr);
                    // When the operator has had every occasion to merge, batches remain only where readers need them.
                    // (Once its input is closed it no longer runs.)
                    if let Some(h) = pick(rng) { if effort > 0 && !fr.is_empty() && rng.chance(1, 3) {
                        note(json!(["merged"]));
                        quiet(worker, &mut imps);
                        for _ in 0..400 { worker.step(); }
                        let mut hs = handles.borrow_mut(); let t = hs.get_mut(&h).unwrap();
                        let mut ds = Vec::new();
                        t.map_batches(|b| ds.push(json!([aj(b.upper()), b.len()])));
                        log.push(json!(["merged", ds]));
                    } }
                }
            }
        }
        for d in worker.installed_dataflows() { worker.drop_dataflow(d); }
        drop(limtraces);
        handles.borrow_mut().clear();
        let _ = imps.iter().map(|m| m.dataflow).count();
    });
    let s = script.borrow().clone();
    (log.take(), s)
}

use differential_dataflow::trace::implementations::ord_neu::{OrdKeySpine, OrdKeyBatcher, RcOrdKeyBuilder as OrdKeyBuilder, OrdValSpine, OrdValBatcher, RcOrdValBuilder as OrdValBuilder};
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::chunk::vec as vchunk;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use timely::dataflow::operators::vec::Map;
use differential_dataflow::trace::chunk::{ChunkBatcher, ChunkBuilder, ChunkSpine};
use differential_dataflow::columnar::trace as ct;
use ddv::tiny::Tiny;

pub fn ops_val<T: TimeLike>() -> Ops<T, OrdValSpine<i64, i64, T, isize>> {
    trace_ops!(T, OrdValSpine<i64, i64, T, isize>, |s| arrange_core::<_, _, ContainerChunker<_>, OrdValBatcher<i64, i64, T, isize>, OrdValBuilder<i64, i64, T, isize>, _>(s, Pipeline, "val"), false)
}
pub fn ops_key<T: TimeLike>() -> Ops<T, OrdKeySpine<i64, T, isize>> {
    trace_ops!(T, OrdKeySpine<i64, T, isize>, |s| arrange_core::<_, _, ContainerChunker<_>, OrdKeyBatcher<i64, T, isize>, OrdKeyBuilder<i64, T, isize>, _>(s.map(|((k, _), t, d)| ((k, ()), t, d)), Pipeline, "key"), true)
}
pub fn ops_chunk<T: TimeLike>() -> Ops<T, vchunk::ChunkSpine<i64, i64, T, isize>> {
    trace_ops!(T, vchunk::ChunkSpine<i64, i64, T, isize>, |s| arrange_core::<_, _, ContainerChunker<vchunk::VecChunk<i64, i64, T, isize>>, vchunk::ChunkBatcher<i64, i64, T, isize>, vchunk::ChunkBuilder<i64, i64, T, isize>, _>(s, Pipeline, "chunk"), false)
}

/// The arrangement of a reduction that reproduces its input: the same updates by other means.
pub fn ops_reduce<T: TimeLike>() -> Ops<T, OrdValSpine<i64, i64, T, isize>> {
    trace_ops!(T, OrdValSpine<i64, i64, T, isize>, |s| arrange_core::<_, _, ContainerChunker<_>, OrdValBatcher<i64, i64, T, isize>, OrdValBuilder<i64, i64, T, isize>, OrdValSpine<i64, i64, T, isize>>(s, Pipeline, "val")
        .reduce_abelian::<_, OrdValBuilder<i64, i64, T, isize>, OrdValSpine<i64, i64, T, isize>, _, _>("same",
            |_, input, output| for (v, d) in input { output.push((**v, *d)) },
            |vec, key, upds| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); }), false)
}

/// Chunks of a few updates only, so that everything straddles.
type TinyVec<T, const N: usize> = Tiny<vchunk::VecChunk<i64, i64, T, i64>, N>;
pub fn ops_tiny<T: TimeLike, const N: usize>() -> Ops<T, ChunkSpine<TinyVec<T, N>>> {
    trace_ops!(T, ChunkSpine<TinyVec<T, N>>, |s| arrange_core::<_, _, ContainerChunker<TinyVec<T, N>>, ChunkBatcher<TinyVec<T, N>>, ChunkBuilder<TinyVec<T, N>>, _>(s.map(|(r, t, d)| (r, t, d as i64)), Pipeline, "tiny"), false)
}
/// Columnar arrangements, of usual and of tiny chunks.
trait Columns: TimeLike + Refines<()> { fn life(rng: &mut Rng, max: u64, len: usize) -> (Vec<Value>, Vec<Value>); }
macro_rules! columns { ($t:ty) => { impl Columns for $t {
    fn life(rng: &mut Rng, max: u64, len: usize) -> (Vec<Value>, Vec<Value>) {
        type Col = ct::ColChunk<(i64, i64, $t, i64)>;
        type TC = Tiny<Col, 3>;
        if rng.chance(1, 2) {
            run_trace(rng, trace_ops!($t, ChunkSpine<TC>, |s| arrange_core::<_, _, ContainerChunker<TC>, ChunkBatcher<TC>, ChunkBuilder<TC>, _>(s.map(|(r, t, d)| (r, t, d as i64)), Pipeline, "tinycol"), false), max, len)
        } else {
            run_trace(rng, trace_ops!($t, ChunkSpine<Col>, |s| arrange_core::<_, _, ContainerChunker<Col>, ChunkBatcher<Col>, ChunkBuilder<Col>, _>(s.map(|(r, t, d)| (r, t, d as i64)), Pipeline, "col"), false), max, len)
        }
    }
} } }
columns!(u64);
columns!(Pair);

fn family<T: Columns>(rng: &mut Rng, max: u64, len: usize) -> (Vec<Value>, Vec<Value>) {
    match rng.below(10) {
        0 => run_trace(rng, ops_key::<T>(), max, len),
        4 | 5 => run_trace(rng, ops_reduce::<T>(), max, len),
        1 => run_trace(rng, ops_chunk::<T>(), max, len),
        6 => run_trace(rng, ops_tiny::<T, 2>(), max, len),
        7 => run_trace(rng, ops_tiny::<T, 5>(), max, len),
        8 => T::life(rng, max, len),
        _ => run_trace(rng, ops_val::<T>(), max, len),
    }
}
pub fn family_trace(_: usize, rng: &mut Rng) -> Value {
    let dim = if rng.chance(2, 5) { 1 } else { 2 };
    let max = if dim == 1 { 3 + rng.below(8) } else { 3 + rng.below(2) };
    let len = 15 + rng.below(50) as usize;
    let (ev, script) = if dim == 1 { family::<u64>(rng, max, len) } else { family::<Pair>(rng, max, len) };
    json!({ "dim": dim, "script": script, "ev": ev })
}
