//! Capturing and replaying collections (validated against spec/DDCapture).
//!
//! Events: ["in", p, ups] ["adv", p, f] ["wu", ups] ["wp", lower, upper, counts] ["wend"]
//!   ["ru", ups] ["rp", lower, upper, counts] ["out", ups] ["fr", w, f] ["rest", ws] ["again"]
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use differential_dataflow::capture::{iterator::Iter, sink, source, Message, Progress, Writer};
use serde_json::{json, Value};
use timely::dataflow::operators::probe::Probe;
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::Inspect;

use ddv::common::*;

type Msg<T> = Message<Row, T, isize>;
fn ups_json<T: TimeLike>(ups: &[(Row, T, isize)]) -> Value { json!(ups.iter().map(|(r, t, d)| json!([[r.0, r.1], t.vec(), d])).collect::<Vec<_>>()) }
fn msg_json<T: TimeLike>(m: &Msg<T>, u: &str, p: &str) -> Value {
    match m {
        Message::Updates(ups) => { let mut v = json!([u]); v.as_array_mut().unwrap().push(ups_json(ups)); v }
        Message::Progress(q) => json!([p, fj(q.lower.iter()), fj(q.upper.iter()), q.counts.iter().map(|(t, c)| json!([t.vec(), c])).collect::<Vec<_>>()]),
    }
}

/// A sink that often asks to wait.
struct Slow<T: TimeLike> { log: Log, rng: Rng, lazy: u64, out: Arc<Mutex<Vec<Msg<T>>>>, undone: u64 }
impl<T: TimeLike> Writer<Msg<T>> for Slow<T> {
    fn poll(&mut self, m: &Msg<T>) -> Option<Duration> {
        if self.rng.below(10) < self.lazy { return Some(Duration::from_micros(self.rng.below(3) * 30)); }
        self.log.push(msg_json(m, "wu", "wp"));
        self.out.lock().unwrap().push(m.clone());
        self.undone = self.rng.below(3);
        None
    }
    fn done(&self) -> bool { self.undone == 0 }
}

/// What one worker of the writer is given.
#[derive(Clone)]
enum Act { Send(Vec<Upd>), Caps(Vec<Vec<u64>>), Step(u64) }

fn write<T: TimeLike + timely::progress::timestamp::Refines<()>>(log: &Log, scripts: Vec<Vec<Act>>, seeds: Vec<u64>, lazy: u64) -> Vec<Msg<T>> {
    let out: Arc<Mutex<Vec<Msg<T>>>> = Default::default();
    let (out2, log2) = (out.clone(), log.clone());
    let workers = scripts.len();
    let total: usize = scripts.iter().flatten().map(|a| if let Act::Send(u) = a { u.len() } else { 0 }).sum();
    let config = machine(workers, seeds[0] as usize % 11);
    let sink_hash = seeds[0] % 7;
    let guards = timely::execute(config, move |worker| {
        let (log, out) = (log2.clone(), out2.clone());
        let w = worker.index();
        let sink = Rc::new(RefCell::new(Slow { log: log.clone(), rng: Rng::new(seeds[w]), lazy, out: out.clone(), undone: 0 }));
        let (us, ps) = (Rc::downgrade(&sink), Rc::downgrade(&sink));
        let mut input = worker.dataflow::<T, _, _>(|scope| {
            let ((handle, cap), stream) = scope.new_unordered_input::<(Row, T, isize)>();
            sink::build(stream, sink_hash, us, ps);
            Input { handle, caps: vec![cap] }
        });
        for a in &scripts[w] {
            match a {
                Act::Send(u) => { log.push(json!(["in", w, u.iter().map(uj).collect::<Vec<_>>()])); input.send(u); }
                Act::Caps(f) => { log.push(json!(["adv", w, f])); input.caps(f); }
                Act::Step(n) => for _ in 0..*n { worker.step(); },
            }
        }
        log.push(json!(["adv", w, []])); input.caps(&[]);
        drop(input);
        // Everything is written, eventually.
        let complete = || {
            let o = out.lock().unwrap();
            let n: usize = o.iter().map(|m| if let Message::Updates(u) = m { u.len() } else { 0 }).sum();
            n >= total && o.iter().any(|m| if let Message::Progress(p) = m { p.upper.is_empty() } else { false })
        };
        let start = std::time::Instant::now();
        while !complete() && start.elapsed().as_secs() < 4 { worker.step_or_park(Some(Duration::from_micros(50))); }
        for _ in 0..20 { worker.step(); }
        for d in worker.installed_dataflows() { worker.drop_dataflow(d); }
    }).unwrap();
    for g in guards.join() { if let Err(e) = g { panic!("{}", e); } }
    log.push(json!(["wend"]));
    let r = out.lock().unwrap().clone(); r
}

/// Other true statements, and messages duplicated, split, merged and reordered; `lossy` drops some.
fn faults<T: TimeLike>(rng: &mut Rng, msgs: &[Msg<T>], truth: &[(Row, T, isize)], max: u64, lossy: bool) -> Vec<Msg<T>> {
    let mut out: Vec<Msg<T>> = Vec::new();
    let (dup, split) = (rng.below(4), rng.below(3));
    for m in msgs {
        if lossy && rng.chance(1, 6) { continue; }
        for _ in 0..1 + if rng.below(6) < dup { 1 + rng.below(2) } else { 0 } {
            match m {
                Message::Updates(u) => {
                    let mut u = u.clone();
                    if rng.chance(1, 3) { rng.shuffle(&mut u); }
                    if rng.below(4) < dup && !u.is_empty() { let x = rng.pick(&u).clone(); u.push(x); }
                    if rng.below(4) < split && u.len() > 1 {
                        let k = 1 + rng.below(u.len() as u64 - 1) as usize;
                        let v = u.split_off(k);
                        out.push(Message::Updates(v));
                    }
                    out.push(Message::Updates(u));
                }
                Message::Progress(p) => {
                    let mut p = p.clone();
                    if rng.chance(1, 2) { rng.shuffle(&mut p.counts); rng.shuffle(&mut p.lower); rng.shuffle(&mut p.upper); }
                    out.push(Message::Progress(p));
                }
            }
        }
    }
    // Statements of other writers need not agree on the intervals.
    for _ in 0..rng.below(4) {
        let lower = if rng.chance(1, 3) { vec![vec![0; T::DIM]] } else { some_frontier(rng, T::DIM, max) };
        let upper: Vec<Vec<u64>> = { let f = some_frontier(rng, T::DIM, max + 1); antichain(&f.iter().flat_map(|a| lower.iter().map(move |b| vjoin(a, b))).collect::<Vec<_>>()) };
        if lower == upper || lower.is_empty() { continue; }
        let mut counts: BTreeMap<T, usize> = BTreeMap::new();
        for (_, t, _) in truth { let v = t.vec(); if beyond(&lower, &v) && !beyond(&upper, &v) { *counts.entry(t.clone()).or_default() += 1; } }
        out.push(Message::Progress(Progress { lower: lower.iter().map(|t| T::of(t)).collect(), upper: upper.iter().map(|t| T::of(t)).collect(), counts: counts.into_iter().collect() }));
    }
    match rng.below(4) {
        0 => {}
        1 => out.reverse(),
        2 => rng.shuffle(&mut out),
        _ => for _ in 0..out.len() { if out.len() > 1 { let i = rng.below(out.len() as u64 - 1) as usize; out.swap(i, i + 1); } },
    }
    out
}
fn some_frontier(rng: &mut Rng, dim: usize, max: u64) -> Vec<Vec<u64>> {
    let n = if dim == 1 { 1 } else { 1 + rng.below(2) };
    let v: Vec<Vec<u64>> = (0..n).map(|_| (0..dim).map(|_| rng.below(max)).collect()).collect();
    if rng.chance(1, 6) { vec![] } else { antichain(&v) }
}

/// Reads messages with the iterator.
fn iterate<T: TimeLike>(log: &Log, msgs: Vec<Msg<T>>) {
    let l = log.clone();
    let iter = Iter::new(msgs.into_iter().inspect(move |m| l.push(msg_json(m, "ru", "rp"))));
    for (ups, f) in iter {
        log.push({ let mut v = json!(["out"]); v.as_array_mut().unwrap().push(ups_json(&ups)); v });
        log.push(json!(["fr", 0, fj(f.elements().iter())]));
    }
    log.push(json!(["rest", [0]]));
}

struct Feed<T: TimeLike> { queue: Rc<RefCell<VecDeque<Msg<T>>>>, log: Log }
impl<T: TimeLike> Iterator for Feed<T> {
    type Item = Msg<T>;
    fn next(&mut self) -> Option<Msg<T>> {
        let m = self.queue.borrow_mut().pop_front()?;
        self.log.push(msg_json(&m, "ru", "rp"));
        Some(m)
    }
}

/// Reads messages with the source dataflow: feeds[w] are (steps to wait, message).
fn replay<T: TimeLike + timely::progress::timestamp::Refines<()>>(log: &Log, feeds: Vec<Vec<(u64, Msg<T>)>>, whole: bool) {
    let workers = feeds.len();
    let config = machine(workers, feeds.iter().map(|f| f.len()).sum());
    let log2 = log.clone();
    let feeds = Arc::new(feeds);
    let guards = timely::execute(config, move |worker| {
        let log = log2.clone();
        let w = worker.index();
        let queue: Rc<RefCell<VecDeque<Msg<T>>>> = Default::default();
        let probe = timely::dataflow::ProbeHandle::new();
        let mut act = None;
        let token = worker.dataflow::<T, _, _>(|scope| {
            let feed = Feed { queue: queue.clone(), log: log.clone() };
            let a = &mut act;
            let (token, stream) = source::build(scope, move |activator| { *a = Some(activator); feed });
            let l = log.clone();
            stream.inspect_batch(move |_, xs| l.push({ let mut v = json!(["out"]); v.as_array_mut().unwrap().push(ups_json(xs)); v })).probe_with(&probe);
            token
        });
        let act = act.unwrap();
        let mut last = fj(&[T::minimum()]);
        let mut report = || { let f = probe.with_frontier(|f| fj(f.iter())); if f != last { log.push(json!(["fr", w, f])); last = f; } };
        for (n, m) in &feeds[w] {
            for _ in 0..*n { worker.step(); report(); }
            queue.borrow_mut().push_back(m.clone());
            let _ = act.activate();
        }
        if workers == 1 {
            let mut idle = 0;
            while idle < 100 { let n = log.len(); worker.step(); report(); if n == log.len() { idle += 1 } else { idle = 0 } }
        } else if whole {
            let start = std::time::Instant::now();
            while !probe.done() && start.elapsed().as_secs() < 6 { worker.step(); report(); std::thread::yield_now(); }
        } else {
            let start = std::time::Instant::now();
            while start.elapsed().as_millis() < 20 { worker.step(); report(); std::thread::yield_now(); }
        }
        report();
        drop(token);
        for d in worker.installed_dataflows() { worker.drop_dataflow(d); }
    }).unwrap();
    for g in guards.join() { if let Err(e) = g { panic!("{}", e); } }
    if workers == 1 || whole { log.push(json!(["rest", (0..workers).collect::<Vec<_>>()])); }
}

fn case<T: TimeLike + timely::progress::timestamp::Refines<()>>(rng: &mut Rng, script: Option<&Value>) -> Value {
    let log = Log::new();
    let dim = T::DIM;
    let max = if dim == 1 { 2 + rng.below(6) } else { 2 + rng.below(3) };
    let mut nw = 1;
    let nr = if rng.chance(1, 4) { 2 + rng.below(2) as usize } else { 1 };
    guarded(&log, || {
        let mut truth: Vec<(Row, T, isize)> = Vec::new();
        if let Some(s) = script {
            // A collection and a sequence of messages from spec/DDCaptureMC.
            let acts = s.as_array().unwrap();
            let ups = |v: &Value| -> Vec<(Row, T, isize)> { let u: Vec<Upd> = serde_json::from_value(v.clone()).unwrap(); u.into_iter().map(|(r, t, d)| (r, T::of(&t), d as isize)).collect() };
            let times = |v: &Value| -> Vec<T> { let u: Vec<Vec<u64>> = serde_json::from_value(v.clone()).unwrap(); u.iter().map(|t| T::of(t)).collect() };
            log.push(json!(["in", 0, acts[0][1]]));
            let msgs: Vec<Msg<T>> = acts[1..].iter().map(|a| if a[0] == "ru" { Message::Updates(ups(&a[1])) } else {
                let c: Vec<(Vec<u64>, usize)> = serde_json::from_value(a[3].clone()).unwrap();
                Message::Progress(Progress { lower: times(&a[1]), upper: times(&a[2]), counts: c.into_iter().map(|(t, n)| (T::of(&t), n)).collect() })
            }).collect();
            iterate(&log, msgs.clone());
            if dim == 1 { log.push(json!(["again"])); replay(&log, vec![msgs.into_iter().map(|m| (rng.below(4), m)).collect()], false); }
            return;
        }
        if rng.chance(1, 4) { nw = 2 + rng.below(2) as usize; }
        let all = grid(dim, max);
        let mut rows: Vec<(Row, Vec<u64>)> = all.iter().flat_map(|t| (0..4i64).map(move |k| ((k / 2, k % 2), t.clone()))).collect();
        rng.shuffle(&mut rows);
        let mut scripts: Vec<Vec<Act>> = Vec::new();
        for _ in 0..nw {
            let mut acts = Vec::new();
            let mut fr = vec![vec![0; dim]];
            for _ in 0..4 + rng.below(12) {
                match rng.below(4) {
                    0 | 1 => {
                        let n = 1 + rng.below(4);
                        let mut ups = Vec::new();
                        for _ in 0..n {
                            let Some(i) = rows.iter().position(|(_, t)| beyond(&fr, t)) else { continue };
                            let (r, t) = rows.swap_remove(i);
                            ups.push((r, t, *rng.pick(&[1, 1, -1, 2])));
                        }
                        if ups.is_empty() { continue; }
                        truth.extend(ups.iter().map(|(r, t, d)| (*r, T::of(t), *d as isize)));
                        acts.push(Act::Send(ups));
                    }
                    2 => if !fr.is_empty() { fr = advance_frontier(rng, &fr, max); acts.push(Act::Caps(fr.clone())); },
                    _ => acts.push(Act::Step(1 + rng.below(4))),
                }
            }
            scripts.push(acts);
        }
        let seeds: Vec<u64> = (0..nw).map(|_| rng.next()).collect();
        let lazy = *rng.pick(&[0, 2, 5, 8]);
        let msgs = write::<T>(&log, scripts, seeds, lazy);
        let lossy = rng.chance(1, 4);
        let faulty = faults(rng, &msgs, &truth, max, lossy);
        iterate(&log, faulty);
        if dim == 1 {
            log.push(json!(["again"]));
            let lossy = rng.chance(1, 5);
            let faulty = faults(rng, &msgs, &truth, max, lossy);
            let mut feeds: Vec<Vec<(u64, Msg<T>)>> = vec![Vec::new(); nr];
            let fast = rng.chance(1, 3);
            for m in faulty { let w = rng.below(nr as u64) as usize; feeds[w].push((if fast { 0 } else { rng.below(4) }, m)); }
            replay(&log, feeds, !lossy);
        }
    });
    json!({ "dim": dim, "nw": nw, "nr": if dim == 1 && script.is_none() { nr } else { 1 }, "ev": log.take() })
}

pub fn family_capture(_: usize, rng: &mut Rng, script: Option<&Value>) -> Value {
    let dim = match script { Some(s) => sdim(s), None => if rng.chance(3, 5) { 1 } else { 2 } };
    if dim == 1 { case::<u64>(rng, script) } else { case::<Pair>(rng, script) }
}
/// The number of coordinates of times in a schedule.
fn sdim(s: &Value) -> usize {
    s.as_array().unwrap().iter().filter(|a| a[0] == "rp").flat_map(|a| a[1].as_array().unwrap().iter().chain(a[2].as_array().unwrap()))
        .map(|t| t.as_array().unwrap().len()).next().unwrap_or(1)
}
