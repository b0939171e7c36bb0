//! Dataflows whose operators have more to do than they do at once: inputs are runs of consecutive values, given
//! in one entry each, and outputs are counted by residue (spec/DDBig).
//!
//! Trace events are those of `flow`, except that
//!   ["in", p, [[key, lo, n, time, diff], ...]]   gives each record (key, v) for v in lo .. lo + n.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::probe::Probe;
use timely::progress::timestamp::Refines;
use differential_dataflow::AsCollection;

use crate::common::*;

type Span = (i64, i64, i64, Vec<u64>, i64);
#[derive(Clone)]
enum Act { Send(usize, Vec<Span>), Caps(usize, Vec<Vec<u64>>), Step(usize) }

type Sums = Arc<Mutex<Vec<BTreeMap<(Row, Vec<u64>), isize>>>>;

fn flush(sums: &mut [BTreeMap<(Row, Vec<u64>), isize>], log: &Log) {
    for (o, sum) in sums.iter_mut().enumerate() {
        let ups: Vec<Value> = std::mem::take(sum).into_iter().filter(|x| x.1 != 0).map(|((r, t), d)| json!([[r.0, r.1], t, d])).collect();
        if !ups.is_empty() { log.push(json!(["out", o, ups])); }
    }
}

fn run<T: TimeLike + Refines<()>>(progs: Vec<&'static str>, scripts: Vec<Vec<Act>>) -> Vec<Value> {
    let log = Log::new();
    let workers = scripts.len();
    let scripts = Arc::new(scripts);
    let log2 = log.clone();
    // What each output produced since it was last told, in sum: there is too much of it to tell each.
    let sums: Sums = Arc::new(Mutex::new(vec![BTreeMap::new(); progs.len()]));
    let sums2 = sums.clone();
    guarded(&log, move || {
        let config = machine(workers, scripts.iter().map(|s| s.len()).sum());
        let guards = timely::execute(config, move |worker| {
            let (log, sums) = (log2.clone(), sums2.clone());
            let w = worker.index();
            let script = scripts[w].clone();
            let probes: Vec<timely::dataflow::ProbeHandle<T>> = progs.iter().map(|_| timely::dataflow::ProbeHandle::new()).collect();
            let mut inputs: Vec<Input<T>> = worker.dataflow::<T, _, _>(|scope| {
                let ((h0, c0), s0) = scope.new_unordered_input::<(Row, T, isize)>();
                let ((h1, c1), s1) = scope.new_unordered_input::<(Row, T, isize)>();
                let (a, b) = (s0.as_collection(), s1.as_collection());
                for (o, p) in progs.iter().enumerate() {
                    let (a, b) = (a.clone(), b.clone());
                    let sums = sums.clone();
                    let out = match *p {
                        "join" => a.join_map(b, |_k, x, y| (*x, *y)).map(|(x, y)| (x % 2, y % 3)),
                        "self" => a.clone().join_map(a, |_k, x, y| (*x, *y)).map(|(x, y)| (x % 2, y % 3)),
                        "arranged" => {
                            let (a, b) = (a.arrange_by_key(), b.arrange_by_key());
                            a.join_core(b, |_k, x, y| Some((*x, *y))).map(|(x, y)| (x % 2, y % 3))
                        }
                        "count" => a.map(|(k, _)| k).count().map(|(k, n)| (k, n as i64)),
                        "distinct" => a.concat(b).distinct().map(|(_k, x)| (x % 2, x % 3)),
                        _ => a.consolidate().map(|(_k, x)| (x % 2, x % 3)),
                    };
                    out.inspect_batch(move |_, xs| {
                        let mut sums = sums.lock().unwrap();
                        for (r, t, d) in xs { *sums[o].entry((*r, t.vec())).or_insert(0isize) += d; }
                    })
                    .inner.probe_with(&probes[o]);
                }
                vec![Input { handle: h0, caps: vec![c0] }, Input { handle: h1, caps: vec![c1] }]
            });
            let mut last: Vec<Value> = vec![fj(&[T::minimum()]); progs.len()];
            let mut report = |log: &Log| {
                for (o, p) in probes.iter().enumerate() {
                    let f = p.with_frontier(|f| fj(f.iter()));
                    // What was seen so far, by whichever worker, was seen before this.
                    if f != last[o] { flush(&mut sums.lock().unwrap(), log); log.push(json!(["fr", o, w, f])); last[o] = f; }
                }
            };
            for a in script.iter() {
                match a {
                    Act::Send(i, spans) => {
                        log.push(json!(["in", i + 2 * w, spans]));
                        for (k, lo, n, t, d) in spans {
                            let ups: Vec<Upd> = (*lo .. lo + n).map(|v| ((*k, v), t.clone(), *d)).collect();
                            inputs[*i].send(&ups);
                        }
                    }
                    Act::Caps(i, f) => { log.push(json!(["adv", i + 2 * w, f])); inputs[*i].caps(f); }
                    Act::Step(n) => for _ in 0..*n { worker.step(); report(&log); },
                }
            }
            for (i, inp) in inputs.iter_mut().enumerate() {
                log.push(json!(["adv", i + 2 * w, []]));
                inp.caps(&[]);
            }
            drop(inputs);
            // There is much to do, but a worker with nothing left to do need not be waited for.
            let start = std::time::Instant::now();
            let (mut idle, mut seen) = (0, (log.len(), 0));
            while !probes.iter().all(|p| p.done()) && start.elapsed().as_secs() < 40 && idle < 2000 {
                worker.step(); report(&log);
                if worker.peers() > 1 { std::thread::yield_now(); }
                else {
                    let now = (log.len(), sums.lock().unwrap().iter().map(|s| s.values().map(|d| d.unsigned_abs()).sum::<usize>()).sum::<usize>());
                    if now == seen { idle += 1 } else { idle = 0; seen = now; }
                }
            }
            if !probes.iter().all(|p| p.done()) { for d in worker.installed_dataflows() { worker.drop_dataflow(d); } }
            report(&log);
        }).unwrap();
        for g in guards.join() { if let Err(e) = g { panic!("{}", e); } }
    });
    match sums.lock() { Ok(mut s) => flush(&mut s, &log), Err(e) => flush(&mut e.into_inner(), &log) }
    log.push(json!(["end"]));
    log.take()
}

fn act_json(a: &Act) -> Value {
    match a {
        Act::Send(i, u) => json!(["send", i, u]),
        Act::Caps(i, f) => json!(["caps", i, f]),
        Act::Step(n) => json!(["step", n]),
    }
}

pub fn family_big(i: usize, rng: &mut Rng) -> Value {
    let dim = 1 + rng.below(2) as usize;
    let max = if dim == 1 { 3 } else { 2 };
    let workers = if i % 4 == 3 { 2 } else { 1 };
    let first = *rng.pick(&["join", "join", "arranged", "self"]);
    let second = *rng.pick(&["count", "distinct", "thru"]);
    let progs = if rng.chance(1, 2) { vec![first] } else { vec![first, second] };
    let all = grid(dim, max);
    // How far beyond what a join does at once the work goes: now and then, several times as far.
    let rng_big = *rng.pick(&[250, 800, 1400]);
    let scripts: Vec<Vec<Act>> = (0..workers).map(|w| {
        let mut fr: Vec<Vec<Vec<u64>>> = vec![vec![vec![0; dim]]; 2];
        let mut out = Vec::new();
        let mut heavy = [w == 0, w == 0];
        let mut left = 5000;
        for _ in 0 .. 6 + rng.below(8) {
            let p = rng.below(2) as usize;
            match rng.below(6) {
                0 | 1 | 2 => {
                    let open: Vec<&Vec<u64>> = all.iter().filter(|t| beyond(&fr[p], t)).collect();
                    if open.is_empty() || left < 0 { continue; }
                    let mut spans: Vec<Span> = Vec::new();
                    for _ in 0 .. 1 + rng.below(2) {
                        // Enough that the product exceeds what a join will do at once.
                        let n = if heavy[p] { heavy[p] = false; 1010 + rng.below(rng_big) as i64 } else { 1 + rng.below(200) as i64 };
                        let k = if n > 1000 { 0 } else { rng.below(3) as i64 };
                        left -= n;
                        spans.push((k, rng.below(20) as i64, n, (*rng.pick(&open)).clone(), *rng.pick(&[1, 1, 1, 2, -1])));
                    }
                    out.push(Act::Send(p, spans));
                }
                3 | 4 => {
                    if fr[p].is_empty() { continue; }
                    fr[p] = advance_frontier(rng, &fr[p], max);
                    out.push(Act::Caps(p, fr[p].clone()));
                }
                _ => out.push(Act::Step(1 + rng.below(3) as usize)),
            }
        }
        for p in 0 .. 2 {
            let open: Vec<&Vec<u64>> = all.iter().filter(|t| beyond(&fr[p], t)).collect();
            if heavy[p] && !open.is_empty() {
                out.push(Act::Send(p, vec![(0, rng.below(20) as i64, 1010 + rng.below(rng_big) as i64, (*rng.pick(&open)).clone(), 1)]));
                if rng.chance(1, 2) { out.push(Act::Step(1)); }
            }
        }
        out
    }).collect();
    let sj: Vec<Value> = scripts.iter().map(|s| json!(s.iter().map(act_json).collect::<Vec<_>>())).collect();
    let ev = if dim == 1 { run::<u64>(progs.clone(), scripts) } else { run::<Pair>(progs.clone(), scripts) };
    json!({ "dim": dim, "prog": progs, "nw": workers, "times": grid(dim, max + 2), "script": sj, "ev": ev })
}
