//! Input sessions (validated against spec/DDInput).
//!
//! Events: ["attach", s, c] ["init", c, ups] ["upd", s, row, t, d] ["now", s, row, d] ["adv", s, t] ["refused", s, t]
//!   ["time", s, t] ["flush", s] ["close", s] ["out", c, ups] ["fr", c, w, f] ["quiet", cs]
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use differential_dataflow::input::{Input, InputSession};
use differential_dataflow::{AsCollection, VecCollection};
use serde_json::{json, Value};
use timely::dataflow::operators::probe::Handle;
use timely::dataflow::operators::vec::Input as TimelyInput;

use ddv::common::*;

type Sess = InputSession<u64, Row, isize>;

#[derive(Clone, Debug)]
enum Act {
    /// A collection of sessions (indices on the worker): how, and what it starts with.
    Build(u64, Vec<usize>, Vec<(Row, u64, isize)>),
    Upd(usize, Row, isize),
    UpdAt(usize, Row, u64, isize),
    Bulk(usize, Row, usize, isize),
    Adv(usize, u64),
    Bad(usize, u64, bool),
    Flush(usize),
    Close(usize, bool),
    Step(u64),
    Rest,
}

fn consolidated(ups: &[(Row, u64, isize)]) -> Value {
    let mut m: BTreeMap<(Row, u64), isize> = BTreeMap::new();
    for (r, t, d) in ups { *m.entry((*r, *t)).or_default() += d; }
    json!(m.into_iter().filter(|x| x.1 != 0).map(|((r, t), d)| json!([[r.0, r.1], [t], d])).collect::<Vec<_>>())
}

fn run(log: &Log, scripts: Vec<Vec<Act>>, per: usize) {
    let workers = scripts.len();
    let config = machine(workers, scripts.iter().map(|s| s.len()).sum());
    let log2 = log.clone();
    let guards = timely::execute(config, move |worker| {
        let log = log2.clone();
        let w = worker.index();
        let mut sess: Vec<Option<Sess>> = (0..per).map(|_| None).collect();
        let mut times = vec![0u64; per];
        let mut probes: Vec<Handle<u64>> = Vec::new();
        let mut last: Vec<Value> = Vec::new();
        let name = |j: usize| w * per + j;
        fn report(log: &Log, w: usize, probes: &[Handle<u64>], last: &mut Vec<Value>) {
            for (c, p) in probes.iter().enumerate() {
                let f = p.with_frontier(|f| fj(f.iter()));
                if f != last[c] { log.push(json!(["fr", c, w, f])); last[c] = f; }
            }
        }
        for a in scripts[w].iter().cloned() {
            if let Act::Flush(j) | Act::Close(j, _) | Act::Upd(j, ..) | Act::UpdAt(j, ..) | Act::Bulk(j, ..) | Act::Adv(j, ..) | Act::Bad(j, ..) = &a { if sess[*j].is_none() { continue; } }
            match a {
                Act::Build(how, js, init) => {
                    let c = probes.len();
                    for &j in &js { if let Some(s) = sess[j].as_mut() { log.push(json!(["flush", name(j)])); s.flush(); } log.push(json!(["attach", name(j), c])); }
                    let fresh = sess[js[0]].is_none();
                    if fresh && how == 2 { log.push(json!(["init", c, consolidated(&init)])); }
                    if fresh && how == 1 { let i: Vec<_> = init.iter().map(|u| (u.0, 0, 1)).collect(); log.push(json!(["init", c, consolidated(&i)])); }
                    let probe = Handle::new();
                    let (l, p) = (log.clone(), probe.clone());
                    worker.dataflow::<u64, _, _>(|scope| {
                        let mut all: Option<VecCollection<u64, Row, isize>> = None;
                        for (i, &j) in js.iter().enumerate() {
                            let coll = if sess[j].is_some() { sess[j].as_mut().unwrap().to_collection(scope) } else {
                                let (s, coll) = match if i == 0 { how } else { how % 2 * 3 } {
                                    1 => { let rows: Vec<Row> = init.iter().map(|u| u.0).collect(); scope.new_collection_from(rows) }
                                    2 => scope.new_collection_from_raw(init.clone()),
                                    3 => { let mut s = Sess::new(); let coll = s.to_collection(scope); (s, coll) }
                                    4 => { let (h, stream) = scope.new_input(); (Sess::from(h), stream.as_collection()) }
                                    _ => scope.new_collection(),
                                };
                                sess[j] = Some(s); coll
                            };
                            all = Some(match all { None => coll, Some(x) => x.concat(coll) });
                        }
                        use timely::dataflow::operators::{Inspect, Probe};
                        all.unwrap().inner.inspect_batch(move |_, xs| l.push({ let mut v = json!(["out", c]); v.as_array_mut().unwrap().push(consolidated(xs)); v })).probe_with(&p);
                    });
                    probes.push(probe);
                    last.push(json!([[0]]));
                }
                Act::Upd(j, r, d) => {
                    log.push(json!(["now", name(j), [r.0, r.1], d]));
                    let s = sess[j].as_mut().unwrap();
                    if d == 1 { s.insert(r) } else if d == -1 { s.remove(r) } else { s.update(r, d) }
                }
                Act::UpdAt(j, r, t, d) => {
                    let t = t.max(times[j]);
                    log.push(json!(["upd", name(j), [r.0, r.1], [t], d]));
                    sess[j].as_mut().unwrap().update_at(r, t, d);
                }
                Act::Bulk(j, r, n, d) => {
                    log.push(json!(["now", name(j), [r.0, r.1], n as isize * d]));
                    for _ in 0..n { sess[j].as_mut().unwrap().update(r, d); }
                }
                Act::Adv(j, t) => {
                    let t = t.max(times[j]);
                    times[j] = t;
                    log.push(json!(["adv", name(j), [t]]));
                    sess[j].as_mut().unwrap().advance_to(t);
                    log.push(json!(["time", name(j), [*sess[j].as_ref().unwrap().time()]]));
                }
                Act::Bad(j, t, up) => {
                    if times[j] == 0 { continue; }
                    let t = t % times[j];
                    let s = sess[j].as_mut().unwrap();
                    if catch_unwind(AssertUnwindSafe(|| if up { s.update_at((9, 9), t, 1) } else { s.advance_to(t) })).is_ok() { log.push(json!(["accepted", name(j), [t]])); }
                    else { log.push(json!(["refused", name(j), [t]])); }
                    log.push(json!(["time", name(j), [*sess[j].as_ref().unwrap().epoch()]]));
                }
                Act::Flush(j) => { log.push(json!(["flush", name(j)])); sess[j].as_mut().unwrap().flush(); }
                Act::Close(j, drop_it) => { log.push(json!(["close", name(j)])); let s = sess[j].take().unwrap(); if drop_it { drop(s) } else { s.close() } }
                Act::Step(n) => for _ in 0..n { worker.step(); report(&log, w, &probes, &mut last); },
                Act::Rest => if workers == 1 {
                    let mut idle = 0;
                    while idle < 12 { let n = log.len(); worker.step(); report(&log, w, &probes, &mut last); if n == log.len() { idle += 1 } else { idle = 0 } }
                    log.push(json!(["quiet", (0..probes.len()).collect::<Vec<_>>()]));
                },
            }
        }
        for j in 0..per { if let Some(s) = sess[j].take() { log.push(json!(["close", name(j)])); if j % 2 == 0 { drop(s) } else { s.close() } } }
        let start = std::time::Instant::now();
        while probes.iter().any(|p| !p.done()) && start.elapsed().as_secs() < 5 { worker.step(); report(&log, w, &probes, &mut last); }
        for _ in 0..5 { worker.step(); }
        report(&log, w, &probes, &mut last);
        probes.len()
    }).unwrap();
    let n = guards.join().into_iter().map(|g| match g { Ok(n) => n, Err(e) => panic!("{}", e) }).max().unwrap();
    log.push(json!(["quiet", (0..n).collect::<Vec<_>>()]));
}

fn random(rng: &mut Rng, workers: usize, per: usize, ncol: usize) -> Vec<Vec<Act>> {
    let max = 2 + rng.below(8);
    let subset = |rng: &mut Rng| loop { let s: Vec<usize> = (0..per).filter(|_| rng.chance(2, 3)).collect(); if !s.is_empty() { return s; } };
    let builds: Vec<(u64, Vec<usize>, usize)> = (0..ncol).map(|c| (rng.below(5), if c == 0 { (0..per).collect() } else { subset(rng) }, rng.below(6) as usize)).collect();
    (0..workers).map(|_| {
        let mut now = vec![0; per];
        let mut acts = Vec::new();
        let bulky = rng.chance(1, 3);
        for (c, (how, js, n)) in builds.iter().enumerate() {
            let row = |rng: &mut Rng| (rng.below(3) as i64, rng.below(2) as i64);
            acts.push(Act::Build(*how, js.clone(), (0..*n).map(|_| (row(rng), rng.below(max), *rng.pick(&[1, -1, 2]))).collect()));
            let ending = c + 1 == ncol;
            for _ in 0..3 + rng.below(14) {
                let j = rng.below(per as u64) as usize;
                match rng.below(12) {
                    0 | 1 => acts.push(Act::Upd(j, row(rng), *rng.pick(&[1, 1, -1, 2, -3]))),
                    2 | 3 => acts.push(Act::UpdAt(j, row(rng), now[j] + rng.below(4), *rng.pick(&[1, 1, -1, 2]))),
                    4 => if bulky { acts.push(Act::Bulk(j, row(rng), *rng.pick(&[1000, 1022, 1023, 1024, 1025, 2047, 2050, 3000]), *rng.pick(&[1, -1]))) },
                    5 | 6 => { now[j] += rng.below(3); acts.push(Act::Adv(j, now[j])); }
                    7 => acts.push(Act::Flush(j)),
                    8 => acts.push(Act::Bad(j, rng.below(20), rng.chance(1, 2))),
                    9 => if ending && rng.chance(1, 4) { acts.push(Act::Close(j, rng.chance(1, 2))) },
                    10 => acts.push(Act::Rest),
                    _ => acts.push(Act::Step(1 + rng.below(3))),
                }
            }
        }
        acts
    }).collect()
}

pub fn family_session(_: usize, rng: &mut Rng, script: Option<&Value>) -> Value {
    let log = Log::new();
    let (workers, per, ncol);
    let scripts = match script {
        None => {
            workers = if rng.chance(1, 3) { 2 + rng.below(2) as usize } else { 1 };
            per = 1 + rng.below(2) as usize;
            ncol = 1 + rng.below(3) as usize;
            random(rng, workers, per, ncol)
        }
        Some(s) => {
            // A schedule from spec/DDInputMC.
            let s = s.as_array().unwrap();
            workers = 1;
            per = s[0][1].as_u64().unwrap() as usize; ncol = s[0][2].as_u64().unwrap() as usize;
            let upd = |u: &Value| -> Upd { serde_json::from_value(u.clone()).unwrap() };
            vec![s[1..].iter().map(|a| {
                let j = a[1].as_u64().unwrap_or(0) as usize;
                match a[0].as_str().unwrap() {
                    "build" => Act::Build(rng.below(5), serde_json::from_value(a[2].clone()).unwrap(), vec![((0, 0), 0, 1), ((1, 0), 2, -1)]),
                    "now" => { let u = upd(&a[2]); if rng.chance(1, 5) { Act::Bulk(j, u.0, *rng.pick(&[1022, 1024]), u.2 as isize) } else { Act::Upd(j, u.0, u.2 as isize) } }
                    "upd" => { let u = upd(&a[2]); Act::UpdAt(j, u.0, u.1[0], u.2 as isize) }
                    "adv" => Act::Adv(j, a[2].as_u64().unwrap()),
                    "bad" => Act::Bad(j, a[2].as_u64().unwrap(), rng.chance(1, 2)),
                    "flush" => Act::Flush(j),
                    "close" => Act::Close(j, rng.chance(1, 2)),
                    "step" => Act::Step(1),
                    _ => Act::Rest,
                }
            }).collect()]
        }
    };
    guarded(&log, || run(&log, scripts, per));
    json!({ "ns": workers * per, "nc": ncol, "nw": workers, "ev": log.take() })
}
