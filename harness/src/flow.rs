//! Runs programs on scripted inputs and records what the outputs and frontiers do.
//!
//! Trace events (validated against spec/DDFlow):
//!   ["in", p, updates]      updates given to physical input p
//!   ["adv", p, frontier]    physical input p promises to only use times beyond frontier
//!   ["out", o, updates]     updates observed at output o
//!   ["fr", o, w, frontier]  frontier of output o as seen by worker w
//!   ["call", o, k, group]   the logic of output o's reduction was given this group for key k
//!   ["quiet"]               nothing more happens without further inputs
//!   ["end"], ["panic", m]
use serde_json::{json, Value};
use std::sync::Arc;
use timely::dataflow::operators::vec::unordered_input::UnorderedInput;
use timely::dataflow::operators::probe::Probe;
use differential_dataflow::AsCollection;
use timely::progress::timestamp::Refines;

use crate::common::*;
use crate::prog::*;

#[derive(Clone, Debug)]
pub enum Act { Send(usize, Vec<Upd>), Caps(usize, Vec<Vec<u64>>), Step(usize), Quiet }

pub fn act_json(a: &Act) -> Value {
    match a {
        Act::Send(i, u) => json!(["send", i, u.iter().map(uj).collect::<Vec<_>>()]),
        Act::Caps(i, f) => json!(["caps", i, f]),
        Act::Step(n) => json!(["step", n]),
        Act::Quiet => json!(["quiet"]),
    }
}

/// A random script for one worker: sends respecting the held frontier, frontier advances, and steps.
pub fn random_script(rng: &mut Rng, dim: usize, nin: usize, max: u64, len: usize, keys: i64, vals: i64) -> Vec<Act> {
    let mut fr: Vec<Vec<Vec<u64>>> = vec![vec![vec![0; dim]]; nin];
    let all = grid(dim, max);
    let mut live: Vec<Vec<(Row, Vec<u64>, i64)>> = vec![vec![]; nin];
    let mut out = Vec::new();
    // Bias: some scripts load everything before advancing.
    let adv = 1 + rng.below(4);
    for _ in 0..len {
        let i = rng.below(nin as u64) as usize;
        let c = rng.below(6 + adv);
        if c < 4 {
            let open: Vec<&Vec<u64>> = all.iter().filter(|t| beyond(&fr[i], t)).collect();
            if open.is_empty() { continue; }
            let n = 1 + rng.below(4);
            let mut ups = Vec::new();
            for _ in 0..n {
                let t = (*rng.pick(&open)).clone();
                if !live[i].is_empty() && rng.chance(1, 3) {
                    // retract something earlier, at a later-or-equal time if possible
                    let j = rng.below(live[i].len() as u64) as usize;
                    let (r, t0, d) = live[i][j].clone();
                    let t = vjoin(&t, &t0);
                    ups.push((r, t, -d)); live[i].swap_remove(j);
                } else {
                    let r = (rng.below(keys as u64) as i64, rng.below(vals as u64) as i64);
                    let d = *rng.pick(&[1, 1, 1, 1, 2, -1]);
                    live[i].push((r, t.clone(), d));
                    ups.push((r, t, d));
                }
            }
            out.push(Act::Send(i, ups));
        } else if c < 4 + adv {
            if fr[i].is_empty() { continue; }
            fr[i] = advance_frontier(rng, &fr[i], max);
            out.push(Act::Caps(i, fr[i].clone()));
        } else if rng.chance(1, 6) {
            out.push(Act::Quiet);
        } else {
            out.push(Act::Step(1 + rng.below(3) as usize));
        }
    }
    out
}

/// Executes programs `exprs` over `nin` inputs; scripts[w] drives worker w. Returns the events.
pub fn run<T: TimeLike + Nest + Refines<()>>(nin: usize, exprs: Vec<Value>, scripts: Vec<Vec<Act>>) -> Vec<Value> {
    let log = Log::new();
    let workers = scripts.len();
    let scripts = Arc::new(scripts);
    let exprs = Arc::new(exprs);
    let log2 = log.clone();
    guarded(&log, move || {
        let config = machine(workers, scripts.iter().map(|s| s.len()).sum());
        let guards = timely::execute(config, move |worker| {
            let log = log2.clone();
            let w = worker.index();
            let script = &scripts[w];
            let exprs = exprs.clone();
            crate::variants::CALLS.with(|c| *c.borrow_mut() = Some(log.clone()));
            let probes: Vec<timely::dataflow::ProbeHandle<T>> = exprs.iter().map(|_| timely::dataflow::ProbeHandle::new()).collect();
            let mut inputs: Vec<Input<T>> = worker.dataflow::<T, _, _>(|scope| {
                let mut inputs = Vec::new();
                let mut ins = Vec::new();
                for _ in 0..nin {
                    let ((handle, cap), stream) = scope.new_unordered_input::<(Row, T, isize)>();
                    inputs.push(Input { handle, caps: vec![cap] });
                    ins.push(stream.as_collection());
                }
                let env = Env { ins, vars: vec![], level: 0 };
                for (o, e) in exprs.iter().enumerate() {
                    let log = log.clone();
                    if e[0] == "interp" { T::interp(scope, &env, e, log, o, &probes[o]); continue; }
                    build(scope, &env, e)
                        .inspect_batch(move |_, xs| {
                            let ups: Vec<Value> = xs.iter().map(|(r, t, d)| json!([[r.0, r.1], t.vec(), d])).collect();
                            log.push(json!(["out", o, ups]));
                        })
                        .inner.probe_with(&probes[o]);
                }
                inputs
            });
            let mut last: Vec<Value> = vec![fj(&[T::minimum()]); exprs.len()];
            let mut report = |log: &Log| {
                for (o, p) in probes.iter().enumerate() {
                    let f = p.with_frontier(|f| fj(f.iter()));
                    if f != last[o] { log.push(json!(["fr", o, w, f])); last[o] = f; }
                }
            };
            for a in script.iter() {
                match a {
                    Act::Send(i, ups) => {
                        log.push(json!(["in", i + nin * w, ups.iter().map(uj).collect::<Vec<_>>()]));
                        inputs[*i].send(ups);
                    }
                    Act::Caps(i, f) => {
                        log.push(json!(["adv", i + nin * w, f]));
                        inputs[*i].caps(f);
                    }
                    Act::Step(n) => for _ in 0..*n { worker.step(); report(&log); },
                    Act::Quiet => if worker.peers() == 1 {
                        let mut idle = 0;
                        let mut total = 0;
                        while idle < 300 && total < 20_000 {
                            let before = log.len();
                            worker.step(); report(&log);
                            if log.len() == before { idle += 1 } else { idle = 0 }
                            total += 1;
                        }
                        log.push(json!(["quiet"]));
                    },
                }
            }
            for (i, inp) in inputs.iter_mut().enumerate() {
                log.push(json!(["adv", i + nin * w, []]));
                inp.caps(&[]);
            }
            drop(inputs);
            finish(worker, &probes, |_| report(&log));
            report(&log);
        }).unwrap();
        for g in guards.join() { if let Err(e) = g { panic!("{}", e); } }
    });
    log.push(json!(["end"]));
    log.take()
}

/// Steps until all probes are done, or no end seems in sight.
pub fn finish<T: timely::progress::Timestamp>(worker: &mut timely::worker::Worker, probes: &[timely::dataflow::ProbeHandle<T>], mut each: impl FnMut(&mut timely::worker::Worker)) {
    let start = std::time::Instant::now();
    let mut n = 0usize;
    while !probes.iter().all(|p| p.done()) {
        worker.step(); each(worker);
        n += 1;
        if worker.peers() == 1 { if n > 20_000 { break; } }
        else {
            if n % 64 == 0 { std::thread::yield_now(); }
            if start.elapsed().as_secs() > 20 { break; }
        }
    }
    // Timely would wait for the dataflows to complete; abandon those that will not.
    if !probes.iter().all(|p| p.done()) { for d in worker.installed_dataflows() { worker.drop_dataflow(d); } }
}

/// Outputs whose updates must be consolidated corrections.
fn canonical(e: &Value) -> bool {
    match e[0].as_str().unwrap() {
        "reduce" | "distinct" | "threshold" => true,
        "v" => ["core", "abelian", "ref", "proxy", "chunk", "named"].contains(&e[1].as_str().unwrap()) && canonical(&e[2])
            || (e[1].as_str().unwrap().starts_with("log") || e[1].as_str().unwrap().starts_with("abl")) && canonical(&e[2]),
        _ => false,
    }
}

thread_local! {
    /// A schedule generated by simulating spec/DDSched, to be used in place of a random one.
    static SCHED: std::cell::RefCell<Option<Value>> = const { std::cell::RefCell::new(None) };
}
pub fn with(script: Option<&Value>, f: impl FnOnce() -> Value) -> Value {
    SCHED.with(|s| *s.borrow_mut() = script.cloned());
    f()
}
pub fn scheduled() -> bool { SCHED.with(|s| s.borrow().is_some()) }
fn sched() -> Option<Vec<Value>> { SCHED.with(|s| s.borrow().as_ref().map(|s| s.as_array().unwrap().clone())) }
fn num(v: &Value) -> usize { v.as_u64().unwrap() as usize }
/// The script of each worker.
fn scripts_of(acts: &[Value], workers: usize) -> Vec<Vec<Act>> {
    let mut out = vec![Vec::new(); workers];
    for a in &acts[1..] {
        out[num(&a[1])].push(match a[0].as_str().unwrap() {
            "send" => Act::Send(num(&a[2]), serde_json::from_value(a[3].clone()).unwrap()),
            "caps" => Act::Caps(num(&a[2]), serde_json::from_value(a[3].clone()).unwrap()),
            "step" => Act::Step(num(&a[2])),
            _ => Act::Quiet,
        });
    }
    out
}

#[derive(Clone, Copy)]
pub struct Shape { pub dim: usize, pub nin: usize, pub workers: usize, pub max: u64, pub len: usize, pub keys: i64, pub vals: i64 }
impl Shape {
    pub fn random(i: usize, rng: &mut Rng) -> Shape {
        if let Some(a) = sched() {
            let n = |i: usize| num(&a[0][i]);
            return Shape { dim: n(1), nin: n(2), workers: n(3), max: n(4) as u64 + 1, len: a.len(), keys: n(5) as i64, vals: n(6) as i64 };
        }
        let dim = if rng.chance(2, 5) { 1 } else { 2 };
        Shape { dim, nin: 1 + rng.below(3) as usize, workers: if i % 5 == 4 { 2 + rng.below(2) as usize } else { 1 }, max: if dim == 1 { 4 } else { 3 }, len: 8 + rng.below(14) as usize, keys: 3, vals: 4 }
    }
}

pub fn case(rng: &mut Rng, s: Shape, exprs: Vec<Value>) -> Value {
    if let Some(a) = sched() { return run_case(num(&a[0][1]), exprs, num(&a[0][2]), scripts_of(&a, num(&a[0][3])), num(&a[0][4]) as u64 + 1); }
    let scripts: Vec<_> = (0..s.workers).map(|_| random_script(rng, s.dim, s.nin, s.max, s.len / s.workers + 2, s.keys, s.vals)).collect();
    run_case(s.dim, exprs, s.nin, scripts, s.max)
}

pub fn run_case(dim: usize, exprs: Vec<Value>, nin: usize, scripts: Vec<Vec<Act>>, max: u64) -> Value {
    let workers = scripts.len();
    if std::env::var("DDV_LOUD").is_ok() { eprintln!("{} {} {}", dim, workers, json!(exprs)); }
    let sj: Vec<Value> = scripts.iter().map(|s| json!(s.iter().map(act_json).collect::<Vec<_>>())).collect();
    let ev = match dim { 1 => run::<u64>(nin, exprs.clone(), scripts), 2 => run::<Pair>(nin, exprs.clone(), scripts), _ => run::<Trip>(nin, exprs.clone(), scripts) };
    let canon: Vec<bool> = exprs.iter().map(canonical).collect();
    json!({ "dim": dim, "prog": exprs, "canon": canon, "nin": nin, "nw": workers, "times": grid(dim, max + 2), "script": sj, "ev": ev })
}

/// Random programs.
pub fn family_prog(i: usize, rng: &mut Rng, iterate_only: bool) -> Value {
    let s = Shape::random(i, rng);
    let nouts = if iterate_only { 1 } else { 1 + rng.below(2) };
    let exprs: Vec<Value> = (0..nouts).map(|_| {
        let depth = 1 + rng.below(3);
        let delays = rng.chance(1, 2);
        let mut g = Gen { rng: &mut *rng, nin: s.nin as u64, delays, nested: true };
        loop {
            let e = if iterate_only { g.iterate(&[]) } else { g.any(depth) };
            if buildable(&e, 0) { break e; }
        }
    }).collect();
    case(rng, s, exprs)
}

fn some_input(rng: &mut Rng, s: &Shape) -> Value {
    let mut g = Gen { rng: &mut *rng, nin: s.nin as u64, delays: false, nested: false };
    let depth = if g.rng.chance(2, 3) { 0 } else { 1 };
    g.any(depth)
}
/// Fewer keys with longer histories.
fn deepen(rng: &mut Rng, s: &mut Shape) {
    match rng.below(4) {
        0 => { s.keys = 1; s.len = 30 + rng.below(30) as usize; s.max = if s.dim == 1 { 6 } else { 3 }; }
        1 => { s.keys = 2; s.vals = 3; s.len = 20 + rng.below(20) as usize; s.max = if s.dim == 1 { 8 } else { 4 }; }
        _ => {}
    }
}

/// Implementations of reductions against their meaning (and so against each other).
pub fn family_reduce(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    deepen(rng, &mut s);
    let src = some_input(rng, &s);
    let mut exprs = Vec::new();
    match rng.below(6) {
        0 => { let e = json!(["distinct", src]); exprs.push(json!(["v", "core", e])); exprs.push(e); }
        1 => { let f = *rng.pick(THRESHES); let e = json!(["threshold", f, src]); exprs.push(json!(["v", "named", e])); exprs.push(e); }
        2 => { let e = json!(["count", src]); exprs.push(json!(["v", "core", e])); exprs.push(e); }
        _ => {
            let f = *rng.pick(REDUCES); let e = json!(["reduce", f, src]);
            let ws = ["core", "abelian", "ref", "proxy", "chunk", "enter", "log", "abl", ""];
            for _ in 0..3 {
                let w = *rng.pick(&ws);
                exprs.push(if w == "" { e.clone() } else if w == "log" || w == "abl" { json!(["v", format!("{w}{}", exprs.len()), e]) } else { json!(["v", w, e]) });
            }
        }
    }
    case(rng, s, exprs)
}

/// Operators over times with three independent coordinates.
pub fn family_deep(i: usize, rng: &mut Rng) -> Value {
    let s = Shape { dim: 3, nin: 1 + rng.below(2) as usize, workers: if i % 6 == 5 { 2 } else { 1 }, max: 3, len: 14 + rng.below(20) as usize, keys: 1 + rng.below(2) as i64, vals: 3 };
    let s = if sched().is_some() { Shape::random(i, rng) } else { s };
    let input = |rng: &mut Rng| json!(["in", rng.below(s.nin as u64)]);
    let mut exprs = Vec::new();
    match rng.below(6) {
        0 => { let f = *rng.pick(JOINS); let (a, b) = (input(rng), input(rng)); exprs.push(json!(["v", *rng.pick(&["core", "traces", "proxy", "chunk"]), ["join", f, a, b]])); exprs.push(json!(["join", f, a, b])); }
        1 => { let e = json!(["distinct", input(rng)]); exprs.push(json!(["v", "core", e])); exprs.push(json!(["distinct", e])); }
        2 => { let f = *rng.pick(REDUCES); let g = *rng.pick(REDUCES); exprs.push(json!(["reduce", f, ["reduce", g, input(rng)]])); }
        _ => {
            let f = *rng.pick(REDUCES); let e = json!(["reduce", f, input(rng)]);
            exprs.push(e.clone());
            exprs.push(json!(["v", *rng.pick(&["core", "abelian", "ref", "proxy", "chunk"]), e]));
        }
    }
    case(rng, s, exprs)
}

pub fn family_join(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    deepen(rng, &mut s);
    let (a, b) = (some_input(rng, &s), some_input(rng, &s));
    let mut exprs = Vec::new();
    match rng.below(6) {
        0 => for op in ["semijoin", "antijoin"] { let e = json!([op, a, b]); exprs.push(json!(["v", "key", e])); exprs.push(e); },
        1 => { let f = *rng.pick(JOINS); let e = json!(["join", f, a, a]); exprs.push(json!(["v", "self", e])); exprs.push(e); }
        _ => {
            let f = *rng.pick(JOINS); let e = json!(["join", f, a, b]);
            let ws = ["core", "traces", "proxy", "chunk", "enter", "proxy", ""];
            for _ in 0..2 { let w = *rng.pick(&ws); exprs.push(if w == "" { e.clone() } else { json!(["v", w, e]) }); }
        }
    }
    case(rng, s, exprs)
}

/// Operators specialised to totally ordered times.
pub fn family_total(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    s.dim = 1; s.max = 4 + rng.below(6); s.len = 12 + rng.below(30) as usize;
    s.keys = 1 + rng.below(3) as i64; s.vals = 1 + rng.below(2) as i64;
    let src = some_input(rng, &s);
    let f = *rng.pick(THRESHES);
    let (c, d, t) = (json!(["count", src]), json!(["distinct", src]), json!(["threshold", f, src]));
    let all = [json!(["v", "total", c]), json!(["v", "totalcore", c]), json!(["v", "totalarr", c]), json!(["v", "total", d]), json!(["v", "totalcore", d]),
        json!(["v", "total", t]), json!(["v", "totalarr", t]), json!(["v", "totalsemi", t])];
    let exprs = (0..3).map(|_| rng.pick(&all).clone()).collect();
    case(rng, s, exprs)
}

/// Collections maintained from upserts.
pub fn family_upsert(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    s.dim = 1; s.max = 4 + rng.below(6); s.len = 12 + rng.below(30) as usize;
    s.keys = 1 + rng.below(3) as i64; s.vals = 2 + rng.below(3) as i64;
    let (a, b, f, g) = (json!(["in", rng.below(s.nin as u64)]), json!(["in", rng.below(s.nin as u64)]), *rng.pick(JOINS), *rng.pick(REDUCES));
    let all = [json!(["v", "totalups", ["upsert", a]]), json!(["v", "totalups", ["upsert", b]]),
        json!(["v", "totalups", ["join", f, ["upsert", a], b]]), json!(["v", "totalups", ["reduce", g, ["upsert", a]]])];
    let exprs = (0..2).map(|_| rng.pick(&all).clone()).collect();
    case(rng, s, exprs)
}

/// Dynamically nested programs, next to their static forms.
pub fn family_dyn(i: usize, rng: &mut Rng) -> Value {
    let s = Shape::random(i, rng);
    let mut g = Gen { rng: &mut *rng, nin: s.nin as u64, delays: false, nested: true };
    let e = loop {
        let a = g.iterate(&[]);
        let e = match g.rng.below(4) {
            0 => { let b = g.iterate(&[]); json!(["concat", a, b]) }
            1 => json!(["inner", ["inner", a]]),
            2 => { let f = *g.rng.pick(JOINS); let b = g.iterate(&[]); json!(["join", f, a, ["inner", b]]) }
            _ => a,
        };
        if !has(&e, "delay") && !has(&e, "enterat") { break e; }
    };
    let mut exprs = vec![json!(["v", "dyn", e])];
    if buildable(&e, 0) && g.rng.chance(1, 3) { exprs.push(e); }
    case(rng, s, exprs)
}
pub fn has(e: &Value, op: &str) -> bool { e == op || e.as_array().map(|a| a.iter().any(|x| has(x, op))).unwrap_or(false) }

/// Programs over columnar collections.
pub fn family_col(i: usize, rng: &mut Rng) -> Value {
    let s = Shape::random(i, rng);
    let mut g = Gen { rng: &mut *rng, nin: s.nin as u64, delays: false, nested: true };
    let depth = 1 + g.rng.below(3);
    let e = loop {
        let e = match g.rng.below(3) { 0 => g.iterate(&[]), 1 => { let a = g.any(depth); json!(["inner", a]) } _ => g.any(depth) };
        if e[0] != "in" && crate::columnar_ops::supported(&e, 0, s.dim) { break e; }
    };
    case(rng, s, vec![json!(["v", "col", e])])
}

/// Joins by delta queries.
pub fn family_dogs(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    deepen(rng, &mut s);
    let (a, b) = (some_input(rng, &s), some_input(rng, &s));
    let f = *rng.pick(JOINS);
    let i1 = json!(["in", rng.below(s.nin as u64)]);
    let i2 = json!(["in", rng.below(s.nin as u64)]);
    let small = |e: &Value| json!(["threshold", "pos", ["map", "mod4", e]]);
    let e = match rng.below(if s.dim == 1 { 8 } else { 5 }) {
        0 | 1 => json!(["v", *rng.pick(&["dogs_half", "dogs_half2", "dogs_yield", "dogs_yield2"]), ["join", f, a, b]]),
        2 => json!(["v", "dogs_lookup", [*rng.pick(&["lookup", "lookup1"]), f, i1, i2]]),
        3 | 4 => json!(["v", *rng.pick(&["dogs_half", "dogs_half2", "dogs_yield", "dogs_yield2"]), [*rng.pick(&["halflt", "halfle"]), f, i1, i2]]),
        5 | 6 => json!(["v", *rng.pick(&["dogs_alt", "dogs_diff"]), ["join", f, a, b]]),
        _ => { let c = json!(["in", rng.below(s.nin as u64)]); json!(["v", *rng.pick(&["dogs_wco", "dogs_prop"]), ["tri", small(&i1), small(&i2), small(&c)]]) }
    };
    case(rng, s, vec![e])
}

/// All kinds of operators, on scripts that often wait until nothing happens.
pub fn family_quiet(i: usize, rng: &mut Rng) -> Value {
    let partial = sched().is_some_and(|a| num(&a[0][1]) > 1);
    match i % 8 {
        2 if partial => family_reduce(0, rng),
        0 => family_reduce(0, rng), 1 => family_join(0, rng), 2 => family_total(0, rng), 3 => family_dyn(0, rng),
        4 => family_col(0, rng), 5 => family_dogs(0, rng), 6 => family_prog(0, rng, true), _ => family_prog(0, rng, false),
    }
}

/// Library algorithms.
pub fn family_algo(i: usize, rng: &mut Rng) -> Value {
    let mut s = Shape::random(i, rng);
    if sched().is_none() {
        s.keys = 4 + rng.below(2) as i64; s.vals = s.keys; s.len = 10 + rng.below(24) as usize;
        s.max = if s.dim == 1 { 3 + rng.below(4) } else { 3 };
        s.nin = 1 + rng.below(2) as usize;
    }
    let n = s.nin as u64;
    let input = |rng: &mut Rng| { let x = json!(["in", rng.below(n)]); if rng.chance(1, 4) { json!(["map", "swap", x]) } else if rng.chance(1, 6) { json!(["flat", "both", x]) } else { x } };
    let some = |rng: &mut Rng| { let x = input(rng); json!(["threshold", if rng.chance(1, 3) { "cap2" } else { "pos" }, x]) };
    let one = |rng: &mut Rng| json!(["reduce", "max", some(rng)]);
    let few = |rng: &mut Rng| { let x = some(rng); json!(["filter", *rng.pick(&["lt", "even", "knz"]), x]) };
    let mut exprs = Vec::new();
    for _ in 0..1 + rng.below(2) {
        let w = format!("alg{}", rng.below(6));
        let e = match rng.below(14) {
            0 | 1 => json!(["bfs", some(rng), few(rng)]),
            2 | 3 => json!(["bidij", some(rng), few(rng)]),
            4 | 5 => json!(["propag", some(rng), some(rng)]),
            6 | 7 => json!(["scc", some(rng)]),
            8 | 9 => { let st = if rng.chance(1, 3) { some(rng) } else { one(rng) }; json!(["seq", st, some(rng)]) }
            10 => { let c = one(rng); json!(["psum", c, c]) }
            11 => json!(["psum", one(rng), json!(["map", "k0", some(rng)])]),
            _ => json!(["ident", some(rng)]),
        };
        exprs.push(json!(["v", w, e]));
    }
    case(rng, s, exprs)
}
