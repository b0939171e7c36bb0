//! Lives of merge spines fed directly (validated against spec/DDSpine).
//!
//! Events of spec/DDTrace for one reader (handle 0), and ["advup", f, got] ["shape", all, records] ["forced", rounds, nonempty]
//!   ["logged", total, held] where `total` is what the log says the trace holds.
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

use differential_dataflow::logging::{DifferentialEvent, DifferentialEventBuilder};
use differential_dataflow::trace::implementations::spine_fueled::Spine;
use differential_dataflow::trace::{Batch, BatchReader, Batcher, Builder, Description, Trace, TraceReader};
use serde_json::{json, Value};
use timely::container::PushInto;
use timely::dataflow::operators::generic::OperatorInfo;
use timely::progress::Antichain;

use crate::batches::*;
use crate::common::*;
use crate::traces::{aof, avec, fjoin, fleq, some_frontier};

type FlatUps<T> = Vec<((i64, i64), T, i64)>;

fn make<T: TimeLike, R: Rep<T>>(ups: FlatUps<T>, lower: &[Vec<u64>], upper: &[Vec<u64>], rng: &mut Rng) -> R::Batch {
    if ups.is_empty() && rng.chance(1, 2) { return R::Batch::empty(aof::<T>(lower), aof::<T>(upper)); }
    let desc = Description::new(aof::<T>(lower), aof::<T>(upper), Antichain::from_elem(<T as timely::progress::Timestamp>::minimum()));
    let mut bat = R::Bat::new(None, 0);
    if !ups.is_empty() { for c in R::chunks(vec![ups], rng) { bat.push_into(c); } }
    let (mut chain, _) = bat.seal(Antichain::new());
    R::Bu::seal(&mut chain, desc)
}

/// What a schedule asks for.
enum Op { Insert(u64, bool), Exert(usize), Fuel(isize), Virtual(usize), Phy(bool), Log(bool), Store, Read, AdvUp }

fn life<T: TimeLike, R: Rep<T>>(rng: &mut Rng, script: Option<&Value>) -> Vec<Value> {
    let log = Log::new();
    let l2 = log.clone();
    guarded(&log, || run::<T, R>(&l2, rng, script));
    log.take()
}

fn run<T: TimeLike, R: Rep<T>>(log: &Log, rng: &mut Rng, script: Option<&Value>) {
    let dim = T::DIM;
    let zero = vec![vec![0; dim]];
    let max: u64 = if dim == 1 { 1000 } else { 40 };
    let total = Rc::new(Cell::new(0i64));
    let sum = total.clone();
    let logger: differential_dataflow::logging::Logger = timely::logging_core::Logger::<DifferentialEventBuilder>::new(std::time::Instant::now(), std::time::Duration::default(),
        Box::new(move |_: &std::time::Duration, data: &mut Option<Vec<(std::time::Duration, DifferentialEvent)>>| if let Some(data) = data { for (_, e) in data.drain(..) { match e {
            DifferentialEvent::Batch(e) => sum.set(sum.get() + e.length as i64),
            DifferentialEvent::Merge(e) => if let Some(n) = e.complete { sum.set(sum.get() + n as i64 - e.length1 as i64 - e.length2 as i64) },
            DifferentialEvent::Drop(e) => sum.set(sum.get() - e.length as i64),
            _ => {}
        } } })).into();
    let info = OperatorInfo::new(0, 0, vec![0usize].into());
    let mut spine: Spine<R::Batch> = if rng.chance(1, 3) { Spine::new(info, Some(logger.clone()), None) }
        else { Spine::with_effort(*rng.pick(&[0usize, 1, 2, 5]), info, Some(logger.clone()), None) };
    let effort = Arc::new(AtomicUsize::new(0));
    let eager = rng.chance(1, 2);
    if rng.chance(3, 4) {
        let e = effort.clone();
        // As the default logic has it: while there is more than one batch.
        spine.set_exert_logic(Arc::new(move |levels| {
            let e = e.load(Ordering::SeqCst);
            if e == 0 { return None; }
            let mut non_empty = 0;
            for (_, count, length) in levels { if *count > 1 { return Some(e); } if *length > 0 { non_empty += 1; } if non_empty > 1 { return Some(e); } }
            if eager && e < 64 { Some(e) } else { None }
        }));
    }
    let mut fr = zero.clone();
    let (mut holdl, mut holdp) = (zero.clone(), zero.clone());
    let mut bounds = vec![zero.clone()];
    let mut records: u64 = 0;
    let mut weight: u64 = 0;
    let uni = *rng.pick(&[2u64, 4, 9, 30]);
    let style = rng.below(4);
    let steps = match style { 0 => 70 + rng.below(60), 1 => 30, _ => 12 + rng.below(20) };
    let mut clock = 0u64;
    let mut live: FlatUps<T> = Vec::new();
    // With no reader nothing may pile up.
    if script.is_some() || style == 0 || rng.chance(1, 5) { spine.set_physical_compaction(aof::<T>(&[]).borrow()); holdp = vec![]; log.push(json!(["phy", 0, [], []])); }
    let store = |spine: &mut Spine<R::Batch>, log: &Log| {
        let mut ds: Vec<Value> = Vec::new();
        spine.map_batches(|b| { let d = b.description(); ds.push(json!([fj(d.lower().elements().iter()), fj(d.upper().elements().iter()), fj(d.since().elements().iter()), b.len(), js(&R::dump(b))])); });
        let mut u = Antichain::new(); spine.read_upper(&mut u);
        log.push(json!(["store", ds, avec(u.borrow())]));
    };
    let scripted: Option<Vec<Value>> = script.map(|s| s.as_array().unwrap().clone());
    let steps = scripted.as_ref().map_or(steps, |s| s.len() as u64);
    for step in 0..steps {
        let op = match &scripted {
            Some(s) => {
                let o = s[step as usize].as_array().unwrap();
                let n = o[1].as_u64().unwrap();
                match o[0].as_str().unwrap() {
                    "insert" => Op::Insert(n, false), "fuel" => Op::Fuel(n as isize), "exert" => Op::Exert(n as usize), "virtual" => Op::Virtual(n as usize),
                    "phy" => Op::Phy(true), "log" => Op::Log(true), "store" => Op::Store, _ => Op::Read,
                }
            }
            None => match rng.below(if style == 0 { 24 } else { 34 }) {
                0..=12 => Op::Insert(match rng.below(6) { 0 => 0, 1 | 2 => 1, 3 => 2 + rng.below(3), 4 => 1 << rng.below(5), _ => if style == 0 { 1 } else { rng.below(20) } }, rng.chance(1, 60)),
                13 | 14 if style != 0 || rng.chance(1, 4) => Op::Exert(*rng.pick(&[1usize, 2, 3, 8, 40, 1000])),
                15 | 16 => Op::Fuel(*rng.pick(&[0isize, 1, 2, 3, 7, 30])),
                17 => Op::Virtual(rng.below(6) as usize),
                18..=20 => Op::Phy(rng.chance(1, 2)),
                21..=23 => Op::Log(rng.chance(1, 2)),
                24..=26 => Op::Store,
                27..=31 => Op::Read,
                32 => Op::AdvUp,
                _ => Op::Insert(1, false),
            }
        };
        match op {
            Op::Insert(n, last) => {
                if fr.is_empty() { continue; }
                let lower = fr.clone();
                if last { if rng.chance(1, 2) {
                    spine.close(); fr = vec![]; bounds.push(vec![]);
                    log.push(json!(["insert", lower, [], []]));
                    continue;
                } }
                if dim == 1 { clock += 1 + rng.below(2); fr = if last { vec![] } else { vec![vec![clock]] } }
                else if last { fr = vec![] }
                else { for _ in 0..1 + rng.below(2) { fr = advance_frontier(rng, &fr, max); } }
                if fr.len() > 3 { fr = vec![fr.iter().fold(vec![0; dim], |a, b| vjoin(&a, b))]; }
                let pool: Vec<Vec<u64>> = if dim == 1 { (lower[0][0]..fr.first().map_or(lower[0][0] + 2, |t| t[0])).map(|t| vec![t]).collect() }
                    else { let mut p = vec![]; for l in &lower { for da in 0..3u64 { for db in 0..3u64 { let t: Vec<u64> = vec![l[0] + da, l[1] + db]; if !beyond(&fr, &t) { p.push(t); } } } } p };
                let mut ups: FlatUps<T> = Vec::new();
                if !pool.is_empty() { for _ in 0..n {
                    let t = rng.pick(&pool).clone();
                    let k = (rng.below(uni) as i64, if R::UNIT { 0 } else { rng.below(uni) as i64 });
                    let mut u = (k, T::of(&t), *rng.pick(&[1, 1, 1, 2, -1]));
                    if !live.is_empty() && rng.chance(1, 3) {
                        let j = rng.below(live.len() as u64) as usize;
                        let (r, _, d) = live.swap_remove(j);
                        u = (r, T::of(&t), -d);
                    } else { live.push(u.clone()); }
                    ups.push(u);
                } }
                differential_dataflow::consolidation::consolidate_updates(&mut ups);
                records += ups.len() as u64; weight += 1 + ups.len() as u64;
                log.push(json!(["insert", lower, fr, js(&ups)]));
                bounds.push(fr.clone());
                let b = make::<T, R>(ups, &lower, &fr, rng);
                spine.insert(b);
            }
            Op::Exert(e) => { effort.store(e, Ordering::SeqCst); weight += e as u64; for _ in 0..if scripted.is_some() { 1 } else { 1 + rng.below(4) } { spine.exert(); weight += e as u64; } if rng.chance(2, 3) { effort.store(0, Ordering::SeqCst); } }
            Op::Fuel(f) => { let mut f = f; spine.apply_fuel(&mut f); }
            Op::Virtual(l) => { weight += 1 << l; spine.introduce_batch(None, l); }
            Op::Phy(now) => {
                let f = if now { fr.clone() } else { rng.pick(&bounds).clone() };
                if f.is_empty() { continue; }
                let f = fjoin(&holdp, &f);
                holdp = f.clone();
                spine.set_physical_compaction(aof::<T>(&f).borrow());
                log.push(json!(["phy", 0, f, avec(spine.get_physical_compaction())]));
            }
            Op::Log(now) => {
                let f = if now { fr.clone() } else if rng.chance(1, 2) { rng.pick(&bounds).clone() } else { some_frontier(rng, dim, (clock + 2).min(max)) };
                if f.is_empty() || holdl.is_empty() { continue; }
                let f = fjoin(&holdl, &f);
                holdl = f.clone();
                spine.set_logical_compaction(aof::<T>(&f).borrow());
                log.push(json!(["log", 0, f, avec(spine.get_logical_compaction())]));
            }
            Op::Store => store(&mut spine, log),
            Op::Read => {
                let cuts: Vec<Vec<Vec<u64>>> = bounds.iter().filter(|c| fleq(&holdp, c)).cloned().collect();
                let cut = if rng.chance(1, 3) || cuts.is_empty() { vec![] } else { rng.pick(&cuts).clone() };
                let got = spine.batches_through(aof::<T>(&cut).borrow());
                let mut u = Antichain::new(); spine.read_upper(&mut u);
                let content = got.map(|bs| { let mut all: FlatUps<T> = bs.iter().flat_map(|b| R::dump(b)).collect(); all.sort(); all });
                log.push(json!(["read", 0, cut, avec(u.borrow()), content.is_some(), js(&content.unwrap_or_default())]));
            }
            Op::AdvUp => {
                let f = rng.pick(&bounds).clone();
                let mut u = aof::<T>(&f);
                spine.advance_upper(&mut u);
                log.push(json!(["advup", f, avec(u.borrow())]));
            }
        }
        if scripted.is_some() && rng.chance(1, 8) { store(&mut spine, log); }
        if rng.chance(1, 8) || step + 1 == steps {
            let (mut n, mut held) = (0, 0);
            spine.map_batches(|b| { n += 1; held += b.len(); });
            logger.flush();
            log.push(json!(["logged", total.get(), held]));
            if holdp.is_empty() || holdp == fr { log.push(json!(["shape", n, weight])); }
        }
    }
    store(&mut spine, log);
    // With all readers gone, enough effort leaves one batch.
    if rng.chance(2, 3) {
        holdp = vec![];
        spine.set_physical_compaction(aof::<T>(&holdp).borrow());
        log.push(json!(["phy", 0, [], []]));
        let e = Arc::new(AtomicUsize::new(0));
        let (e2, want) = (e.clone(), *rng.pick(&[1isize, 2, 5, 1000]));
        // The logic the configuration offers.
        let mut config = timely::WorkerConfig::default();
        differential_dataflow::configure(&mut config, &differential_dataflow::Config { idle_merge_effort: Some(want) });
        let logic = config.get::<differential_dataflow::trace::ExertionLogic>("differential/default_exert_logic").unwrap().clone();
        spine.set_exert_logic(Arc::new(move |l| { let r = logic(l); e2.store(r.is_some() as usize, Ordering::SeqCst); r }));
        let mut rounds = 0;
        loop {
            spine.exert(); rounds += 1;
            if e.load(Ordering::SeqCst) == 0 || rounds > 40 * (weight + 20) { break; }
        }
        let mut nonempty = 0;
        spine.map_batches(|b| if !b.is_empty() { nonempty += 1 });
        log.push(json!(["forced", e.load(Ordering::SeqCst) == 0, nonempty]));
        store(&mut spine, log);
    }
    let _ = records;
    drop(spine);
    logger.flush();
    log.push(json!(["logged", total.get(), 0]));
}

pub fn family_spine(_i: usize, rng: &mut Rng, script: Option<&Value>) -> Value {
    let dim = if script.is_some() || rng.chance(2, 3) { 1 } else { 2 };
    let which = rng.below(6);
    let ev = if dim == 1 { match which {
        0 | 1 => life::<u64, ValRep<u64>>(rng, script),
        2 => life::<u64, KeyRep<u64>>(rng, script),
        3 => life::<u64, VecRep<u64>>(rng, script),
        4 => life::<u64, TinyVecRep<u64, 4>>(rng, script),
        _ => life::<u64, TinyColRep<u64, 3>>(rng, script),
    } } else { match which {
        0 | 1 => life::<Pair, ValRep<Pair>>(rng, script),
        2 => life::<Pair, KeyRep<Pair>>(rng, script),
        3 => life::<Pair, VecRep<Pair>>(rng, script),
        4 => life::<Pair, TinyVecRep<Pair, 4>>(rng, script),
        _ => life::<Pair, TinyColRep<Pair, 3>>(rng, script),
    } };
    json!({ "dim": dim, "kind": format!("rep {which}"), "ev": ev })
}
