//! Shared helpers: deterministic randomness, timestamps, logging of trace events.
use std::hash::Hash;
use std::sync::{Arc, Mutex};

use differential_dataflow::lattice::Lattice;
use timely::dataflow::operators::ActivateCapability;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use timely::order::{PartialOrder, Product};
use timely::progress::timestamp::Refines;
use timely::progress::{PathSummary, Timestamp};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    /// Uniform in 0 .. n.
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len() as u64) as usize] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() { xs.swap(i, self.below(i as u64 + 1) as usize); }
    }
}

/// A product-ordered pair of integers, usable as a root timestamp.
#[derive(Hash, Default, Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Debug, Serialize, Deserialize, columnar::Columnar)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Pair { pub a: u64, pub b: u64 }
impl PartialOrder for Pair { fn less_equal(&self, o: &Self) -> bool { self.a <= o.a && self.b <= o.b } }
impl Refines<()> for Pair {
    fn to_inner(_: ()) -> Self { Self::minimum() }
    fn to_outer(self) {}
    fn summarize(_: Pair) {}
}
impl PathSummary<Pair> for Pair {
    fn results_in(&self, t: &Pair) -> Option<Pair> { Some(Pair { a: t.a.checked_add(self.a)?, b: t.b.checked_add(self.b)? }) }
    fn followed_by(&self, o: &Pair) -> Option<Pair> { self.results_in(o) }
}
impl Timestamp for Pair { fn minimum() -> Self { Pair { a: 0, b: 0 } } type Summary = Pair; }
impl Lattice for Pair {
    fn join(&self, o: &Self) -> Self { Pair { a: self.a.max(o.a), b: self.b.max(o.b) } }
    fn meet(&self, o: &Self) -> Self { Pair { a: self.a.min(o.a), b: self.b.min(o.b) } }
}

/// A product-ordered triple of integers: with three coordinates, updates can be arranged in ways two do not allow.
#[derive(Hash, Default, Clone, Copy, Eq, PartialEq, Ord, PartialOrd, Debug, Serialize, Deserialize, columnar::Columnar)]
#[columnar(derive(Eq, PartialEq, Ord, PartialOrd))]
pub struct Trip { pub a: u64, pub b: u64, pub c: u64 }
impl PartialOrder for Trip { fn less_equal(&self, o: &Self) -> bool { self.a <= o.a && self.b <= o.b && self.c <= o.c } }
impl Refines<()> for Trip {
    fn to_inner(_: ()) -> Self { Self::minimum() }
    fn to_outer(self) {}
    fn summarize(_: Trip) {}
}
impl PathSummary<Trip> for Trip {
    fn results_in(&self, t: &Trip) -> Option<Trip> { Some(Trip { a: t.a.checked_add(self.a)?, b: t.b.checked_add(self.b)?, c: t.c.checked_add(self.c)? }) }
    fn followed_by(&self, o: &Trip) -> Option<Trip> { self.results_in(o) }
}
impl Timestamp for Trip { fn minimum() -> Self { Trip { a: 0, b: 0, c: 0 } } type Summary = Trip; }
impl Lattice for Trip {
    fn join(&self, o: &Self) -> Self { Trip { a: self.a.max(o.a), b: self.b.max(o.b), c: self.c.max(o.c) } }
    fn meet(&self, o: &Self) -> Self { Trip { a: self.a.min(o.a), b: self.b.min(o.b), c: self.c.min(o.c) } }
}

/// Times that can be written to and read from traces as vectors of naturals.
pub trait TimeLike: Timestamp + Lattice + Hash + Ord + Serialize + for<'a> Deserialize<'a> + Send + Sync + 'static {
    const DIM: usize;
    fn vec(&self) -> Vec<u64>;
    fn of(v: &[u64]) -> Self;
}
impl TimeLike for u64 { const DIM: usize = 1; fn vec(&self) -> Vec<u64> { vec![*self] } fn of(v: &[u64]) -> Self { v[0] } }
impl TimeLike for Pair { const DIM: usize = 2; fn vec(&self) -> Vec<u64> { vec![self.a, self.b] } fn of(v: &[u64]) -> Self { Pair { a: v[0], b: v[1] } } }
impl TimeLike for Product<u64, u64> { const DIM: usize = 2; fn vec(&self) -> Vec<u64> { vec![self.outer, self.inner] } fn of(v: &[u64]) -> Self { Product::new(v[0], v[1]) } }

impl TimeLike for Trip { const DIM: usize = 3; fn vec(&self) -> Vec<u64> { vec![self.a, self.b, self.c] } fn of(v: &[u64]) -> Self { Trip { a: v[0], b: v[1], c: v[2] } } }

pub fn tj<T: TimeLike>(t: &T) -> Value { json!(t.vec()) }
pub fn fj<'a, T: TimeLike>(f: impl IntoIterator<Item = &'a T>) -> Value {
    let mut v: Vec<Vec<u64>> = f.into_iter().map(|t| t.vec()).collect();
    v.sort(); json!(v)
}

/// A vector-time partial order, for script generation.
pub fn vle(a: &[u64], b: &[u64]) -> bool { a.iter().zip(b).all(|(x, y)| x <= y) }
pub fn vjoin(a: &[u64], b: &[u64]) -> Vec<u64> { a.iter().zip(b).map(|(x, y)| *x.max(y)).collect() }
/// Minimal elements.
pub fn antichain(ts: &[Vec<u64>]) -> Vec<Vec<u64>> {
    let mut out: Vec<Vec<u64>> = Vec::new();
    for t in ts {
        if ts.iter().any(|s| s != t && vle(s, t)) { continue; }
        if !out.contains(t) { out.push(t.clone()); }
    }
    out.sort(); out
}
pub fn beyond(f: &[Vec<u64>], t: &[u64]) -> bool { f.iter().any(|s| vle(s, t)) }

/// All grid times below `max` (exclusive) in each coordinate.
pub fn grid(dim: usize, max: u64) -> Vec<Vec<u64>> {
    if dim == 1 { (0..max).map(|x| vec![x]).collect() }
    else { grid(dim - 1, max).into_iter().flat_map(|t| (0..max).map(move |y| { let mut t = t.clone(); t.push(y); t })).collect() }
}

/// Advances a frontier one random step: some elements are replaced by successors (or dropped at the edge).
pub fn advance_frontier(rng: &mut Rng, f: &[Vec<u64>], max: u64) -> Vec<Vec<u64>> {
    if f.is_empty() { return vec![]; }
    let mut out = f.to_vec();
    let i = rng.below(out.len() as u64) as usize;
    let t = out.remove(i);
    let dim = t.len();
    if dim == 1 {
        let n = t[0] + 1 + rng.below(2);
        if n < max { out.push(vec![n]); }
    } else if dim > 2 {
        // Replace the time by its successors in some coordinates.
        let all = rng.chance(1, 2);
        let j = rng.below(dim as u64) as usize;
        for k in 0..dim { if all || k == j || rng.chance(1, 3) { let mut u = t.clone(); u[k] += 1 + rng.below(2); out.push(u); } }
    } else {
        match rng.below(4) {
            0 => { out.push(vec![t[0] + 1, t[1]]); out.push(vec![t[0], t[1] + 1]); }
            1 => out.push(vec![t[0] + 1, t[1]]),
            2 => out.push(vec![t[0], t[1] + 1]),
            _ => out.push(vec![t[0] + rng.below(2), t[1] + 1 + rng.below(2)]),
        }
    }
    let out: Vec<Vec<u64>> = out.into_iter().filter(|t| t.iter().all(|x| *x < max)).collect();
    antichain(&out)
}

/// A shared event log.
#[derive(Clone, Default)]
pub struct Log(pub Arc<Mutex<Vec<Value>>>);
impl Log {
    pub fn new() -> Self { Log::default() }
    pub fn push(&self, v: Value) { match self.0.lock() { Ok(mut g) => g.push(v), Err(e) => e.into_inner().push(v) } }
    pub fn len(&self) -> usize { match self.0.lock() { Ok(g) => g.len(), Err(e) => e.into_inner().len() } }
    pub fn take(&self) -> Vec<Value> { match self.0.lock() { Ok(mut g) => std::mem::take(&mut *g), Err(e) => std::mem::take(&mut *e.into_inner()) } }
}

/// Runs `f`, turning a panic into an event in the log.
pub fn guarded<R>(log: &Log, f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            let msg = if let Some(s) = e.downcast_ref::<&str>() { s.to_string() } else if let Some(s) = e.downcast_ref::<String>() { s.clone() } else { "panic".into() };
            log.push(json!(["panic", msg]));
            None
        }
    }
}

/// Keys and values of cursors, as integers.
pub trait AsI64 { fn int(&self) -> i64; }
impl AsI64 for &i64 { fn int(&self) -> i64 { **self } }
impl AsI64 for i64 { fn int(&self) -> i64 { *self } }
impl AsI64 for &() { fn int(&self) -> i64 { 0 } }
impl AsI64 for () { fn int(&self) -> i64 { 0 } }

pub type Row = (i64, i64);
pub type Upd = (Row, Vec<u64>, i64);
pub fn uj(u: &Upd) -> Value { json!([[u.0 .0, u.0 .1], u.1, u.2]) }

/// An input with capabilities for a frontier.
pub struct Input<T: TimeLike> {
    pub handle: timely::dataflow::operators::vec::unordered_input::UnorderedHandle<T, (Row, T, isize)>,
    pub caps: Vec<ActivateCapability<T>>,
}
impl<T: TimeLike> Input<T> {
    pub fn send(&mut self, ups: &[Upd]) {
        // Group the updates by a capability that can carry each.
        for (i, c) in self.caps.iter().enumerate() {
            let mine: Vec<_> = ups.iter().filter(|u| self.caps.iter().position(|c| vle(&c.time().vec(), &u.1)) == Some(i))
                .map(|u| (u.0, T::of(&u.1), u.2 as isize)).collect();
            if mine.is_empty() { continue; }
            // A message may carry the capability as held, or one of its own.
            let own = mine.iter().map(|u| u.2 + u.0.1 as isize).sum::<isize>() % 3 == 0;
            let mut act = self.handle.activate();
            if own { for m in mine { let c = c.delayed(&m.1); act.session(&c).give(m); } }
            else { let mut s = act.session(c); for m in mine { s.give(m); } }
        }
    }
    pub fn caps(&mut self, f: &[Vec<u64>]) {
        let new: Vec<_> = f.iter().map(|t| {
            let c = self.caps.iter().find(|c| vle(&c.time().vec(), t)).expect("capability");
            c.delayed(&T::of(t))
        }).collect();
        self.caps = new;
    }
}


/// Workers in this process, exchanging values or (by `pick`) their serialized form.
pub fn machine(workers: usize, pick: usize) -> timely::Config {
    use timely::CommunicationConfig as C;
    let communication = if pick % 3 == 1 { C::ProcessBinary(workers) } else if workers == 1 { C::Thread } else { C::Process(workers) };
    timely::Config { communication, worker: timely::WorkerConfig::default() }
}
