//! Lives of batchers, builders, batches, mergers, chunks and cursors (validated against spec/DDBatch).
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::rc::Rc;

use differential_dataflow::columnar::collection::{Builder as ColBuilder, RecordedUpdates};
use differential_dataflow::columnar::trace as ct;
use differential_dataflow::columnar::trace::spill::{self, BytesSource, BytesStore};
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::{Chunk, ChunkBatch, ChunkBatcher, ChunkBuilder};
use differential_dataflow::trace::cursor::{cursor_list, Cursor, Navigable};
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::ord_neu::{OrdKeyBatch, OrdKeyBatcher, OrdKeyBuilder, OrdValBatch, OrdValBatcher, OrdValBuilder};
use differential_dataflow::trace::rc_blanket_impls::RcBuilder;
use differential_dataflow::trace::implementations::Vector;
use differential_dataflow::trace::wrappers::{enter::BatchEnter, enter_at::BatchEnter as BatchEnterAt, frontier::BatchFrontier};
use differential_dataflow::trace::{Batch, BatchReader, Batcher, Builder, Description, Merger};
use serde_json::{json, Value};
use timely::container::{ContainerBuilder, PushInto};
use timely::order::Product;
use timely::progress::Antichain;

use ddv::tiny::*;
use crate::common::*;
use crate::traces::{aof, avec, fleq, fjoin, some_frontier};

type FlatUps<T> = Vec<((i64, i64), T, i64)>;

/// One of the provided families of batch representation.
pub trait Rep<T: TimeLike>: 'static {
    const UNIT: bool;
    type Chunk: Clone + Default;
    type Bat: Batcher<Time = T, Output = Self::Chunk> + PushInto<Self::Chunk>;
    type Bu: Builder<Input = Self::Chunk, Time = T, Output = Self::Batch>;
    type Batch: Batch<Time = T> + Navigable<Cursor: Cursor<Time = T>> + Clone;
    /// Forms chunks from pieces of unordered updates.
    fn chunks(pieces: Vec<FlatUps<T>>, rng: &mut Rng) -> Vec<Self::Chunk>;
    fn read(c: &Self::Chunk) -> FlatUps<T>;
    fn dump(b: &Self::Batch) -> FlatUps<T>;
    fn walk(log: &Log, rng: &mut Rng, name: usize, ids: &[usize], bs: &[Self::Batch], uni: i64);
    /// Cuts a batch at arbitrary points, for representations where cuts are unconstrained.
    fn recut(_b: &Self::Batch, _rng: &mut Rng) -> Option<Self::Batch> { None }
}

fn through<I, CB>(pieces: Vec<I>, rng: &mut Rng) -> Vec<CB::Container>
where CB: ContainerBuilder<Container: Clone> + for<'a> PushInto<&'a mut I> {
    let mut c = CB::default();
    let mut out = Vec::new();
    for mut p in pieces {
        c.push_into(&mut p);
        if rng.chance(2, 3) { while let Some(x) = c.extract() { out.push(x.clone()); } }
        if rng.chance(1, 8) { while let Some(x) = c.finish() { out.push(x.clone()); } }
    }
    while let Some(x) = c.extract() { out.push(x.clone()); }
    while let Some(x) = c.finish() { out.push(x.clone()); }
    out
}

fn dump_flat<B: Navigable>(b: &B) -> FlatUps<<B::Cursor as Cursor>::Time>
where B::Cursor: Cursor<Diff = i64>, for<'a> <B::Cursor as Cursor>::Key<'a>: AsI64, for<'a> <B::Cursor as Cursor>::Val<'a>: AsI64 {
    let mut out = Vec::new();
    let mut c = b.cursor();
    while let Some(k) = c.get_key(b) {
        let k = k.int();
        while let Some(v) = c.get_val(b) {
            let v = v.int();
            c.map_times(b, |t, d| out.push(((k, v), <B::Cursor as Cursor>::owned_time(t), <B::Cursor as Cursor>::owned_diff(d))));
            c.step_val(b);
        }
        c.step_key(b);
    }
    out
}

macro_rules! rep_common { ($t:ty) => {
    fn dump(b: &Self::Batch) -> FlatUps<$t> { dump_flat(b) }
    fn walk(log: &Log, rng: &mut Rng, name: usize, ids: &[usize], bs: &[Self::Batch], uni: i64) { walks::<$t, Self::Batch>(log, rng, name, ids, bs, uni) }
} }

pub struct ValRep<T>(PhantomData<T>);
impl<T: TimeLike> Rep<T> for ValRep<T> {
    const UNIT: bool = false;
    type Chunk = Vec<((i64, i64), T, i64)>;
    type Bat = OrdValBatcher<i64, i64, T, i64>;
    type Bu = RcBuilder<OrdValBuilder<Vector<((i64, i64), T, i64)>, Self::Chunk>>;
    type Batch = Rc<OrdValBatch<Vector<((i64, i64), T, i64)>>>;
    fn chunks(pieces: Vec<FlatUps<T>>, rng: &mut Rng) -> Vec<Self::Chunk> { through::<_, ContainerChunker<Self::Chunk>>(pieces, rng) }
    fn read(c: &Self::Chunk) -> FlatUps<T> { c.clone() }
    rep_common!(T);
}
pub struct KeyRep<T>(PhantomData<T>);
impl<T: TimeLike> Rep<T> for KeyRep<T> {
    const UNIT: bool = true;
    type Chunk = Vec<((i64, ()), T, i64)>;
    type Bat = OrdKeyBatcher<i64, T, i64>;
    type Bu = RcBuilder<OrdKeyBuilder<Vector<((i64, ()), T, i64)>, Self::Chunk>>;
    type Batch = Rc<OrdKeyBatch<Vector<((i64, ()), T, i64)>>>;
    fn chunks(pieces: Vec<FlatUps<T>>, rng: &mut Rng) -> Vec<Self::Chunk> {
        let pieces: Vec<Vec<((i64, ()), T, i64)>> = pieces.into_iter().map(|p| p.into_iter().map(|((k, _), t, d)| ((k, ()), t, d)).collect()).collect();
        through::<_, ContainerChunker<Self::Chunk>>(pieces, rng)
    }
    fn read(c: &Self::Chunk) -> FlatUps<T> { c.iter().cloned().map(|((k, _), t, d)| ((k, 0), t, d)).collect() }
    rep_common!(T);
}
fn recut<C: Chunk + Flat<<C as Chunk>::Time>>(b: &Rc<ChunkBatch<C>>, rng: &mut Rng) -> Rc<ChunkBatch<C>> {
    let mut out = Vec::new();
    for c in b.chunks.iter() {
        let mut u = c.flat();
        while !u.is_empty() {
            let n = 1 + rng.below(3.min(u.len() as u64)) as usize;
            let rest = u.split_off(n);
            out.push(C::of(u));
            u = rest;
        }
    }
    Rc::new(ChunkBatch::new(out, b.description.clone()))
}
pub struct VecRep<T>(PhantomData<T>);
impl<T: TimeLike> Rep<T> for VecRep<T> {
    const UNIT: bool = false;
    type Chunk = VecChunk<i64, i64, T, i64>;
    type Bat = ChunkBatcher<Self::Chunk>;
    type Bu = ChunkBuilder<Self::Chunk>;
    type Batch = Rc<ChunkBatch<Self::Chunk>>;
    fn chunks(pieces: Vec<FlatUps<T>>, rng: &mut Rng) -> Vec<Self::Chunk> { through::<_, ContainerChunker<Self::Chunk>>(pieces, rng) }
    fn read(c: &Self::Chunk) -> FlatUps<T> { c.flat() }
    fn recut(b: &Self::Batch, rng: &mut Rng) -> Option<Self::Batch> { Some(recut(b, rng)) }
    rep_common!(T);
}
pub struct TinyVecRep<T, const N: usize>(PhantomData<T>);
impl<T: TimeLike, const N: usize> Rep<T> for TinyVecRep<T, N> {
    const UNIT: bool = false;
    type Chunk = Tiny<VecChunk<i64, i64, T, i64>, N>;
    type Bat = ChunkBatcher<Self::Chunk>;
    type Bu = ChunkBuilder<Self::Chunk>;
    type Batch = Rc<ChunkBatch<Self::Chunk>>;
    fn chunks(pieces: Vec<FlatUps<T>>, rng: &mut Rng) -> Vec<Self::Chunk> { through::<_, ContainerChunker<Self::Chunk>>(pieces, rng) }
    fn read(c: &Self::Chunk) -> FlatUps<T> { c.0.flat() }
    rep_common!(T);
}
pub struct ColRep<T>(PhantomData<T>);
pub struct TinyColRep<T, const N: usize>(PhantomData<T>);
macro_rules! col_rep { ($t:ty) => {
impl Rep<$t> for ColRep<$t> {
    const UNIT: bool = false;
    type Chunk = ct::ColChunk<(i64, i64, $t, i64)>;
    type Bat = ct::Batcher<i64, i64, $t, i64>;
    type Bu = ct::Builder<i64, i64, $t, i64>;
    type Batch = Rc<ChunkBatch<Self::Chunk>>;
    fn chunks(pieces: Vec<FlatUps<$t>>, rng: &mut Rng) -> Vec<Self::Chunk> {
        type U = (i64, i64, $t, i64);
        // Recorded updates as the dataflow would form them: consolidated or not.
        let mut recs: Vec<RecordedUpdates<U>> = Vec::new();
        for p in pieces {
            let mut b = ColBuilder::<U>::default();
            for ((k, v), t, d) in p.iter() { b.push_into((k, v, t, d)); if let Some(c) = b.extract() { recs.push(std::mem::take(c)); } }
            while let Some(c) = b.finish() { recs.push(std::mem::take(c)); }
            if rng.chance(1, 4) { recs.push(RecordedUpdates::default()); }
            if rng.chance(1, 4) { if let Some(r) = recs.pop() {
                recs.push(RecordedUpdates { updates: std::mem::take(&mut { r.updates }).into_typed().consolidate().into(), consolidated: true, records: r.records });
            } }
        }
        through::<_, ct::Chunker<U>>(recs, rng)
    }
    fn read(c: &Self::Chunk) -> FlatUps<$t> { c.flat() }
    fn recut(b: &Self::Batch, rng: &mut Rng) -> Option<Self::Batch> { Some(recut(b, rng)) }
    rep_common!($t);
}
impl<const N: usize> Rep<$t> for TinyColRep<$t, N> {
    const UNIT: bool = false;
    type Chunk = Tiny<ct::ColChunk<(i64, i64, $t, i64)>, N>;
    type Bat = ChunkBatcher<Self::Chunk>;
    type Bu = ChunkBuilder<Self::Chunk>;
    type Batch = Rc<ChunkBatch<Self::Chunk>>;
    fn chunks(pieces: Vec<FlatUps<$t>>, rng: &mut Rng) -> Vec<Self::Chunk> { through::<_, ContainerChunker<Self::Chunk>>(pieces, rng) }
    fn read(c: &Self::Chunk) -> FlatUps<$t> { c.0.flat() }
    rep_common!($t);
}
} }
col_rep!(u64);
col_rep!(Pair);

// ---------------------------------------------------------------- cursors

/// Borrowed keys and values from integers.
pub trait FromI64<'a>: Copy { fn of(x: &'a i64) -> Self; }
impl<'a> FromI64<'a> for &'a i64 { fn of(x: &'a i64) -> Self { x } }
impl<'a> FromI64<'a> for &'a () { fn of(_: &'a i64) -> Self { &() } }

fn walk_one<C: Cursor<Diff = i64>>(log: &Log, rng: &mut Rng, name: usize, mut c: C, s: &C::Storage, uni: i64, unit: bool, tv: fn(&C::Time) -> Vec<u64>)
where for<'a> C::Key<'a>: AsI64 + FromI64<'a>, for<'a> C::Val<'a>: AsI64 + FromI64<'a> {
    let show = |c: &mut C, op: &str, arg: i64| {
        let k: Vec<i64> = if c.key_valid(s) { vec![c.key(s).int()] } else { vec![] };
        let k2: Vec<i64> = c.get_key(s).map(|k| k.int()).into_iter().collect();
        let v: Vec<i64> = if k.is_empty() { vec![] } else if c.val_valid(s) { vec![c.val(s).int()] } else { vec![] };
        let v2: Vec<i64> = if k.is_empty() { vec![] } else { c.get_val(s).map(|v| v.int()).into_iter().collect() };
        let mut times = Vec::new();
        if !v.is_empty() { c.map_times(s, |t, d| times.push(json!([tv(&C::owned_time(t)), C::owned_diff(d)]))); }
        let agree = k == k2 && v == v2;
        log.push(json!(["cur", name, if agree { op } else { "the accessors disagree" }, arg, k, v, times]));
        (k, v)
    };
    let (mut k, mut v) = show(&mut c, "look", 0);
    for _ in 0..6 + rng.below(20) {
        let x = rng.below(uni as u64 + 2) as i64 - 1;
        let op = match rng.below(12) {
            0 | 1 => "step_key",
            2 | 3 => "seek_key",
            4 | 5 | 6 => "step_val",
            7 | 8 => "seek_val",
            9 => "rewind_keys",
            10 => "rewind_vals",
            _ => "look",
        };
        // Values are only navigated under a key, and seeks mostly lead forward.
        if k.is_empty() && op.ends_with("val") || k.is_empty() && op == "rewind_vals" { continue; }
        let x = match op {
            "seek_key" => if rng.chance(1, 6) { x } else { k.first().map(|k| k + rng.below(4) as i64).unwrap_or(x) },
            "seek_val" => if unit { 0 } else if rng.chance(1, 6) { x } else { v.first().map(|v| v + rng.below(3) as i64).unwrap_or(x) },
            _ => 0,
        };
        if unit && op == "seek_val" && v.is_empty() { continue; }
        let kx = <<C as Cursor>::Key<'_> as FromI64>::of(&x);
        match op {
            "step_key" => c.step_key(s),
            "seek_key" => c.seek_key(s, kx),
            "step_val" => c.step_val(s),
            "seek_val" => c.seek_val(s, <<C as Cursor>::Val<'_> as FromI64>::of(&x)),
            "rewind_keys" => c.rewind_keys(s),
            "rewind_vals" => c.rewind_vals(s),
            _ => {}
        }
        (k, v) = show(&mut c, op, x);
    }
}

fn walks<T, B>(log: &Log, rng: &mut Rng, name: usize, ids: &[usize], bs: &[B], uni: i64)
where
    T: TimeLike,
    B: Batch<Time = T> + Navigable + Clone,
    B::Cursor: Cursor<Diff = i64, Time = T>,
    for<'a> <B::Cursor as Cursor>::Key<'a>: AsI64 + FromI64<'a>, for<'a> <B::Cursor as Cursor>::Val<'a>: AsI64 + FromI64<'a>,
{
    let unit = std::any::type_name::<<B::Cursor as Cursor>::ValOwn>() == "()";
    let single = bs.len() == 1 && rng.chance(2, 3);
    let open = |w: Value| log.push(json!(["open", name, ids, w]));
    fn nested<T: TimeLike>(t: &Product<T, u64>) -> Vec<u64> { let mut v = t.outer.vec(); v.push(t.inner); v }
    macro_rules! go { ($w:expr, $bs:expr, $tv:expr) => { {
        let bs = $bs;
        open($w);
        if single { walk_one(log, rng, name, bs[0].cursor(), &bs[0], uni, unit, $tv) }
        else { let (c, s) = cursor_list(bs); walk_one(log, rng, name, c, &s, uni, unit, $tv) }
    } } }
    match rng.below(6) {
        0 => go!(json!(["enter"]), bs.iter().map(|b| BatchEnter::<B, Product<T, u64>>::make_from(b.clone())).collect::<Vec<_>>(), nested::<T>),
        1 => {
            fn at<T: TimeLike, K: AsI64, V: AsI64>(k: &K, v: &V, t: &T) -> Product<T, u64> { let r = (k.int() + 2 * v.int() + t.vec()[0] as i64).rem_euclid(4); Product::new(t.clone(), r as u64) }
            go!(json!(["at"]), bs.iter().map(|b| BatchEnterAt::<B, Product<T, u64>, _>::make_from(b.clone(),
                |k: <B::Cursor as Cursor>::Key<'_>, v: <B::Cursor as Cursor>::Val<'_>, t: <B::Cursor as Cursor>::TimeGat<'_>| at(&k, &v, &<B::Cursor as Cursor>::owned_time(t)))).collect::<Vec<_>>(), nested::<T>)
        }
        2 => {
            let (since, until) = (some_frontier(rng, T::DIM, 4), some_frontier(rng, T::DIM, 6));
            go!(json!(["limit", since, until]), bs.iter().map(|b| BatchFrontier::make_from(b.clone(), aof::<T>(&since).borrow(), aof::<T>(&until).borrow())).collect::<Vec<_>>(), T::vec)
        }
        _ => go!(json!(["none"]), bs.to_vec(), T::vec),
    }
}

// ---------------------------------------------------------------- lives

pub fn js<T: TimeLike>(u: &FlatUps<T>) -> Value { Value::Array(u.iter().map(|(r, t, d)| json!([[r.0, r.1], t.vec(), d])).collect()) }

/// Updates as logged: rows outside the tracked set are merged into one.
struct Lens { every: Option<u64>, hot: Vec<i64> }
impl Lens {
    fn tracked(&self, r: &Row) -> bool { match self.every { None => true, Some(n) => self.hot.contains(&r.0) || (r.0 as u64 * 31 + r.1 as u64) % n == 0 } }
    fn view<T: TimeLike>(&self, u: &FlatUps<T>) -> Value {
        if self.every.is_none() { return js(u); }
        let mut out: Vec<Value> = Vec::new();
        let mut rest: std::collections::BTreeMap<T, i64> = Default::default();
        for (r, t, d) in u { if self.tracked(r) { out.push(json!([[r.0, r.1], t.vec(), d])); } else { *rest.entry(t.clone()).or_insert(0) += d; } }
        for (t, d) in rest { out.push(json!([[-1, -1], t.vec(), d])); }
        Value::Array(out)
    }
}
fn ordered<T: TimeLike>(u: &FlatUps<T>) -> bool { u.windows(2).all(|w| (w[0].0, &w[0].1) < (w[1].0, &w[1].1)) && u.iter().all(|u| u.2 != 0) }

struct MemStore(Rc<std::cell::RefCell<Vec<Vec<u8>>>>);
struct MemSource(Rc<std::cell::RefCell<Vec<Vec<u8>>>>, usize);
impl BytesStore for MemStore { fn store(&mut self, bytes: &[u8]) -> Box<dyn BytesSource> { self.0.borrow_mut().push(bytes.to_vec()); Box::new(MemSource(self.0.clone(), self.0.borrow().len() - 1)) } }
impl BytesSource for MemSource { fn load(&self) -> Vec<u8> { self.0.borrow()[self.1].clone() } }

#[derive(Clone, Copy, PartialEq)]
pub enum Focus { Batcher, Merge, Cursor }

struct Made<B> { id: usize, batch: B, lower: Vec<Vec<u64>>, upper: Vec<Vec<u64>>, since: Vec<Vec<u64>> }

fn life<T: TimeLike, R: Rep<T>>(rng: &mut Rng, focus: Focus, big: bool) -> Vec<Value> {
    let log = Log::new();
    let l2 = log.clone();
    guarded(&log, || run::<T, R>(&l2, rng, focus, big));
    log.take()
}

fn run<T: TimeLike, R: Rep<T>>(log: &Log, rng: &mut Rng, focus: Focus, big: bool) {
    let dim = T::DIM;
    let max = if dim == 1 { 3 + rng.below(8) } else { 3 + rng.below(2) };
    let uni: i64 = if big { 1 << 20 } else { *rng.pick(&[3i64, 6, 12]) };
    let lens = if big { Lens { every: Some(2048), hot: vec![7, 8192, 500_000] } } else { Lens { every: None, hot: vec![] } };
    let report = |u: &FlatUps<T>| -> Value { if big && !ordered(u) { json!([[[0, 0], vec![0; dim], 0]]) } else { lens.view(u) } };
    let mut bat = R::Bat::new(None, 0);
    let mut fr: Vec<Vec<u64>> = vec![vec![0; dim]];
    let mut made: Vec<Made<R::Batch>> = Vec::new();
    let mut next = 0;
    let all = grid(dim, max);
    let mut live: FlatUps<T> = Vec::new();
    let mut serial = 0i64;
    let mut gen = |rng: &mut Rng, fr: &[Vec<u64>], n: u64| -> FlatUps<T> {
        let open: Vec<&Vec<u64>> = all.iter().filter(|t| beyond(fr, t)).collect();
        if open.is_empty() { return vec![]; }
        (0..n).map(|_| {
            let t = (*rng.pick(&open)).clone();
            if big && rng.chance(63, 64) {
                // Filler: every row once.
                loop { serial += 1; let r = ((serial.wrapping_mul(1_000_003)).rem_euclid(uni), if R::UNIT { 0 } else { serial % 3 }); if !lens.tracked(&r) { break (r, T::of(&t), 1) } }
            } else if big {
                let k = if rng.chance(1, 2) { *rng.pick(&[7, 8192, 500_000]) } else { 0 };
                if k > 0 { ((k, if R::UNIT { 0 } else { rng.below(40) as i64 }), T::of(&t), *rng.pick(&[1, 1, 2, -1])) }
                else { let k = rng.below(200) as i64 * 4096; ((k, if R::UNIT { 0 } else { (2048 - (k * 31 % 2048)) % 2048 }), T::of(&t), *rng.pick(&[1, 1, 2, -1])) }
            } else if !live.is_empty() && rng.chance(1, 3) {
                let j = rng.below(live.len() as u64) as usize;
                let (r, t0, d) = live.swap_remove(j);
                (r, T::of(&vjoin(&t, &t0.vec())), -d)
            } else {
                let u = ((rng.below(uni as u64) as i64, if R::UNIT { 0 } else { rng.below(uni as u64 / 2 + 1) as i64 }), T::of(&t), *rng.pick(&[1, 1, 1, 2, -1]));
                live.push(u.clone()); u
            }
        }).collect()
    };
    let batch_event = |b: &R::Batch| -> (Value, Value, Value, Value, usize) {
        let d = b.description();
        (fj(d.lower().elements().iter()), fj(d.upper().elements().iter()), fj(d.since().elements().iter()), report(&R::dump(b)), b.len())
    };
    let steps = match focus { Focus::Batcher => 6 + rng.below(14), _ => 4 + rng.below(6) };
    let steps = if big { 5 } else { steps };
    for step in 0..=steps {
        // Feed the batcher some pieces.
        if step < steps && (focus == Focus::Batcher || big) {
            for _ in 0..rng.below(3) + if big { 1 } else { 0 } {
                let n = if big { *rng.pick(&[3000u64, 9000, 20000]) } else if rng.chance(1, 6) { 30 + rng.below(30) } else { 1 + rng.below(10) };
                let ups = gen(rng, &fr, n);
                if ups.is_empty() { continue; }
                log.push(json!(["push", lens.view(&ups)]));
                let mut pieces: Vec<FlatUps<T>> = Vec::new();
                let mut rest = ups;
                while !rest.is_empty() {
                    let n = if big { 1 + rng.below(6000) } else { 1 + rng.below(8) };
                    let tail = rest.split_off(rest.len().min(n as usize));
                    pieces.push(rest); rest = tail;
                }
                for c in R::chunks(pieces, rng) { bat.push_into(c); }
            }
            if rng.chance(1, 3) { continue; }
        }
        let lower = fr.clone();
        if lower.is_empty() { break; }
        let last = step == steps;
        if rng.chance(1, 40) { fr = vec![]; } else if rng.chance(7, 8) { for _ in 0..1 + rng.below(3) { fr = advance_frontier(rng, &fr, max); } }
        if last { fr = vec![]; }
        if focus == Focus::Batcher || big {
            let (mut chain, desc) = bat.seal(aof::<T>(&fr));
            let released: FlatUps<T> = chain.iter().flat_map(|c| R::read(c)).collect();
            log.push(json!(["seal", fr, fj(desc.lower().elements().iter()), fj(desc.upper().elements().iter()), fj(desc.since().elements().iter()), report(&released), released.len(), avec(bat.frontier())]));
            if lower != fr {
                let batch = if rng.chance(1, 2) { R::Bu::seal(&mut chain, desc.clone()) } else {
                    let mut bu = R::Bu::with_capacity(0, 0, 0);
                    for c in chain.iter_mut() { bu.push(c); }
                    bu.done(desc.clone())
                };
                let (lo, up, since, content, n) = batch_event(&batch);
                log.push(json!(["build", next, lower, fr, vec![vec![0; dim]], lo, up, since, content, n]));
                made.push(Made { id: next, batch, lower, upper: fr.clone(), since: vec![vec![0; dim]] }); next += 1;
            }
        } else if lower != fr {
            // A batch of arbitrary updates of the interval.
            let n = if rng.chance(1, 5) { 0 } else if rng.chance(1, 6) { 40 } else { 1 + rng.below(12) };
            let mut ups: FlatUps<T> = gen(rng, &lower, n).into_iter().filter(|u| !beyond(&fr, &u.1.vec())).collect();
            differential_dataflow::consolidation::consolidate_updates(&mut ups);
            let desc = Description::new(aof::<T>(&lower), aof::<T>(&fr), Antichain::from_elem(<T as timely::progress::Timestamp>::minimum()));
            let batch = if ups.is_empty() && rng.chance(1, 2) { R::Batch::empty(aof::<T>(&lower), aof::<T>(&fr)) } else {
                let mut chain: Vec<R::Chunk> = if ups.is_empty() { vec![] } else { R::chunks(vec![ups.clone()], rng) };
                // Chunkers form chunks that are sorted on their own; only a batcher sorts across them.
                let mut bat = R::Bat::new(None, 0);
                for c in chain.drain(..) { bat.push_into(c); }
                let (mut chain, _) = bat.seal(Antichain::new());
                if rng.chance(1, 2) { R::Bu::seal(&mut chain, desc.clone()) } else {
                    let mut bu = R::Bu::with_capacity(0, 0, 0);
                    for c in chain.iter_mut() { bu.push(c); }
                    bu.done(desc.clone())
                }
            };
            let batch = match R::recut(&batch, rng) { Some(b) if rng.chance(1, 2) => b, _ => batch };
            let (lo, up, since, content, n) = batch_event(&batch);
            log.push(json!(["make", next, lens.view(&ups), lower, fr, vec![vec![0; dim]], lo, up, since, content, n]));
            made.push(Made { id: next, batch, lower, upper: fr.clone(), since: vec![vec![0; dim]] }); next += 1;
        }
        // Merge neighbours in interrupted steps.
        let wants = match focus { Focus::Merge => 3, Focus::Cursor => 1, Focus::Batcher => if big { 1 } else { 0 } };
        for _ in 0..wants {
            if made.len() < 2 || rng.chance(1, 2) { continue; }
            let x = rng.below(made.len() as u64 - 1) as usize;
            if made[x].upper != made[x + 1].lower { continue; }
            let (a, b) = (&made[x], &made[x + 1]);
            let base = fjoin(&a.since, &b.since);
            let f = if rng.chance(1, 3) { base.clone() } else if rng.chance(1, 2) { fjoin(&base, &some_frontier(rng, dim, max)) } else { fjoin(&base, &a.upper) };
            let f = if f.is_empty() && rng.chance(3, 4) { base } else { f };
            let (s1, s2) = (a.batch.clone(), b.batch.clone());
            let mut m = s1.begin_merge(&s2, aof::<T>(&f).borrow());
            let generous = rng.chance(1, 3);
            let cap = 4 * (s1.len() + s2.len()) + 100;
            for round in 0..=cap + 1 {
                let mut fuel = if generous || round >= cap { isize::MAX / 2 } else if big { 1 + rng.below(5000) as isize } else { 1 + rng.below(5) as isize };
                m.work(&s1, &s2, &mut fuel);
                if fuel > 0 { break; }
            }
            let batch = m.done();
            let (lo, up, since, content, n) = batch_event(&batch);
            log.push(json!(["merge", next, a.id, b.id, f, lo, up, since, content, n]));
            let (lower, upper) = (a.lower.clone(), b.upper.clone());
            if rng.chance(1, 3) { log.push(json!(["again", a.id, report(&R::dump(&s1)), s1.len()])); }
            made.splice(x..x + 2, [Made { id: next, batch, lower, upper, since: f }]); next += 1;
        }
        if focus == Focus::Cursor && !made.is_empty() && !big {
            for _ in 0..2 {
                let x = rng.below(made.len() as u64) as usize;
                let n = if rng.chance(1, 2) { 1 } else { 1 + rng.below(4) as usize };
                let some: Vec<&Made<R::Batch>> = made[x..].iter().take(n).collect();
                let (ids, bs): (Vec<usize>, Vec<R::Batch>) = some.iter().map(|m| (m.id, m.batch.clone())).unzip();
                R::walk(log, rng, log.len(), &ids, &bs, uni);
            }
        }
    }
}

/// Chunk operators on their own, over chains cut anywhere.
fn chunks<C: Chunk + Flat<<C as Chunk>::Time>>(rng: &mut Rng) -> Vec<Value>
where C::Time: TimeLike {
    let log = Log::new();
    let l = log.clone();
    guarded(&log, || {
        let dim = <C::Time as TimeLike>::DIM;
        let max = if dim == 1 { 6 } else { 3 };
        let uni = *rng.pick(&[1u64, 2, 4, 8]);
        let chain = |rng: &mut Rng, graded: bool| -> VecDeque<C> {
            let n = 1 + rng.below(30);
            let mut ups: FlatUps<C::Time> = (0..n).map(|_| ((rng.below(uni) as i64, rng.below(uni) as i64), C::Time::of(&(0..dim).map(|_| rng.below(max)).collect::<Vec<_>>()), *rng.pick(&[1, 1, 2, -1]))).collect();
            differential_dataflow::consolidation::consolidate_updates(&mut ups);
            let mut out = VecDeque::new();
            while !ups.is_empty() {
                let n = if graded { C::TARGET } else { 1 + rng.below(6) as usize };
                let rest = ups.split_off(n.min(ups.len()));
                out.push_back(C::of(ups)); ups = rest;
            }
            out
        };
        let show = |q: &VecDeque<C>| -> Value { Value::Array(q.iter().map(|c| js(&c.flat())).collect()) };
        for _ in 0..3 {
            match rng.below(4) {
                0 => {
                    let (mut a, mut b, mut out) = (chain(rng, false), chain(rng, false), VecDeque::new());
                    let (mut was, mut round) = (VecDeque::new(), 0);
                    while !a.is_empty() && !b.is_empty() && round < 200 {
                        let (a0, b0) = (show(&a), show(&b));
                        out.clear();
                        C::merge(&mut a, &mut b, &mut out);
                        l.push(json!(["cm", a0, b0, show(&a), show(&b), show(&out)]));
                        was.extend(out.drain(..)); round += 1;
                    }
                }
                1 => {
                    let mut a = chain(rng, false);
                    let f = some_frontier(rng, dim, max);
                    let mut res: Antichain<C::Time> = Antichain::new();
                    let mut round = 0;
                    while !a.is_empty() && round < 200 {
                        let (a0, r0) = (show(&a), avec(res.borrow()));
                        let (mut keep, mut ship) = (VecDeque::new(), VecDeque::new());
                        C::extract(&mut a, aof::<C::Time>(&f).borrow(), &mut res, &mut keep, &mut ship);
                        l.push(json!(["cx", a0, f, r0, show(&a), show(&keep), show(&ship), avec(res.borrow())])); round += 1;
                    }
                }
                2 => {
                    let mut feed = chain(rng, false);
                    let f = some_frontier(rng, dim, max);
                    let mut a: VecDeque<C> = VecDeque::new();
                    loop {
                        for _ in 0..rng.below(4) { if let Some(c) = feed.pop_front() { a.push_back(c); } }
                        let done = feed.is_empty();
                        let a0 = show(&a);
                        let mut out = VecDeque::new();
                        C::advance(&mut a, aof::<C::Time>(&f).borrow(), done, &mut out);
                        l.push(json!(["ca", a0, f, done, show(&a), show(&out)]));
                        if done { break; }
                    }
                }
                _ => {
                    let graded = rng.chance(1, 4);
                    let mut feed = chain(rng, graded);
                    let mut a: VecDeque<C> = VecDeque::new();
                    let mut prev: VecDeque<C> = VecDeque::new();
                    loop {
                        for _ in 0..rng.below(5) { if let Some(c) = feed.pop_front() { a.push_back(c); } }
                        let done = feed.is_empty();
                        let a0 = show(&a);
                        let mut out = VecDeque::new();
                        C::settle(&mut a, done, &mut out);
                        l.push(json!(["cs", a0, done, C::TARGET, show(&prev), show(&a), show(&out)]));
                        while out.len() > 1 { out.pop_front(); }
                        if !out.is_empty() { prev = out; }
                        if done { break; }
                    }
                }
            }
        }
    });
    log.take()
}

fn case(rng: &mut Rng, focus: Focus, idx: usize) -> Value {
    let dim = if rng.chance(1, 2) { 1 } else { 2 };
    let big = focus != Focus::Cursor && idx % 100 == 99;
    let spilled = rng.chance(1, 3);
    if spilled { spill::install(*rng.pick(&[0usize, 0, 5, 20, 10_000]), Box::new(MemStore(Default::default())), Default::default()); }
    let which = if big { *rng.pick(&[0, 1, 2, 4]) } else { rng.below(9) };
    let kind = if big { "big" } else { "" };
    let ev = if dim == 1 { match which {
        0 => life::<u64, ValRep<u64>>(rng, focus, big),
        1 => life::<u64, KeyRep<u64>>(rng, focus, big),
        2 => life::<u64, VecRep<u64>>(rng, focus, big),
        3 => life::<u64, TinyVecRep<u64, 4>>(rng, focus, big),
        4 => life::<u64, ColRep<u64>>(rng, focus, big),
        5 => life::<u64, TinyColRep<u64, 3>>(rng, focus, big),
        6 if focus != Focus::Cursor => chunks::<VecChunk<i64, i64, u64, i64>>(rng),
        7 if focus != Focus::Cursor => if rng.chance(1, 2) { chunks::<ct::ColChunk<(i64, i64, u64, i64)>>(rng) } else { chunks::<Tiny<ct::ColChunk<(i64, i64, u64, i64)>, 3>>(rng) },
        8 => life::<u64, TinyColRep<u64, 1>>(rng, focus, big),
        _ => life::<u64, TinyVecRep<u64, 2>>(rng, focus, big),
    } } else { match which {
        0 => life::<Pair, ValRep<Pair>>(rng, focus, big),
        1 => life::<Pair, KeyRep<Pair>>(rng, focus, big),
        2 => life::<Pair, VecRep<Pair>>(rng, focus, big),
        3 => life::<Pair, TinyVecRep<Pair, 4>>(rng, focus, big),
        4 => life::<Pair, ColRep<Pair>>(rng, focus, big),
        5 => life::<Pair, TinyColRep<Pair, 3>>(rng, focus, big),
        6 if focus != Focus::Cursor => chunks::<VecChunk<i64, i64, Pair, i64>>(rng),
        7 if focus != Focus::Cursor => if rng.chance(1, 2) { chunks::<ct::ColChunk<(i64, i64, Pair, i64)>>(rng) } else { chunks::<Tiny<VecChunk<i64, i64, Pair, i64>, 4>>(rng) },
        8 => life::<Pair, TinyColRep<Pair, 1>>(rng, focus, big),
        _ => life::<Pair, TinyVecRep<Pair, 2>>(rng, focus, big),
    } };
    if spilled { spill::uninstall(); }
    json!({ "dim": dim, "kind": format!("{kind} rep {which}"), "ev": ev })
}
pub fn family_batcher(i: usize, rng: &mut Rng) -> Value { case(rng, Focus::Batcher, i) }
pub fn family_merge(i: usize, rng: &mut Rng) -> Value { case(rng, Focus::Merge, i) }
pub fn family_cursor(i: usize, rng: &mut Rng) -> Value { case(rng, Focus::Cursor, i) }
#[allow(unused)] fn unused() { let _ = fleq; }
