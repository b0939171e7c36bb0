//! A `Chunk` with a tiny target size, delegating its transducers to a provided one: it drives the generic chunk
//! machinery (packing, chunked merging, straddling cursors) across many chunk boundaries with little data.
use std::collections::VecDeque;

use differential_dataflow::columnar::trace::ColChunk;
use differential_dataflow::consolidation::Consolidate;
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::chunk::{pack, Chunk, NavigableChunk};
use differential_dataflow::trace::cursor::{Cursor, Navigable};
use timely::container::{PushInto, SizableContainer};
use timely::progress::frontier::AntichainRef;
use timely::progress::Antichain;
use timely::Accountable;

use crate::common::*;

pub type Flatten<T> = Vec<((i64, i64), T, i64)>;

/// Chunks of integer rows that can be read out and rebuilt.
pub trait Flat<T>: Sized + Default {
    fn flat(&self) -> Flatten<T>;
    fn of(ups: Flatten<T>) -> Self;
}
fn read<C: Navigable>(c: &C) -> Flatten<<C::Cursor as Cursor>::Time>
where C::Cursor: Cursor<Diff = i64>, for<'a> <C::Cursor as Cursor>::Key<'a>: AsI64, for<'a> <C::Cursor as Cursor>::Val<'a>: AsI64 {
    let mut out = Vec::new();
    let mut cur = c.cursor();
    while let Some(k) = cur.get_key(c) {
        let k = k.int();
        while let Some(v) = cur.get_val(c) {
            let v = v.int();
            cur.map_times(c, |t, d| out.push(((k, v), <C::Cursor as Cursor>::owned_time(t), <C::Cursor as Cursor>::owned_diff(d))));
            cur.step_val(c);
        }
        cur.step_key(c);
    }
    out
}
impl<T: TimeLike> Flat<T> for VecChunk<i64, i64, T, i64> {
    fn flat(&self) -> Flatten<T> { read(self) }
    fn of(ups: Flatten<T>) -> Self { let mut c = Self::default(); for u in ups { c.push_into(u); } c }
}
macro_rules! col_flat { ($t:ty) => {
impl Flat<$t> for ColChunk<(i64, i64, $t, i64)> {
    fn flat(&self) -> Flatten<$t> { read(self) }
    fn of(ups: Flatten<$t>) -> Self {
        let mut c = Self::default();
        for u in ups { c.push_into(u); }
        let mut d = Self::default();
        c.consolidate_into(&mut d);
        d
    }
} } }
col_flat!(u64);
col_flat!(Pair);

/// A chunk of at most `N` updates.
#[derive(Clone, Default)]
pub struct Tiny<C, const N: usize>(pub C);

impl<T, C: Flat<T>, const N: usize> Flat<T> for Tiny<C, N> {
    fn flat(&self) -> Flatten<T> { self.0.flat() }
    fn of(ups: Flatten<T>) -> Self { Tiny(C::of(ups)) }
}
fn unwrap<C, const N: usize>(q: &mut VecDeque<Tiny<C, N>>) -> VecDeque<C> { q.drain(..).map(|c| c.0).collect() }
fn wrap<C, const N: usize>(from: VecDeque<C>, to: &mut VecDeque<Tiny<C, N>>) { to.extend(from.into_iter().map(Tiny)) }

impl<C: Chunk + Flat<<C as Chunk>::Time>, const N: usize> Chunk for Tiny<C, N> {
    type Time = C::Time;
    const TARGET: usize = N;
    fn len(&self) -> usize { self.0.len() }
    fn merge(in1: &mut VecDeque<Self>, in2: &mut VecDeque<Self>, out: &mut VecDeque<Self>) {
        let (mut a, mut b, mut o) = (unwrap(in1), unwrap(in2), VecDeque::new());
        C::merge(&mut a, &mut b, &mut o);
        wrap(a, in1); wrap(b, in2); wrap(o, out);
    }
    fn extract(input: &mut VecDeque<Self>, frontier: AntichainRef<Self::Time>, residual: &mut Antichain<Self::Time>, keep: &mut VecDeque<Self>, ship: &mut VecDeque<Self>) {
        let (mut i, mut k, mut s) = (unwrap(input), VecDeque::new(), VecDeque::new());
        C::extract(&mut i, frontier, residual, &mut k, &mut s);
        wrap(i, input); wrap(k, keep); wrap(s, ship);
    }
    fn advance(input: &mut VecDeque<Self>, frontier: AntichainRef<Self::Time>, done: bool, out: &mut VecDeque<Self>) {
        let (mut i, mut o) = (unwrap(input), VecDeque::new());
        C::advance(&mut i, frontier, done, &mut o);
        wrap(i, input); wrap(o, out);
    }
    fn settle(input: &mut VecDeque<Self>, done: bool, out: &mut VecDeque<Self>) {
        pack(input, done, out,
            |acc, next| { let mut u = acc.0.flat(); u.extend(next.0.flat()); *acc = Tiny(C::of(u)); },
            |c, n| { let mut u = c.0.flat(); let rest = u.split_off(n); (Tiny(C::of(u)), Tiny(C::of(rest))) },
            |c| c)
    }
}

impl<C: Accountable, const N: usize> Accountable for Tiny<C, N> { fn record_count(&self) -> i64 { self.0.record_count() } }
impl<C: Chunk + SizableContainer, const N: usize> SizableContainer for Tiny<C, N> {
    fn at_capacity(&self) -> bool { Chunk::len(&self.0) >= N }
    fn ensure_capacity(&mut self, _: &mut Option<Self>) { }
}
impl<C: Consolidate, const N: usize> Consolidate for Tiny<C, N> {
    fn len(&self) -> usize { self.0.len() }
    fn clear(&mut self) { self.0.clear() }
    fn consolidate_into(&mut self, target: &mut Self) { self.0.consolidate_into(&mut target.0) }
}
impl<I, C: PushInto<I>, const N: usize> PushInto<I> for Tiny<C, N> { fn push_into(&mut self, item: I) { self.0.push_into(item) } }

pub struct TinyCursor<C, const N: usize>(C);
impl<C: Navigable, const N: usize> Navigable for Tiny<C, N> {
    type Cursor = TinyCursor<C::Cursor, N>;
    fn cursor(&self) -> Self::Cursor { TinyCursor(self.0.cursor()) }
}
impl<C: Cursor, const N: usize> Cursor for TinyCursor<C, N> {
    type Storage = Tiny<C::Storage, N>;
    type Key<'a> = C::Key<'a>;
    type ValOwn = C::ValOwn;
    type Val<'a> = C::Val<'a>;
    type Time = C::Time;
    type TimeGat<'a> = C::TimeGat<'a>;
    type Diff = C::Diff;
    type DiffGat<'a> = C::DiffGat<'a>;
    type KeyContainer = C::KeyContainer;
    type ValContainer = C::ValContainer;
    type TimeContainer = C::TimeContainer;
    type DiffContainer = C::DiffContainer;
    fn key_valid(&self, s: &Self::Storage) -> bool { self.0.key_valid(&s.0) }
    fn val_valid(&self, s: &Self::Storage) -> bool { self.0.val_valid(&s.0) }
    fn key<'a>(&self, s: &'a Self::Storage) -> Self::Key<'a> { self.0.key(&s.0) }
    fn val<'a>(&self, s: &'a Self::Storage) -> Self::Val<'a> { self.0.val(&s.0) }
    fn get_key<'a>(&self, s: &'a Self::Storage) -> Option<Self::Key<'a>> { self.0.get_key(&s.0) }
    fn get_val<'a>(&self, s: &'a Self::Storage) -> Option<Self::Val<'a>> { self.0.get_val(&s.0) }
    fn map_times<L: FnMut(Self::TimeGat<'_>, Self::DiffGat<'_>)>(&mut self, s: &Self::Storage, logic: L) { self.0.map_times(&s.0, logic) }
    fn step_key(&mut self, s: &Self::Storage) { self.0.step_key(&s.0) }
    fn seek_key(&mut self, s: &Self::Storage, key: Self::Key<'_>) { self.0.seek_key(&s.0, key) }
    fn step_val(&mut self, s: &Self::Storage) { self.0.step_val(&s.0) }
    fn seek_val(&mut self, s: &Self::Storage, val: Self::Val<'_>) { self.0.seek_val(&s.0, val) }
    fn rewind_keys(&mut self, s: &Self::Storage) { self.0.rewind_keys(&s.0) }
    fn rewind_vals(&mut self, s: &Self::Storage) { self.0.rewind_vals(&s.0) }
}
impl<C: NavigableChunk + Flat<<C as Chunk>::Time>, const N: usize> NavigableChunk for Tiny<C, N> {
    fn bounds(&self) -> (
        (<Self::Cursor as Cursor>::Key<'_>, <Self::Cursor as Cursor>::Val<'_>, <Self::Cursor as Cursor>::TimeGat<'_>),
        (<Self::Cursor as Cursor>::Key<'_>, <Self::Cursor as Cursor>::Val<'_>, <Self::Cursor as Cursor>::TimeGat<'_>),
    ) { self.0.bounds() }
}
