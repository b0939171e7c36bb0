//! Differences and consolidation (validated against spec/DDDiff).
use std::num::Wrapping;

use differential_dataflow::consolidation::{self as cons, Consolidate, ConsolidatingContainerBuilder};
use differential_dataflow::difference::{Abelian, Monoid, Multiply, Present, Semigroup};
use differential_dataflow::trace::chunk::vec::VecChunk;
use differential_dataflow::trace::cursor::{Cursor, Navigable};
use serde_json::{json, Value};
use timely::container::{ContainerBuilder, PushInto};

use crate::common::Rng;

const LIM: i64 = 2_000_000_000;

pub trait Df: Semigroup + Clone + 'static {
    fn ty() -> Value;
    fn enc(&self) -> Value;
    fn some(rng: &mut Rng) -> Self;
}
macro_rules! ints { ($($t:ty),*) => { $(
    impl Df for $t {
        fn ty() -> Value { json!(["int", if <$t>::MIN == 0 { 0 } else { (<$t>::MIN as i128).max(-LIM as i128) as i64 }, (<$t>::MAX as u128).min(LIM as u128) as i64]) }
        fn enc(&self) -> Value { json!(*self as i64) }
        fn some(rng: &mut Rng) -> Self { if <$t>::MIN == 0 { rng.below(5) as $t } else { (rng.below(5) as i64 - 2) as $t } }
    }
)* } }
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
macro_rules! wraps { ($($t:ty, $k:expr);*) => { $(
    impl Df for Wrapping<$t> {
        fn ty() -> Value { json!([$k, (<$t>::MIN as i128).max(-LIM as i128) as i64, (<$t>::MAX as i128).min(LIM as i128) as i64]) }
        fn enc(&self) -> Value { json!(self.0 as i64) }
        fn some(rng: &mut Rng) -> Self { if $k == "wrap" && rng.chance(1, 3) { Wrapping(*rng.pick(&[<$t>::MIN, <$t>::MAX, <$t>::MIN + 1])) } else { Wrapping((rng.below(7) as i64 - 3) as $t) } }
    }
)* } }
wraps!(i8, "wrap"; i16, "wrap"; i32, "int"; i64, "int"; i128, "int"; isize, "int");
impl Df for Present { fn ty() -> Value { json!(["present"]) } fn enc(&self) -> Value { json!(1) } fn some(_: &mut Rng) -> Self { Present } }
impl Df for () { fn ty() -> Value { json!(["tuple", []]) } fn enc(&self) -> Value { json!([]) } fn some(_: &mut Rng) {} }
impl<A: Df> Df for (A,) { fn ty() -> Value { json!(["tuple", [A::ty()]]) } fn enc(&self) -> Value { json!([self.0.enc()]) } fn some(r: &mut Rng) -> Self { (A::some(r),) } }
impl<A: Df, B: Df> Df for (A, B) { fn ty() -> Value { json!(["tuple", [A::ty(), B::ty()]]) } fn enc(&self) -> Value { json!([self.0.enc(), self.1.enc()]) } fn some(r: &mut Rng) -> Self { (A::some(r), B::some(r)) } }
impl<A: Df, B: Df, C: Df> Df for (A, B, C) { fn ty() -> Value { json!(["tuple", [A::ty(), B::ty(), C::ty()]]) } fn enc(&self) -> Value { json!([self.0.enc(), self.1.enc(), self.2.enc()]) } fn some(r: &mut Rng) -> Self { (A::some(r), B::some(r), C::some(r)) } }
impl<A: Df, B: Df, C: Df, D: Df> Df for (A, B, C, D) { fn ty() -> Value { json!(["tuple", [A::ty(), B::ty(), C::ty(), D::ty()]]) } fn enc(&self) -> Value { json!([self.0.enc(), self.1.enc(), self.2.enc(), self.3.enc()]) } fn some(r: &mut Rng) -> Self { (A::some(r), B::some(r), C::some(r), D::some(r)) } }
impl<A: Df> Df for Vec<A> { fn ty() -> Value { json!(["vec", A::ty()]) } fn enc(&self) -> Value { Value::Array(self.iter().map(|x| x.enc()).collect()) } fn some(r: &mut Rng) -> Self { (0..r.below(4)).map(|_| A::some(r)).collect() } }

/// Sums, and consolidations of every kind.
fn base<R: Df>(rng: &mut Rng, ev: &mut Vec<Value>) {
    for _ in 0..6 {
        let (a, b) = (R::some(rng), R::some(rng));
        let mut c = a.clone(); c.plus_equals(&b);
        let mut d = a.clone(); Semigroup::<&R>::plus_equals(&mut d, &&b);
        ev.push(json!(["plus", a.enc(), b.enc(), c.enc(), d.enc()]));
        ev.push(json!(["iszero", c.enc(), c.is_zero()]));
    }
    for _ in 0..3 { consolidate::<R>(rng, ev); }
}
fn key(rng: &mut Rng, n: u64) -> (i64, i64) { (rng.below(n) as i64, rng.below(2) as i64) }
fn size(rng: &mut Rng) -> usize { match rng.below(10) { 0 => 0, 1 => 1, 2 => 2, 3 => 30 + rng.below(20) as usize, _ => 3 + rng.below(12) as usize } }
fn ej<R: Df>(k: &[i64], r: &R) -> Value { json!([k, r.enc()]) }
fn consolidate<R: Df>(rng: &mut Rng, ev: &mut Vec<Value>) {
    let n = size(rng);
    let spread = 1 + rng.below(6);
    let offset = if n > 0 && rng.chance(1, 2) { rng.below(n as u64 + 1) as usize } else { 0 };
    let presorted = rng.chance(1, 5);
    match rng.below(6) {
        0 | 1 => {
            let mut v: Vec<((i64, i64), R)> = (0..n).map(|_| (key(rng, spread), R::some(rng))).collect();
            if presorted { v.sort_by_key(|x| x.0); }
            let before: Vec<Value> = v.iter().map(|(k, r)| ej(&[k.0, k.1], r)).collect();
            let (entry, at) = match rng.below(3) { 0 => { cons::consolidate(&mut v); ("consolidate", 0) } 1 => { cons::consolidate_from(&mut v, offset); ("consolidate_from", offset) }
                _ => { let l = cons::consolidate_slice(&mut v[offset..]); v.truncate(offset + l); ("consolidate_slice", offset) } };
            ev.push(json!(["cons", at, before, v.iter().map(|(k, r)| ej(&[k.0, k.1], r)).collect::<Vec<_>>(), entry]));
        }
        x => {
            let mut v: Vec<((i64, i64), u64, R)> = (0..n).map(|_| (key(rng, spread), rng.below(3), R::some(rng))).collect();
            if presorted { v.sort_by_key(|x| (x.0, x.1)); }
            let show = |v: &[((i64, i64), u64, R)]| v.iter().map(|(k, t, r)| ej(&[k.0, k.1, *t as i64], r)).collect::<Vec<_>>();
            let before = show(&v);
            let (entry, at) = match x {
                2 => { cons::consolidate_updates(&mut v); ("consolidate_updates", 0) }
                3 => { cons::consolidate_updates_from(&mut v, offset); ("consolidate_updates_from", offset) }
                4 => { let l = cons::consolidate_updates_slice(&mut v[offset..]); v.truncate(offset + l); ("consolidate_updates_slice", offset) }
                _ => { let mut t = Vec::new(); v.consolidate_into(&mut t); assert!(v.is_empty()); v = t; ("consolidate_into", 0) }
            };
            ev.push(json!(["cons", at, before, show(&v), entry]));
        }
    }
}
/// As `consolidate_into` for chunks, which are kept sorted by their users.
fn chunks<R: Df + Ord + Default>(rng: &mut Rng, ev: &mut Vec<Value>) {
    for _ in 0..2 {
        let n = size(rng);
        let spread = 1 + rng.below(6);
        let mut c = VecChunk::<i64, i64, u64, R>::default();
        let mut v = Vec::new();
        for _ in 0..n { let k = key(rng, spread); let t = rng.below(3); let r = R::some(rng); v.push(ej(&[k.0, k.1, t as i64], &r)); c.push_into((k, t, r)); }
        let mut t = VecChunk::default();
        Consolidate::consolidate_into(&mut c, &mut t);
        let keep = t.clone();      // sharing a chunk must not let it be altered
        let out: Vec<Value> = vchunk(&t);
        ev.push(json!(["cons", 0, v, out, "chunk"]));
        t.push_into(((9, 9), 0, R::some(rng)));
        ev.push(json!(["same", vchunk(&keep), out]));
    }
}
fn vchunk<R: Df + Ord + Default>(s: &VecChunk<i64, i64, u64, R>) -> Vec<Value> {
    let (mut c, mut out) = (s.cursor(), Vec::new());
    while let Some(k) = c.get_key(s) { while let Some(v) = c.get_val(s) { c.map_times(s, |t, r| out.push(ej(&[*k, *v, *t as i64], r))); c.step_val(s); } c.step_key(s); }
    out
}

/// A datum so large that few fit in a buffer.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Wide<const N: usize>(pub i64, pub [u64; N]);
fn builder<R: Df, const N: usize>(rng: &mut Rng, ev: &mut Vec<Value>, n: usize) {
    let mut b = ConsolidatingContainerBuilder::<Vec<(Wide<N>, u64, R)>>::default();
    let spread = if rng.chance(1, 3) { 3 } else { 1 + n as u64 };
    let mut ins = Vec::new();
    let mut outs: Vec<Value> = Vec::new();
    let mut finished = Vec::new();
    let show = |v: &Vec<(Wide<N>, u64, R)>| Value::Array(v.iter().map(|(k, t, r)| ej(&[k.0, *t as i64], r)).collect());
    for _ in 0..1 + rng.below(3) {
        for _ in 0..n {
            let (k, t, r) = (rng.below(spread) as i64, rng.below(2), R::some(rng));
            ins.push(ej(&[k, t as i64], &r));
            b.push_into((Wide(k, [k as u64; N]), t, r));
            if rng.chance(1, 3) { while let Some(c) = b.extract() { outs.push(show(c)); } }
        }
        while let Some(c) = b.finish() { outs.push(show(c)); }
        finished.push(json!([ins.len(), outs.len()]));
    }
    ev.push(json!(["builder", ins, outs, finished]));
}
fn monoid<R: Df + Monoid>(rng: &mut Rng, ev: &mut Vec<Value>) { base::<R>(rng, ev); ev.push(json!(["zero", R::zero().enc(), R::zero().is_zero()])); }
fn abelian<R: Df + Abelian>(rng: &mut Rng, ev: &mut Vec<Value>) {
    monoid::<R>(rng, ev);
    for _ in 0..4 { let a = R::some(rng); let mut b = a.clone(); b.negate(); ev.push(json!(["neg", a.enc(), b.enc()])); }
}
fn mul<A: Df + Multiply<B>, B: Df>(rng: &mut Rng, ev: &mut Vec<Value>) where A::Output: Df {
    for _ in 0..6 { let (a, b) = (A::some(rng), B::some(rng)); let c = a.clone().multiply(&b); ev.push(json!(["mul", a.enc(), B::ty(), b.enc(), A::Output::ty(), c.enc()])); }
}
fn slices<R: Df>(rng: &mut Rng, ev: &mut Vec<Value>) {
    for _ in 0..4 { let (a, b) = (Vec::<R>::some(rng), Vec::<R>::some(rng)); let mut c = a.clone(); Semigroup::<[R]>::plus_equals(&mut c, &b[..]); ev.push(json!(["plus", a.enc(), b.enc(), c.enc(), c.enc()])); }
}

pub fn family_diff(i: usize, rng: &mut Rng) -> Value {
    let mut ev = Vec::new();
    let e = &mut ev;
    macro_rules! uint { ($t:ty) => { { monoid::<$t>(rng, e); mul::<$t, $t>(rng, e); chunks::<$t>(rng, e); <$t>::ty() } } }
    macro_rules! int { ($t:ty) => { { abelian::<$t>(rng, e); mul::<$t, $t>(rng, e); chunks::<$t>(rng, e); <$t>::ty() } } }
    macro_rules! mix { ($t:ty, $u:ty) => { { abelian::<$t>(rng, e); mul::<$t, $u>(rng, e); chunks::<$t>(rng, e); <$t>::ty() } } }
    let ty = match i % 32 {
        0 => uint!(u8), 1 => uint!(u16), 2 => uint!(u32), 3 => uint!(u64), 4 => uint!(u128), 5 => uint!(usize),
        6 => int!(i8), 7 => int!(i16), 8 => int!(i32), 9 => int!(i64), 10 => int!(i128), 11 => int!(isize),
        12 => int!(Wrapping<i8>), 13 => int!(Wrapping<i16>), 14 => int!(Wrapping<i32>), 15 => int!(Wrapping<i64>), 16 => int!(Wrapping<i128>), 17 => int!(Wrapping<isize>),
        18 => { base::<Present>(rng, e); mul::<Present, i64>(rng, e); mul::<Present, Present>(rng, e); mul::<Present, (i64, i64)>(rng, e); Present::ty() }
        19 => mix!((), i64),
        20 => mix!((i64,), i64), 21 => { abelian::<(i64, Wrapping<i8>)>(rng, e); chunks::<(i64, Wrapping<i8>)>(rng, e); <(i64, Wrapping<i8>)>::ty() },
        22 => mix!((i64, i64), i64), 23 => mix!((isize, isize, isize), isize), 24 => mix!((i8, (i8, i8), i8, i8), i8),
        25 => { base::<(Present, i64)>(rng, e); mul::<(Present, i64), i64>(rng, e); <(Present, i64)>::ty() }
        26 => { slices::<i64>(rng, e); mix!(Vec<i64>, i64) }
        27 => { slices::<(i64, i64)>(rng, e); mix!(Vec<(i64, i64)>, i64) }
        28 => { slices::<Wrapping<i8>>(rng, e); mix!(Vec<Wrapping<i8>>, Wrapping<i8>) }
        29 => { let n = 20 + rng.below(120) as usize; builder::<i64, 30>(rng, e, n); i64::ty() }
        30 => { let n = 1 + rng.below(24) as usize; builder::<(i64, i64), 300>(rng, e, n); <(i64, i64)>::ty() }
        _ => { let n = 1 + rng.below(20) as usize; if rng.chance(1, 2) { builder::<i64, 1100>(rng, e, n) } else { builder::<i64, 511>(rng, e, n) }; i64::ty() }
    };
    json!({ "type": ty, "ev": ev })
}
