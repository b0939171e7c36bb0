//! Timestamps, summaries and frontiers (validated against spec/DDLattice).
use differential_dataflow::dynamic::pointstamp::{PointStamp, PointStampSummary};
use differential_dataflow::lattice::{antichain_join, antichain_join_into, antichain_meet, Lattice, Maximum};
use differential_dogs3::altneu::AltNeu;
use serde_json::{json, Value};
use smallvec::SmallVec;
use std::time::Duration;
use timely::order::{PartialOrder, Product};
use timely::progress::{Antichain, PathSummary, Timestamp};

use crate::common::Rng;

const LIM: i64 = 2_000_000_000;

/// A time type the specification can describe.
pub trait Ty: Timestamp + Lattice + Ord {
    fn ty() -> Value;
    fn enc(&self) -> Value;
    fn some(rng: &mut Rng) -> Self;
    fn enc_sum(s: &Self::Summary) -> Value;
    fn some_sum(rng: &mut Rng) -> Self::Summary;
}
macro_rules! ints { ($($t:ty),*) => { $(
    impl Ty for $t {
        fn ty() -> Value { json!(["int", num(<$t>::MIN), num(<$t>::MAX)]) }
        fn enc(&self) -> Value { num(*self) }
        fn some(rng: &mut Rng) -> Self { match rng.below(12) { 0 => <$t>::MAX, 1 => small(<$t>::MIN), 2 => small(<$t>::MIN).saturating_add(1), 3 => 100, x => (x % 6) as $t } }
        fn enc_sum(s: &Self::Summary) -> Value { num(*s) }
        fn some_sum(rng: &mut Rng) -> Self { if rng.chance(1, 8) { 120 } else { rng.below(4) as $t } }
    }
)* } }
fn num<T>(x: T) -> Value where i128: FromLossy<T> { json!(<i128 as FromLossy<T>>::lossy(x).clamp(-LIM as i128, LIM as i128) as i64) }
/// The least value, where the specification can represent its neighbours.
fn small<T: Default>(x: T) -> T where i128: FromLossy<T>, T: Copy { if <i128 as FromLossy<T>>::lossy(x) < -100_000 { T::default() } else { x } }
pub trait FromLossy<T> { fn lossy(x: T) -> i128; }
macro_rules! lossy { ($($t:ty),*) => { $( impl FromLossy<$t> for i128 { fn lossy(x: $t) -> i128 { i128::try_from(x).unwrap_or(i128::MAX) } } )* } }
lossy!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Ty for Duration {
    fn ty() -> Value { json!(["int", 0, LIM]) }
    fn enc(&self) -> Value { if *self == Duration::MAX { json!(LIM) } else { json!(self.as_millis() as i64) } }
    fn some(rng: &mut Rng) -> Self { match rng.below(8) { 0 => Duration::MAX, 1 => Duration::from_millis(1999), 2 => Duration::from_millis(2000), 3 => Duration::new(0, 0), x => Duration::from_millis(x) } }
    fn enc_sum(s: &Duration) -> Value { s.enc() }
    fn some_sum(rng: &mut Rng) -> Duration { Duration::from_millis(rng.below(3)) }
}
impl Ty for () {
    fn ty() -> Value { json!(["unit"]) }
    fn enc(&self) -> Value { json!(0) }
    fn some(_: &mut Rng) {}
    fn enc_sum(_: &()) -> Value { json!(0) }
    fn some_sum(_: &mut Rng) {}
}
impl<A: Ty, B: Ty> Ty for Product<A, B> {
    fn ty() -> Value { json!(["prod", A::ty(), B::ty()]) }
    fn enc(&self) -> Value { json!([self.outer.enc(), self.inner.enc()]) }
    fn some(rng: &mut Rng) -> Self { Product::new(A::some(rng), B::some(rng)) }
    fn enc_sum(s: &Self::Summary) -> Value { json!([A::enc_sum(&s.outer), B::enc_sum(&s.inner)]) }
    fn some_sum(rng: &mut Rng) -> Self::Summary { Product::new(A::some_sum(rng), B::some_sum(rng)) }
}
impl<A: Ty, B: Ty + Maximum> Ty for (A, B) {
    fn ty() -> Value { json!(["lex", A::ty(), B::ty()]) }
    fn enc(&self) -> Value { json!([self.0.enc(), self.1.enc()]) }
    fn some(rng: &mut Rng) -> Self { (A::some(rng), B::some(rng)) }
    fn enc_sum(s: &Self::Summary) -> Value { json!([A::enc_sum(&s.0), B::enc_sum(&s.1)]) }
    fn some_sum(rng: &mut Rng) -> Self::Summary { (A::some_sum(rng), B::some_sum(rng)) }
}
impl<A: Ty> Ty for PointStamp<A> {
    fn ty() -> Value { json!(["point", A::ty()]) }
    fn enc(&self) -> Value { Value::Array(self.iter().map(|x| x.enc()).collect()) }
    fn some(rng: &mut Rng) -> Self { let n = rng.below(4); PointStamp::new((0..n).map(|_| if rng.chance(1, 4) { A::minimum() } else { A::some(rng) }).collect::<SmallVec<[A; 1]>>()) }
    fn enc_sum(s: &Self::Summary) -> Value { json!([s.retain.map(|x| x as i64).unwrap_or(-1), s.actions.iter().map(|x| A::enc_sum(x)).collect::<Vec<_>>()]) }
    fn some_sum(rng: &mut Rng) -> Self::Summary {
        let n = rng.below(4);
        PointStampSummary { retain: if rng.chance(1, 3) { None } else { Some(rng.below(4) as usize) }, actions: (0..n).map(|_| if rng.chance(1, 4) { Default::default() } else { A::some_sum(rng) }).collect() }
    }
}
impl<A: Ty> Ty for AltNeu<A> {
    fn ty() -> Value { json!(["alt", A::ty()]) }
    fn enc(&self) -> Value { json!([self.time.enc(), self.neu as i64]) }
    fn some(rng: &mut Rng) -> Self { AltNeu { time: A::some(rng), neu: rng.chance(1, 2) } }
    fn enc_sum(_: &()) -> Value { json!(0) }
    fn some_sum(_: &mut Rng) {}
}

fn opt<T>(x: Option<T>, f: impl Fn(&T) -> Value) -> Value { match x { None => json!([]), Some(x) => json!([f(&x)]) } }
fn acs<T: Ty>(f: &[T]) -> Value { Value::Array(f.iter().map(|x| x.enc()).collect()) }

fn events<T: Ty>(rng: &mut Rng) -> Vec<Value> {
    let mut ev = Vec::new();
    let pool: Vec<T> = (0..4 + rng.below(4)).map(|_| T::some(rng)).collect();
    let sums: Vec<T::Summary> = (0..4).map(|_| T::some_sum(rng)).collect();
    ev.push(json!(["min", T::minimum().enc()]));
    for _ in 0..24 {
        let (a, b) = (rng.pick(&pool).clone(), rng.pick(&pool).clone());
        let (s, r) = (rng.pick(&sums).clone(), rng.pick(&sums).clone());
        let front = |rng: &mut Rng| -> Antichain<T> { let n = rng.below(4); (0..n).map(|_| rng.pick(&pool).clone()).collect() };
        match rng.below(11) {
            0 => ev.push(json!(["le", a.enc(), b.enc(), PartialOrder::less_equal(&a, &b), PartialOrder::less_than(&a, &b), a == b])),
            1 => { let mut c = a.clone(); c.join_assign(&b); ev.push(json!(["join", a.enc(), b.enc(), a.join(&b).enc(), c.enc()])) }
            2 => { let mut c = a.clone(); c.meet_assign(&b); ev.push(json!(["meet", a.enc(), b.enc(), a.meet(&b).enc(), c.enc()])) }
            3 => ev.push(json!(["cmp", a.enc(), b.enc(), a.cmp(&b) as i8, b.cmp(&a) as i8])),
            4 => { let f = front(rng); let mut c = a.clone(); c.advance_by(f.borrow()); ev.push(json!(["adv", a.enc(), acs(f.elements()), c.enc()])) }
            5 => ev.push(json!(["res", T::enc_sum(&s), a.enc(), opt(s.results_in(&a), T::enc)])),
            6 => ev.push(json!(["fol", T::enc_sum(&s), T::enc_sum(&r), opt(s.followed_by(&r), T::enc_sum)])),
            7 => ev.push(json!(["sle", T::enc_sum(&s), T::enc_sum(&r), PartialOrder::less_equal(&s, &r)])),
            8 => {
                let (f, g) = (front(rng), front(rng));
                let mut into = Antichain::from_elem(a.clone());
                antichain_join_into(f.elements(), g.elements(), &mut into);
                let mut asg = f.clone(); asg.join_assign(&g);
                ev.push(json!(["fjoin", acs(f.elements()), acs(g.elements()), [acs(antichain_join(f.elements(), g.elements()).elements()), acs(into.elements()), acs(Lattice::join(&f, &g).elements()), acs(asg.elements())]]));
            }
            9 => {
                let (f, g) = (front(rng), front(rng));
                let mut asg = f.clone(); asg.meet_assign(&g);
                ev.push(json!(["fmeet", acs(f.elements()), acs(g.elements()), [acs(antichain_meet(f.elements(), g.elements()).elements()), acs(Lattice::meet(&f, &g).elements()), acs(asg.elements())]]));
            }
            _ => {
                let (f, g) = (front(rng), front(rng));
                ev.push(json!(["fle", acs(f.elements()), acs(g.elements()), a.enc(), PartialOrder::less_equal(&f, &g), f.less_equal(&a), f.less_than(&a)]));
            }
        }
    }
    ev
}
fn maxima<T: Ty + Maximum>(rng: &mut Rng) -> Vec<Value> {
    let mut ev = events::<T>(rng);
    ev.push(json!(["max", T::maximum().enc()]));
    ev
}
/// Comparisons of point stamps with plain slices, which may have trailing minima.
fn slices<T: Ty>(rng: &mut Rng) -> Vec<Value> {
    let mut ev = events::<PointStamp<T>>(rng);
    for _ in 0..12 {
        let p = PointStamp::<T>::some(rng);
        let n = rng.below(4);
        let mut s: Vec<T> = (0..n).map(|_| if rng.chance(1, 2) { T::minimum() } else { T::some(rng) }).collect();
        if rng.chance(1, 2) { for (x, y) in s.iter_mut().zip(p.iter()) { *x = y.clone(); } }
        let eq1 = <PointStamp<T> as PartialEq<[T]>>::eq(&p, &s[..]);
        let eq2 = <[T] as PartialEq<PointStamp<T>>>::eq(&s[..], &p);
        let le = <PointStamp<T> as PartialOrder<[T]>>::less_equal(&p, &s[..]);
        let ge = <[T] as PartialOrder<PointStamp<T>>>::less_equal(&s[..], &p);
        ev.push(json!(["slice", p.enc(), s.iter().map(|x| x.enc()).collect::<Vec<_>>(), eq1, eq2, le, ge]));
        let v: SmallVec<[T; 1]> = s.iter().cloned().collect();
        ev.push(json!(["stamp", s.iter().map(|x| x.enc()).collect::<Vec<_>>(), PointStamp::new(v.clone()).enc(), Value::Array(PointStamp::new(v).into_inner().iter().map(|x| x.enc()).collect())]));
    }
    ev
}

pub fn family_lattice(i: usize, rng: &mut Rng) -> Value {
    macro_rules! go { ($f:ident, $t:ty) => { (<$t as Ty>::ty(), $f::<$t>(rng)) } }
    macro_rules! gos { ($t:ty) => { (<PointStamp<$t> as Ty>::ty(), slices::<$t>(rng)) } }
    let (ty, ev) = match i % 32 {
        0 => go!(maxima, u8), 1 => go!(maxima, u16), 2 => go!(maxima, u32), 3 => go!(maxima, u64), 4 => go!(maxima, u128), 5 => go!(maxima, usize),
        6 => go!(maxima, i8), 7 => go!(maxima, i16), 8 => go!(maxima, i32), 9 => go!(maxima, i64), 10 => go!(maxima, i128), 11 => go!(maxima, isize),
        12 => go!(maxima, Duration), 13 => go!(maxima, ()),
        14 => go!(events, Product<u64, u64>), 15 => go!(events, Product<u8, Product<u8, i8>>), 16 => go!(events, Product<Product<u32, u64>, u16>),
        17 => go!(events, (u64, u8)), 18 => go!(events, (Product<u8, u8>, u8)), 19 => go!(events, ((u8, u16), u64)), 20 => go!(events, (Product<u64, i16>, i8)),
        21 | 22 => gos!(u64), 23 => gos!(Product<u64, u64>), 24 => gos!(u8), 25 => gos!((u8, u8)),
        26 => go!(events, AltNeu<u64>), 27 => go!(events, AltNeu<Product<u8, u64>>), 28 => go!(events, AltNeu<(u8, u8)>),
        29 => go!(events, Product<u64, PointStamp<u64>>), 30 => go!(events, PointStamp<AltNeu<u8>>), _ => go!(events, Product<AltNeu<u8>, u8>),
    };
    json!({ "type": ty, "ev": ev })
}
