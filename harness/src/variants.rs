//! Alternative implementations of the root operator of an expression: ["v", which, e].
//! They must all denote what `e` denotes.
use differential_dataflow::consolidation::{consolidate, consolidate_updates};
use differential_dataflow::difference::IsZero;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::operators::arrange::{Arrange, Arranged, TraceAgent};
use differential_dataflow::operators::int_proxy::*;
use differential_dataflow::operators::join::{join_traces, join_with_tactic};
use differential_dataflow::operators::reduce::{reduce_trace_reference, reduce_with_tactic};
use differential_dataflow::operators::{CountTotal, ThresholdTotal};
use differential_dataflow::trace::chunk::vec as vchunk;
use differential_dataflow::trace::implementations::chunker::ContainerChunker;
use differential_dataflow::trace::implementations::ord_neu::{OrdKeyBatcher, OrdKeySpine, OrdValBatch, RcOrdKeyBuilder};
use differential_dataflow::trace::implementations::{ValBuilder, ValSpine, Vector};
use differential_dataflow::trace::{Builder, Cursor, Description, Navigable};
use differential_dataflow::{AsCollection, Hashable};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;
use timely::dataflow::channels::pact::Exchange;
use timely::dataflow::Scope;
use timely::order::Product;

use crate::common::*;
use crate::prog::*;

thread_local! { pub static CALLS: RefCell<Option<Log>> = RefCell::new(None); }
fn note(v: Value) { CALLS.with(|c| if let Some(l) = &*c.borrow() { l.push(v) }) }

pub type VS<T> = ValSpine<i64, i64, T, isize>;
pub type VB<T> = ValBuilder<i64, i64, T, isize>;

fn enc(x: i64) -> u64 { (x as u64) ^ (1 << 63) }
fn dec(x: u64) -> i64 { (x ^ (1 << 63)) as i64 }
type OB<T> = Rc<OrdValBatch<Vector<((i64, i64), T, isize)>>>;

/// The updates of some batches as a bridge: advanced by `lower`, sorted and consolidated.
fn bridge<T: TimeLike>(batches: &[&[OB<T>]], lower: &[T], filter: Option<&[u64]>) -> ProxyBridge<T, isize> {
    let mut out = Vec::new();
    for b in batches.iter().flat_map(|bs| bs.iter()) {
        let mut c = b.cursor();
        while let Some(k) = c.get_key(b) {
            let kh = enc(*k);
            if filter.map(|f| f.binary_search(&kh).is_ok()).unwrap_or(true) {
                while let Some(v) = c.get_val(b) {
                    let vi = enc(*v);
                    c.map_times(b, |t, d| {
                        let mut t = t.clone();
                        t.advance_by(timely::progress::frontier::AntichainRef::new(lower));
                        out.push(((kh, vi), t, *d));
                    });
                    c.step_val(b);
                }
            }
            c.step_key(b);
        }
    }
    consolidate_updates(&mut out);
    out
}

/// A backend for the proxy reduce: keys and values are their own identifiers.
pub struct ReduceBackend<T: TimeLike> { f: String, window: usize, tiles: Vec<(Description<T>, Vec<((u64, u64), T, isize)>)> }
impl<T: TimeLike> ProxyReduceBackend<OB<T>, OB<T>> for ReduceBackend<T> {
    type RIn = isize;
    type ROut = isize;
    fn seed_times(&self, i: &ReduceInstance<'_, OB<T>, OB<T>>) -> Vec<(u64, T)> {
        let mut v: Vec<(u64, T)> = bridge::<T>(&[i.input_batches], &[], None).into_iter().map(|x| (x.0 .0, x.1)).collect();
        v.sort(); v.dedup(); v
    }
    fn begin(&mut self, tiles: &[Description<T>]) { self.tiles = tiles.iter().map(|d| (d.clone(), vec![])).collect(); }
    fn next_window(&mut self, i: &ReduceInstance<'_, OB<T>, OB<T>>, changed: &[u64], cursor: &mut usize) -> Option<ReduceWindow<T, isize, isize>> {
        if *cursor >= changed.len() { return None; }
        let end = (*cursor + self.window).min(changed.len());
        let keys = changed[*cursor..end].to_vec();
        *cursor = end;
        Some(ReduceWindow {
            input: bridge(&[i.source_batches, i.input_batches], &i.lower, Some(&keys)),
            output: bridge(&[i.output_batches], &i.lower, Some(&keys)),
            keys,
        })
    }
    fn reduce_corrections(&mut self, keys: &[u64], in_ends: &[usize], input: &[(u64, isize)], out_ends: &[usize], output: &[(u64, isize)]) -> (Vec<(u64, isize)>, Vec<usize>) {
        let (mut res, mut ends) = (Vec::new(), Vec::new());
        let (mut i0, mut o0) = (0, 0);
        for (n, k) in keys.iter().enumerate() {
            let inp: Vec<(i64, isize)> = input[i0..in_ends[n]].iter().map(|x| (dec(x.0), x.1)).collect();
            let out = &output[o0..out_ends[n]];
            i0 = in_ends[n]; o0 = out_ends[n];
            let mut want: Vec<(u64, isize)> = if inp.is_empty() { vec![] } else { f_reduce(&self.f, dec(*k), &inp).into_iter().map(|x| (enc(x.0), x.1)).collect() };
            want.extend(out.iter().map(|x| (x.0, -x.1)));
            consolidate(&mut want);
            res.extend(want);
            ends.push(res.len());
        }
        (res, ends)
    }
    fn emit(&mut self, tile: usize, records: &[((u64, u64), T, isize)]) { self.tiles[tile].1.extend(records.iter().cloned()); }
    fn finish(&mut self) -> Vec<OB<T>> {
        self.tiles.drain(..).map(|(d, mut ups)| {
            consolidate_updates(&mut ups);
            let mut rows: Vec<((i64, i64), T, isize)> = ups.into_iter().map(|((k, v), t, r)| ((dec(k), dec(v)), t, r)).collect();
            VB::<T>::seal(&mut vec![std::mem::take(&mut rows)], d)
        }).collect()
    }
}

pub struct JoinBackend { f: String }
impl<T: TimeLike> ProxyJoinBackend<OB<T>, OB<T>> for JoinBackend {
    type R0 = isize; type R1 = isize; type ROut = isize;
    type Output = Vec<(Row, T, isize)>;
    fn present0(&mut self, i: &JoinInstance<'_, OB<T>, OB<T>>, filter: Option<&[u64]>) -> ProxyBridge<T, isize> { bridge(&[i.batches0], &i.lower, filter) }
    fn present1(&mut self, i: &JoinInstance<'_, OB<T>, OB<T>>, filter: Option<&[u64]>) -> ProxyBridge<T, isize> { bridge(&[i.batches1], &i.lower, filter) }
    fn cross(&mut self, _i: &JoinInstance<'_, OB<T>, OB<T>>, left: &[(u64, u64)], right: &[(u64, u64)], times: Vec<T>, diffs: Vec<isize>) -> Self::Output {
        left.iter().zip(right).zip(times.into_iter().zip(diffs)).map(|((l, r), (t, d))| (f_join(&self.f, dec(l.0), dec(l.1), dec(r.1)), t, d)).collect()
    }
}

/// Updates `change` from `output` to the reduction of `input`.
fn core_logic(f: &str, log: Option<usize>, key: &i64, input: &[(&i64, isize)], output: &mut Vec<(i64, isize)>, change: &mut Vec<(i64, isize)>) {
    if let Some(o) = log { note(json!(["call", o, key, input.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()])); }
    let s: Vec<(i64, isize)> = input.iter().map(|x| (*x.0, x.1)).collect();
    if !s.is_empty() { change.extend(f_reduce(f, *key, &s)); }
    change.extend(output.drain(..).map(|(v, d)| (v, -d)));
    consolidate(change);
}

pub fn by_key<'s, T: TimeLike>(c: Coll<'s, T>) -> Arranged<'s, TraceAgent<VS<T>>> { c.arrange_by_key_named("ByKey") }

pub fn variant<'s, T: Top>(scope: Scope<'s, T>, env: &Env<'s, T>, which: &str, e: &Value) -> Coll<'s, T> {
    let sub = |i: usize| build(scope, env, &e[i]);
    let f = e[1].as_str().unwrap_or("").to_string();
    let push = |vec: &mut Vec<((i64, i64), T, isize)>, key: &i64, upds: &mut Vec<(i64, T, isize)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); };
    match (e[0].as_str().unwrap(), which) {
        ("reduce", "core") =>
            by_key(sub(2)).reduce_core::<_, VB<T>, VS<T>, _, _>("Core", move |k, i, o, c| core_logic(&f, None, k, i, o, c), push).as_collection(|k, v| (*k, *v)),
        ("reduce", "abelian") =>
            by_key(sub(2)).reduce_abelian::<_, VB<T>, VS<T>, _, _>("Abelian", move |k, i, c| {
                let s: Vec<(i64, isize)> = i.iter().map(|x| (*x.0, x.1)).collect();
                c.extend(f_reduce(&f, *k, &s));
            }, push).as_collection(|k, v| (*k, *v)),
        ("reduce", "ref") =>
            reduce_trace_reference::<TraceAgent<VS<T>>, VB<T>, VS<T>, _, _>(by_key(sub(2)), "Ref", move |k: &i64, i: &[(&i64, isize)], o: &mut Vec<(i64, isize)>, c: &mut Vec<(i64, isize)>| core_logic(&f, None, k, i, o, c), push)
                .as_collection(|k, v| (*k, *v)),
        ("reduce", "proxy") => {
            let tactic = ProxyReduceTactic::new(ReduceBackend::<T> { window: 1 + f.len() % 3, f, tiles: vec![] });
            reduce_with_tactic::<_, VS<T>, _>(by_key(sub(2)), "Proxy", tactic).as_collection(|k, v| (*k, *v))
        }
        ("reduce", "chunk") => {
            let a = arrange_core::<_, _, ContainerChunker<vchunk::VecChunk<i64, i64, T, isize>>, vchunk::ChunkBatcher<i64, i64, T, isize>, vchunk::ChunkBuilder<i64, i64, T, isize>, vchunk::ChunkSpine<i64, i64, T, isize>>(
                sub(2).inner, Exchange::new(|u: &((i64, i64), T, isize)| (u.0).0.hashed().into()), "Chunk");
            a.reduce_core::<_, VB<T>, VS<T>, _, _>("Core", move |k, i, o, c| core_logic(&f, None, k, i, o, c), push).as_collection(|k, v| (*k, *v))
        }
        // Reduces an arrangement shared with another reader, within a nested scope.
        ("reduce", "enter") => {
            let a = by_key(sub(2));
            let other = a.clone().as_collection(|k, v| (*k, *v));
            let r = scope.iterative::<u64, _, _>(|inner| {
                let pushi = |vec: &mut Vec<((i64, i64), Product<T, u64>, isize)>, key: &i64, upds: &mut Vec<(i64, Product<T, u64>, isize)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); };
                a.enter(inner).reduce_core::<_, ValBuilder<i64, i64, Product<T, u64>, isize>, ValSpine<i64, i64, Product<T, u64>, isize>, _, _>("Core", move |k, i, o, c| core_logic(&f, None, k, i, o, c), pushi)
                    .as_collection(|k, v| (*k, *v)).leave(scope)
            });
            r.concat(other.clone()).concat(other.negate())
        }
        ("reduce", w) if w.starts_with("log") => {
            let o: usize = w[3..].parse().unwrap();
            by_key(sub(2)).reduce_core::<_, VB<T>, VS<T>, _, _>("Core", move |k, i, out, c| {
                if !i.is_empty() { core_logic(&f, Some(o), k, i, out, c) } else { core_logic(&f, None, k, i, out, c) }
            }, push).as_collection(|k, v| (*k, *v))
        }
        // The abelian form only ever passes the user non-empty input.
        ("reduce", w) if w.starts_with("abl") => {
            let o: usize = w[3..].parse().unwrap();
            sub(2).reduce_named("Logged", move |k: &i64, i: &[(&i64, isize)], t: &mut Vec<(i64, isize)>| {
                note(json!(["call", o, k, i.iter().map(|x| json!([x.0, x.1])).collect::<Vec<_>>()]));
                let s: Vec<(i64, isize)> = i.iter().map(|x| (*x.0, x.1)).collect();
                if !s.is_empty() { t.extend(f_reduce(&f, *k, &s)); }
            })
        }
        ("join", "core") => { let (a, b) = (by_key(sub(2)), by_key(sub(3))); a.join_core(b, move |k, v, w| Some(f_join(&f, *k, *v, *w))) }
        ("join", "self") => { let a = by_key(sub(2)); a.clone().join_core(a, move |k, v, w| Some(f_join(&f, *k, *v, *w))) }
        ("join", "traces") => {
            let (a, b) = (by_key(sub(2)), by_key(sub(3)));
            join_traces::<_, _, _, _, timely::container::CapacityContainerBuilder<Vec<(Row, T, isize)>>>(a, b, move |k, v, w, t, d1, d2, c| {
                use timely::container::PushInto; c.push_into((f_join(&f, *k, *v, *w), t, d1 * d2)); }).as_collection()
        }
        ("join", "proxy") => {
            let (a, b) = (by_key(sub(2)), by_key(sub(3)));
            join_with_tactic::<_, _, _, Vec<(Row, T, isize)>>(a, b, ProxyJoinTactic::new(JoinBackend { f })).as_collection()
        }
        ("join", "chunk") => {
            let arr = |c: Coll<'s, T>| arrange_core::<_, _, ContainerChunker<vchunk::VecChunk<i64, i64, T, isize>>, vchunk::ChunkBatcher<i64, i64, T, isize>, vchunk::ChunkBuilder<i64, i64, T, isize>, vchunk::ChunkSpine<i64, i64, T, isize>>(
                c.inner, Exchange::new(|u: &((i64, i64), T, isize)| (u.0).0.hashed().into()), "Chunk");
            arr(sub(2)).join_core(arr(sub(3)), move |k, v, w| Some(f_join(&f, *k, *v, *w)))
        }
        // Joins arrangements brought into a nested scope, while another join uses them outside.
        ("join", "enter") => {
            let (a, b) = (by_key(sub(2)), by_key(sub(3)));
            let g = f.clone();
            let outside = a.clone().join_core(b.clone(), move |k, v, w| Some(f_join(&g, *k, *v, *w)));
            let inside = scope.iterative::<u64, _, _>(|inner| a.enter(inner).join_core(b.enter(inner), move |k, v, w| Some(f_join(&f, *k, *v, *w))).leave(scope));
            inside.concat(outside).concat(build(scope, env, e).negate())
        }
        ("semijoin", "key") | ("antijoin", "key") => {
            let (a, b) = (sub(1), sub(2).map(|(k, _)| k));
            let ar = by_key(a.clone());
            let br = b.arrange::<OrdKeyBatcher<i64, T, isize>, RcOrdKeyBuilder<i64, T, isize>, OrdKeySpine<i64, T, isize>>();
            let semi = ar.join_core(br, |k, v, _| Some((*k, *v)));
            if e[0] == "semijoin" { semi } else { a.concat(semi.negate()) }
        }
        ("distinct", "core") => sub(1).distinct_core::<isize>(),
        ("threshold", "named") => { sub(2).threshold_named("Named", move |_, w| f_thresh(&f, *w)) }
        ("count", "core") => sub(1).count_core::<isize>().map(|((k, v), n)| (k * 10 + v, n as i64)),
        (_, w) if w.starts_with("total") => T::total(scope, env, w, e),
        (_, w) if w.starts_with("dyn") => T::dynamic(scope, env, e),
        (_, w) if w.starts_with("col") => T::columnar(scope, env, e),
        
        (_, w) if w.starts_with("alg") => crate::algos::variant(scope, env, w, e),
        (_, w) if w.starts_with("dogs") => crate::dogs::variant(scope, env, w, e),
        x => panic!("variant {x:?}"),
    }
}

/// Root times: all variants are available.
pub trait Top: TimeLike + Nest {
    fn total<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, which: &str, e: &Value) -> Coll<'s, Self>;
    fn columnar<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self>;
    fn dynamic<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self>;
    /// A time from which this one is reached by at least one step in each coordinate, for half joins.
    fn prior(&self) -> Self;
}
impl Top for u64 {
    fn total<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, which: &str, e: &Value) -> Coll<'s, Self> { total(scope, env, which, e) }
    fn columnar<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { crate::columnar_ops::of_u64::variant(scope, env, e) }
    fn dynamic<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { crate::dynamic::of_u64(scope, env, e) }
    fn prior(&self) -> Self { self.saturating_sub(1) }
}
impl Top for Pair {
    fn total<'s>(_: Scope<'s, Self>, _: &Env<'s, Self>, _: &str, _: &Value) -> Coll<'s, Self> { panic!("total order only") }
    fn columnar<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { crate::columnar_ops::of_pair::variant(scope, env, e) }
    fn dynamic<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { crate::dynamic::of_pair(scope, env, e) }
    fn prior(&self) -> Self { Pair { a: self.a.saturating_sub(1), b: self.b.saturating_sub(1) } }
}

impl Top for Trip {
    fn total<'s>(_: Scope<'s, Self>, _: &Env<'s, Self>, _: &str, _: &Value) -> Coll<'s, Self> { panic!("total order only") }
    fn columnar<'s>(_: Scope<'s, Self>, _: &Env<'s, Self>, _: &Value) -> Coll<'s, Self> { panic!("not here") }
    fn dynamic<'s>(_: Scope<'s, Self>, _: &Env<'s, Self>, _: &Value) -> Coll<'s, Self> { panic!("not here") }
    fn prior(&self) -> Self { Trip { a: self.a.saturating_sub(1), b: self.b.saturating_sub(1), c: self.c.saturating_sub(1) } }
}

/// The operators specialised to totally ordered times.
fn total<'s>(scope: Scope<'s, u64>, env: &Env<'s, u64>, which: &str, e: &Value) -> Coll<'s, u64> {
    let sub = |i: usize| build(scope, env, &e[i]);
    let f = e[1].as_str().unwrap_or("").to_string();
    match (e[0].as_str().unwrap(), which) {
        ("count", "total") => sub(1).count_total().map(|((k, v), n)| (k * 10 + v, n as i64)),
        ("count", "totalcore") => sub(1).count_total_core::<i64>().map(|((k, v), n)| (k * 10 + v, n as i64)).inner.map_diff(),
        ("count", "totalarr") => { let a = sub(1).arrange_by_self_named("Self"); let r = a.clone().count_total(); r.map(|((k, v), n)| (k * 10 + v, n as i64)) }
        ("distinct", "total") => sub(1).distinct_total(),
        ("distinct", "totalcore") => sub(1).distinct_total_core::<i64>().inner.map_diff(),
        ("threshold", "total") => sub(2).threshold_total(move |_, w| f_thresh(&f, *w)),
        ("threshold", "totalarr") => sub(2).arrange_by_self_named("Self").threshold_total(move |_, w| f_thresh(&f, *w)),
        ("threshold", "totalsemi") => sub(2).threshold_semigroup(move |_, new: &isize, old: Option<&isize>| {
            // An old weight may be reported as zero; the semigroup form is told about it as is.
            let n = if new.is_zero() { 0 } else { f_thresh(&f, *new) };
            let o = old.filter(|o| !o.is_zero()).map(|o| f_thresh(&f, *o)).unwrap_or(0);
            if n == o { None } else { Some(n - o) }
        }),
        ("upsert", _) => ups_arr(sub_in(env, &e[1])).as_collection(|k, v| (*k, *v)),
        // The arrangement of upserts, joined with and reduced alongside other uses of it.
        ("join", "totalups") => {
            let b = by_key_(sub(3));
            ups_arr(sub_in(env, &e[2][1])).join_core(b, move |k, v, w| Some(f_join(&f, *k, *v, *w)))
        }
        ("reduce", "totalups") => {
            let a = ups_arr(sub_in(env, &e[2][1]));
            let other = a.clone().as_collection(|k, v| (*k, *v));
            a.reduce_core::<_, VB<u64>, VS<u64>, _, _>("Core", move |k, i, o, c| core_logic(&f, None, k, i, o, c), |vec: &mut Vec<((i64, i64), u64, isize)>, key: &i64, upds: &mut Vec<(i64, u64, isize)>| { vec.clear(); vec.extend(upds.drain(..).map(|(v, t, r)| ((*key, v), t, r))); })
                .as_collection(|k, v| (*k, *v)).concat(other.clone()).concat(other.negate())
        }
        x => panic!("variant {x:?}"),
    }
}
fn sub_in<'s>(env: &Env<'s, u64>, e: &Value) -> Coll<'s, u64> { env.ins[e[1].as_u64().unwrap() as usize].clone() }
/// Rows (k, v) as upserts of v to k, where 0 stands for removal.
fn upserts<'s>(c: Coll<'s, u64>) -> timely::dataflow::Stream<'s, u64, Vec<(i64, Option<i64>, u64)>> {
    use timely::dataflow::channels::pact::Pipeline;
    use timely::dataflow::operators::generic::Operator;
    c.inner.unary(Pipeline, "Upserts", |_, _| move |input, output| {
        input.for_each(|cap, data| output.session(&cap).give_iterator(data.drain(..).map(|((k, v), t, _)| (k, if v == 0 { None } else { Some(v) }, t))));
    })
}
fn by_key_<'s>(c: Coll<'s, u64>) -> Arranged<'s, differential_dataflow::operators::arrange::TraceAgent<VS<u64>>> { c.arrange_by_key() }
fn ups_arr<'s>(c: Coll<'s, u64>) -> Arranged<'s, differential_dataflow::operators::arrange::TraceAgent<VS<u64>>> {
    differential_dataflow::operators::arrange::upsert::arrange_from_upsert::<VB<u64>, VS<u64>, i64, i64>(upserts(c), "Upsert")
}
trait MapDiff<'s, T: TimeLike> { fn map_diff(self) -> Coll<'s, T>; }
impl<'s, T: TimeLike> MapDiff<'s, T> for timely::dataflow::Stream<'s, T, Vec<(Row, T, i64)>> {
    fn map_diff(self) -> Coll<'s, T> { use timely::dataflow::operators::vec::Map; self.map(|(d, t, r)| (d, t, r as isize)).as_collection() }
}

