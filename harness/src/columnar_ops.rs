//! Programs evaluated over columnar collections and arrangements.
use columnar::Columnar;
use differential_dataflow::columnar::collection::{as_recorded_updates, join_function, Builder as ColBuilder, Pact, RecordedUpdates};
use differential_dataflow::columnar::trace::{Batcher, Builder, Chunker, Spine};
use differential_dataflow::columnar::updates::UpdatesTyped;
use differential_dataflow::operators::arrange::arrangement::arrange_core;
use differential_dataflow::operators::arrange::{Arranged, TraceAgent};
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::join::join_traces;
use differential_dataflow::{AsCollection, Collection};
use serde_json::Value;
use timely::container::PushInto;
use timely::dataflow::channels::pact::Pipeline;
use timely::dataflow::operators::generic::Operator;
use timely::dataflow::Scope;
use timely::order::Product;
use timely::progress::Timestamp;

use crate::common::*;
use crate::prog::*;

fn hash(k: columnar::Ref<'_, i64>) -> u64 { (*k as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 7 }

macro_rules! colops { ($m:ident, $t:ty, $nest:expr) => {
pub mod $m {
    use super::*;
    pub type T = $t;
    pub type U = (i64, i64, T, i64);
    pub type CC<'s> = Collection<'s, T, RecordedUpdates<U>>;
    pub type Arr<'s> = Arranged<'s, TraceAgent<Spine<i64, i64, T, i64>>>;
    pub struct CEnv<'s> { pub ins: Vec<CC<'s>>, pub vars: Vec<Vec<CC<'s>>> }

    pub fn to_col<'s>(c: Coll<'s, T>) -> CC<'s> {
        c.inner.unary::<ColBuilder<U>, _, _, _>(Pipeline, "ToCol", |_, _| move |input, output| {
            input.for_each(|time, data| {
                let mut session = output.session_with_builder(&time);
                for ((k, v), t, d) in data.drain(..) { let d = d as i64; session.give((&k, &v, &t, &d)); }
            });
        }).as_collection()
    }
    pub fn to_row<'s>(c: CC<'s>) -> Coll<'s, T> {
        c.inner.unary::<timely::container::CapacityContainerBuilder<Vec<(Row, T, isize)>>, _, _, _>(Pipeline, "ToRow", |_, _| move |input, output| {
            input.for_each(|time, data| {
                let mut session = output.session_with_builder(&time);
                for (k, v, t, d) in data.updates.view().iter() {
                    session.give(((i64::into_owned(k), i64::into_owned(v)), <T as Columnar>::into_owned(t), i64::into_owned(d) as isize));
                }
            });
        }).as_collection()
    }
    pub fn arrange<'s>(c: CC<'s>) -> Arr<'s> {
        arrange_core::<_, _, Chunker<U>, Batcher<i64, i64, T, i64>, Builder<i64, i64, T, i64>, Spine<i64, i64, T, i64>>(c.inner, Pact { hashfunc: hash }, "ColArrange")
    }
    pub fn consolidate<'s>(c: CC<'s>) -> CC<'s> { as_recorded_updates::<U>(arrange(c)) }
    pub fn flat<'s>(c: CC<'s>, mut logic: impl FnMut(Row) -> Vec<(Row, i64)> + 'static) -> CC<'s> {
        join_function::<U, _, _>(c, move |k, v, t, _d| {
            let t = <T as Columnar>::into_owned(t);
            let _ = t;
            logic((i64::into_owned(k), i64::into_owned(v))).into_iter().map(|((k, v), w)| (k, v, <T as Timestamp>::minimum(), w)).collect::<Vec<_>>()
        })
    }
    pub fn reduce<'s>(a: Arr<'s>, f: impl Fn(i64, &[(i64, isize)]) -> Vec<(i64, isize)> + 'static) -> CC<'s> {
        as_recorded_updates::<U>(a.reduce_abelian::<_, Builder<i64, i64, T, i64>, Spine<i64, i64, T, i64>, _, _>("ColReduce", move |k, input, out| {
            let s: Vec<(i64, isize)> = input.iter().map(|(v, d)| (i64::into_owned(*v), *d as isize)).collect();
            out.extend(f(i64::into_owned(k), &s).into_iter().map(|(v, d)| (v, d as i64)));
        }, |col, key, upds| {
            use columnar::Push;
            let mut trie = UpdatesTyped::default();
            for (val, time, diff) in upds.drain(..) { trie.push((key, &val, &time, &diff)); }
            *col.updates_mut() = trie.consolidate();
        }))
    }
    pub fn join<'s>(a: Arr<'s>, b: Arr<'s>, f: String) -> CC<'s> {
        join_traces::<_, _, _, _, ColBuilder<U>>(a, b, move |k, v, w, t, d1, d2, session| {
            let (x, y) = f_join(&f, i64::into_owned(k), i64::into_owned(v), i64::into_owned(w));
            session.push_into((x, y, t.clone(), *d1 * *d2));
        }).as_collection()
    }
    pub fn build<'s>(scope: Scope<'s, T>, env: &CEnv<'s>, e: &Value) -> CC<'s> {
        let f = e[1].as_str().unwrap_or("").to_string();
        let sub = |i: usize| build(scope, env, &e[i]);
        match e[0].as_str().unwrap() {
            "in" => env.ins[e[1].as_u64().unwrap() as usize].clone(),
            "var" => { let d = e[1].as_u64().unwrap() as usize; env.vars[env.vars.len() - 1 - d][e[2].as_u64().unwrap() as usize].clone() }
            "map" => flat(sub(2), move |r| vec![(f_map(&f, r), 1)]),
            "filter" => flat(sub(2), move |r| if f_filter(&f, r) { vec![(r, 1)] } else { vec![] }),
            "flat" => flat(sub(2), move |r| f_flat(&f, r).into_iter().map(|r| (r, 1)).collect()),
            "explode" => flat(sub(2), move |r| f_explode(&f, r).into_iter().map(|(r, d)| (r, d as i64)).collect()),
            "concat" => sub(1).concat(sub(2)),
            "neg" => sub(1).negate(),
            "consol" => consolidate(sub(1)),
            "join" => join(arrange(sub(2)), arrange(sub(3)), f),
            "semijoin" => { let keys = flat(sub(2), |r| vec![((r.0, 0), 1)]); join(arrange(sub(1)), arrange(keys), "kv".into()) }
            "reduce" => reduce(arrange(sub(2)), move |k, s| f_reduce(&f, k, s)),
            "threshold" => reduce(arrange(sub(2)), move |_, s| s.iter().map(|(v, d)| (*v, f_thresh(&f, *d))).filter(|x| x.1 != 0).collect()),
            "distinct" => reduce(arrange(sub(1)), |_, s| s.iter().map(|(v, _)| (*v, 1)).collect()),
            _ => $nest(scope, env, e),
        }
    }
}
} }

macro_rules! nesting { ($outer:ident, $inner:ident, $name:ident) => {
    fn $name<'s>(scope: Scope<'s, $outer::T>, env: &$outer::CEnv<'s>, e: &Value) -> $outer::CC<'s> {
        let sub = |i: usize| $outer::build(scope, env, &e[i]);
        scope.iterative::<u64, _, _>(|inner| {
            let mut ienv = $inner::CEnv { ins: env.ins.iter().map(|c| c.clone().enter(inner)).collect(), vars: env.vars.iter().map(|v| v.iter().map(|c| c.clone().enter(inner)).collect()).collect() };
            let summary = || Product::new(Default::default(), 1u64);
            match e[0].as_str().unwrap() {
                "inner" => $inner::build(inner, &ienv, &e[1]).leave(scope),
                "iterate" => {
                    let (h, c) = Variable::new_from(sub(2).enter(inner), summary());
                    ienv.vars.push(vec![c]);
                    let r = $inner::consolidate($inner::build(inner, &ienv, &e[1]));
                    h.set(r.clone());
                    r.leave(scope)
                }
                "iterate0" => {
                    let (h, c) = Variable::new(inner, summary());
                    ienv.vars.push(vec![c]);
                    let r = $inner::consolidate($inner::build(inner, &ienv, &e[1]));
                    h.set(r.clone());
                    r.leave(scope)
                }
                x => panic!("columnar nest {x}"),
            }
        })
    }
} }
colops!(c_u64, u64, super::nest_u64);
colops!(c_pair, Pair, super::nest_pair);
colops!(i_u64, Product<u64, u64>, super::nest_iu64);
colops!(i_pair, Product<Pair, u64>, |_, _, _| -> CC { panic!("too deep") });
colops!(ii_u64, Product<Product<u64, u64>, u64>, |_, _, _| -> CC { panic!("too deep") });
nesting!(c_u64, i_u64, nest_u64);
nesting!(c_pair, i_pair, nest_pair);
nesting!(i_u64, ii_u64, nest_iu64);

/// Whether a columnar form of the program exists.
pub fn supported(e: &Value, level: u64, dim: usize) -> bool {
    let a = match e.as_array() { Some(a) => a, None => return true };
    match a.first().and_then(|x| x.as_str()) {
        Some("iterate") => level < if dim == 1 { 2 } else { 1 } && supported(&a[1], level + 1, dim) && supported(&a[2], level, dim),
        Some("inner") | Some("iterate0") => level < if dim == 1 { 2 } else { 1 } && supported(&a[1], level + 1, dim),
        Some(x) if ["in", "var"].contains(&x) => true,
        Some(x) if ["map", "filter", "flat", "explode", "concat", "neg", "consol", "join", "semijoin", "reduce", "threshold", "distinct"].contains(&x) => a[1..].iter().all(|x| supported(x, level, dim)),
        Some(_) => false,
        None => a.is_empty(),
    }
}

macro_rules! entry { ($name:ident, $m:ident, $t:ty) => {
    pub mod $name {
        use super::*;
        pub fn variant<'s>(scope: Scope<'s, $t>, env: &Env<'s, $t>, e: &Value) -> Coll<'s, $t> {
            let cenv = $m::CEnv { ins: env.ins.iter().map(|c| $m::to_col(c.clone())).collect(), vars: vec![] };
            $m::to_row($m::build(scope, &cenv, e))
        }
    }
} }
entry!(of_u64, c_u64, u64);
entry!(of_pair, c_pair, Pair);
