//! Programs evaluated with dynamically scoped (point-stamp) timestamps.
use differential_dataflow::dynamic::feedback_summary;
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::operators::iterate::Variable;
use serde_json::Value;
use timely::dataflow::Scope;
use timely::order::Product;

use crate::common::*;
use crate::prog::*;

pub type Dyn<T> = Product<T, PointStamp<u64>>;

macro_rules! dynamic { ($t:ty, $name:ident) => {
    impl Nest for Dyn<$t> {
        fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { nest_dyn::<$t>(scope, env, e) }
        fn delay(_f: &str, _t: &Self) -> Self { panic!("delay in loop") }
        fn step_at(level: usize) -> Self::Summary { Product { outer: Default::default(), inner: feedback_summary::<u64>(level, 1) } }
    }
    pub fn $name<'s>(scope: Scope<'s, $t>, env: &Env<'s, $t>, e: &Value) -> Coll<'s, $t> {
        scope.iterative::<PointStamp<u64>, _, _>(|inner| {
            let ienv = Env { ins: env.ins.iter().map(|c| c.clone().enter(inner)).collect(), vars: vec![], level: 0 };
            build(inner, &ienv, e).leave(scope)
        })
    }
} }
dynamic!(u64, of_u64);
dynamic!(Pair, of_pair);

fn nest_dyn<'s, T: TimeLike>(scope: Scope<'s, Dyn<T>>, env: &Env<'s, Dyn<T>>, e: &Value) -> Coll<'s, Dyn<T>>
where Dyn<T>: Nest {
    let level = env.level + 1;
    let sub = |vars: Vec<Coll<'s, Dyn<T>>>| {
        let mut ienv = Env { ins: env.ins.clone(), vars: env.vars.clone(), level };
        if !vars.is_empty() { ienv.vars.push(vars); }
        ienv
    };
    let summary = || <Dyn<T> as Nest>::step_at(level);
    match e[0].as_str().unwrap() {
        "iterate" => {
            let (h, c) = Variable::new_from(build(scope, env, &e[2]).enter_dynamic(level), summary());
            let r = build(scope, &sub(vec![c]), &e[1]);
            h.set(r.clone());
            r.leave_dynamic(level)
        }
        "iterate0" => {
            let (h, c) = Variable::new(scope, summary());
            let r = build(scope, &sub(vec![c]), &e[1]);
            h.set(r.clone());
            r.leave_dynamic(level)
        }
        "fix" => {
            let mut handles = Vec::new();
            let mut colls = Vec::new();
            for s in e[2].as_array().unwrap() {
                let (h, c) = if s[0] == "none" { Variable::new(scope, summary()) } else { Variable::new_from(build(scope, env, s).enter_dynamic(level), summary()) };
                handles.push(h); colls.push(c);
            }
            let ienv = sub(colls);
            let results: Vec<_> = e[1].as_array().unwrap().iter().map(|b| build(scope, &ienv, b)).collect();
            let out = results[e[3].as_u64().unwrap() as usize].clone().leave_dynamic(level);
            for (h, r) in handles.into_iter().zip(results) { h.set(r); }
            out
        }
        "inner" => build(scope, &sub(vec![]), &e[1]).leave_dynamic(level),
        x => panic!("dynamic nest {x}"),
    }
}
