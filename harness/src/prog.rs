//! Programs over collections of rows, built generically onto differential dataflow operators.
//! The JSON form of a program is what the TLA+ module DDProg evaluates.
use differential_dataflow::lattice::Lattice;
use differential_dataflow::operators::iterate::Variable;
use differential_dataflow::operators::Iterate;
use differential_dataflow::VecCollection;
use serde_json::{json, Value};
use std::hash::Hash;
use timely::dataflow::Scope;
use timely::order::Product;
use timely::progress::Timestamp;

use crate::common::*;

pub type Coll<'s, T> = VecCollection<'s, T, Row, isize>;

pub fn f_map(f: &str, (k, v): Row) -> Row {
    match f {
        "swap" => (v, k), "kk" => (k, k), "vv" => (v, v),
        "incv" => (k, (v + 1).rem_euclid(5)), "inck" => ((k + 1).rem_euclid(4), v),
        "konst" => (0, v), "half" => (k, v.div_euclid(2)), "pack" => (k.rem_euclid(2), (k + v).rem_euclid(5)),
        "mod4" => (k.rem_euclid(4), v.rem_euclid(5)),
        "k0" => (k, 0),
        _ => panic!("map {f}"),
    }
}
pub const MAPS: &[&str] = &["swap", "kk", "vv", "incv", "inck", "konst", "half", "pack", "mod4", "k0"];
pub fn f_filter(f: &str, (k, v): Row) -> bool {
    match f { "lt" => k < v, "even" => v.rem_euclid(2) == 0, "knz" => k != 0, "ne" => k != v, _ => panic!("filter {f}") }
}
pub const FILTERS: &[&str] = &["lt", "even", "knz", "ne"];
pub fn f_flat(f: &str, (k, v): Row) -> Vec<Row> {
    match f {
        "both" => vec![(k, v), (v, k)],
        "range" => (0..v.rem_euclid(5)).map(|j| (k, j)).collect(),
        "none0" => if v == 0 { vec![] } else { vec![(k, v)] },
        _ => panic!("flat {f}"),
    }
}
pub const FLATS: &[&str] = &["both", "range", "none0"];
pub fn f_explode(f: &str, (k, v): Row) -> Vec<(Row, isize)> {
    match f {
        "byv" => vec![((k, 0), v as isize)],
        "pm" => vec![((k, v), 2), ((v, k), -1)],
        _ => panic!("explode {f}"),
    }
}
pub const EXPLODES: &[&str] = &["byv", "pm"];
pub fn f_join(f: &str, k: i64, v: i64, w: i64) -> Row {
    match f { "vw" => (v, w), "wv" => (w, v), "kw" => (k, w), "kp" => (k, (v + w).rem_euclid(5)), "kv" => (k, v), _ => panic!("join {f}") }
}
pub const JOINS: &[&str] = &["vw", "wv", "kw", "kp"];
/// The reduction functions: values with non-zero weights, sorted by value.
pub fn f_reduce(f: &str, _k: i64, s: &[(i64, isize)]) -> Vec<(i64, isize)> {
    match f {
        "min" => vec![(s[0].0, 1)],
        "max" => vec![(s[s.len() - 1].0, 1)],
        "cnt" => vec![(s.iter().map(|x| x.1 as i64).sum(), 1)],
        "sum" => vec![(s.iter().map(|x| x.0 * x.1 as i64).sum(), 1)],
        "len" => vec![(s.len() as i64, 1)],
        "vals" => s.iter().map(|x| (x.0, 1)).collect(),
        "pos" => s.iter().filter(|x| x.1 > 0).map(|x| (x.0, 1)).collect(),
        "top2" => s.iter().take(2).cloned().collect(),
        "wmin" => vec![(s[0].0, s[0].1)],
        "dup" => s.iter().flat_map(|x| vec![(x.0, x.1), (x.0 + 1, -x.1)]).collect(),
        _ => panic!("reduce {f}"),
    }
}
pub const REDUCES: &[&str] = &["min", "max", "cnt", "sum", "len", "vals", "pos", "top2", "wmin", "dup"];
pub fn f_thresh(f: &str, w: isize) -> isize {
    match f { "pos" => if w > 0 { 1 } else { 0 }, "mod2" => w.rem_euclid(2), "clip" => if w > 2 { 2 } else { w }, "one" => 1, "neg" => -w, "cap2" => w.clamp(0, 2), _ => panic!("thresh {f}") }
}
pub const THRESHES: &[&str] = &["pos", "mod2", "clip", "one", "neg"];

/// Delay functions, monotone and inflationary, with principal preimages of downsets.
pub fn f_delay(f: &str, t: &[u64]) -> Vec<u64> {
    match f {
        "plus1" => t.iter().map(|x| x + 1).collect(),
        "even" => t.iter().map(|x| (x + 1) / 2 * 2).collect(),
        "join2" => t.iter().map(|x| (*x).max(2)).collect(),
        _ => panic!("delay {f}"),
    }
}
pub const DELAYS: &[&str] = &["plus1", "even", "join2"];

pub struct Env<'s, T: Timestamp> { pub ins: Vec<Coll<'s, T>>, pub vars: Vec<Vec<Coll<'s, T>>>, pub level: usize }

/// Times at which programs can be built.
pub trait Nest: Timestamp + Lattice + Ord + Hash {
    fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self>;
    fn delay(f: &str, t: &Self) -> Self;
    /// An alternative implementation of an operator, at root times only.
    fn variant<'s>(_scope: Scope<'s, Self>, _env: &Env<'s, Self>, _which: &str, _e: &Value) -> Coll<'s, Self> { panic!("variant") }
    /// Reports what an interpreted program exports, at root integer times only.
    fn interp<'s>(_scope: Scope<'s, Self>, _env: &Env<'s, Self>, _e: &Value, _log: Log, _o: usize, _probe: &timely::dataflow::ProbeHandle<Self>) { panic!("interp") }
    /// One round of iteration.
    fn step() -> Self::Summary { panic!("step") }
    fn step_at(_level: usize) -> Self::Summary { Self::step() }
}
impl Nest for u64 {
    fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { do_nest(scope, env, e) }
    fn delay(f: &str, t: &Self) -> Self { f_delay(f, &[*t])[0] }
    fn variant<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, which: &str, e: &Value) -> Coll<'s, Self> { crate::variants::variant(scope, env, which, e) }
    fn interp<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value, log: Log, o: usize, probe: &timely::dataflow::ProbeHandle<Self>) { crate::interp::attach(scope, &env.ins, e, log, o, probe) }
}
impl Nest for Trip {
    fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { do_nest(scope, env, e) }
    fn delay(f: &str, t: &Self) -> Self { Trip::of(&f_delay(f, &t.vec())) }
    fn variant<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, which: &str, e: &Value) -> Coll<'s, Self> { crate::variants::variant(scope, env, which, e) }
}
impl Nest for Pair {
    fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { do_nest(scope, env, e) }
    fn delay(f: &str, t: &Self) -> Self { Pair::of(&f_delay(f, &t.vec())) }
    fn variant<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, which: &str, e: &Value) -> Coll<'s, Self> { crate::variants::variant(scope, env, which, e) }
}
macro_rules! nested { ($t:ty, $body:expr) => {
    impl Nest for $t {
        fn nest<'s>(scope: Scope<'s, Self>, env: &Env<'s, Self>, e: &Value) -> Coll<'s, Self> { $body(scope, env, e) }
        fn delay(_f: &str, _t: &Self) -> Self { panic!("delay in loop") }
        fn step() -> Self::Summary { Product::new(Default::default(), 1) }
    }
} }
nested!(Product<u64, u64>, do_nest);
nested!(Product<Pair, u64>, do_nest);
nested!(Product<Trip, u64>, do_nest);
nested!(Product<Product<u64, u64>, u64>, |_, _, _| panic!("too deep"));
nested!(Product<Product<Pair, u64>, u64>, |_, _, _| panic!("too deep"));
nested!(Product<Product<Trip, u64>, u64>, |_, _, _| panic!("too deep"));

fn enter_env<'i, 's, T: Nest>(env: &Env<'s, T>, inner: Scope<'i, Product<T, u64>>) -> Env<'i, Product<T, u64>> {
    Env {
        ins: env.ins.iter().map(|c| c.clone().enter(inner)).collect(),
        vars: env.vars.iter().map(|vs| vs.iter().map(|c| c.clone().enter(inner)).collect()).collect(),
        level: env.level + 1,
    }
}

fn do_nest<'s, T: Nest>(scope: Scope<'s, T>, env: &Env<'s, T>, e: &Value) -> Coll<'s, T>
where Product<T, u64>: Nest,
{
    match e[0].as_str().unwrap() {
        // ["iterate", body, src]
        "iterate" => {
            let src = build(scope, env, &e[2]);
            src.iterate(|inner, x| {
                let mut ienv = enter_env(env, inner);
                ienv.vars.push(vec![x]);
                build(inner, &ienv, &e[1])
            })
        }
        // ["iterate0", body]: from the empty collection
        "iterate0" => {
            scope.iterate(|inner, x| {
                let mut ienv = enter_env(env, inner);
                ienv.vars.push(vec![x]);
                build(inner, &ienv, &e[1])
            })
        }
        // ["fix", [bodies], [srcs or null], idx]
        "fix" => {
            let bodies = e[1].as_array().unwrap();
            let srcs: Vec<Option<Coll<'s, T>>> = e[2].as_array().unwrap().iter().map(|s| if s[0] == "none" { None } else { Some(build(scope, env, s)) }).collect();
            let idx = e[3].as_u64().unwrap() as usize;
            scope.iterative::<u64, _, _>(|inner| {
                let mut ienv = enter_env(env, inner);
                let mut handles = Vec::new();
                let mut colls = Vec::new();
                for s in srcs {
                    let (h, c) = match s {
                        Some(s) => Variable::new_from(s.enter(inner), <Product<T, u64> as Nest>::step()),
                        None => Variable::new(inner, <Product<T, u64> as Nest>::step()),
                    };
                    handles.push(h); colls.push(c);
                }
                ienv.vars.push(colls);
                let results: Vec<_> = bodies.iter().map(|b| build(inner, &ienv, b)).collect();
                let out = results[idx].clone().leave(scope);
                for (h, r) in handles.into_iter().zip(results) { h.set(r); }
                out
            })
        }
        // ["inner", e]: evaluate within a nested scope and leave it
        "inner" => scope.iterative::<u64, _, _>(|inner| {
            let ienv = enter_env(env, inner);
            build(inner, &ienv, &e[1]).leave(scope)
        }),
        // ["enterat", e]: introduce records at later rounds of a nested scope
        "enterat" => {
            let src = build(scope, env, &e[1]);
            scope.iterative::<u64, _, _>(|inner| src.enter_at(inner, |r: &Row| r.1.rem_euclid(3) as u64).consolidate().leave(scope))
        }
        x => panic!("nest {x}"),
    }
}

pub fn build<'s, T: Nest>(scope: Scope<'s, T>, env: &Env<'s, T>, e: &Value) -> Coll<'s, T> {
    let op = e[0].as_str().unwrap();
    let s1 = || e[1].as_str().unwrap().to_string();
    let sub = |i: usize| build(scope, env, &e[i]);
    match op {
        "in" => env.ins[e[1].as_u64().unwrap() as usize].clone(),
        "var" => { let d = e[1].as_u64().unwrap() as usize; env.vars[env.vars.len() - 1 - d][e[2].as_u64().unwrap() as usize].clone() }
        "map" => { let f = s1(); sub(2).map(move |r| f_map(&f, r)) }
        "mapip" => { let f = s1(); sub(2).map_in_place(move |r| *r = f_map(&f, *r)) }
        "filter" => { let f = s1(); sub(2).filter(move |r| f_filter(&f, *r)) }
        "flat" => { let f = s1(); sub(2).flat_map(move |r| f_flat(&f, r)) }
        "explode" => { let f = s1(); sub(2).explode(move |r| f_explode(&f, r)) }
        "joinfn" => { let f = s1(); sub(2).join_function(move |r| f_explode(&f, r).into_iter().map(|(d, w)| (d, <T as Timestamp>::minimum(), w)).collect::<Vec<_>>()) }
        "concat" => sub(1).concat(sub(2)),
        "concats" => { let rest: Vec<_> = e[2].as_array().unwrap().iter().map(|x| build(scope, env, x)).collect(); sub(1).concatenate(rest) }
        "neg" => sub(1).negate(),
        "consol" => sub(1).consolidate(),
        "consolstream" => sub(1).consolidate_stream(),
        "delay" => { let f = s1(); sub(2).delay(move |t| T::delay(&f, t)) }
        "region" => { let src = sub(1); scope.region(|r| src.enter_region(r).map(|x| x).leave_region(scope)) }
        "join" => { let f = s1(); sub(2).join_map(sub(3), move |k, v, w| f_join(&f, *k, *v, *w)) }
        "joinplain" => sub(1).join(sub(2)).map(|(k, (v, w))| f_join("kp", k, v, w)),
        "semijoin" => sub(1).semijoin(sub(2).map(|(k, _)| k)),
        "antijoin" => sub(1).antijoin(sub(2).map(|(k, _)| k)),
        "reduce" => { let f = s1(); sub(2).reduce(move |k, s, t| { let s: Vec<(i64, isize)> = s.iter().map(|x| (*x.0, x.1)).collect(); t.extend(f_reduce(&f, *k, &s)); }) }
        "distinct" => sub(1).distinct(),
        "threshold" => { let f = s1(); sub(2).threshold(move |_, w| f_thresh(&f, *w)) }
        "count" => sub(1).count().map(|((k, v), n)| (k * 10 + v, n as i64)),
        "v" => T::variant(scope, env, e[1].as_str().unwrap(), &e[2]),
        _ => T::nest(scope, env, e),
    }
}

/// Whether `build` supports the program: at most two levels of nested scopes, and no delays within them.
pub fn buildable(e: &Value, level: u64) -> bool {
    let a = match e.as_array() { Some(a) => a, None => return true };
    let up = |v: &Value| buildable(v, level + 1);
    let here = |v: &Value| buildable(v, level);
    match a.first().and_then(|x| x.as_str()) {
        Some("iterate") => level < 2 && up(&a[1]) && here(&a[2]),
        Some("iterate0") | Some("inner") => level < 2 && up(&a[1]),
        Some("fix") => level < 2 && up(&a[1]) && here(&a[2]),
        Some("enterat") => level < 2 && here(&a[1]),
        Some("v") => level == 0 && here(&a[2]),
        Some("delay") => level == 0 && here(&a[2]),
        _ => a.iter().all(here),
    }
}

// ---------------------------------------------------------------- generation

pub struct Gen<'a> { pub rng: &'a mut Rng, pub nin: u64, pub delays: bool, pub nested: bool }

impl<'a> Gen<'a> {
    fn input(&mut self) -> Value { let i = self.rng.below(self.nin); json!(["in", i]) }
    /// Rows confined to a small domain with multiplicity zero or one.
    pub fn small(&mut self, e: Value) -> Value { json!(["threshold", "pos", ["map", "mod4", e]]) }
    /// A program built from positive (monotone) operators over variables and (confined) inputs.
    pub fn positive(&mut self, depth: u64, vars: &[u64]) -> Value {
        if depth == 0 || self.rng.chance(1, 6) {
            if !vars.is_empty() && self.rng.chance(1, 2) {
                let d = self.rng.below(vars.len() as u64);
                let i = self.rng.below(vars[vars.len() - 1 - d as usize]);
                return json!(["var", d, i]);
            }
            let e = self.input(); return self.small(e);
        }
        match self.rng.below(9) {
            0 => { let f = *self.rng.pick(&["swap", "kk", "vv", "incv", "inck", "half", "pack"]); let e = self.positive(depth - 1, vars); json!(["map", f, e]) }
            1 => { let f = *self.rng.pick(FILTERS); let e = self.positive(depth - 1, vars); json!(["filter", f, e]) }
            2 => { let e = self.positive(depth - 1, vars); json!(["flat", "both", e]) }
            3 | 4 => { let a = self.positive(depth - 1, vars); let b = self.positive(depth - 1, vars); json!(["distinct", ["concat", a, b]]) }
            5 => { let a = self.positive(depth - 1, vars); let b = self.positive(depth - 1, vars); json!(["semijoin", a, ["threshold", "pos", ["map", "k0", b]]]) }
            _ => { let f = *self.rng.pick(JOINS); let a = self.positive(depth - 1, vars); let b = self.positive(depth - 1, vars); json!(["distinct", ["join", f, a, b]]) }
        }
    }
    /// A convergent nested program.
    pub fn iterate(&mut self, vars: &[u64]) -> Value {
        let src = { let e = self.input(); self.small(e) };
        let mut v = vars.to_vec();
        match self.rng.below(8) {
            // monotone closure
            0 | 1 => { v.push(1); let p = self.positive(2, &v); json!(["iterate", ["distinct", ["concat", ["var", 0, 0], p]], src]) }
            // reachability with label minimum
            2 => { let e = self.input(); let edges = self.small(e);
                   json!(["iterate", ["reduce", "min", ["concat", ["join", "wv", ["var", 0, 0], edges], src.clone()]], src]) }
            // pointwise contraction (any multiplicity)
            3 => { let e = self.input(); json!(["iterate", ["consol", ["map", "half", ["var", 0, 0]]], e]) }
            // deflation: keep edges whose source is a destination
            4 => json!(["iterate", ["semijoin", ["var", 0, 0], ["distinct", ["map", "k0", ["map", "swap", ["var", 0, 0]]]]], src]),
            // mutual recursion
            5 => { v.push(2); let a = self.positive(2, &v); let b = self.positive(2, &v);
                   let i = self.rng.below(2);
                   let s2 = if self.rng.chance(1, 2) { json!(["none"]) } else { let e = self.input(); self.small(e) };
                   json!(["fix", [["distinct", ["concat", ["var", 0, 0], a]], ["distinct", ["concat", ["var", 0, 1], ["concat", ["var", 0, 0], b]]]], [src, s2], i]) }
            // from nothing
            6 => { v.push(1); let p = self.positive(2, &v); json!(["iterate0", ["distinct", ["concat", src, p]]]) }
            // nested loop
            _ => {
                if vars.is_empty() {
                    v.push(1); v.push(1);
                    let p = self.positive(1, &v);
                    json!(["iterate", ["distinct", ["concat", ["var", 0, 0],
                        ["iterate", ["distinct", ["concat", ["var", 0, 0], p]], ["map", "incv", ["var", 0, 0]]]]], src])
                } else { json!(["inner", src]) }
            }
        }
    }
    pub fn any(&mut self, depth: u64) -> Value {
        if depth == 0 { return self.input(); }
        let n = if self.nested { 24 } else { 19 };
        match self.rng.below(n) {
            0 => { let f = *self.rng.pick(MAPS); let e = self.any(depth - 1); json!([if self.rng.chance(1, 2) { "map" } else { "mapip" }, f, e]) }
            1 => { let f = *self.rng.pick(FILTERS); let e = self.any(depth - 1); json!(["filter", f, e]) }
            2 => { let f = *self.rng.pick(FLATS); let e = self.any(depth - 1); json!(["flat", f, e]) }
            3 => { let f = *self.rng.pick(EXPLODES); let e = self.any(depth - 1); json!([if self.rng.chance(1, 2) { "explode" } else { "joinfn" }, f, e]) }
            4 => { let a = self.any(depth - 1); let b = self.any(depth - 1); json!(["concat", a, b]) }
            5 => { let a = self.any(depth - 1); let b = self.any(depth - 1); json!(["concats", a, [b, self.input()]]) }
            6 => { let a = self.any(depth - 1); json!(["neg", a]) }
            7 => { let a = self.any(depth - 1); json!([if self.rng.chance(1, 2) { "consol" } else { "consolstream" }, a]) }
            8 => { let a = self.any(depth - 1); if self.delays { let f = *self.rng.pick(DELAYS); json!(["delay", f, a]) } else { json!(["region", a]) } }
            9 | 10 => { let f = *self.rng.pick(JOINS); let a = self.any(depth - 1); let b = self.any(depth - 1); if self.rng.chance(1, 4) { json!(["joinplain", a, b]) } else { json!(["join", f, a, b]) } }
            11 => { let a = self.any(depth - 1); let b = self.any(depth - 1); json!(["semijoin", a, b]) }
            12 => { let a = self.any(depth - 1); let b = self.any(depth - 1); json!(["antijoin", a, b]) }
            13 | 14 | 15 => { let f = *self.rng.pick(REDUCES); let a = self.any(depth - 1); json!(["reduce", f, a]) }
            16 => { let a = self.any(depth - 1); json!(["distinct", a]) }
            17 => { let f = *self.rng.pick(THRESHES); let a = self.any(depth - 1); json!(["threshold", f, a]) }
            18 => { let a = self.any(depth - 1); json!(["count", a]) }
            19 => { let a = self.any(depth - 1); json!(["inner", a]) }
            20 => { let a = self.any(depth - 1); json!(["enterat", a]) }
            _ => self.iterate(&[]),
        }
    }
}
