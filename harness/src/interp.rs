//! Programs of the interpreter, run as dataflows over integer pairs.
use crate::common::*;
use crate::ddl::*;
use crate::flow::{case, Shape};
use differential_dataflow::dynamic::pointstamp::PointStamp;
use differential_dataflow::{AsCollection, VecCollection};
use interactive::ir::Value as V;
use interactive::{backend, scope_ir};
use serde_json::{json, Value};
use timely::dataflow::operators::probe::Probe;
use timely::dataflow::Scope;

/// The exported collection of an interpreted program over integer pairs, reported as output `o`.
pub fn attach<'s>(scope: Scope<'s, u64>, ins: &[crate::prog::Coll<'s, u64>], e: &Value, log: Log, o: usize, probe: &timely::dataflow::ProbeHandle<u64>) {
    let program = compile(&e[1], s(&e[3]));
    let at = program.root.exports.iter().position(|x| x.name == s(&e[2])).expect("export");
    let rows: Vec<VecCollection<'s, u64, (V, V), i64>> = ins.iter().map(|c| {
        use timely::dataflow::operators::core::Map;
        c.clone().inner.map(|((k, v), t, d)| ((V::Tuple(vec![V::Int(k), V::Int(v)]), V::unit()), t, d as i64)).as_collection()
    }).collect();
    let out = scope.iterative::<PointStamp<u64>, _, _>(|inner| {
        let imports = program.root.imports.iter().map(|i| match &i.from {
            scope_ir::Source::Input(j) => rows[*j].clone().enter(inner),
            other => panic!("source {other:?}"),
        }).collect();
        let exports = backend::vec::render_tree(&program.root, inner, 0, imports);
        exports.into_iter().map(|c| c.leave(scope)).collect::<Vec<_>>().swap_remove(at)
    });
    out.inspect_batch(move |_, xs| {
        let ups: Vec<Value> = xs.iter().map(|((k, v), t, d)| json!([[vj(k), vj(v)], [t], d])).collect();
        log.push(json!(["out", o, ups]));
    }).inner.probe_with(probe);
}

/// Programs of the interpreter, in either syntax, as written or optimized.
pub fn family_interp(i: usize, rng: &mut Rng) -> Value {
    let mut sh = Shape::random(i, rng);
    if !crate::flow::scheduled() { sh.dim = 1; sh.max = 3; sh.len = 6 + rng.below(10) as usize; }
    let (prog, names) = IGen::new(rng, sh.nin as u64).program();
    let mut exprs = Vec::new();
    for _ in 0..2 {
        let nm = rng.pick(&names).0.clone();
        let mode = format!("{}{}{}", if rng.chance(2, 3) { "p" } else { "a" }, if rng.chance(2, 3) { "o" } else { "-" }, rng.below(1000));
        exprs.push(json!(["interp", prog, nm, mode]));
    }
    case(rng, sh, exprs)
}
