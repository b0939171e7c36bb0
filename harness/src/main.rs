//! Dataflow programs (spec/DDFlow).
pub use ddv::{common, runner};
mod prog; mod flow; mod variants; mod dynamic; mod columnar_ops; mod dogs; mod algos; mod ddl; mod interp; mod big;
fn main() {
    runner::main(&[
        ("prog", |i, r, s| flow::with(s, || flow::family_prog(i, r, false))),
        ("iter", |i, r, s| flow::with(s, || flow::family_prog(i, r, true))),
        ("reduce", |i, r, s| flow::with(s, || flow::family_reduce(i, r))),
        ("deep", |i, r, s| flow::with(s, || flow::family_deep(i, r))),
        ("join", |i, r, s| flow::with(s, || flow::family_join(i, r))),
        ("total", |i, r, s| flow::with(s, || flow::family_total(i, r))),
        ("upsert", |i, r, s| flow::with(s, || flow::family_upsert(i, r))),
        ("dyn", |i, r, s| flow::with(s, || flow::family_dyn(i, r))),
        ("col", |i, r, s| flow::with(s, || flow::family_col(i, r))),
        ("dogs", |i, r, s| flow::with(s, || flow::family_dogs(i, r))),
        ("algo", |i, r, s| flow::with(s, || flow::family_algo(i, r))),
        ("interp", |i, r, s| flow::with(s, || interp::family_interp(i, r))),
        ("big", |i, r, s| flow::with(s, || big::family_big(i, r))),
        ("quiet", |i, r, s| flow::with(s, || flow::family_quiet(i, r))),
    ]);
}
