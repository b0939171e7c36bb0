//! Arrangements, traces, batches and cursors (spec/DDTrace and its relatives).
pub use ddv::{common, runner};
mod batches;
mod spine;
mod traces;
fn main() {
    runner::main(&[
        ("batcher", |i, r, _| batches::family_batcher(i, r)),
        ("merge", |i, r, _| batches::family_merge(i, r)),
        ("cursor", |i, r, _| batches::family_cursor(i, r)),
        ("spine", spine::family_spine),
        ("trace", |i, r, _| traces::family_trace(i, r)),
    ]);
}
