//! Algebra: timestamps, differences, consolidation (spec/DDLattice, spec/DDDiff).
pub use ddv::{common, runner};
mod lattice; mod diff;
fn main() {
    runner::main(&[
        ("lattice", |i, r, _| lattice::family_lattice(i, r)),
        ("diff", |i, r, _| diff::family_diff(i, r)),
    ]);
}
