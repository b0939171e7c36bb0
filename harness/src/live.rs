//! Live servers of interpreted programs (spec/DDServer), and explanations of programs (spec/DDExplain).
pub use ddv::{common, runner};
mod ddl;
mod explain;
mod server;
fn main() {
    runner::main(&[
        ("server", server::family_server),
        ("explain", explain::family_explain),
    ]);
}
