//! Collections entering and leaving the system (spec/DDCapture).
pub use ddv::{common, runner};
mod capture;
mod session;
fn main() {
    runner::main(&[
        ("capture", capture::family_capture),
        ("session", session::family_session),
    ]);
}
