//! C06, C07: results do not depend on the number of threads or the schedule.
#[path = "../../stark/src/refstark.rs"]
mod refstark;
#[path = "../../stark/src/rf.rs"]
mod rf;
#[path = "../../stark/src/systems.rs"]
mod systems;
mod order;
mod pow;
mod rt;
fn main() {
    rf::self_check();
    vcommon::main(&[order::C06, pow::C07])
}
