//! C06, C07 on the real thread pool; see rt.rs
#[path = "../../stark/src/refstark.rs"]
mod refstark;
#[path = "../../stark/src/rf.rs"]
mod rf;
#[path = "../../stark/src/systems.rs"]
mod systems;
#[path = "../../sched/src/order.rs"]
mod order;
#[path = "../../sched/src/pow.rs"]
mod pow;
mod rt;
fn main() {
    rf::self_check();
    vcommon::main(&[order::C06, pow::C07])
}
