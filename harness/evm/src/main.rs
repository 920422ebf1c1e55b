mod ast;
mod conform;
mod generated;
mod interp;
mod json;
mod library;
mod proof;
#[path = "../../stark/src/refstark.rs"]
mod refstark;
#[path = "../../stark/src/rf.rs"]
mod rf;
mod sys;
#[path = "../../stark/src/systems.rs"]
mod systems;
mod verifier;
mod word;
fn main() {
    word::self_check();
    rf::self_check();
    conform::self_check();
    vcommon::main(&[generated::C32, library::C33, verifier::C34])
}
