mod refstark;
mod rf;
mod systems;
mod checker;
mod components;
mod expr;
mod params;
mod protocol;
fn main() {
    rf::self_check();
    vcommon::main(&[protocol::C01, protocol::C02, protocol::C03, protocol::C04, protocol::C05, checker::C08, components::C09, expr::C10, params::C11, params::C12, params::C13])
}
