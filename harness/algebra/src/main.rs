mod u256;
mod macros;
mod curve;
mod fields;
mod field;
mod sample;
fn main() {
    vcommon::main(&[
        u256::C18, u256::C19, u256::C20, u256::C21,
        field::C22, field::C23, field::C24, field::C31, macros::C29,
        curve::C25, curve::C26, curve::C27, sample::C37,
    ])
}
