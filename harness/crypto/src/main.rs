mod alloc;
mod hash;
mod merkle;
mod mmap;
fn main() {
    vcommon::main(&[merkle::C14, merkle::C15, hash::C17, mmap::C28, alloc::C30, alloc::C36])
}
