//! Used when the code does not build with the controlled scheduler: the real one, so that
//! thread counts are still enumerated (but orders and interleavings are not).
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Orders {
    All(usize),
    Only(usize, usize),
}
#[derive(Clone, Copy, Debug, Default)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub complete: bool,
}
pub fn with_threads<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("threads").install(f)
}
pub fn with_orders<R>(o: Orders, f: impl FnOnce() -> R) -> (R, usize) {
    let _ = o;
    (f(), 1)
}
pub fn explore(_stale: usize, _spurious: usize, _max: u64, mut f: impl FnMut() -> bool) -> Stats {
    let mut s = Stats::default();
    for _ in 0..50 {
        s.executions += 1;
        s.states += 1;
        s.transitions += 1;
        if !f() {
            break;
        }
    }
    s
}
