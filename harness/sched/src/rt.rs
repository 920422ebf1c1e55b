//! the controlled scheduler
pub use rayon::verif::{explore, with_orders, with_threads, Orders, Stats};
