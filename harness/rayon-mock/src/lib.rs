//! A stand-in for `rayon` (and, re-exporting it, for `std`) whose parallelism is executed by a
//! controlled scheduler, so that a checker can enumerate execution orders and interleavings.
//!
//! * Parallel iterators turn into a list of tasks.  Without an exploration in progress the tasks run
//!   one after the other; with one, either in an order chosen by the checker or as real threads that
//!   are stopped before every operation on a shared atomic or lock.
//! * `sync::atomic` types keep the history of every location.  Loads may return any value the
//!   memory model allows (relaxed loads: values overwritten by others), weak compare-exchange may
//!   fail spuriously; the scheduler branches on all of it.
pub use std::*;
pub mod exec;
pub mod par;
pub mod sync;
pub mod verif {
    pub use crate::exec::{explore, explore_bounded, with_orders, with_threads, Orders, Stats};
}
pub mod prelude {
    pub use crate::par::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator,
        ParallelBridge, ParallelIterator, ParallelSlice, ParallelSliceMut, ParallelExtend,
    };
    pub use std::prelude::*;
}
pub mod iter {
    pub use crate::par::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge,
        ParallelIterator,
    };
    pub use std::iter::*;
}
pub mod slice {
    pub use crate::par::{ParallelSlice, ParallelSliceMut};
    pub use std::slice::*;
}
pub use crate::par::{join, scope, Scope};

pub fn current_num_threads() -> usize {
    exec::num_threads()
}
pub fn max_num_threads() -> usize {
    usize::MAX >> 1
}
pub fn current_thread_index() -> Option<usize> {
    exec::task_index().map(|i| i % exec::num_threads())
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "thread pool")
    }
}
impl error::Error for ThreadPoolBuildError {}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder(usize);
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self(0)
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.0 = n;
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool(if self.0 == 0 { exec::num_threads() } else { self.0 }))
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool(usize);
impl ThreadPool {
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        exec::with_threads(self.0, f)
    }
    pub fn current_num_threads(&self) -> usize {
        self.0
    }
    pub fn join<A: Send, B: Send>(&self, a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
        exec::with_threads(self.0, || join(a, b))
    }
}
