//! Parallel iterators as lists of tasks.
use crate::exec;
use std::sync::Mutex;

pub trait ParallelIterator: Sized {
    type Base: Send;
    type Item: Send;
    /// the tasks and how to turn one into an item (in the task)
    fn parts(self) -> (impl Iterator<Item = Self::Base>, impl Fn(usize, Self::Base) -> Self::Item + Sync);

    fn run<R: Send>(self, f: impl Fn(usize, Self::Item) -> R + Sync) -> Vec<R> {
        let (v, g) = self.parts();
        let v: Vec<Self::Base> = v.collect();
        let n = v.len();
        let slots: Vec<Mutex<Option<Self::Base>>> = v.into_iter().map(|b| Mutex::new(Some(b))).collect();
        let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
        exec::run(n, &|i| {
            let b = slots[i].lock().unwrap().take().expect("task runs once");
            let r = f(i, g(i, b));
            *out[i].lock().unwrap() = Some(r);
        });
        out.into_iter().map(|r| r.into_inner().unwrap().expect("task ran")).collect()
    }
    fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
        let _ = self.run(|_, x| f(x));
    }
    fn for_each_with<T: Send + Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: T, f: F) {
        let init = Mutex::new(init);
        let _ = self.run(|_, x| {
            let mut t = init.lock().unwrap().clone();
            f(&mut t, x)
        });
    }
    fn for_each_init<T, I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: I, f: F) {
        let _ = self.run(|_, x| f(&mut init(), x));
    }
    fn try_for_each<E: Send, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
        self.run(|_, x| f(x)).into_iter().collect()
    }
    fn map<R: Send, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Map<Self, F> {
        Map(self, f)
    }
    fn map_with<T: Send + Clone + Sync, R: Send, F: Fn(&mut T, Self::Item) -> R + Sync + Send>(self, init: T, f: F) -> impl ParallelIterator<Item = R> {
        self.map(move |x| f(&mut init.clone(), x))
    }
    fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> impl ParallelIterator<Item = Self::Item> {
        self.map(move |x| {
            f(&x);
            x
        })
    }
    fn cloned<'a, T: Clone + Send + Sync + 'a>(self) -> impl ParallelIterator<Item = T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        self.map(|x: &T| x.clone())
    }
    fn copied<'a, T: Copy + Send + Sync + 'a>(self) -> impl ParallelIterator<Item = T>
    where
        Self: ParallelIterator<Item = &'a T>,
    {
        self.map(|x: &T| *x)
    }
    fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Vect<Self::Item> {
        Vect(self.run(|_, x| if f(&x) { Some(x) } else { None }).into_iter().flatten().collect())
    }
    fn filter_map<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Vect<R> {
        Vect(self.run(|_, x| f(x)).into_iter().flatten().collect())
    }
    fn flat_map_iter<R: IntoIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Vect<R::Item>
    where
        R::Item: Send,
    {
        Vect(self.run(|_, x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
    }
    fn collect<C: FromParallelIterator<Self::Item>>(self) -> C {
        C::from_par_iter(self.run(|_, x| x))
    }
    fn collect_into_vec(self, v: &mut Vec<Self::Item>) {
        *v = self.run(|_, x| x);
    }
    fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
        self.run(|_, x| x).into_iter().sum()
    }
    fn product<S: std::iter::Product<Self::Item>>(self) -> S {
        self.run(|_, x| x).into_iter().product()
    }
    fn count(self) -> usize {
        self.run(|_, _| ()).len()
    }
    fn min(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.run(|_, x| x).into_iter().min()
    }
    fn max(self) -> Option<Self::Item>
    where
        Self::Item: Ord,
    {
        self.run(|_, x| x).into_iter().max()
    }
    fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.run(|_, x| f(x)).into_iter().any(|b| b)
    }
    fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
        self.run(|_, x| f(x)).into_iter().all(|b| b)
    }
    /// all items one after the other (searches stop early)
    fn sequence(self) -> impl Iterator<Item = Self::Item> {
        let (v, g) = self.parts();
        v.enumerate().map(move |(i, b)| g(i, b))
    }
    fn find_first<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.sequence().find(|x| f(x))
    }
    /// any of the first three matches
    fn find_any<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        let mut v: Vec<_> = self.sequence().filter(|x| f(x)).take(3).collect();
        if v.is_empty() {
            return None;
        }
        let k = exec::choose(v.len());
        Some(v.swap_remove(k))
    }
    fn find_last<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.sequence().filter(|x| f(x)).last()
    }
    fn find_map_first<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        self.sequence().find_map(|x| f(x))
    }
    fn find_map_any<R: Send, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Option<R> {
        let mut v: Vec<_> = self.sequence().filter_map(|x| f(x)).take(3).collect();
        if v.is_empty() {
            return None;
        }
        let k = exec::choose(v.len());
        Some(v.swap_remove(k))
    }
    fn position_first<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
        self.sequence().position(|x| f(x))
    }
    fn position_any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> Option<usize> {
        let v: Vec<_> = self.sequence().enumerate().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).take(3).collect();
        if v.is_empty() {
            return None;
        }
        Some(v[exec::choose(v.len())])
    }
    fn min_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.run(|_, x| (f(&x), x)).into_iter().min_by(|a, b| a.0.cmp(&b.0)).map(|x| x.1)
    }
    fn max_by_key<K: Ord + Send, F: Fn(&Self::Item) -> K + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.run(|_, x| (f(&x), x)).into_iter().max_by(|a, b| a.0.cmp(&b.0)).map(|x| x.1)
    }
    fn fold<T: Send, I: Fn() -> T + Sync + Send, F: Fn(T, Self::Item) -> T + Sync + Send>(self, id: I, f: F) -> Vect<T> {
        // one accumulator per item: the finest split the runtime may choose
        Vect(self.run(|_, x| f(id(), x)))
    }
    fn reduce_with<F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, f: F) -> Option<Self::Item> {
        self.run(|_, x| x).into_iter().reduce(f)
    }
    fn flat_map<R: IntoParallelIterator, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Vect<R::Item> {
        Vect(self.run(|_, x| f(x).into_par_iter().sequence().collect::<Vec<_>>()).into_iter().flatten().collect())
    }
    fn unzip<A: Send, B: Send, C: Default + Extend<A>, D: Default + Extend<B>>(self) -> (C, D)
    where
        Self: ParallelIterator<Item = (A, B)>,
    {
        self.run(|_, x| x).into_iter().unzip()
    }
    fn reduce<I: Fn() -> Self::Item + Sync + Send, F: Fn(Self::Item, Self::Item) -> Self::Item + Sync + Send>(self, id: I, f: F) -> Self::Item {
        self.run(|_, x| x).into_iter().fold(id(), f)
    }
}
pub trait IndexedParallelIterator: ParallelIterator {
    fn enumerate(self) -> Enumerate<Self> {
        Enumerate(self)
    }
    fn zip<B: IntoParallelIterator>(self, b: B) -> Zip<Self, B::Iter>
    where
        B::Iter: IndexedParallelIterator,
    {
        Zip(self, b.into_par_iter())
    }
    fn zip_eq<B: IntoParallelIterator>(self, b: B) -> Zip<Self, B::Iter>
    where
        B::Iter: IndexedParallelIterator,
    {
        Zip(self, b.into_par_iter())
    }
    fn with_min_len(self, _: usize) -> Self {
        self
    }
    fn with_max_len(self, _: usize) -> Self {
        self
    }
    fn chunks(self, n: usize) -> Vect<Vec<Self::Item>> {
        let mut out: Vec<Vec<Self::Item>> = vec![];
        for x in self.sequence() {
            match out.last_mut() {
                Some(c) if c.len() < n => c.push(x),
                _ => out.push(vec![x]),
            }
        }
        Vect(out)
    }
    fn step_by(self, n: usize) -> Vect<Self::Item> {
        Vect(self.sequence().step_by(n).collect())
    }
    fn take(self, n: usize) -> Vect<Self::Item> {
        Vect(self.sequence().take(n).collect())
    }
    fn skip(self, n: usize) -> Vect<Self::Item> {
        Vect(self.sequence().skip(n).collect())
    }
    fn rev(self) -> Rev<Self> {
        Rev(self)
    }
}
impl<P: ParallelIterator> IndexedParallelIterator for P {}
pub struct Map<P, F>(P, F);
impl<P: ParallelIterator, R: Send, F: Fn(P::Item) -> R + Sync + Send> ParallelIterator for Map<P, F> {
    type Base = P::Base;
    type Item = R;
    fn parts(self) -> (impl Iterator<Item = P::Base>, impl Fn(usize, P::Base) -> R + Sync) {
        let (v, g) = self.0.parts();
        let f = self.1;
        (v, move |i, b| f(g(i, b)))
    }
}
pub struct Enumerate<P>(P);
impl<P: ParallelIterator> ParallelIterator for Enumerate<P> {
    type Base = (usize, P::Base);
    type Item = (usize, P::Item);
    fn parts(self) -> (impl Iterator<Item = (usize, P::Base)>, impl Fn(usize, (usize, P::Base)) -> (usize, P::Item) + Sync) {
        let (v, g) = self.0.parts();
        (v.enumerate(), move |_, (i, b)| (i, g(i, b)))
    }
}
pub struct Rev<P>(P);
impl<P: ParallelIterator> ParallelIterator for Rev<P> {
    type Base = (usize, P::Base);
    type Item = P::Item;
    fn parts(self) -> (impl Iterator<Item = (usize, P::Base)>, impl Fn(usize, (usize, P::Base)) -> P::Item + Sync) {
        let (v, g) = self.0.parts();
        let mut v: Vec<_> = v.enumerate().collect();
        v.reverse();
        (v.into_iter(), move |_, (i, b)| g(i, b))
    }
}
pub struct Zip<A, B>(A, B);
impl<A: ParallelIterator, B: ParallelIterator> ParallelIterator for Zip<A, B> {
    type Base = (usize, A::Base, B::Base);
    type Item = (A::Item, B::Item);
    fn parts(self) -> (impl Iterator<Item = Self::Base>, impl Fn(usize, Self::Base) -> Self::Item + Sync) {
        let (v, g) = self.0.parts();
        let (w, h) = self.1.parts();
        (v.zip(w).enumerate().map(|(i, (a, b))| (i, a, b)), move |_, (i, a, b)| (g(i, a), h(i, b)))
    }
}
pub struct Vect<T>(pub(crate) Vec<T>);
impl<T: Send> ParallelIterator for Vect<T> {
    type Base = T;
    type Item = T;
    fn parts(self) -> (impl Iterator<Item = T>, impl Fn(usize, T) -> T + Sync) {
        (self.0.into_iter(), |_, x| x)
    }
}
pub struct Lazy<I>(I);
impl<I: Iterator> ParallelIterator for Lazy<I>
where
    I::Item: Send,
{
    type Base = I::Item;
    type Item = I::Item;
    fn parts(self) -> (impl Iterator<Item = I::Item>, impl Fn(usize, I::Item) -> I::Item + Sync) {
        (self.0, |_, x| x)
    }
}
pub trait IntoParallelIterator {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send;
    fn into_par_iter(self) -> Self::Iter;
}
impl<P: ParallelIterator> IntoParallelIterator for P {
    type Iter = P;
    type Item = P::Item;
    fn into_par_iter(self) -> P {
        self
    }
}
impl<T: Send> IntoParallelIterator for Vec<T> {
    type Iter = Vect<T>;
    type Item = T;
    fn into_par_iter(self) -> Vect<T> {
        Vect(self)
    }
}
impl<'a, T: Sync> IntoParallelIterator for &'a [T] {
    type Iter = Vect<&'a T>;
    type Item = &'a T;
    fn into_par_iter(self) -> Vect<&'a T> {
        Vect(self.iter().collect())
    }
}
impl<'a, T: Sync> IntoParallelIterator for &'a Vec<T> {
    type Iter = Vect<&'a T>;
    type Item = &'a T;
    fn into_par_iter(self) -> Vect<&'a T> {
        Vect(self.iter().collect())
    }
}
impl<'a, T: Send> IntoParallelIterator for &'a mut [T] {
    type Iter = Vect<&'a mut T>;
    type Item = &'a mut T;
    fn into_par_iter(self) -> Vect<&'a mut T> {
        Vect(self.iter_mut().collect())
    }
}
impl<'a, T: Send> IntoParallelIterator for &'a mut Vec<T> {
    type Iter = Vect<&'a mut T>;
    type Item = &'a mut T;
    fn into_par_iter(self) -> Vect<&'a mut T> {
        Vect(self.iter_mut().collect())
    }
}
macro_rules! ranges {
    ($($t:ty)*) => {$(
        impl IntoParallelIterator for std::ops::Range<$t> {
            type Iter = Lazy<Self>;
            type Item = $t;
            fn into_par_iter(self) -> Lazy<Self> {
                Lazy(self)
            }
        }
        impl IntoParallelIterator for std::ops::RangeInclusive<$t> {
            type Iter = Lazy<Self>;
            type Item = $t;
            fn into_par_iter(self) -> Lazy<Self> {
                Lazy(self)
            }
        }
    )*};
}
ranges!(u8 u16 u32 u64 usize i8 i16 i32 i64 isize);
pub trait IntoParallelRefIterator<'a> {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send + 'a;
    fn par_iter(&'a self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefIterator<'a> for I
where
    &'a I: IntoParallelIterator,
{
    type Iter = <&'a I as IntoParallelIterator>::Iter;
    type Item = <&'a I as IntoParallelIterator>::Item;
    fn par_iter(&'a self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Iter: ParallelIterator<Item = Self::Item>;
    type Item: Send + 'a;
    fn par_iter_mut(&'a mut self) -> Self::Iter;
}
impl<'a, I: 'a + ?Sized> IntoParallelRefMutIterator<'a> for I
where
    &'a mut I: IntoParallelIterator,
{
    type Iter = <&'a mut I as IntoParallelIterator>::Iter;
    type Item = <&'a mut I as IntoParallelIterator>::Item;
    fn par_iter_mut(&'a mut self) -> Self::Iter {
        self.into_par_iter()
    }
}
pub trait ParallelSlice<T: Sync> {
    fn sl(&self) -> &[T];
    fn par_chunks(&self, n: usize) -> Vect<&[T]> {
        Vect(self.sl().chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Vect<&[T]> {
        Vect(self.sl().chunks_exact(n).collect())
    }
    fn par_windows(&self, n: usize) -> Vect<&[T]> {
        Vect(self.sl().windows(n).collect())
    }
}
impl<T: Sync> ParallelSlice<T> for [T] {
    fn sl(&self) -> &[T] {
        self
    }
}
pub trait ParallelSliceMut<T: Send> {
    fn slm(&mut self) -> &mut [T];
    fn par_chunks_mut(&mut self, n: usize) -> Vect<&mut [T]> {
        Vect(self.slm().chunks_mut(n).collect())
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Vect<&mut [T]> {
        Vect(self.slm().chunks_exact_mut(n).collect())
    }
    fn par_sort(&mut self)
    where
        T: Ord,
    {
        self.slm().sort()
    }
    fn par_sort_unstable(&mut self)
    where
        T: Ord,
    {
        self.slm().sort_unstable()
    }
}
impl<T: Send> ParallelSliceMut<T> for [T] {
    fn slm(&mut self) -> &mut [T] {
        self
    }
}
pub trait ParallelBridge: Sized + Iterator {
    fn par_bridge(self) -> Vect<Self::Item>
    where
        Self::Item: Send,
    {
        Vect(self.collect())
    }
}
impl<I: Iterator> ParallelBridge for I {}
pub trait FromParallelIterator<T> {
    fn from_par_iter(v: Vec<T>) -> Self;
}
impl<T, C: std::iter::FromIterator<T>> FromParallelIterator<T> for C {
    fn from_par_iter(v: Vec<T>) -> C {
        v.into_iter().collect()
    }
}
pub trait ParallelExtend<T: Send> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T: Send> ParallelExtend<T> for Vec<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(i.into_par_iter().run(|_, x| x));
    }
}
pub fn join<A: Send, B: Send>(a: impl FnOnce() -> A + Send, b: impl FnOnce() -> B + Send) -> (A, B) {
    let (fa, fb) = (Mutex::new(Some(a)), Mutex::new(Some(b)));
    let (ra, rb) = (Mutex::new(None), Mutex::new(None));
    exec::run(2, &|i| {
        if i == 0 {
            let f = fa.lock().unwrap().take().unwrap();
            let r = f();
            *ra.lock().unwrap() = Some(r);
        } else {
            let f = fb.lock().unwrap().take().unwrap();
            let r = f();
            *rb.lock().unwrap() = Some(r);
        }
    });
    (ra.into_inner().unwrap().unwrap(), rb.into_inner().unwrap().unwrap())
}
type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;
/// tasks spawned in a scope run when the scope's closure has returned
pub struct Scope<'s>(Mutex<Vec<Job<'s>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.0.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope(Mutex::new(vec![]));
    let r = f(&s);
    loop {
        let jobs: Vec<Mutex<Option<Job<'s>>>> = std::mem::take(&mut *s.0.lock().unwrap()).into_iter().map(|j| Mutex::new(Some(j))).collect();
        if jobs.is_empty() {
            return r;
        }
        exec::run(jobs.len(), &|i| {
            let j = jobs[i].lock().unwrap().take().unwrap();
            j(&s)
        });
    }
}
