//! Stand-in for rayon used only in the symbolic build.  Every parallel
//! operation becomes a list of independent jobs.  With scheduling switched on
//! (`qs_shim_par`) the jobs run as engine threads that the engine interleaves
//! at their file operations; otherwise they run one after another.
//! The native replay build uses the real rayon.
extern "C" {
    fn qs_par(n: u64, f: extern "C" fn(*mut u8, u64), ctx: *mut u8);
}
static mut SCHED: bool = false;
#[no_mangle]
pub extern "C" fn qs_shim_par(on: bool) {
    unsafe { SCHED = on }
}

struct Jobs<'a, T, R, F: Fn(T) -> R> {
    items: Vec<Option<T>>,
    out: Vec<Option<R>>,
    f: &'a F,
}
extern "C" fn job<T, R, F: Fn(T) -> R>(ctx: *mut u8, i: u64) {
    unsafe {
        let j = ctx as *mut Jobs<T, R, F>;
        let it = (*j).items.as_mut_ptr().add(i as usize);
        let x = (*it).take().unwrap();
        let r = ((*j).f)(x);
        let o = (*j).out.as_mut_ptr().add(i as usize);
        std::ptr::write(o, Some(r));
    }
}
fn run_jobs<T, R, F: Fn(T) -> R>(items: Vec<T>, f: &F) -> Vec<R> {
    if unsafe { SCHED } && items.len() > 1 {
        let n = items.len();
        let mut j = Jobs { items: items.into_iter().map(Some).collect(), out: (0..n).map(|_| None).collect(), f };
        unsafe { qs_par(n as u64, job::<T, R, F>, &mut j as *mut _ as *mut u8) };
        j.out.into_iter().map(|x| x.unwrap()).collect()
    } else {
        items.into_iter().map(|x| f(x)).collect()
    }
}

pub struct Par<T>(Vec<T>);
impl<T> Par<T> {
    pub fn map<R, F: Fn(T) -> R>(self, f: F) -> Par<R> {
        Par(run_jobs(self.0, &f))
    }
    pub fn for_each<F: Fn(T)>(self, f: F) {
        run_jobs(self.0, &f);
    }
    pub fn map_with<S: Clone, R, F: Fn(&mut S, T) -> R>(self, s: S, f: F) -> Par<R> {
        Par(run_jobs(self.0, &|x| f(&mut s.clone(), x)))
    }
    pub fn map_init<S, R, I: Fn() -> S, F: Fn(&mut S, T) -> R>(self, i: I, f: F) -> Par<R> {
        Par(run_jobs(self.0, &|x| f(&mut i(), x)))
    }
    pub fn for_each_with<S: Clone, F: Fn(&mut S, T)>(self, s: S, f: F) {
        run_jobs(self.0, &|x| f(&mut s.clone(), x));
    }
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> Par<T> {
        Par(self.0.into_iter().filter(|x| f(x)).collect())
    }
    pub fn filter_map<R, F: Fn(T) -> Option<R>>(self, f: F) -> Par<R> {
        Par(run_jobs(self.0, &f).into_iter().flatten().collect())
    }
    pub fn flat_map<R: IntoIterator, F: Fn(T) -> R>(self, f: F) -> Par<R::Item> {
        Par(run_jobs(self.0, &f).into_iter().flatten().collect())
    }
    pub fn flat_map_iter<R: IntoIterator, F: Fn(T) -> R>(self, f: F) -> Par<R::Item> {
        self.flat_map(f)
    }
    pub fn flatten(self) -> Par<<T as IntoIterator>::Item>
    where
        T: IntoIterator,
    {
        Par(self.0.into_iter().flatten().collect())
    }
    pub fn zip<J: IntoParallelIterator>(self, o: J) -> Par<(T, J::Item)> {
        Par(self.0.into_iter().zip(o.into_par_iter().0).collect())
    }
    pub fn zip_eq<J: IntoParallelIterator>(self, o: J) -> Par<(T, J::Item)> {
        let o = o.into_par_iter();
        assert_eq!(self.0.len(), o.0.len(), "iterators must have the same length");
        Par(self.0.into_iter().zip(o.0).collect())
    }
    pub fn chain<J: IntoParallelIterator<Item = T>>(mut self, o: J) -> Par<T> {
        self.0.extend(o.into_par_iter().0);
        self
    }
    pub fn enumerate(self) -> Par<(usize, T)> {
        Par(self.0.into_iter().enumerate().collect())
    }
    pub fn rev(self) -> Par<T> {
        Par(self.0.into_iter().rev().collect())
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn skip(self, n: usize) -> Self {
        Par(self.0.into_iter().skip(n).collect())
    }
    pub fn take(self, n: usize) -> Self {
        Par(self.0.into_iter().take(n).collect())
    }
    pub fn cloned<'a, U: Clone + 'a>(self) -> Par<U>
    where
        T: std::ops::Deref<Target = U>,
    {
        Par(self.0.iter().map(|x| (**x).clone()).collect())
    }
    pub fn copied<U: Copy>(self) -> Par<U>
    where
        T: std::ops::Deref<Target = U>,
    {
        Par(self.0.iter().map(|x| **x).collect())
    }
    pub fn inspect<F: Fn(&T)>(self, f: F) -> Self {
        self.0.iter().for_each(|x| f(x));
        self
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.0;
    }
    pub fn count(self) -> usize {
        self.0.len()
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.0.into_iter().sum()
    }
    pub fn any<F: Fn(T) -> bool>(self, f: F) -> bool {
        self.0.into_iter().any(f)
    }
    pub fn all<F: Fn(T) -> bool>(self, f: F) -> bool {
        self.0.into_iter().all(f)
    }
    pub fn find_any<F: Fn(&T) -> bool>(self, f: F) -> Option<T> {
        self.0.into_iter().find(|x| f(x))
    }
    pub fn find_first<F: Fn(&T) -> bool>(self, f: F) -> Option<T> {
        self.0.into_iter().find(|x| f(x))
    }
    pub fn find_map_any<R, F: Fn(T) -> Option<R>>(self, f: F) -> Option<R> {
        self.0.into_iter().find_map(f)
    }
    pub fn find_map_first<R, F: Fn(T) -> Option<R>>(self, f: F) -> Option<R> {
        self.0.into_iter().find_map(f)
    }
    pub fn reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, i: I, f: F) -> T {
        self.0.into_iter().fold(i(), f)
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().max()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().min()
    }
    pub fn partition<C: Default + Extend<T>, F: Fn(&T) -> bool>(self, f: F) -> (C, C) {
        self.0.into_iter().partition(|x| f(x))
    }
    pub fn unzip<A, B, X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y)
    where
        Vec<T>: IntoIterator<Item = (A, B)>,
    {
        self.0.into_iter().unzip()
    }
}

pub trait IntoParallelIterator {
    type Item;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<T> IntoParallelIterator for Par<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        self
    }
}
impl<T> IntoParallelIterator for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        Par(self)
    }
}
impl<T> IntoParallelIterator for Option<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        Par(self.into_iter().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
macro_rules! ranges {
    ($($t:ty),*) => {$(
        impl IntoParallelIterator for std::ops::Range<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<$t> { Par(self.collect()) }
        }
        impl IntoParallelIterator for std::ops::RangeInclusive<$t> {
            type Item = $t;
            fn into_par_iter(self) -> Par<$t> { Par(self.collect()) }
        }
    )*};
}
ranges!(u8, u16, u32, u64, usize, i32, i64);
pub trait IntoParallelRefIterator<'a> {
    type Item: 'a;
    fn par_iter(&'a self) -> Par<Self::Item>;
}
impl<'a, C: 'a + ?Sized> IntoParallelRefIterator<'a> for C
where
    &'a C: IntoParallelIterator,
    <&'a C as IntoParallelIterator>::Item: 'a,
{
    type Item = <&'a C as IntoParallelIterator>::Item;
    fn par_iter(&'a self) -> Par<Self::Item> {
        self.into_par_iter()
    }
}
pub trait IntoParallelRefMutIterator<'a> {
    type Item: 'a;
    fn par_iter_mut(&'a mut self) -> Par<Self::Item>;
}
impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for Vec<T> {
    type Item = &'a mut T;
    fn par_iter_mut(&'a mut self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
impl<'a, T: 'a> IntoParallelRefMutIterator<'a> for [T] {
    type Item = &'a mut T;
    fn par_iter_mut(&'a mut self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
pub trait ParallelSlice<T> {
    fn par_chunks(&self, n: usize) -> Par<&[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_chunks(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks(n).collect())
    }
}
pub trait ParallelIterator {}
impl<T> ParallelIterator for Par<T> {}
pub trait IndexedParallelIterator {}
impl<T> IndexedParallelIterator for Par<T> {}
pub trait ParallelExtend<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I);
}
impl<T> ParallelExtend<T> for Vec<T> {
    fn par_extend<I: IntoParallelIterator<Item = T>>(&mut self, i: I) {
        self.extend(i.into_par_iter().0)
    }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    (a(), b())
}
pub fn current_num_threads() -> usize {
    8
}
pub mod iter {
    pub use super::*;
}
pub mod slice {
    pub use super::ParallelSlice;
}
pub mod prelude {
    pub use super::{
        IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator,
        ParallelExtend, ParallelIterator, ParallelSlice,
    };
}
