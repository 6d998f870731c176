//! Stand-in for rayon in which every parallel work item is one atomic step and the order of the steps is
//! chosen by `vp_sched`: the symbolic executor explores every order, the native replay takes the recorded one.
use std::cell::RefCell;
use std::rc::Rc;

extern "C" {
    fn vp_sched(n: usize) -> usize;
    fn vp_mark(n: usize);
}

fn sched(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    let k = unsafe { vp_sched(n) };
    if k >= n {
        0
    } else {
        k
    }
}

/// Execution order of n items: every permutation for n <= 4, otherwise forward, reverse, or even positions after odd ones.
fn order(n: usize) -> Vec<usize> {
    unsafe { vp_mark(n) };
    let mut rest: Vec<usize> = (0..n).collect();
    if n <= 4 {
        let mut out = Vec::new();
        while !rest.is_empty() {
            let k = sched(rest.len());
            out.push(rest.remove(k));
        }
        return out;
    }
    match sched(3) {
        0 => rest,
        1 => {
            rest.reverse();
            rest
        }
        _ => {
            let mut out: Vec<usize> = (0..n).filter(|i| i % 2 == 1).collect();
            out.extend((0..n).filter(|i| i % 2 == 0));
            out
        }
    }
}

type Task<'a, T> = Box<dyn FnOnce() -> T + 'a>;

pub struct Par<'a, T> {
    items: Vec<Task<'a, T>>,
}

/// Result-like values for try_for_each.
pub trait Tri {
    fn bad(&self) -> bool;
    fn good() -> Self;
}
impl<E> Tri for Result<(), E> {
    fn bad(&self) -> bool {
        self.is_err()
    }
    fn good() -> Self {
        Ok(())
    }
}
impl Tri for Option<()> {
    fn bad(&self) -> bool {
        self.is_none()
    }
    fn good() -> Self {
        Some(())
    }
}

impl<'a, T: 'a> Par<'a, T> {
    fn from_iter<I: Iterator<Item = T>>(it: I) -> Self {
        Par { items: it.map(|v| Box::new(move || v) as Task<'a, T>).collect() }
    }
    fn run(self) -> Vec<T> {
        let n = self.items.len();
        let mut tasks: Vec<Option<Task<'a, T>>> = self.items.into_iter().map(Some).collect();
        let mut out: Vec<Option<T>> = (0..n).map(|_| None).collect();
        for i in order(n) {
            let t = tasks[i].take().unwrap();
            out[i] = Some(t());
        }
        out.into_iter().map(|x| x.unwrap()).collect()
    }
    pub fn map<R: 'a, F: Fn(T) -> R + 'a>(self, f: F) -> Par<'a, R> {
        let f = Rc::new(f);
        Par {
            items: self
                .items
                .into_iter()
                .map(|t| {
                    let f = Rc::clone(&f);
                    Box::new(move || f(t())) as Task<'a, R>
                })
                .collect(),
        }
    }
    /// The state is created anew for a work item or handed on from an earlier one, as the schedule chooses.
    pub fn map_init<S: 'a, R: 'a, I: Fn() -> S + 'a, F: Fn(&mut S, T) -> R + 'a>(self, init: I, f: F) -> Par<'a, R> {
        let n = self.items.len();
        let st: RefCell<Option<S>> = RefCell::new(None);
        let all = n > 4 && sched(2) == 0;
        self.map(move |x| {
            let mut s = st.borrow_mut().take();
            if s.is_some() && !(all || (n <= 4 && sched(2) == 0)) {
                s = None;
            }
            let mut s = s.unwrap_or_else(|| init());
            let r = f(&mut s, x);
            *st.borrow_mut() = Some(s);
            r
        })
    }
    pub fn map_with<S: Clone + 'a, R: 'a, F: Fn(&mut S, T) -> R + 'a>(self, s: S, f: F) -> Par<'a, R> {
        self.map_init(move || s.clone(), f)
    }
    pub fn enumerate(self) -> Par<'a, (usize, T)> {
        Par {
            items: self
                .items
                .into_iter()
                .enumerate()
                .map(|(i, t)| Box::new(move || (i, t())) as Task<'a, (usize, T)>)
                .collect(),
        }
    }
    pub fn zip<U: 'a, J: IntoParallelIterator<'a, Item = U>>(self, o: J) -> Par<'a, (T, U)> {
        Par {
            items: self
                .items
                .into_iter()
                .zip(o.into_par_iter().items)
                .map(|(a, b)| Box::new(move || (a(), b())) as Task<'a, (T, U)>)
                .collect(),
        }
    }
    pub fn chain<J: IntoParallelIterator<'a, Item = T>>(mut self, o: J) -> Par<'a, T> {
        self.items.extend(o.into_par_iter().items);
        self
    }
    pub fn rev(mut self) -> Par<'a, T> {
        self.items.reverse();
        self
    }
    pub fn take(mut self, n: usize) -> Par<'a, T> {
        self.items.truncate(n);
        self
    }
    pub fn skip(mut self, n: usize) -> Par<'a, T> {
        self.items.drain(..n.min(self.items.len()));
        self
    }
    pub fn step_by(self, n: usize) -> Par<'a, T> {
        Par { items: self.items.into_iter().step_by(n).collect() }
    }
    pub fn len(&self) -> usize {
        self.items.len()
    }
    pub fn is_empty(&self) -> bool {
        self.items.is_empty()
    }
    pub fn with_min_len(self, _: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _: usize) -> Self {
        self
    }
    pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
        let mut out: Vec<Task<'a, Vec<T>>> = Vec::new();
        let mut cur = Vec::new();
        for t in self.items {
            cur.push(t);
            if cur.len() == n {
                let c = std::mem::take(&mut cur);
                out.push(Box::new(move || c.into_iter().map(|t| t()).collect()));
            }
        }
        if !cur.is_empty() {
            out.push(Box::new(move || cur.into_iter().map(|t| t()).collect()));
        }
        Par { items: out }
    }
    pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> {
        Par::from_iter(self.run().into_iter().filter(|x| f(x)).collect::<Vec<_>>().into_iter())
    }
    pub fn filter_map<R: 'a, F: Fn(T) -> Option<R> + 'a>(self, f: F) -> Par<'a, R> {
        Par::from_iter(self.map(f).run().into_iter().flatten().collect::<Vec<_>>().into_iter())
    }
    pub fn flat_map<R: 'a, J: IntoParallelIterator<'a, Item = R>, F: Fn(T) -> J + 'a>(self, f: F) -> Par<'a, R> {
        let parts = self.map(move |x| f(x).into_par_iter()).run();
        Par { items: parts.into_iter().flat_map(|p| p.items).collect() }
    }
    pub fn flat_map_iter<J: IntoIterator, F: Fn(T) -> J + 'a>(self, f: F) -> Par<'a, J::Item>
    where
        J::Item: 'a,
        J: 'a,
    {
        let parts = self.map(f).run();
        Par::from_iter(parts.into_iter().flatten().collect::<Vec<_>>().into_iter())
    }
    pub fn inspect<F: Fn(&T) + 'a>(self, f: F) -> Par<'a, T> {
        self.map(move |x| {
            f(&x);
            x
        })
    }
    pub fn for_each<F: Fn(T) + 'a>(self, f: F) {
        self.map(f).run();
    }
    pub fn for_each_init<S: 'a, I: Fn() -> S + 'a, F: Fn(&mut S, T) + 'a>(self, init: I, f: F) {
        self.map_init(init, f).run();
    }
    pub fn for_each_with<S: Clone + 'a, F: Fn(&mut S, T) + 'a>(self, s: S, f: F) {
        self.map_with(s, f).run();
    }
    pub fn try_for_each<R: Tri + 'a, F: Fn(T) -> R + 'a>(self, f: F) -> R {
        let p = self.map(f);
        let n = p.items.len();
        let mut tasks: Vec<Option<Task<'a, R>>> = p.items.into_iter().map(Some).collect();
        let mut res = R::good();
        let mut failed = false;
        for i in order(n) {
            let r = tasks[i].take().unwrap()();
            if r.bad() && !failed {
                res = r;
                failed = true;
                if sched(2) == 0 {
                    break;
                }
            }
        }
        res
    }
    pub fn try_for_each_init<S: 'a, R: Tri + 'a, I: Fn() -> S + 'a, F: Fn(&mut S, T) -> R + 'a>(self, init: I, f: F) -> R {
        self.map_init(init, f).try_for_each(|r| r)
    }
    pub fn collect<C: FromParallelIterator<T>>(self) -> C {
        C::from_par(self.run())
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.run();
    }
    pub fn unzip<A, B, FA: Default + Extend<A>, FB: Default + Extend<B>>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
    {
        self.run().into_iter().map(|x| x.into()).unzip()
    }
    pub fn reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, f: F) -> T {
        self.run().into_iter().fold(id(), f)
    }
    pub fn reduce_with<F: Fn(T, T) -> T>(self, f: F) -> Option<T> {
        self.run().into_iter().reduce(f)
    }
    pub fn fold<A: 'a, I: Fn() -> A + 'a, F: Fn(A, T) -> A + 'a>(self, id: I, f: F) -> Par<'a, A> {
        self.map(move |x| f(id(), x))
    }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S {
        self.run().into_iter().sum()
    }
    pub fn product<S: std::iter::Product<T>>(self) -> S {
        self.run().into_iter().product()
    }
    pub fn count(self) -> usize {
        self.run().len()
    }
    pub fn any<F: Fn(T) -> bool + 'a>(self, f: F) -> bool {
        self.run().into_iter().any(f)
    }
    pub fn all<F: Fn(T) -> bool + 'a>(self, f: F) -> bool {
        self.run().into_iter().all(f)
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.run().into_iter().min()
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.run().into_iter().max()
    }
    pub fn max_by<F: Fn(&T, &T) -> std::cmp::Ordering>(self, f: F) -> Option<T> {
        self.run().into_iter().max_by(f)
    }
    pub fn min_by<F: Fn(&T, &T) -> std::cmp::Ordering>(self, f: F) -> Option<T> {
        self.run().into_iter().min_by(f)
    }
}

impl<'a, 'b: 'a, T: Clone + 'b> Par<'a, &'b T> {
    pub fn cloned(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
    pub fn copied(self) -> Par<'a, T> {
        self.map(|x| x.clone())
    }
}

pub trait FromParallelIterator<T>: Sized {
    fn from_par(v: Vec<T>) -> Self;
}
impl<T, C: FromIterator<T>> FromParallelIterator<T> for C {
    fn from_par(v: Vec<T>) -> Self {
        v.into_iter().collect()
    }
}

pub trait IntoParallelIterator<'a> {
    type Item;
    fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Par<'a, T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        self
    }
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_iter(self.into_iter())
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::from_iter(self.iter())
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_iter(self.iter_mut())
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<'a, &'a T> {
        Par::from_iter(self.iter())
    }
}
impl<'a, T> IntoParallelIterator<'a> for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<'a, &'a mut T> {
        Par::from_iter(self.iter_mut())
    }
}
impl<'a, T: 'a> IntoParallelIterator<'a> for std::ops::Range<T>
where
    std::ops::Range<T>: Iterator<Item = T>,
{
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_iter(self)
    }
}
impl<'a, T: 'a> IntoParallelIterator<'a> for std::ops::RangeInclusive<T>
where
    std::ops::RangeInclusive<T>: Iterator<Item = T>,
{
    type Item = T;
    fn into_par_iter(self) -> Par<'a, T> {
        Par::from_iter(self)
    }
}

pub trait ParallelSlice<T> {
    fn par_iter(&self) -> Par<'_, &T>;
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]>;
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]>;
    fn par_windows(&self, n: usize) -> Par<'_, &[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_iter(&self) -> Par<'_, &T> {
        Par::from_iter(self.iter())
    }
    fn par_chunks(&self, n: usize) -> Par<'_, &[T]> {
        Par::from_iter(self.chunks(n))
    }
    fn par_chunks_exact(&self, n: usize) -> Par<'_, &[T]> {
        Par::from_iter(self.chunks_exact(n))
    }
    fn par_windows(&self, n: usize) -> Par<'_, &[T]> {
        Par::from_iter(self.windows(n))
    }
}
pub trait ParallelSliceMut<T> {
    fn par_iter_mut(&mut self) -> Par<'_, &mut T>;
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]>;
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_iter_mut(&mut self) -> Par<'_, &mut T> {
        Par::from_iter(self.iter_mut())
    }
    fn par_chunks_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::from_iter(self.chunks_mut(n))
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<'_, &mut [T]> {
        Par::from_iter(self.chunks_exact_mut(n))
    }
}

pub trait ParallelIterator {}
impl<T> ParallelIterator for Par<'_, T> {}
pub trait IndexedParallelIterator {}
impl<T> IndexedParallelIterator for Par<'_, T> {}
pub trait IntoParallelRefIterator {}
pub trait IntoParallelRefMutIterator {}

pub mod iter {
    pub use crate::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelIterator,
    };
}
pub mod slice {
    pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
    pub use crate::{
        FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator,
        IntoParallelRefMutIterator, ParallelIterator, ParallelSlice, ParallelSliceMut,
    };
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA,
    B: FnOnce() -> RB,
{
    unsafe { vp_mark(2) };
    if sched(2) == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}

pub struct Scope<'s> {
    q: RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + 's>(&self, f: F) {
        self.q.borrow_mut().push(Box::new(f));
    }
}
pub fn scope<'s, F: FnOnce(&Scope<'s>) -> R, R>(f: F) -> R {
    let s = Scope { q: RefCell::new(Vec::new()) };
    let r = f(&s);
    loop {
        let n = s.q.borrow().len();
        if n == 0 {
            return r;
        }
        unsafe { vp_mark(n) };
        let k = sched(n);
        let t = s.q.borrow_mut().remove(k);
        t(&s);
    }
}
pub fn current_num_threads() -> usize {
    4
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}
