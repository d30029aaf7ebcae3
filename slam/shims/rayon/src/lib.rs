//! Stand-in for `rayon`: every parallel call is split into tasks, and a seeded scheduler, set per
//! thread with [`sim::with`], decides the order in which the tasks run and where a parallel
//! collection is split.  Results come out in the order rayon promises.
use std::cmp::Ordering;

pub mod sim {
    use std::cell::RefCell;

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Order {
        /// First to last, as on one thread that steals nothing.
        Forward,
        /// Last to first: every task is stolen before its owner gets to it.
        Backward,
        /// A seeded permutation.
        Random(u64),
    }

    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct Stats {
        /// Parallel calls made.
        pub calls: u64,
        /// Tasks run.
        pub tasks: u64,
        /// Calls whose tasks ran in another order than the serial one.
        pub reordered: u64,
        /// Hash of every order taken.
        pub schedule: u64,
    }

    struct S {
        order: Order,
        state: u64,
        stats: Stats,
    }
    thread_local!(static SIM: RefCell<S> = const { RefCell::new(S {
        order: Order::Forward, state: 0,
        stats: Stats { calls: 0, tasks: 0, reordered: 0, schedule: 0 } }) });

    /// Run `f` under this order of tasks, and say what the scheduler did.
    pub fn with<R>(order: Order, f: impl FnOnce() -> R) -> (R, Stats) {
        SIM.with(|s| {
            let mut s = s.borrow_mut();
            s.order = order;
            s.state = if let Order::Random(seed) = order { seed } else { 0 };
            s.stats = Stats::default();
        });
        let r = f();
        (r, SIM.with(|s| s.borrow().stats))
    }
    fn next(s: &mut u64) -> u64 {
        *s = s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = *s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    /// The order in which `n` tasks run.
    pub(crate) fn order(n: usize) -> Vec<usize> {
        SIM.with(|s| {
            let mut s = s.borrow_mut();
            let mut v: Vec<usize> = (0..n).collect();
            match s.order {
                Order::Forward => {}
                Order::Backward => v.reverse(),
                Order::Random(_) => {
                    for i in (1..n).rev() {
                        let j = (next(&mut s.state) % (i as u64 + 1)) as usize;
                        v.swap(i, j);
                    }
                }
            }
            s.stats.calls += 1;
            s.stats.tasks += n as u64;
            s.stats.reordered += v.iter().enumerate().any(|(i, &j)| i != j) as u64;
            for &i in &v {
                s.stats.schedule =
                    (s.stats.schedule ^ i as u64).wrapping_mul(0x1_0000_01b3).rotate_left(7);
            }
            v
        })
    }
    /// Where to cut a collection of `n` items for a fold: at least one piece.
    pub(crate) fn pieces(n: usize) -> Vec<usize> {
        SIM.with(|s| {
            let mut s = s.borrow_mut();
            let mut cuts = vec![];
            let mut at = 0;
            while at < n {
                let step = match s.order {
                    Order::Forward => n,
                    Order::Backward => 1,
                    Order::Random(_) => 1 + (next(&mut s.state) % n as u64) as usize,
                };
                at = (at + step).min(n);
                cuts.push(at);
            }
            cuts
        })
    }
    pub(crate) fn worker() -> usize {
        SIM.with(|s| match s.borrow().order {
            Order::Forward => 0,
            Order::Backward => 7,
            Order::Random(_) => (s.borrow().state % 8) as usize,
        })
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    if sim::order(2)[0] == 0 {
        let ra = a();
        let rb = b();
        (ra, rb)
    } else {
        let rb = b();
        let ra = a();
        (ra, rb)
    }
}
pub fn current_num_threads() -> usize {
    8
}
pub fn current_thread_index() -> Option<usize> {
    Some(sim::worker())
}

#[derive(Default)]
pub struct Scope<'s> {
    tasks: std::sync::Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>,
}
impl<'s> Scope<'s> {
    pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + Send + 's) {
        self.tasks.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope { tasks: std::sync::Mutex::new(Vec::new()) };
    let r = f(&s);
    loop {
        let tasks = std::mem::take(&mut *s.tasks.lock().unwrap());
        if tasks.is_empty() {
            return r;
        }
        let mut tasks: Vec<Option<_>> = tasks.into_iter().map(Some).collect();
        for i in sim::order(tasks.len()) {
            (tasks[i].take().unwrap())(&s);
        }
    }
}

/// A parallel iterator: the items that are still to be worked on, in their original order.
pub struct Par<T>(Vec<T>);

fn run<T, U>(items: Vec<T>, mut f: impl FnMut(T) -> U) -> Vec<U> {
    let n = items.len();
    let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
    let mut out: Vec<Option<U>> = (0..n).map(|_| None).collect();
    for i in sim::order(n) {
        out[i] = Some(f(items[i].take().unwrap()));
    }
    out.into_iter().map(Option::unwrap).collect()
}

impl<T> Par<T> {
    pub fn map<U>(self, f: impl Fn(T) -> U + Sync + Send) -> Par<U> {
        Par(run(self.0, f))
    }
    pub fn for_each(self, f: impl Fn(T) + Sync + Send) {
        run(self.0, f);
    }
    pub fn filter(self, f: impl Fn(&T) -> bool + Sync + Send) -> Par<T> {
        Par(run(self.0, |x| f(&x).then_some(x)).into_iter().flatten().collect())
    }
    pub fn filter_map<U>(self, f: impl Fn(T) -> Option<U> + Sync + Send) -> Par<U> {
        Par(run(self.0, f).into_iter().flatten().collect())
    }
    pub fn flat_map<I: IntoIterator>(self, f: impl Fn(T) -> I + Sync + Send) -> Par<I::Item> {
        Par(run(self.0, |x| f(x).into_iter().collect::<Vec<_>>()).into_iter().flatten().collect())
    }
    pub fn flat_map_iter<I: IntoIterator>(self, f: impl Fn(T) -> I + Sync + Send) -> Par<I::Item> {
        self.flat_map(f)
    }
    pub fn enumerate(self) -> Par<(usize, T)> {
        Par(self.0.into_iter().enumerate().collect())
    }
    pub fn zip<P: IntoParallelIterator>(self, o: P) -> Par<(T, P::Item)> {
        Par(self.0.into_iter().zip(o.into_par_iter().0).collect())
    }
    pub fn with_min_len(self, _n: usize) -> Self {
        self
    }
    pub fn with_max_len(self, _n: usize) -> Self {
        self
    }
    pub fn collect<C: FromIterator<T>>(self) -> C {
        self.0.into_iter().collect()
    }
    pub fn collect_into_vec(self, v: &mut Vec<T>) {
        *v = self.0;
    }
    pub fn unzip<A, B, FA, FB>(self) -> (FA, FB)
    where
        T: Into<(A, B)>,
        FA: Default + Extend<A>,
        FB: Default + Extend<B>,
    {
        self.0.into_iter().map(Into::into).unzip()
    }
    pub fn count(self) -> usize {
        self.0.len()
    }
    pub fn fold<A>(
        self,
        init: impl Fn() -> A + Sync + Send,
        f: impl Fn(A, T) -> A + Sync + Send,
    ) -> Par<A> {
        let cuts = sim::pieces(self.0.len());
        let mut items = self.0.into_iter();
        let mut at = 0;
        let pieces: Vec<Vec<T>> = cuts
            .into_iter()
            .map(|c| {
                let p = items.by_ref().take(c - at).collect();
                at = c;
                p
            })
            .collect();
        Par(run(pieces, |p| p.into_iter().fold(init(), &f)))
    }
    pub fn reduce(self, init: impl Fn() -> T + Sync + Send, f: impl Fn(T, T) -> T + Sync + Send) -> T {
        let parts = self.fold(&init, &f).0;
        parts.into_iter().fold(init(), f)
    }
    pub fn sum<S: std::iter::Sum<T> + std::iter::Sum<S>>(self) -> S {
        let cuts = sim::pieces(self.0.len());
        let mut items = self.0.into_iter();
        let mut at = 0;
        let mut parts = vec![];
        for c in cuts {
            parts.push(items.by_ref().take(c - at).sum::<S>());
            at = c;
        }
        parts.into_iter().sum()
    }
    pub fn max_by(self, f: impl Fn(&T, &T) -> Ordering + Sync + Send) -> Option<T> {
        self.0.into_iter().max_by(f)
    }
    pub fn min_by(self, f: impl Fn(&T, &T) -> Ordering + Sync + Send) -> Option<T> {
        self.0.into_iter().min_by(f)
    }
    pub fn max(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().max()
    }
    pub fn min(self) -> Option<T>
    where
        T: Ord,
    {
        self.0.into_iter().min()
    }
    pub fn any(self, f: impl Fn(T) -> bool + Sync + Send) -> bool {
        run(self.0, f).into_iter().any(|b| b)
    }
    pub fn all(self, f: impl Fn(T) -> bool + Sync + Send) -> bool {
        run(self.0, f).into_iter().all(|b| b)
    }
    /// Whichever task gets there first.
    pub fn find_any(self, f: impl Fn(&T) -> bool + Sync + Send) -> Option<T> {
        let mut items: Vec<Option<T>> = self.0.into_iter().map(Some).collect();
        for i in sim::order(items.len()) {
            if f(items[i].as_ref().unwrap()) {
                return items[i].take();
            }
        }
        None
    }
    pub fn find_first(self, f: impl Fn(&T) -> bool + Sync + Send) -> Option<T> {
        self.0.into_iter().find(|x| f(x))
    }
}
impl<'a, T: Clone> Par<&'a T> {
    pub fn cloned(self) -> Par<T> {
        Par(self.0.into_iter().cloned().collect())
    }
    pub fn copied(self) -> Par<T> {
        self.cloned()
    }
}

pub trait IntoParallelIterator {
    type Item;
    fn into_par_iter(self) -> Par<Self::Item>;
}
impl<T> IntoParallelIterator for Par<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        self
    }
}
impl<T> IntoParallelIterator for Vec<T> {
    type Item = T;
    fn into_par_iter(self) -> Par<T> {
        Par(self)
    }
}
impl<'a, T> IntoParallelIterator for &'a [T] {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a mut [T] {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a Vec<T> {
    type Item = &'a T;
    fn into_par_iter(self) -> Par<&'a T> {
        Par(self.iter().collect())
    }
}
impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
    type Item = &'a mut T;
    fn into_par_iter(self) -> Par<&'a mut T> {
        Par(self.iter_mut().collect())
    }
}
impl IntoParallelIterator for std::ops::Range<usize> {
    type Item = usize;
    fn into_par_iter(self) -> Par<usize> {
        Par(self.collect())
    }
}
impl IntoParallelIterator for std::ops::Range<u32> {
    type Item = u32;
    fn into_par_iter(self) -> Par<u32> {
        Par(self.collect())
    }
}

pub trait ParallelSlice<T> {
    fn par_iter(&self) -> Par<&T>;
    fn par_chunks(&self, n: usize) -> Par<&[T]>;
    fn par_chunks_exact(&self, n: usize) -> Par<&[T]>;
    fn par_windows(&self, n: usize) -> Par<&[T]>;
}
impl<T> ParallelSlice<T> for [T] {
    fn par_iter(&self) -> Par<&T> {
        Par(self.iter().collect())
    }
    fn par_chunks(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks(n).collect())
    }
    fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
        Par(self.chunks_exact(n).collect())
    }
    fn par_windows(&self, n: usize) -> Par<&[T]> {
        Par(self.windows(n).collect())
    }
}
pub trait ParallelSliceMut<T> {
    fn par_iter_mut(&mut self) -> Par<&mut T>;
    fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]>;
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]>;
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K + Sync + Send);
    fn par_sort_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K + Sync + Send);
    fn par_sort_unstable_by(&mut self, f: impl Fn(&T, &T) -> Ordering + Sync + Send);
}
impl<T> ParallelSliceMut<T> for [T] {
    fn par_iter_mut(&mut self) -> Par<&mut T> {
        Par(self.iter_mut().collect())
    }
    fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
        Par(self.chunks_mut(n).collect())
    }
    fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
        Par(self.chunks_exact_mut(n).collect())
    }
    fn par_sort_unstable_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K + Sync + Send) {
        self.sort_unstable_by_key(f)
    }
    fn par_sort_by_key<K: Ord>(&mut self, f: impl Fn(&T) -> K + Sync + Send) {
        self.sort_by_key(f)
    }
    fn par_sort_unstable_by(&mut self, f: impl Fn(&T, &T) -> Ordering + Sync + Send) {
        self.sort_unstable_by(f)
    }
}

pub mod prelude {
    pub use crate::{IntoParallelIterator, ParallelSlice, ParallelSliceMut};
}
pub mod iter {
    pub use crate::*;
}
