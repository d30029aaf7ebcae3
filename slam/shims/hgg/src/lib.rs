//! Stand-in for `hgg`: nearest neighbours by looking at everything, or, when the simulator says so,
//! approximately: some of the nearest are overlooked, as the real graph search may do.
use space::{Knn, KnnInsert, KnnMap, KnnPoints, Metric, Neighbor};
use std::cell::Cell;

pub mod sim {
    use super::*;
    thread_local! {
        pub(crate) static MISS: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
        pub(crate) static MISSED: Cell<u64> = const { Cell::new(0) };
    }
    /// Overlook about `per_mille` of a thousand neighbours from now on in this thread.
    pub fn approximate(seed: u64, per_mille: u64) {
        MISS.set((seed, per_mille));
        MISSED.set(0);
    }
    pub fn missed() -> u64 {
        MISSED.get()
    }
}

#[derive(Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct HggLite<M, K, V> {
    metric: M,
    keys: Vec<K>,
    values: Vec<V>,
    insert_knn: usize,
}
impl<M: Default, K, V> Default for HggLite<M, K, V> {
    fn default() -> Self {
        Self::new(M::default())
    }
}
impl<M, K, V> HggLite<M, K, V> {
    pub fn new(metric: M) -> Self {
        Self { metric, keys: vec![], values: vec![], insert_knn: 64 }
    }
    pub fn insert_knn(self, insert_knn: usize) -> Self {
        Self { insert_knn, ..self }
    }
    pub fn exclude_all_searched(self, _: bool) -> Self {
        self
    }
    pub fn insert(&mut self, key: K, value: V) -> usize {
        self.keys.push(key);
        self.values.push(value);
        self.keys.len() - 1
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn is_empty(&self) -> bool {
        self.keys.is_empty()
    }
    pub fn get_key(&self, ix: usize) -> Option<&K> {
        self.keys.get(ix)
    }
    pub fn get_value(&self, ix: usize) -> Option<&V> {
        self.values.get(ix)
    }
    pub fn get_value_mut(&mut self, ix: usize) -> Option<&mut V> {
        self.values.get_mut(ix)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.keys.iter().zip(&self.values)
    }
}
impl<M, K, V> HggLite<M, K, V>
where
    M: Metric<K>,
{
    pub fn knn(&self, query: &K, num: usize) -> Vec<Neighbor<M::Unit>> {
        let mut best: Vec<Neighbor<M::Unit>> = Vec::with_capacity(num + 1);
        let (seed, rate) = sim::MISS.get();
        // Never so many that fewer than asked for are left.
        let mut spare = self.keys.len().saturating_sub(num);
        for (index, k) in self.keys.iter().enumerate() {
            if rate > 0 && spare > 0 {
                let mut h = seed ^ (index as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (self.keys.len() as u64) << 32;
                h = (h ^ h >> 29).wrapping_mul(0xbf58_476d_1ce4_e5b9);
                h ^= h >> 32;
                if h % 1000 < rate {
                    spare -= 1;
                    sim::MISSED.set(sim::MISSED.get() + 1);
                    continue;
                }
            }
            let distance = self.metric.distance(query, k);
            let at = best.partition_point(|n| n.distance <= distance);
            if at < num {
                best.insert(at, Neighbor { index, distance });
                best.truncate(num);
            }
        }
        best
    }
}
impl<M: Metric<K>, K, V> Knn for HggLite<M, K, V> {
    type Ix = usize;
    type Point = K;
    type Metric = M;
    type KnnIter = Vec<Neighbor<M::Unit>>;
    fn knn(&self, query: &K, num: usize) -> Vec<Neighbor<M::Unit>> {
        HggLite::knn(self, query, num)
    }
}
impl<M: Metric<K>, K, V> KnnPoints for HggLite<M, K, V> {
    type Points<'a> = std::slice::Iter<'a, K> where Self: 'a;
    fn get_point(&self, index: usize) -> &K {
        &self.keys[index]
    }
}
impl<M: Metric<K>, K, V> KnnMap for HggLite<M, K, V> {
    type Value = V;
    fn get_value(&self, index: usize) -> &V {
        &self.values[index]
    }
}
impl<M: Metric<K>, K, V> KnnInsert for HggLite<M, K, V> {
    fn insert(&mut self, key: K, value: V) -> usize {
        HggLite::insert(self, key, value)
    }
}
