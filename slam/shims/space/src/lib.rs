//! Stand-in for `space` 0.17: the traits, and the linear search.
pub trait Metric<P> {
    type Unit: Ord + Copy;
    fn distance(&self, a: &P, b: &P) -> Self::Unit;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Neighbor<Unit, Ix = usize> {
    pub index: Ix,
    pub distance: Unit,
}

pub trait Knn {
    type Ix: Copy;
    type Point;
    type Metric: Metric<Self::Point>;
    type KnnIter: IntoIterator<Item = Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>>;
    fn knn(&self, query: &Self::Point, num: usize) -> Self::KnnIter;
    fn nn(
        &self,
        query: &Self::Point,
    ) -> Option<Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>> {
        self.knn(query, 1).into_iter().next()
    }
}

pub trait KnnPoints: Knn {
    type Points<'a>
    where
        Self: 'a;
    fn get_point(&self, index: Self::Ix) -> &'_ Self::Point;
}

pub trait KnnMap: Knn {
    type Value;
    fn get_value(&self, index: Self::Ix) -> &'_ Self::Value;
    #[allow(clippy::type_complexity)]
    fn knn_values(
        &self,
        query: &Self::Point,
        num: usize,
    ) -> Vec<(
        Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>,
        &'_ Self::Value,
    )> {
        self.knn(query, num)
            .into_iter()
            .map(|n| (n, self.get_value(n.index)))
            .collect()
    }
    #[allow(clippy::type_complexity)]
    fn nn_value(
        &self,
        query: &Self::Point,
    ) -> Option<(
        Neighbor<<Self::Metric as Metric<Self::Point>>::Unit, Self::Ix>,
        &'_ Self::Value,
    )> {
        self.knn_values(query, 1).into_iter().next()
    }
}

pub trait KnnInsert: KnnMap {
    fn insert(&mut self, key: Self::Point, value: Self::Value) -> Self::Ix;
}

/// Linear search over anything that can be iterated again and again.
pub struct LinearKnn<M, I> {
    pub metric: M,
    pub iter: I,
}

impl<'a, P, M, I> Knn for LinearKnn<M, I>
where
    P: 'a,
    M: Metric<P>,
    I: Iterator<Item = &'a P> + Clone,
{
    type Ix = usize;
    type Point = P;
    type Metric = M;
    type KnnIter = Vec<Neighbor<M::Unit>>;
    fn knn(&self, query: &P, num: usize) -> Vec<Neighbor<M::Unit>> {
        let mut all: Vec<_> = self
            .iter
            .clone()
            .enumerate()
            .map(|(index, p)| Neighbor { index, distance: self.metric.distance(query, p) })
            .collect();
        all.sort_by_key(|n| n.distance);
        all.truncate(num);
        all
    }
}
