//! The part of space (0.17) that cv-sfm uses, for Hamming distances.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Neighbor<Unit, Ix = usize> {
    pub index: Ix,
    pub distance: Unit,
}
pub trait Knn {
    type Point;
    fn knn(&self, query: &Self::Point, num: usize) -> Vec<Neighbor<u32>>;
    fn nn(&self, query: &Self::Point) -> Option<Neighbor<u32>> {
        self.knn(query, 1).into_iter().next()
    }
}
pub trait KnnMap: Knn {
    type Value;
    fn knn_values(&self, query: &Self::Point, num: usize) -> Vec<(Neighbor<u32>, &Self::Value)>;
}
pub trait KnnInsert: KnnMap {
    fn insert(&mut self, key: Self::Point, value: Self::Value) -> usize;
}
