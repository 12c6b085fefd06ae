//! The part of hgg (0.4) that cv-sfm uses. The search is exhaustive and exact.
use bitarray::{BitArray, Hamming};
use space::{Knn, KnnInsert, KnnMap, Neighbor};

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
#[serde(bound(serialize = "K: serde::Serialize, V: serde::Serialize", deserialize = "M: Default, K: serde::Deserialize<'de>, V: serde::Deserialize<'de>"))]
pub struct HggLite<M, K, V> {
    keys: Vec<K>,
    values: Vec<V>,
    #[serde(skip)]
    _m: M,
}
impl<M: Default, K, V> Default for HggLite<M, K, V> {
    fn default() -> Self {
        Self::new(M::default())
    }
}
impl<M, K, V> HggLite<M, K, V> {
    pub fn new(metric: M) -> Self {
        HggLite { keys: vec![], values: vec![], _m: metric }
    }
    pub fn insert_knn(self, _n: usize) -> Self {
        self
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn is_empty(&self) -> bool {
        self.keys.is_empty()
    }
    pub fn get_key(&self, ix: usize) -> Option<&K> {
        self.keys.get(ix)
    }
    pub fn get_value(&self, ix: usize) -> Option<&V> {
        self.values.get(ix)
    }
    pub fn get_value_mut(&mut self, ix: usize) -> Option<&mut V> {
        self.values.get_mut(ix)
    }
}
impl<const B: usize, V> Knn for HggLite<Hamming, BitArray<B>, V> {
    type Point = BitArray<B>;
    fn knn(&self, query: &BitArray<B>, num: usize) -> Vec<Neighbor<u32>> {
        let mut best: Vec<Neighbor<u32>> = Vec::with_capacity(num + 1);
        for (index, k) in self.keys.iter().enumerate() {
            let distance = query.distance(k);
            if best.len() < num || best.last().is_some_and(|b| distance < b.distance) {
                let at = best.partition_point(|b| b.distance <= distance);
                best.insert(at, Neighbor { index, distance });
                best.truncate(num);
            }
        }
        best
    }
}
impl<const B: usize, V> KnnMap for HggLite<Hamming, BitArray<B>, V> {
    type Value = V;
    fn knn_values(&self, query: &BitArray<B>, num: usize) -> Vec<(Neighbor<u32>, &V)> {
        self.knn(query, num).into_iter().map(|n| (n, &self.values[n.index])).collect()
    }
}
impl<const B: usize, V> KnnInsert for HggLite<Hamming, BitArray<B>, V> {
    fn insert(&mut self, key: BitArray<B>, value: V) -> usize {
        self.keys.push(key);
        self.values.push(value);
        self.keys.len() - 1
    }
}
