//! The part of average (0.13) that cv-sfm uses.
#[derive(Debug, Clone, Default)]
pub struct Mean {
    avg: f64,
    n: u64,
}
impl Mean {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn add(&mut self, x: f64) {
        self.n += 1;
        self.avg += (x - self.avg) / self.n as f64;
    }
    pub fn mean(&self) -> f64 {
        self.avg
    }
    pub fn len(&self) -> u64 {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
}
impl FromIterator<f64> for Mean {
    fn from_iter<T: IntoIterator<Item = f64>>(iter: T) -> Self {
        let mut m = Mean::new();
        iter.into_iter().for_each(|x| m.add(x));
        m
    }
}
