//! The part of hamming-lsh (0.3) that cv-sfm uses: a bag of features sets the bits of their nearest codewords.
use bitarray::BitArray;

#[derive(Clone, serde::Serialize, serde::Deserialize)]
pub struct HammingHasher<const B: usize, const H: usize> {
    codewords: Vec<BitArray<B>>,
}
impl<const B: usize, const H: usize> HammingHasher<B, H> {
    pub fn new_with_codewords(codewords: Vec<BitArray<B>>) -> Self {
        assert_eq!(codewords.len(), H * 8, "must have as many codewords as bits");
        HammingHasher { codewords }
    }
    pub fn hash_bag<'a>(&self, features: impl IntoIterator<Item = &'a BitArray<B>>) -> BitArray<H> {
        let mut out = BitArray::zeros();
        for f in features {
            let (ix, _) = self.codewords.iter().enumerate().min_by_key(|(_, c)| f.distance(c)).unwrap();
            out.bytes[ix / 8] |= 1 << (ix % 8);
        }
        out
    }
}
