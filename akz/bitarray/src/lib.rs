use std::ops::{Deref, DerefMut};
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[repr(align(64))]
pub struct BitArray<const B: usize> {
    pub bytes: [u8; B],
}
impl<const B: usize> BitArray<B> {
    // a call keeps the 4096 literals of cv-sfm from taking minutes to compile
    #[inline(never)]
    pub fn new(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
    pub fn zeros() -> Self {
        Self { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn bytes_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
    pub fn number_of_ones(&self) -> u32 {
        self.bytes.iter().map(|b| b.count_ones()).sum()
    }
    pub fn distance(&self, o: &Self) -> u32 {
        let word = |b: &[u8]| b.iter().enumerate().fold(0u64, |w, (i, x)| w | (*x as u64) << (8 * i));
        self.bytes.chunks(8).zip(o.bytes.chunks(8)).map(|(a, b)| (word(a) ^ word(b)).count_ones()).sum()
    }
}
impl<const B: usize> Default for BitArray<B> {
    fn default() -> Self {
        Self::zeros()
    }
}
impl<const B: usize> Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}
impl<const B: usize> std::fmt::Debug for BitArray<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.bytes[..].fmt(f)
    }
}
#[derive(Default, Copy, Clone, Debug)]
pub struct Hamming;
#[cfg(feature = "serde")]
impl<const B: usize> serde::Serialize for BitArray<B> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.bytes)
    }
}
#[cfg(feature = "serde")]
impl<'de, const B: usize> serde::Deserialize<'de> for BitArray<B> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const B: usize>;
        impl<'de, const B: usize> serde::de::Visitor<'de> for V<B> {
            type Value = BitArray<B>;
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{B} bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<BitArray<B>, E> {
                v.try_into().map(BitArray::new).map_err(|_| E::invalid_length(v.len(), &self))
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<BitArray<B>, E> {
                self.visit_bytes(&v)
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut s: A) -> Result<BitArray<B>, A::Error> {
                let mut v = vec![];
                while let Some(b) = s.next_element::<u8>()? {
                    v.push(b);
                }
                use serde::de::Error;
                v[..].try_into().map(BitArray::new).map_err(|_| A::Error::invalid_length(v.len(), &self))
            }
        }
        d.deserialize_bytes(V::<B>)
    }
}
