//! The part of slotmap (1.0) that cv-sfm uses: keys of index and version, dense storage, removal by swapping.
pub use serde;
use serde::{Deserialize, Serialize};
use std::fmt;
use std::ops::{Index, IndexMut};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct KeyData {
    idx: u32,
    version: u32,
}
impl KeyData {
    pub fn as_ffi(self) -> u64 {
        (self.version as u64) << 32 | self.idx as u64
    }
}
impl Default for KeyData {
    fn default() -> Self {
        KeyData { idx: u32::MAX, version: 1 }
    }
}
impl fmt::Debug for KeyData {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}v{}", self.idx, self.version)
    }
}
pub trait Key: Copy + Default + Eq + Ord + std::hash::Hash + fmt::Debug + From<KeyData> {
    fn data(&self) -> KeyData;
}
#[macro_export]
macro_rules! new_key_type {
    ($($(#[$m:meta])* $v:vis struct $n:ident;)*) => {$(
        $(#[$m])*
        #[derive(Copy, Clone, Default, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
        $v struct $n($crate::KeyData);
        impl From<$crate::KeyData> for $n {
            fn from(k: $crate::KeyData) -> Self {
                $n(k)
            }
        }
        impl $crate::serde::Serialize for $n {
            fn serialize<S: $crate::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $crate::serde::Serialize::serialize(&self.0, s)
            }
        }
        impl<'de> $crate::serde::Deserialize<'de> for $n {
            fn deserialize<D: $crate::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                $crate::serde::Deserialize::deserialize(d).map($n)
            }
        }
        impl $crate::Key for $n {
            fn data(&self) -> $crate::KeyData {
                self.0
            }
        }
    )*};
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Slot {
    /// odd while occupied
    version: u32,
    /// dense index while occupied, next free slot otherwise
    at: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(bound(serialize = "K: Serialize, V: Serialize", deserialize = "K: Deserialize<'de>, V: Deserialize<'de>"))]
pub struct DenseSlotMap<K: Key, V> {
    keys: Vec<K>,
    values: Vec<V>,
    slots: Vec<Slot>,
    free: u32,
}
impl<K: Key, V> Default for DenseSlotMap<K, V> {
    fn default() -> Self {
        DenseSlotMap { keys: vec![], values: vec![], slots: vec![Slot { version: 0, at: 0 }], free: 1 }
    }
}
impl<K: Key, V> DenseSlotMap<K, V> {
    fn at(&self, key: K) -> Option<usize> {
        let d = key.data();
        let s = self.slots.get(d.idx as usize)?;
        (d.idx > 0 && s.version == d.version && s.version % 2 == 1).then_some(s.at as usize)
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn is_empty(&self) -> bool {
        self.keys.is_empty()
    }
    pub fn contains_key(&self, key: K) -> bool {
        self.at(key).is_some()
    }
    pub fn insert(&mut self, value: V) -> K {
        let at = self.keys.len() as u32;
        let idx = self.free;
        if idx as usize == self.slots.len() {
            self.slots.push(Slot { version: 1, at });
            self.free = idx + 1;
        } else {
            let s = &mut self.slots[idx as usize];
            self.free = s.at;
            s.version += 1;
            s.at = at;
        }
        let key = K::from(KeyData { idx, version: self.slots[idx as usize].version });
        self.keys.push(key);
        self.values.push(value);
        key
    }
    pub fn remove(&mut self, key: K) -> Option<V> {
        let at = self.at(key)?;
        let idx = key.data().idx;
        let s = &mut self.slots[idx as usize];
        s.version = s.version.wrapping_add(1);
        s.at = self.free;
        self.free = idx;
        self.keys.swap_remove(at);
        let v = self.values.swap_remove(at);
        if let Some(k) = self.keys.get(at) {
            self.slots[k.data().idx as usize].at = at as u32;
        }
        Some(v)
    }
    pub fn retain(&mut self, mut f: impl FnMut(K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.keys.len() {
            let k = self.keys[i];
            if f(k, &mut self.values[i]) {
                i += 1;
            } else {
                self.remove(k);
            }
        }
    }
    pub fn clear(&mut self) {
        while let Some(&k) = self.keys.last() {
            self.remove(k);
        }
    }
    pub fn get(&self, key: K) -> Option<&V> {
        self.at(key).map(|i| &self.values[i])
    }
    pub fn get_mut(&mut self, key: K) -> Option<&mut V> {
        self.at(key).map(|i| &mut self.values[i])
    }
    pub fn iter(&self) -> impl Iterator<Item = (K, &V)> + Clone + '_ {
        self.keys.iter().copied().zip(self.values.iter())
    }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (K, &mut V)> + '_ {
        self.keys.iter().copied().zip(self.values.iter_mut())
    }
    pub fn keys(&self) -> impl Iterator<Item = K> + Clone + '_ {
        self.keys.iter().copied()
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + Clone + '_ {
        self.values.iter()
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.values.iter_mut()
    }
}
impl<K: Key, V> Index<K> for DenseSlotMap<K, V> {
    type Output = V;
    fn index(&self, key: K) -> &V {
        self.get(key).expect("invalid DenseSlotMap key used")
    }
}
impl<K: Key, V> IndexMut<K> for DenseSlotMap<K, V> {
    fn index_mut(&mut self, key: K) -> &mut V {
        self.get_mut(key).expect("invalid DenseSlotMap key used")
    }
}
