//! Stand-in for `slotmap`: dense maps whose keys are never valid again once removed.
use std::marker::PhantomData;
use std::ops::{Index, IndexMut};

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct KeyData {
    idx: u32,
    version: u32,
}
impl KeyData {
    pub fn null() -> Self {
        KeyData { idx: u32::MAX, version: 1 }
    }
    pub fn as_ffi(self) -> u64 {
        (self.version as u64) << 32 | self.idx as u64
    }
    pub fn from_ffi(v: u64) -> Self {
        KeyData { idx: v as u32, version: (v >> 32) as u32 | 1 }
    }
}
impl Default for KeyData {
    fn default() -> Self {
        Self::null()
    }
}

pub trait Key:
    From<KeyData> + Copy + Clone + Default + Eq + PartialEq + Ord + PartialOrd + std::hash::Hash + std::fmt::Debug
{
    fn data(&self) -> KeyData;
    fn null() -> Self {
        KeyData::null().into()
    }
    fn is_null(&self) -> bool {
        self.data() == KeyData::null()
    }
}

#[doc(hidden)]
#[cfg(feature = "serde")]
pub mod __serde {
    pub use serde::{Deserialize, Deserializer, Serialize, Serializer};
}
#[doc(hidden)]
#[cfg(feature = "serde")]
#[macro_export]
macro_rules! __key_serde {
    ($name:ident) => {
        impl $crate::__serde::Serialize for $name {
            fn serialize<S: $crate::__serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                $crate::Key::data(self).serialize(s)
            }
        }
        impl<'de> $crate::__serde::Deserialize<'de> for $name {
            fn deserialize<D: $crate::__serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                <$crate::KeyData as $crate::__serde::Deserialize>::deserialize(d).map(Self::from)
            }
        }
    };
}
#[doc(hidden)]
#[cfg(not(feature = "serde"))]
#[macro_export]
macro_rules! __key_serde {
    ($name:ident) => {};
}

#[macro_export]
macro_rules! new_key_type {
    ($($(#[$outer:meta])* $vis:vis struct $name:ident;)*) => {
        $(
            $(#[$outer])*
            #[derive(Copy, Clone, Default, Eq, PartialEq, Ord, PartialOrd, Hash, Debug)]
            #[repr(transparent)]
            $vis struct $name($crate::KeyData);
            impl From<$crate::KeyData> for $name {
                fn from(k: $crate::KeyData) -> Self {
                    $name(k)
                }
            }
            impl $crate::Key for $name {
                fn data(&self) -> $crate::KeyData {
                    self.0
                }
            }
            $crate::__key_serde!($name);
        )*
    };
}
new_key_type! {
    pub struct DefaultKey;
}

#[derive(Debug, Clone, Copy)]
struct Slot {
    /// Odd while occupied.
    version: u32,
    /// Where the value is, or the next free slot.
    at: u32,
}

#[derive(Debug, Clone)]
pub struct DenseSlotMap<K: Key, V> {
    keys: Vec<K>,
    values: Vec<V>,
    slots: Vec<Slot>,
    free: u32,
    _k: PhantomData<fn(K) -> K>,
}
impl<K: Key, V> Default for DenseSlotMap<K, V> {
    fn default() -> Self {
        Self::with_key()
    }
}
impl<V> DenseSlotMap<DefaultKey, V> {
    pub fn new() -> Self {
        Self::with_key()
    }
}
impl<K: Key, V> DenseSlotMap<K, V> {
    pub fn with_key() -> Self {
        // The first slot is never used.
        Self { keys: vec![], values: vec![], slots: vec![Slot { version: 0, at: 0 }], free: 1, _k: PhantomData }
    }
    pub fn with_capacity_and_key(_: usize) -> Self {
        Self::with_key()
    }
    pub fn len(&self) -> usize {
        self.keys.len()
    }
    pub fn is_empty(&self) -> bool {
        self.keys.is_empty()
    }
    fn find(&self, key: K) -> Option<usize> {
        let d = key.data();
        let s = self.slots.get(d.idx as usize)?;
        (s.version == d.version && s.version % 2 == 1).then_some(s.at as usize)
    }
    pub fn contains_key(&self, key: K) -> bool {
        self.find(key).is_some()
    }
    pub fn insert(&mut self, value: V) -> K {
        self.insert_with_key(|_| value)
    }
    pub fn insert_with_key(&mut self, f: impl FnOnce(K) -> V) -> K {
        let idx = self.free;
        if idx as usize == self.slots.len() {
            self.slots.push(Slot { version: 0, at: idx + 1 });
        }
        let s = &mut self.slots[idx as usize];
        let version = s.version | 1;
        let key: K = KeyData { idx, version }.into();
        let value = f(key);
        self.free = s.at;
        *s = Slot { version, at: self.keys.len() as u32 };
        self.keys.push(key);
        self.values.push(value);
        key
    }
    pub fn remove(&mut self, key: K) -> Option<V> {
        let at = self.find(key)?;
        let idx = key.data().idx;
        let s = &mut self.slots[idx as usize];
        *s = Slot { version: s.version.wrapping_add(1), at: self.free };
        self.free = idx;
        self.keys.swap_remove(at);
        let v = self.values.swap_remove(at);
        if let Some(moved) = self.keys.get(at) {
            self.slots[moved.data().idx as usize].at = at as u32;
        }
        Some(v)
    }
    pub fn retain(&mut self, mut f: impl FnMut(K, &mut V) -> bool) {
        let mut i = 0;
        while i < self.keys.len() {
            let key = self.keys[i];
            if f(key, &mut self.values[i]) {
                i += 1;
            } else {
                self.remove(key);
            }
        }
    }
    pub fn clear(&mut self) {
        while let Some(&k) = self.keys.last() {
            self.remove(k);
        }
    }
    pub fn drain(&mut self) -> impl Iterator<Item = (K, V)> {
        let mut out = vec![];
        while let Some(&k) = self.keys.last() {
            out.push((k, self.remove(k).unwrap()));
        }
        out.into_iter()
    }
    pub fn get(&self, key: K) -> Option<&V> {
        self.find(key).map(|i| &self.values[i])
    }
    pub fn get_mut(&mut self, key: K) -> Option<&mut V> {
        self.find(key).map(|i| &mut self.values[i])
    }
    pub fn iter(&self) -> impl ExactSizeIterator<Item = (K, &V)> + Clone {
        self.keys.iter().copied().zip(&self.values)
    }
    pub fn iter_mut(&mut self) -> impl ExactSizeIterator<Item = (K, &mut V)> {
        self.keys.iter().copied().zip(&mut self.values)
    }
    pub fn keys(&self) -> impl ExactSizeIterator<Item = K> + Clone + '_ {
        self.keys.iter().copied()
    }
    pub fn values(&self) -> std::slice::Iter<'_, V> {
        self.values.iter()
    }
    pub fn values_mut(&mut self) -> std::slice::IterMut<'_, V> {
        self.values.iter_mut()
    }
}
impl<K: Key, V> Index<K> for DenseSlotMap<K, V> {
    type Output = V;
    fn index(&self, key: K) -> &V {
        self.get(key).expect("invalid DenseSlotMap key used")
    }
}
impl<K: Key, V> IndexMut<K> for DenseSlotMap<K, V> {
    fn index_mut(&mut self, key: K) -> &mut V {
        self.get_mut(key).expect("invalid DenseSlotMap key used")
    }
}
impl<'a, K: Key, V> IntoIterator for &'a DenseSlotMap<K, V> {
    type Item = (K, &'a V);
    type IntoIter = std::iter::Zip<std::iter::Copied<std::slice::Iter<'a, K>>, std::slice::Iter<'a, V>>;
    fn into_iter(self) -> Self::IntoIter {
        self.keys.iter().copied().zip(self.values.iter())
    }
}

#[cfg(feature = "serde")]
mod serialize {
    use super::*;
    use serde::{de::Error, Deserialize, Deserializer, Serialize, Serializer};
    /// As the real one: by slot, so that the order of a restored map is that of its slots.
    #[derive(serde::Serialize, serde::Deserialize)]
    struct Saved<T> {
        value: Option<T>,
        version: u32,
    }
    impl<K: Key, V: Serialize> Serialize for DenseSlotMap<K, V> {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let slots: Vec<Saved<&V>> = self
                .slots
                .iter()
                .map(|s| Saved {
                    value: (s.version % 2 == 1).then(|| &self.values[s.at as usize]),
                    version: s.version,
                })
                .collect();
            slots.serialize(s)
        }
    }
    impl<'de, K: Key, V: Deserialize<'de>> Deserialize<'de> for DenseSlotMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let saved: Vec<Saved<V>> = Deserialize::deserialize(d)?;
            if saved.is_empty() || saved[0].version % 2 == 1 || saved[0].value.is_some() {
                return Err(D::Error::custom("the first slot must be empty"));
            }
            let mut m = Self { keys: vec![], values: vec![], slots: vec![], free: saved.len() as u32, _k: PhantomData };
            for (i, s) in saved.into_iter().enumerate() {
                if s.value.is_some() != (s.version % 2 == 1) {
                    return Err(D::Error::custom("inconsistent occupation in serialized slot"));
                }
                let at = match s.value {
                    Some(v) => {
                        m.keys.push(KeyData { idx: i as u32, version: s.version }.into());
                        m.values.push(v);
                        m.keys.len() as u32 - 1
                    }
                    None if i == 0 => 0,
                    None => std::mem::replace(&mut m.free, i as u32),
                };
                m.slots.push(Slot { version: s.version, at });
            }
            Ok(m)
        }
    }
}
