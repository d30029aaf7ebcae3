//! Stand-in for `bitarray` 0.9: a fixed number of bytes compared by Hamming distance.
use std::hash::{Hash, Hasher};
use std::ops::{Deref, DerefMut};

#[derive(Copy, Clone)]
#[repr(align(64))]
pub struct BitArray<const B: usize> {
    pub bytes: [u8; B],
}

impl<const B: usize> BitArray<B> {
    pub fn new(bytes: [u8; B]) -> Self {
        Self { bytes }
    }
    pub fn zeros() -> Self {
        Self { bytes: [0; B] }
    }
    pub fn bytes(&self) -> &[u8; B] {
        &self.bytes
    }
    pub fn bytes_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
    pub fn weight(&self) -> u32 {
        self.bytes.iter().map(|b| b.count_ones()).sum()
    }
    pub fn distance(&self, other: &Self) -> u32 {
        self.bytes.iter().zip(&other.bytes).map(|(a, b)| (a ^ b).count_ones()).sum()
    }
}
impl<const B: usize> Default for BitArray<B> {
    fn default() -> Self {
        Self::zeros()
    }
}
impl<const B: usize> std::fmt::Debug for BitArray<B> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.bytes[..].fmt(f)
    }
}
impl<const B: usize> PartialEq for BitArray<B> {
    fn eq(&self, o: &Self) -> bool {
        self.bytes == o.bytes
    }
}
impl<const B: usize> Eq for BitArray<B> {}
impl<const B: usize> PartialOrd for BitArray<B> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<const B: usize> Ord for BitArray<B> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.bytes.cmp(&o.bytes)
    }
}
impl<const B: usize> Hash for BitArray<B> {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.bytes.hash(state)
    }
}
impl<const B: usize> Deref for BitArray<B> {
    type Target = [u8; B];
    fn deref(&self) -> &[u8; B] {
        &self.bytes
    }
}
impl<const B: usize> DerefMut for BitArray<B> {
    fn deref_mut(&mut self) -> &mut [u8; B] {
        &mut self.bytes
    }
}

#[cfg(feature = "serde")]
impl<const B: usize> serde::Serialize for BitArray<B> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.bytes)
    }
}
#[cfg(feature = "serde")]
impl<'de, const B: usize> serde::Deserialize<'de> for BitArray<B> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V<const B: usize>;
        impl<'de, const B: usize> serde::de::Visitor<'de> for V<B> {
            type Value = BitArray<B>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                write!(f, "{B} bytes")
            }
            fn visit_bytes<E: serde::de::Error>(self, v: &[u8]) -> Result<BitArray<B>, E> {
                Ok(BitArray {
                    bytes: v.try_into().map_err(|_| E::invalid_length(v.len(), &self))?,
                })
            }
            fn visit_byte_buf<E: serde::de::Error>(self, v: Vec<u8>) -> Result<BitArray<B>, E> {
                self.visit_bytes(&v)
            }
        }
        d.deserialize_bytes(V::<B>)
    }
}

#[derive(Debug, Copy, Clone, Default, PartialEq, Eq)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct Hamming;

impl<const B: usize> space_shim::Metric<BitArray<B>> for Hamming {
    type Unit = u32;
    fn distance(&self, a: &BitArray<B>, b: &BitArray<B>) -> u32 {
        a.distance(b)
    }
}
