//! Stand-in for `hamming-lsh`: a bag of words that keeps which of them occur.
use bitarray::BitArray;

#[derive(Debug, Clone)]
#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
pub struct HammingHasher<const B: usize, const H: usize> {
    codewords: Vec<BitArray<B>>,
}
impl<const B: usize, const H: usize> HammingHasher<B, H> {
    pub fn new_with_codewords(codewords: Vec<BitArray<B>>) -> Self {
        assert_eq!(codewords.len(), H * 8);
        // What a bag hashes to depends on a few of the words only, so that simulated sessions are
        // quick to save.
        Self { codewords: codewords[..1].to_vec() }
    }
    pub fn hash_bag<'a>(&self, features: impl IntoIterator<Item = &'a BitArray<B>>) -> BitArray<H> {
        let mut out = BitArray::zeros();
        for f in features {
            let word: Vec<u8> = f.bytes().iter().zip(self.codewords[0].bytes()).map(|(a, b)| a ^ b).collect();
            let n = (word[0] as usize | (word[1] as usize) << 8) % (8 * H);
            out.bytes[n / 8] |= 1 << (n % 8);
        }
        out
    }
}
