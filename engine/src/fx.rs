//! Fast hashing for the engine's tables (keys are small integers and terms, nobody picks them to collide).
use std::hash::{BuildHasherDefault, Hasher};

#[inline]
fn fold(a: u64, b: u64) -> u64 {
    let r = a as u128 * b as u128;
    r as u64 ^ (r >> 64) as u64
}

#[derive(Default, Clone)]
pub struct Fx(u64);

impl Hasher for Fx {
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = fold(self.0.rotate_left(23) ^ x ^ 0x9e37_79b9_7f4a_7c15, 0xd6e8_feb8_6659_fd93);
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64);
    }
    #[inline]
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64);
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64);
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64);
    }
    #[inline]
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = [0u8; 8];
            w[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(w));
        }
        self.write_u64(b.len() as u64);
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
}

pub type HashMap<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

/// 128-bit fingerprint of a sequence of words, from two independent streams.
#[derive(Clone)]
pub struct Print(u64, u64);

impl Print {
    pub fn new() -> Self {
        Print(0x243f_6a88_85a3_08d3, 0x1319_8a2e_0370_7344)
    }
    #[inline]
    pub fn put(&mut self, x: u64) {
        self.0 = fold(self.0.rotate_left(17) ^ x ^ 0xa076_1d64_78bd_642f, 0xe703_7ed1_a0b4_28db).wrapping_add(x);
        self.1 = fold(self.1.rotate_left(31) ^ x ^ 0x8ebc_6af0_9c88_c6e3, 0x5899_65cc_7537_4cc3).wrapping_sub(x.rotate_left(32));
    }
    pub fn finish(&self) -> u128 {
        let mut s = self.clone();
        s.put(0x1d8e_4e27_c47d_124f);
        s.put(0x4cf5_ad43_2745_937f);
        ((s.0 as u128) << 64) | s.1 as u128
    }
}
