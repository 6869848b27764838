//! Deterministic fingerprints.
#![allow(dead_code)]
use std::hash::{Hash, Hasher};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Simple, fast, deterministic hasher for state fingerprints.
#[derive(Clone)]
pub struct Fp(u64);
impl Fp {
    pub fn new() -> Self {
        Fp(0x1234_5678_9abc_def1)
    }
}
impl Hasher for Fp {
    fn finish(&self) -> u64 {
        mix(self.0)
    }
    fn write(&mut self, b: &[u8]) {
        let mut h = self.0 ^ (b.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            h = (h.rotate_left(5) ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x517c_c1b7_2722_0a95);
            h ^= h >> 29;
        }
        for &c in it.remainder() {
            h = (h.rotate_left(5) ^ c as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
            h ^= h >> 29;
        }
        self.0 = h;
    }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fp::new();
    t.hash(&mut h);
    h.finish()
}

