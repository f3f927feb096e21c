//! Stand-in: hash containers with a fixed (seedless) hasher, as in bevy_utils.
use std::hash::{BuildHasher, Hasher};

/// FNV-1a with a final mix: deterministic across runs and processes.
#[derive(Clone)]
pub struct FixedHasher(u64);
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 33;
        h = h.wrapping_mul(0xff51afd7ed558ccd);
        h ^= h >> 33;
        h = h.wrapping_mul(0xc4ceb9fe1a85ec53);
        h ^ (h >> 33)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.write_u64(i as u32 as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
}

#[derive(Copy, Clone, Default, Debug)]
pub struct FixedState;
impl BuildHasher for FixedState {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(0xcbf29ce484222325)
    }
}

pub type StableHashMap<K, V> = std::collections::HashMap<K, V, FixedState>;
pub type StableHashSet<K> = std::collections::HashSet<K, FixedState>;
