//! The few names the shared modules expect.
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Plane {
    pub fired: BTreeMap<&'static str, u64>,
}

pub struct Hasher(u64);
impl Hasher {
    pub fn new() -> Self {
        Hasher(0xcbf29ce484222325)
    }
    pub fn put(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
        self.0 ^= self.0 >> 29;
    }
    pub fn finish(&self) -> u64 {
        crate::rng::mix(self.0)
    }
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = Hasher::new();
    h.put(s.as_bytes());
    h.finish()
}
