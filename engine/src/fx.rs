//! Small fast hasher for the engine's own tables.
use std::hash::{BuildHasherDefault, Hasher};
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn finish(&self) -> u64 { self.0.rotate_left(26) }
    #[inline]
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    #[inline]
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    #[inline]
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    #[inline]
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0xf135_7aea_2e62_a9c5) }
    #[inline]
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    #[inline]
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
}
pub type Map<K, V> = std::collections::HashMap<K, V, BuildHasherDefault<Fx>>;
pub type Set<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;
