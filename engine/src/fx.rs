//! A small fast hasher (multiply-rotate) for the engine's tables.
#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
const K: u64 = 0x517c_c1b7_2722_0a95;
impl Fx { #[inline] fn mix(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(K); } }
impl std::hash::Hasher for Fx {
    #[inline] fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    #[inline] fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = 0u64; for (i, y) in c.iter().enumerate() { x |= (*y as u64) << (8 * i); } self.mix(x); } }
    #[inline] fn write_u8(&mut self, x: u8) { self.mix(x as u64) }
    #[inline] fn write_u32(&mut self, x: u32) { self.mix(x as u64) }
    #[inline] fn write_u64(&mut self, x: u64) { self.mix(x) }
    #[inline] fn write_usize(&mut self, x: usize) { self.mix(x as u64) }
}
pub type B = std::hash::BuildHasherDefault<Fx>;
pub type HashMap<K, V> = std::collections::HashMap<K, V, B>;
pub type HashSet<K> = std::collections::HashSet<K, B>;
