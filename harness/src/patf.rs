//! The concrete stand-in for the executor's opaque bytes (same formula as engine/src/expr.rs).
pub fn pat_byte(tag: u64, idx: u64) -> u8 {
    let mut x = tag.wrapping_mul(0x9e3779b97f4a7c15) ^ idx.wrapping_mul(0xd1342543de82ef95);
    x ^= x >> 29;
    x = x.wrapping_mul(0xbf58476d1ce4e5b9);
    x ^= x >> 32;
    (x % 255) as u8 + 1
}
