//! Interface between a harness and whatever runs it: the symbolic executor (feature `symex`) or
//! the native replayer (native.rs).
extern "C" {
    fn sym_u64(name: *const u8, nlen: usize, lo: u64, hi: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, msg: *const u8, mlen: usize);
    fn sym_reach(msg: *const u8, mlen: usize);
    fn sym_observe(name: *const u8, nlen: usize, v: u64);
    fn sym_concretize(v: u64) -> u64;
    fn sym_fill(p: *mut u8, len: usize, tag: u64);
    fn sym_pat(tag: u64, idx: u64) -> u8;
    fn sym_drain();
    fn sym_cfg(name: *const u8, nlen: usize, v: u64);
    fn sym_advance_ms(ms: u64);
    fn sym_deep() -> u64;
    fn sym_check_pat(p: *const u8, len: usize, tag: u64, idx: u64, msg: *const u8, mlen: usize);
    fn sym_child(f: extern "C" fn()) -> u64;
    fn sym_block(p: *const u8, n: usize, b: u64) -> u64;
}

/// A fresh symbolic value in lo..=hi.
pub fn val(name: &str, lo: u64, hi: u64) -> u64 {
    unsafe { sym_u64(name.as_ptr(), name.len(), lo, hi) }
}
pub fn byte(name: &str) -> u8 {
    val(name, 0, 255) as u8
}
/// A fresh symbolic value in 0..n, split into one path per value.
pub fn choice(name: &str, n: u64) -> u64 {
    unsafe { sym_concretize(val(name, 0, n - 1)) }
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
pub fn concretize(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &str) {
    unsafe { sym_assert(c, msg.as_ptr(), msg.len()) }
}
/// Marks a point that must be reached by some path (vacuity guard).
pub fn reach(msg: &str) {
    unsafe { sym_reach(msg.as_ptr(), msg.len()) }
}
pub fn observe(name: &str, v: u64) {
    unsafe { sym_observe(name.as_ptr(), name.len(), v) }
}
/// Fills the buffer with opaque bytes: byte i is the i-th byte of the value with this tag.
pub fn fill(b: &mut [u8], tag: u64) {
    unsafe { sym_fill(b.as_mut_ptr(), b.len(), tag) }
}
/// The i-th byte of the value with this tag.
pub fn pat(tag: u64, idx: u64) -> u8 {
    unsafe { sym_pat(tag, idx) }
}
/// Lets all other threads run until they are idle.
pub fn drain() {
    unsafe { sym_drain() }
}
pub fn cfg(name: &str, v: u64) {
    unsafe { sym_cfg(name.as_ptr(), name.len(), v) }
}
pub fn advance_ms(ms: u64) {
    unsafe { sym_advance_ms(ms) }
}
/// The bytes are those of the value with this tag from idx on (tag 0: zeros).
pub fn check_pat(b: &[u8], tag: u64, idx: u64, msg: &str) {
    unsafe { sym_check_pat(b.as_ptr(), b.len(), tag, idx, msg.as_ptr(), msg.len()) }
}
/// Runs f in a process of its own. True if it died (a crash point was chosen), false if it finished.
pub fn child(f: extern "C" fn()) -> bool {
    unsafe { sym_child(f) == 1 }
}
/// Whether the 4096-byte block of the file is allocated.
pub fn block(path: &str, b: u64) -> bool {
    unsafe { sym_block(path.as_ptr(), path.len(), b) == 1 }
}
/// Whether the wider bounds apply (the thorough tier).
pub fn deep() -> bool {
    unsafe { sym_deep() == 1 }
}
