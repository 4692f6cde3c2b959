//! Interface to the environment: the symbolic executor, or the native replayer.
extern "C" {
    fn symx_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
    fn symx_choose(n: u64) -> u64;
    fn symx_below(v: u64, n: u64) -> u64;
    fn symx_assume(c: u32);
    fn symx_check(c: u32, name: *const u8, nl: usize);
    fn symx_cover(k: u64);
    fn symx_observe(tag: u64, p: *const u8, n: usize);
    fn symx_limit(k: u64, v: u64);
    fn symx_param(i: u64) -> u64;
    #[allow(dead_code)]
    fn symx_note(p: *const u8, n: usize);
}
/// `n` arbitrary bytes.
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    unsafe { symx_bytes(v.as_mut_ptr(), n, name.as_ptr(), name.len()) };
    v
}
pub fn arr<const N: usize>(name: &str) -> [u8; N] {
    let mut v = [0u8; N];
    unsafe { symx_bytes(v.as_mut_ptr(), N, name.as_ptr(), name.len()) };
    v
}
pub fn u8_(name: &str) -> u8 {
    arr::<1>(name)[0]
}
pub fn u16_(name: &str) -> u16 {
    u16::from_le_bytes(arr(name))
}
pub fn u32_(name: &str) -> u32 {
    u32::from_le_bytes(arr(name))
}
pub fn u64_(name: &str) -> u64 {
    u64::from_le_bytes(arr(name))
}
/// An arbitrary number below `n`.
pub fn below(n: u32, name: &str) -> u32 {
    unsafe { symx_below(u32_(name) as u64, n as u64) as u32 }
}
/// Every value below `n`, one path each.
pub fn choose(n: usize) -> usize {
    unsafe { symx_choose(n as u64) as usize }
}
pub fn flip() -> bool {
    choose(2) == 1
}
pub fn assume(c: bool) {
    unsafe { symx_assume(c as u32) }
}
/// The property: must hold for every value on every path.
pub fn check(c: bool, name: &str) {
    unsafe { symx_check(c as u32, name.as_ptr(), name.len()) }
}
pub fn cover(k: u64) {
    unsafe { symx_cover(k) }
}
/// Recorded on both sides and compared by the replay.
pub fn observe(tag: u64, b: &[u8]) {
    unsafe { symx_observe(tag, b.as_ptr(), b.len()) }
}
pub fn param(i: u64) -> usize {
    unsafe { symx_param(i) as usize }
}
pub fn max_alloc(n: usize) {
    unsafe { symx_limit(0, n as u64) }
}
pub fn symbolic_random() {
    unsafe { symx_limit(2, 1) }
}
/// Another seed for the iteration order of hash maps.
pub fn hash_seed(k: u64) {
    unsafe { symx_limit(4, k) }
}
/// From here on running for more than `n` instructions is the expected outcome.
pub fn long_run(n: u64) {
    unsafe { symx_limit(5, n) }
}
#[allow(dead_code)]
pub fn note(s: &str) {
    unsafe { symx_note(s.as_ptr(), s.len()) }
}
/// Byte equality as one condition (no branching on contents).
pub fn same(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a == b
}
/// Arbitrary text of `n` ASCII bytes.
pub fn ascii(n: usize, name: &str) -> String {
    let v = bytes(n, name);
    for b in &v {
        assume(*b < 0x80);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Arbitrary printable ASCII text without markup.
pub fn word(n: usize, name: &str) -> String {
    let v = bytes(n, name);
    for b in &v {
        assume((*b > 0x20) & (*b < 0x7f) & (*b != b'<') & (*b != b'>') & (*b != b'&') & (*b != b'"') & (*b != b'\''));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A claimed 32-bit length: every value below `n`, or anything of at least 64 KiB.
pub fn length(n: usize, name: &str) -> u32 {
    let c = choose(n + 1);
    if c < n {
        return c as u32;
    }
    let v = u32_(name);
    assume(v >= 1 << 16);
    v
}
