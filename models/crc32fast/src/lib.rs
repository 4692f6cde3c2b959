//! Stand-in for `crc32fast` during symbolic execution: the bytes are collected
//! and the checksum comes from the executor.
extern "C" {
    fn symx_hash(alg: u64, data: *const u8, len: usize, out: *mut u8, outlen: usize);
}
pub fn hash(buf: &[u8]) -> u32 {
    let mut o = [0u8; 4];
    unsafe { symx_hash(8, buf.as_ptr(), buf.len(), o.as_mut_ptr(), 4) };
    u32::from_le_bytes(o)
}
#[derive(Clone, Default, Debug)]
pub struct Hasher {
    buf: Vec<u8>,
}
impl Hasher {
    pub fn new() -> Self {
        Hasher { buf: Vec::new() }
    }
    pub fn update(&mut self, buf: &[u8]) {
        self.buf.extend_from_slice(buf);
    }
    pub fn finalize(self) -> u32 {
        hash(&self.buf)
    }
    pub fn reset(&mut self) {
        self.buf.clear();
    }
    pub fn combine(&mut self, other: &Self) {
        self.buf.extend_from_slice(&other.buf);
    }
}
impl core::hash::Hasher for Hasher {
    fn write(&mut self, bytes: &[u8]) {
        self.update(bytes)
    }
    fn finish(&self) -> u64 {
        u64::from(self.clone().finalize())
    }
}
