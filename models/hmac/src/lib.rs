//! Stand-in for the `hmac` crate during symbolic execution: same traits, the
//! tag comes from the executor. The input handed over is
//! len(key) as u64 LE || key || message.
pub use digest;
pub use digest::Mac;
use digest::crypto_common::KeySizeUser;
use digest::typenum::Unsigned;
use digest::{
    core_api::BlockSizeUser, crypto_common::Key, Digest, FixedOutput, FixedOutputReset,
    InvalidLength, KeyInit, MacMarker, Output, OutputSizeUser, Reset, Update,
};

extern "C" {
    fn symx_hash(alg: u64, data: *const u8, len: usize, out: *mut u8, outlen: usize);
}

#[derive(Clone)]
pub struct Hmac<D: Digest + BlockSizeUser + Clone> {
    buf: Vec<u8>,
    keyed: usize,
    d: core::marker::PhantomData<D>,
}
pub type SimpleHmac<D> = Hmac<D>;

impl<D: Digest + BlockSizeUser + Clone> core::fmt::Debug for Hmac<D> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Hmac")
    }
}
impl<D: Digest + BlockSizeUser + Clone> MacMarker for Hmac<D> {}
impl<D: Digest + BlockSizeUser + Clone> OutputSizeUser for Hmac<D> {
    type OutputSize = D::OutputSize;
}
impl<D: Digest + BlockSizeUser + Clone> BlockSizeUser for Hmac<D> {
    type BlockSize = D::BlockSize;
}
impl<D: Digest + BlockSizeUser + Clone> KeySizeUser for Hmac<D> {
    type KeySize = D::BlockSize;
}
impl<D: Digest + BlockSizeUser + Clone> KeyInit for Hmac<D> {
    fn new(key: &Key<Self>) -> Self {
        <Self as KeyInit>::new_from_slice(key.as_slice()).unwrap()
    }
    fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
        let mut buf = Vec::with_capacity(key.len() + 72);
        buf.extend_from_slice(&(key.len() as u64).to_le_bytes());
        buf.extend_from_slice(key);
        let keyed = buf.len();
        Ok(Hmac { buf, keyed, d: core::marker::PhantomData })
    }
}
impl<D: Digest + BlockSizeUser + Clone> Update for Hmac<D> {
    fn update(&mut self, data: &[u8]) {
        self.buf.extend_from_slice(data);
    }
}
impl<D: Digest + BlockSizeUser + Clone> Hmac<D> {
    fn tag(&self, out: &mut Output<Self>) {
        let alg = match D::OutputSize::USIZE {
            32 => 5,
            64 => 6,
            _ => 0,
        };
        unsafe { symx_hash(alg, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr(), out.len()) }
    }
}
impl<D: Digest + BlockSizeUser + Clone> FixedOutput for Hmac<D> {
    fn finalize_into(self, out: &mut Output<Self>) {
        self.tag(out);
    }
}
impl<D: Digest + BlockSizeUser + Clone> Reset for Hmac<D> {
    fn reset(&mut self) {
        self.buf.truncate(self.keyed);
    }
}
impl<D: Digest + BlockSizeUser + Clone> FixedOutputReset for Hmac<D> {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        self.tag(out);
        self.buf.truncate(self.keyed);
    }
}
