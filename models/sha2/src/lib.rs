//! Stand-in for the `sha2` crate during symbolic execution. Types, traits and
//! update/finalise protocol are those of the real crate; the digest value comes
//! from the executor (the real function on concrete data, an ideal hash on
//! symbolic data). Native replay links the real crate.
pub use digest::{self, Digest};
use digest::consts::{U128, U28, U32, U48, U64};
use digest::{
    core_api::BlockSizeUser, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser,
    Reset, Update,
};

extern "C" {
    fn symx_hash(alg: u64, data: *const u8, len: usize, out: *mut u8, outlen: usize);
}

macro_rules! model_hash {
    ($name:ident, $out:ty, $block:ty, $alg:expr) => {
        #[derive(Clone, Default)]
        pub struct $name {
            buf: Vec<u8>,
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl HashMarker for $name {}
        impl OutputSizeUser for $name {
            type OutputSize = $out;
        }
        impl BlockSizeUser for $name {
            type BlockSize = $block;
        }
        impl Update for $name {
            fn update(&mut self, data: &[u8]) {
                self.buf.extend_from_slice(data);
            }
        }
        impl FixedOutput for $name {
            fn finalize_into(self, out: &mut Output<Self>) {
                unsafe {
                    symx_hash($alg, self.buf.as_ptr(), self.buf.len(), out.as_mut_ptr(), out.len())
                }
            }
        }
        impl Reset for $name {
            fn reset(&mut self) {
                self.buf.clear();
            }
        }
        impl FixedOutputReset for $name {
            fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
                let old = core::mem::take(self);
                FixedOutput::finalize_into(old, out);
            }
        }
        #[cfg(feature = "std")]
        impl std::io::Write for $name {
            fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
                Update::update(self, buf);
                Ok(buf.len())
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
    };
}

model_hash!(Sha256, U32, U64, 1);
model_hash!(Sha512, U64, U128, 2);
model_hash!(Sha224, U28, U64, 3);
model_hash!(Sha384, U48, U128, 4);
