//! Stand-in for a stream cipher crate during symbolic execution: the keystream
//! comes from the executor (the real one for a concrete key and nonce).
pub use cipher;
use cipher::consts::*;
use cipher::inout::InOutBuf;
use cipher::{IvSizeUser, KeyIvInit, KeySizeUser, StreamCipher, StreamCipherError};
use cipher::{OverflowError, SeekNum, StreamCipherSeek};

extern "C" {
    fn symx_keystream(
        alg: u64,
        key: *const u8,
        keylen: usize,
        iv: *const u8,
        ivlen: usize,
        pos: u64,
        out: *mut u8,
        len: usize,
    );
}

macro_rules! model_stream {
    ($name:ident, $iv:ty, $ivlen:expr, $alg:expr) => {
        #[derive(Clone)]
        pub struct $name {
            key: [u8; 32],
            iv: [u8; $ivlen],
            pos: u64,
        }
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl KeySizeUser for $name {
            type KeySize = U32;
        }
        impl IvSizeUser for $name {
            type IvSize = $iv;
        }
        impl KeyIvInit for $name {
            fn new(key: &cipher::Key<Self>, iv: &cipher::Iv<Self>) -> Self {
                let mut k = [0u8; 32];
                k.copy_from_slice(key.as_slice());
                let mut v = [0u8; $ivlen];
                v.copy_from_slice(iv.as_slice());
                $name { key: k, iv: v, pos: 0 }
            }
        }
        impl StreamCipherSeek for $name {
            fn try_current_pos<T: SeekNum>(&self) -> Result<T, OverflowError> {
                T::from_block_byte(self.pos / 64, (self.pos % 64) as u8, 64)
            }
            fn try_seek<T: SeekNum>(&mut self, pos: T) -> Result<(), StreamCipherError> {
                let (b, o): (u64, u8) = pos.into_block_byte(64).map_err(|_| StreamCipherError)?;
                self.pos = b * 64 + o as u64;
                Ok(())
            }
        }
        impl StreamCipher for $name {
            fn try_apply_keystream_inout(
                &mut self,
                mut buf: InOutBuf<'_, '_, u8>,
            ) -> Result<(), StreamCipherError> {
                let n = buf.len();
                if n == 0 {
                    return Ok(());
                }
                let mut ks = vec![0u8; n];
                unsafe {
                    symx_keystream(
                        $alg,
                        self.key.as_ptr(),
                        32,
                        self.iv.as_ptr(),
                        $ivlen,
                        self.pos,
                        ks.as_mut_ptr(),
                        n,
                    )
                };
                buf.xor_in2out(&ks);
                self.pos += n as u64;
                Ok(())
            }
        }
    };
}
model_stream!(Salsa20, U8, 8, 2);
model_stream!(Salsa12, U8, 8, 6);
model_stream!(Salsa8, U8, 8, 7);
pub type Key = cipher::generic_array::GenericArray<u8, U32>;
pub type Nonce = cipher::generic_array::GenericArray<u8, U8>;
