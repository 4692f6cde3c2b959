//! Stand-in for a block cipher crate during symbolic execution: same types, key
//! sizes and traits; each block goes to the executor (the real permutation on
//! concrete data, an ideal one on symbolic data).
pub use cipher;
use cipher::consts::*;
use cipher::{AlgorithmName, BlockCipher, InvalidLength, Key, KeyInit, KeySizeUser};

extern "C" {
    fn symx_block(alg: u64, dec: u64, key: *const u8, keylen: usize, input: *const u8, out: *mut u8);
}

macro_rules! model_cipher {
    ($name:ident, $ks:ty, $alg:expr, $lens:expr) => {
        #[derive(Clone)]
        pub struct $name {
            k: [u8; 32],
            n: usize,
        }
        impl $name {
            fn from_key(key: &[u8]) -> Self {
                let mut k = [0u8; 32];
                k[..key.len()].copy_from_slice(key);
                $name { k, n: key.len() }
            }
        }
        impl KeySizeUser for $name {
            type KeySize = $ks;
        }
        impl KeyInit for $name {
            fn new(key: &Key<Self>) -> Self {
                Self::from_key(key.as_slice())
            }
            fn new_from_slice(key: &[u8]) -> Result<Self, InvalidLength> {
                let lens: &[usize] = &$lens;
                if !lens.contains(&key.len()) {
                    return Err(InvalidLength);
                }
                Ok(Self::from_key(key))
            }
        }
        impl BlockCipher for $name {}
        impl core::fmt::Debug for $name {
            fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        impl AlgorithmName for $name {
            fn write_alg_name(f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
                f.write_str(stringify!($name))
            }
        }
        cipher::impl_simple_block_encdec!(
            $name, U16, this, block,
            encrypt: {
                let t = *block.get_in();
                let mut o = t;
                unsafe { symx_block($alg, 0, this.k.as_ptr(), this.n, t.as_ptr(), o.as_mut_ptr()) };
                *block.get_out() = o;
            }
            decrypt: {
                let t = *block.get_in();
                let mut o = t;
                unsafe { symx_block($alg, 1, this.k.as_ptr(), this.n, t.as_ptr(), o.as_mut_ptr()) };
                *block.get_out() = o;
            }
        );
    };
}
model_cipher!(Aes128, U16, 1, [16]);
model_cipher!(Aes192, U24, 1, [24]);
model_cipher!(Aes256, U32, 1, [32]);
pub type Aes128Enc = Aes128;
pub type Aes128Dec = Aes128;
pub type Aes192Enc = Aes192;
pub type Aes192Dec = Aes192;
pub type Aes256Enc = Aes256;
pub type Aes256Dec = Aes256;
pub type Block = cipher::generic_array::GenericArray<u8, U16>;
