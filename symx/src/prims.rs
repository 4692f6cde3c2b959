//! The real primitives, used whenever every input byte is concrete and for
//! choosing solver-model values of symbolic calls.
use cipher::{BlockDecrypt, BlockEncrypt, KeyInit, KeyIvInit, StreamCipher, StreamCipherSeek};
use sha2::Digest;

pub const SHA256: u64 = 1;
pub const SHA512: u64 = 2;
pub const SHA224: u64 = 3;
pub const SHA384: u64 = 4;
pub const HMAC256: u64 = 5; // input: key length (8 bytes LE), key, message
pub const HMAC512: u64 = 6;
pub const ARGON2: u64 = 7; // input: variant(1) version(4) mem(4) time(4) lanes(4) outlen(4) pwdlen(8) saltlen(8) secretlen(8) adlen(8) data
pub const CRC32: u64 = 8;
pub const ADLER: u64 = 9;

pub fn injective(alg: u64) -> bool {
    alg != CRC32 && alg != ADLER
}

fn crc32(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for b in d {
        c ^= *b as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}

pub fn hash(alg: u64, d: &[u8], outlen: usize) -> Option<Vec<u8>> {
    use hmac::Mac;
    let r: Vec<u8> = match alg {
        SHA256 => sha2::Sha256::digest(d).to_vec(),
        SHA512 => sha2::Sha512::digest(d).to_vec(),
        SHA224 => sha2::Sha224::digest(d).to_vec(),
        SHA384 => sha2::Sha384::digest(d).to_vec(),
        HMAC256 | HMAC512 => {
            let kl = u64::from_le_bytes(d.get(..8)?.try_into().ok()?) as usize;
            let k = d.get(8..8 + kl)?;
            let m = &d[8 + kl..];
            if alg == HMAC256 {
                let mut h = <hmac::Hmac<sha2::Sha256> as Mac>::new_from_slice(k).ok()?;
                h.update(m);
                h.finalize().into_bytes().to_vec()
            } else {
                let mut h = <hmac::Hmac<sha2::Sha512> as Mac>::new_from_slice(k).ok()?;
                h.update(m);
                h.finalize().into_bytes().to_vec()
            }
        }
        ARGON2 => {
            let u4 = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap());
            let u8_ = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) as usize;
            if d.len() < 53 {
                return None;
            }
            let (variant, ver, mem, time, lanes) = (d[0], u4(1), u4(5), u4(9), u4(13));
            let (pl, sl, kl, al) = (u8_(21), u8_(29), u8_(37), u8_(45));
            let mut o = 53;
            let mut take = |n: usize| {
                let s = d[o..o + n].to_vec();
                o += n;
                s
            };
            let (pwd, salt, secret, ad) = (take(pl), take(sl), take(kl), take(al));
            if mem > 1 << 17 || time > 64 || lanes > 64 {
                // too expensive: any fixed function will do for a model value
                let mut h = sha2::Sha512::new();
                h.update(b"argon2 stand-in");
                h.update(d);
                let b = h.finalize().to_vec();
                return Some((0..outlen).map(|i| b[i % 64]).collect());
            }
            let cfg = argon2::Config {
                ad: &ad,
                hash_length: outlen as u32,
                lanes,
                mem_cost: mem,
                secret: &secret,
                time_cost: time,
                variant: match variant {
                    0 => argon2::Variant::Argon2d,
                    1 => argon2::Variant::Argon2i,
                    _ => argon2::Variant::Argon2id,
                },
                version: if ver == 0x10 { argon2::Version::Version10 } else { argon2::Version::Version13 },
            };
            argon2::hash_raw(&pwd, &salt, &cfg).ok()?
        }
        CRC32 => crc32(d).to_le_bytes().to_vec(),
        ADLER => {
            let (mut a, mut b) = (1u32, 0u32);
            for x in d {
                a = (a + *x as u32) % 65521;
                b = (b + a) % 65521;
            }
            (b << 16 | a).to_le_bytes().to_vec()
        }
        _ => return None,
    };
    if r.len() != outlen {
        return None;
    }
    Some(r)
}

pub const AES: u64 = 1;
pub const TWOFISH: u64 = 2;

pub fn block(alg: u64, dec: bool, key: &[u8], x: &[u8; 16]) -> Option<[u8; 16]> {
    use cipher::generic_array::GenericArray;
    let mut b = GenericArray::clone_from_slice(x);
    macro_rules! go {
        ($t:ty) => {{
            let c = <$t>::new_from_slice(key).ok()?;
            if dec {
                c.decrypt_block(&mut b)
            } else {
                c.encrypt_block(&mut b)
            }
        }};
    }
    match (alg, key.len()) {
        (AES, 16) => go!(aes::Aes128),
        (AES, 24) => go!(aes::Aes192),
        (AES, 32) => go!(aes::Aes256),
        (TWOFISH, _) => go!(twofish::Twofish),
        _ => return None,
    }
    Some(b.as_slice().try_into().unwrap())
}

pub const CHACHA20: u64 = 1;
pub const SALSA20: u64 = 2;
pub const CHACHA12: u64 = 3;
pub const CHACHA8: u64 = 4;
pub const XCHACHA20: u64 = 5;
pub const SALSA12: u64 = 6;
pub const SALSA8: u64 = 7;

pub fn keystream(alg: u64, key: &[u8], iv: &[u8], pos: u64, len: usize) -> Option<Vec<u8>> {
    let mut v = vec![0u8; len];
    macro_rules! go {
        ($t:ty) => {{
            let mut c = <$t>::new_from_slices(key, iv).ok()?;
            c.try_seek(pos).ok()?;
            c.try_apply_keystream(&mut v).ok()?;
        }};
    }
    match alg {
        CHACHA20 => go!(chacha20::ChaCha20),
        SALSA20 => go!(salsa20::Salsa20),
        CHACHA12 => go!(chacha20::ChaCha12),
        CHACHA8 => go!(chacha20::ChaCha8),
        XCHACHA20 => go!(chacha20::XChaCha20),
        SALSA12 => go!(salsa20::Salsa12),
        SALSA8 => go!(salsa20::Salsa8),
        _ => return None,
    }
    Some(v)
}

/// Deterministic stand-in for the operating system's random source. The
/// native replay build uses the same function.
pub fn random_byte(ctr: u64) -> u8 {
    let mut z = ctr.wrapping_add(1).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) as u8
}
