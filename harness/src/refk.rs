//! Independent writer and reader of the KDBX 3 and KDBX 4 container, written
//! from the format description. Shares only the primitives with the library.
#![allow(dead_code)]
use cipher::generic_array::GenericArray;
use cipher::{BlockDecrypt, BlockEncrypt, KeyInit, KeyIvInit, StreamCipher};
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};

pub const AES256: [u8; 16] = [0x31, 0xc1, 0xf2, 0xe6, 0xbf, 0x71, 0x43, 0x50, 0xbe, 0x58, 0x05, 0x21, 0x6a, 0xfc, 0x5a, 0xff];
pub const TWOFISH: [u8; 16] = [0xad, 0x68, 0xf2, 0x9f, 0x57, 0x6f, 0x4b, 0xb9, 0xa3, 0x6a, 0xd4, 0x7a, 0xf9, 0x65, 0x34, 0x6c];
pub const CHACHA20: [u8; 16] = [0xd6, 0x03, 0x8a, 0x2b, 0x8b, 0x6f, 0x4c, 0xb5, 0xa5, 0x24, 0x33, 0x9a, 0x31, 0xdb, 0xb5, 0x9a];
pub const KDF_AES31: [u8; 16] = [0xc9, 0xd9, 0xf3, 0x9a, 0x62, 0x8a, 0x44, 0x60, 0xbf, 0x74, 0x0d, 0x08, 0xc1, 0x8a, 0x4f, 0xea];
pub const KDF_AES4: [u8; 16] = [0x7c, 0x02, 0xbb, 0x82, 0x79, 0xa7, 0x4a, 0xc0, 0x92, 0x7d, 0x11, 0x4a, 0x00, 0x64, 0x82, 0x38];
pub const KDF_ARGON2D: [u8; 16] = [0xef, 0x63, 0x6d, 0xdf, 0x8c, 0x29, 0x44, 0x4b, 0x91, 0xf7, 0xa9, 0xa4, 0x03, 0xe3, 0x0a, 0x0c];
pub const KDF_ARGON2ID: [u8; 16] = [0x9e, 0x29, 0x8b, 0x19, 0x56, 0xdb, 0x47, 0x73, 0xb2, 0x3d, 0xfc, 0x3e, 0xc6, 0xf0, 0xa1, 0xe6];
pub const SIGNATURE: [u8; 8] = [0x03, 0xd9, 0xa2, 0x9a, 0x67, 0xfb, 0x4b, 0xb5];

#[derive(Clone)]
pub enum Kdf {
    /// id: false = 2d, true = 2id
    Argon2 { id: bool, mem: u64, iters: u64, lanes: u32, version: u32, salt: Vec<u8> },
    /// old: identifier of KDBX 3.1 instead of the one of KDBX 4
    Aes { rounds: u64, salt: Vec<u8>, old: bool },
}
#[derive(Clone)]
pub struct Spec {
    pub major: u16,
    pub minor: u16,
    pub cipher: [u8; 16],
    pub compression: u32,
    pub seed: Vec<u8>,
    pub iv: Vec<u8>,
    pub kdf: Kdf,
    pub inner_alg: u32,
    pub inner_key: Vec<u8>,
    pub extra_outer: Vec<(u8, Vec<u8>)>,
    pub extra_inner: Vec<(u8, Vec<u8>)>,
    /// order in which the outer fields are written (indices into the field list)
    pub order: Vec<usize>,
    pub end_filler: Vec<u8>,
    pub start_bytes: Vec<u8>,
    /// sizes of the payload blocks; the rest goes into a last one
    pub splits: Vec<usize>,
}

pub fn sha256(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
pub fn sha512(parts: &[&[u8]]) -> Vec<u8> {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().to_vec()
}
pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
    let mut h = <Hmac<Sha256> as Mac>::new_from_slice(key).unwrap();
    for p in parts {
        h.update(p);
    }
    h.finalize().into_bytes().to_vec()
}
/// SHA-256 over the concatenated hashes of the credentials.
pub fn composite(pw: Option<&[u8]>, keyfile: Option<&[u8]>) -> Vec<u8> {
    let mut b = Vec::new();
    if let Some(p) = pw {
        b.extend_from_slice(&sha256(&[p]));
    }
    if let Some(k) = keyfile {
        b.extend_from_slice(&sha256(&[k]));
    }
    sha256(&[&b])
}
pub fn transform(kdf: &Kdf, composite: &[u8]) -> Vec<u8> {
    match kdf {
        Kdf::Argon2 { id, mem, iters, lanes, version, salt } => {
            let c = argon2::Config {
                variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
                version: if *version == 0x10 { argon2::Version::Version10 } else { argon2::Version::Version13 },
                lanes: *lanes,
                mem_cost: (*mem / 1024) as u32,
                time_cost: *iters as u32,
                hash_length: 32,
                secret: &[],
                ad: &[],
                ..argon2::Config::default()
            };
            argon2::hash_raw(composite, salt, &c).unwrap()
        }
        Kdf::Aes { rounds, salt, .. } => {
            let a = aes::Aes256::new_from_slice(salt).unwrap();
            let mut l = GenericArray::clone_from_slice(&composite[..16]);
            let mut r = GenericArray::clone_from_slice(&composite[16..]);
            for _ in 0..*rounds {
                a.encrypt_block(&mut l);
                a.encrypt_block(&mut r);
            }
            sha256(&[&l, &r])
        }
    }
}
pub struct Keys {
    pub cipher: Vec<u8>,
    pub hmac: Vec<u8>,
}
pub fn keys(seed: &[u8], transformed: &[u8]) -> Keys {
    Keys { cipher: sha256(&[seed, transformed]), hmac: sha512(&[seed, transformed, &[1]]) }
}
pub fn block_key(k: &Keys, i: u64) -> Vec<u8> {
    sha512(&[&i.to_le_bytes(), &k.hmac])
}
pub fn header_tag(k: &Keys, header: &[u8]) -> Vec<u8> {
    hmac256(&block_key(k, u64::MAX), &[header])
}
pub fn block_tag(k: &Keys, i: u64, data: &[u8]) -> Vec<u8> {
    hmac256(&block_key(k, i), &[&i.to_le_bytes(), &(data.len() as u32).to_le_bytes(), data])
}
fn vd(out: &mut Vec<u8>, ty: u8, name: &str, data: &[u8]) {
    out.push(ty);
    out.extend_from_slice(&(name.len() as i32).to_le_bytes());
    out.extend_from_slice(name.as_bytes());
    out.extend_from_slice(&(data.len() as i32).to_le_bytes());
    out.extend_from_slice(data);
}
pub fn kdf_dict(kdf: &Kdf) -> Vec<u8> {
    let mut o = vec![0, 1];
    match kdf {
        Kdf::Argon2 { id, mem, iters, lanes, version, salt } => {
            vd(&mut o, 0x42, "$UUID", if *id { &KDF_ARGON2ID } else { &KDF_ARGON2D });
            vd(&mut o, 0x42, "S", salt);
            vd(&mut o, 0x04, "P", &lanes.to_le_bytes());
            vd(&mut o, 0x05, "M", &mem.to_le_bytes());
            vd(&mut o, 0x05, "I", &iters.to_le_bytes());
            vd(&mut o, 0x04, "V", &version.to_le_bytes());
        }
        Kdf::Aes { rounds, salt, old } => {
            vd(&mut o, 0x42, "$UUID", if *old { &KDF_AES31 } else { &KDF_AES4 });
            vd(&mut o, 0x05, "R", &rounds.to_le_bytes());
            vd(&mut o, 0x42, "S", salt);
        }
    }
    o.push(0);
    o
}
pub fn tlv(major: u16, out: &mut Vec<u8>, id: u8, data: &[u8]) {
    out.push(id);
    if major >= 4 {
        out.extend_from_slice(&(data.len() as u32).to_le_bytes());
    } else {
        out.extend_from_slice(&(data.len() as u16).to_le_bytes());
    }
    out.extend_from_slice(data);
}
pub fn outer_fields(s: &Spec) -> Vec<(u8, Vec<u8>)> {
    let mut f: Vec<(u8, Vec<u8>)> = vec![
        (2, s.cipher.to_vec()),
        (3, s.compression.to_le_bytes().to_vec()),
        (4, s.seed.clone()),
        (7, s.iv.clone()),
    ];
    if s.major >= 4 {
        f.push((11, kdf_dict(&s.kdf)));
    } else {
        if let Kdf::Aes { rounds, salt, .. } = &s.kdf {
            f.push((5, salt.clone()));
            f.push((6, rounds.to_le_bytes().to_vec()));
        }
        f.push((8, s.inner_key.clone()));
        f.push((9, s.start_bytes.clone()));
        f.push((10, s.inner_alg.to_le_bytes().to_vec()));
    }
    f.extend(s.extra_outer.iter().cloned());
    f
}
pub fn header(s: &Spec) -> Vec<u8> {
    let mut o = SIGNATURE.to_vec();
    o.extend_from_slice(&s.minor.to_le_bytes());
    o.extend_from_slice(&s.major.to_le_bytes());
    let f = outer_fields(s);
    if s.order.is_empty() {
        for (id, d) in &f {
            tlv(s.major, &mut o, *id, d);
        }
    } else {
        for i in &s.order {
            tlv(s.major, &mut o, f[*i].0, &f[*i].1);
        }
    }
    tlv(s.major, &mut o, 0, &s.end_filler);
    o
}
pub fn inner_header(s: &Spec) -> Vec<u8> {
    let mut o = Vec::new();
    tlv(4, &mut o, 1, &s.inner_alg.to_le_bytes());
    tlv(4, &mut o, 2, &s.inner_key);
    for (i, d) in &s.extra_inner {
        tlv(4, &mut o, *i, d);
    }
    tlv(4, &mut o, 0, &[]);
    o
}
fn cbc_enc<C: BlockEncrypt + KeyInit>(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let c = C::new_from_slice(key).ok().unwrap();
    let mut prev = iv.to_vec();
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        let mut b = [0u8; 16];
        for i in 0..16 {
            b[i] = ch[i] ^ prev[i];
        }
        let mut g = GenericArray::<u8, C::BlockSize>::clone_from_slice(&b);
        c.encrypt_block(&mut g);
        prev = g.to_vec();
        out.extend_from_slice(&prev);
    }
    out
}
fn cbc_dec<C: BlockDecrypt + KeyInit>(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let c = C::new_from_slice(key).ok().unwrap();
    let mut prev = iv.to_vec();
    let mut out = Vec::with_capacity(data.len());
    for ch in data.chunks(16) {
        let mut g = GenericArray::<u8, C::BlockSize>::clone_from_slice(ch);
        c.decrypt_block(&mut g);
        for i in 0..16 {
            out.push(g[i] ^ prev[i]);
        }
        prev = ch.to_vec();
    }
    out
}
pub fn pad(data: &[u8]) -> Vec<u8> {
    let n = 16 - data.len() % 16;
    let mut v = data.to_vec();
    v.extend(std::iter::repeat(n as u8).take(n));
    v
}
pub fn encrypt_padded(cipher: &[u8; 16], key: &[u8], iv: &[u8], padded: &[u8]) -> Vec<u8> {
    if *cipher == AES256 {
        cbc_enc::<aes::Aes256>(key, iv, padded)
    } else {
        cbc_enc::<twofish::Twofish>(key, iv, padded)
    }
}
pub fn encrypt(cipher: &[u8; 16], key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    if *cipher == CHACHA20 {
        let mut v = data.to_vec();
        chacha20::ChaCha20::new_from_slices(key, iv).unwrap().apply_keystream(&mut v);
        v
    } else {
        encrypt_padded(cipher, key, iv, &pad(data))
    }
}
/// None: not a whole number of blocks or bad padding.
pub fn decrypt(cipher: &[u8; 16], key: &[u8], iv: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if *cipher == CHACHA20 {
        let mut v = data.to_vec();
        chacha20::ChaCha20::new_from_slices(key, iv).ok()?.apply_keystream(&mut v);
        return Some(v);
    }
    if data.is_empty() || data.len() % 16 != 0 {
        return None;
    }
    let mut v = if *cipher == AES256 {
        cbc_dec::<aes::Aes256>(key, iv, data)
    } else if *cipher == TWOFISH {
        cbc_dec::<twofish::Twofish>(key, iv, data)
    } else {
        return None;
    };
    let n = v[v.len() - 1] as usize;
    if n == 0 || n > 16 || v[v.len() - n..].iter().any(|b| *b as usize != n) {
        return None;
    }
    v.truncate(v.len() - n);
    Some(v)
}
/// gzip container with stored blocks
pub fn gzip(data: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let mut rest = data;
    loop {
        let n = rest.len().min(65535);
        o.push((n == rest.len()) as u8);
        o.extend_from_slice(&(n as u16).to_le_bytes());
        o.extend_from_slice(&(!(n as u16)).to_le_bytes());
        o.extend_from_slice(&rest[..n]);
        rest = &rest[n..];
        if rest.is_empty() {
            break;
        }
    }
    let mut c = crc32fast::Hasher::new();
    c.update(data);
    o.extend_from_slice(&c.finalize().to_le_bytes());
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o
}
pub fn gunzip(data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    let mut d = libflate::gzip::Decoder::new(data).ok()?;
    d.read_to_end(&mut v).ok()?;
    Some(v)
}
pub fn split(data: &[u8], sizes: &[usize]) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    let mut rest = data;
    for s in sizes {
        let n = (*s).min(rest.len());
        if n == 0 {
            break;
        }
        v.push(rest[..n].to_vec());
        rest = &rest[n..];
    }
    if !rest.is_empty() {
        v.push(rest.to_vec());
    }
    v
}
/// Payload blocks: (tag, data), the last one empty.
pub fn frame(k: &Keys, blocks: &[Vec<u8>]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = Vec::new();
    for (i, b) in blocks.iter().enumerate() {
        v.push((block_tag(k, i as u64, b), b.clone()));
    }
    v.push((block_tag(k, blocks.len() as u64, &[]), Vec::new()));
    v
}
pub fn frame_bytes(f: &[(Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = Vec::new();
    for (t, d) in f {
        o.extend_from_slice(t);
        o.extend_from_slice(&(d.len() as u32).to_le_bytes());
        o.extend_from_slice(d);
    }
    o
}
pub struct File {
    pub header: Vec<u8>,
    pub hash: Vec<u8>,
    pub tag: Vec<u8>,
    pub frames: Vec<(Vec<u8>, Vec<u8>)>,
    pub keys: Keys,
}
impl File {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = self.header.clone();
        o.extend_from_slice(&self.hash);
        o.extend_from_slice(&self.tag);
        o.extend_from_slice(&frame_bytes(&self.frames));
        o
    }
}
/// Complete KDBX 4 file for `plain` (inner header + XML as given).
pub fn build4(s: &Spec, composite: &[u8], plain: &[u8]) -> File {
    let h = header(s);
    let k = keys(&s.seed, &transform(&s.kdf, composite));
    let body = if s.compression == 1 { gzip(plain) } else { plain.to_vec() };
    let enc = encrypt(&s.cipher, &k.cipher, &s.iv, &body);
    let frames = frame(&k, &split(&enc, &s.splits));
    File { hash: sha256(&[&h]), tag: header_tag(&k, &h), header: h, frames, keys: k }
}
pub fn write4(s: &Spec, composite: &[u8], xml: &[u8]) -> Vec<u8> {
    let mut p = inner_header(s);
    p.extend_from_slice(xml);
    build4(s, composite, &p).bytes()
}
/// Hashed blocks of KDBX 3: (id, hash, data), the last one empty with a zero hash.
pub fn blocks3(data: &[u8], sizes: &[usize]) -> Vec<(u32, Vec<u8>, Vec<u8>)> {
    let mut v: Vec<(u32, Vec<u8>, Vec<u8>)> =
        split(data, sizes).into_iter().enumerate().map(|(i, b)| (i as u32, sha256(&[&b]), b)).collect();
    v.push((v.len() as u32, vec![0; 32], vec![]));
    v
}
pub fn blocks3_bytes(b: &[(u32, Vec<u8>, Vec<u8>)]) -> Vec<u8> {
    let mut o = Vec::new();
    for (i, h, d) in b {
        o.extend_from_slice(&i.to_le_bytes());
        o.extend_from_slice(h);
        o.extend_from_slice(&(d.len() as u32).to_le_bytes());
        o.extend_from_slice(d);
    }
    o
}
/// File from the header and the decrypted payload (start bytes + blocks).
pub fn seal3(s: &Spec, composite: &[u8], plain: &[u8]) -> Vec<u8> {
    let mut o = header(s);
    let k = keys(&s.seed, &transform(&s.kdf, composite));
    o.extend_from_slice(&encrypt(&s.cipher, &k.cipher, &s.iv, plain));
    o
}
pub fn write3(s: &Spec, composite: &[u8], xml: &[u8]) -> Vec<u8> {
    let body = if s.compression == 1 { gzip(xml) } else { xml.to_vec() };
    let mut p = s.start_bytes.clone();
    p.extend_from_slice(&blocks3_bytes(&blocks3(&body, &s.splits)));
    seal3(s, composite, &p)
}

/// Standard base64 of a multiple of three bytes.
pub fn base64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = Vec::new();
    for c in b.chunks_exact(3) {
        let n = (c[0] as usize) << 16 | (c[1] as usize) << 8 | c[2] as usize;
        o.extend_from_slice(&[A[n >> 18], A[n >> 12 & 63], A[n >> 6 & 63], A[n & 63]]);
    }
    o
}

// ---- reader --------------------------------------------------------------
pub struct Parsed {
    pub minor: u16,
    pub major: u16,
    pub fields: Vec<(u8, Vec<u8>)>,
    pub header: Vec<u8>,
    pub rest: Vec<u8>,
}
fn le32(b: &[u8]) -> u32 {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]])
}
pub fn fields(b: &[u8]) -> Option<(Vec<(u8, Vec<u8>)>, usize)> {
    let mut p = 0;
    let mut v = Vec::new();
    loop {
        if b.len() < p + 5 {
            return None;
        }
        let id = b[p];
        let n = le32(&b[p + 1..]) as usize;
        p += 5;
        if b.len() < p + n {
            return None;
        }
        v.push((id, b[p..p + n].to_vec()));
        p += n;
        if id == 0 {
            return Some((v, p));
        }
    }
}
pub fn parse4(f: &[u8]) -> Option<Parsed> {
    if f.len() < 12 || !crate::sx::same(&f[..8], &SIGNATURE) {
        return None;
    }
    let minor = u16::from_le_bytes([f[8], f[9]]);
    let major = u16::from_le_bytes([f[10], f[11]]);
    let (fl, n) = fields(&f[12..])?;
    Some(Parsed { minor, major, fields: fl, header: f[..12 + n].to_vec(), rest: f[12 + n..].to_vec() })
}
impl Parsed {
    pub fn field(&self, id: u8) -> Option<&[u8]> {
        let mut it = self.fields.iter().filter(|x| x.0 == id);
        let r = it.next().map(|x| &x.1[..]);
        if it.next().is_some() {
            return None;
        }
        r
    }
}
/// (type, name, data) of a parameter dictionary
pub fn dict(b: &[u8]) -> Option<Vec<(u8, Vec<u8>, Vec<u8>)>> {
    if b.len() < 3 || b[0] != 0 || b[1] != 1 {
        return None;
    }
    let mut p = 2;
    let mut v = Vec::new();
    loop {
        let ty = *b.get(p)?;
        p += 1;
        if ty == 0 {
            return if p == b.len() { Some(v) } else { None };
        }
        let n = le32(b.get(p..p + 4)?) as usize;
        p += 4;
        let name = b.get(p..p + n)?.to_vec();
        p += n;
        let n = le32(b.get(p..p + 4)?) as usize;
        p += 4;
        let data = b.get(p..p + n)?.to_vec();
        p += n;
        v.push((ty, name, data));
    }
}
pub fn dict_get<'a>(d: &'a [(u8, Vec<u8>, Vec<u8>)], ty: u8, name: &str) -> Option<&'a [u8]> {
    let mut it = d.iter().filter(|x| x.1 == name.as_bytes());
    let r = it.next()?;
    if r.0 != ty || it.next().is_some() {
        return None;
    }
    Some(&r.2)
}
pub fn kdf_of(b: &[u8]) -> Option<Kdf> {
    let d = dict(b)?;
    let u = dict_get(&d, 0x42, "$UUID")?;
    let u64of = |n| dict_get(&d, 5, n).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
    let u32of = |n| dict_get(&d, 4, n).map(|b| u32::from_le_bytes(b.try_into().unwrap()));
    let salt = dict_get(&d, 0x42, "S")?.to_vec();
    if u == KDF_AES4 || u == KDF_AES31 {
        if d.len() != 3 {
            return None;
        }
        Some(Kdf::Aes { rounds: u64of("R")?, salt, old: u == KDF_AES31 })
    } else if u == KDF_ARGON2D || u == KDF_ARGON2ID {
        if d.len() != 6 {
            return None;
        }
        Some(Kdf::Argon2 {
            id: u == KDF_ARGON2ID,
            mem: u64of("M")?,
            iters: u64of("I")?,
            lanes: u32of("P")?,
            version: u32of("V")?,
            salt,
        })
    } else {
        None
    }
}
/// Payload of a KDBX 4 file: checks every tag, the order, the end marker and that
/// nothing follows. Returns the concatenated data and the block sizes.
pub fn unframe(k: &Keys, b: &[u8]) -> Result<(Vec<u8>, Vec<usize>), &'static str> {
    let mut p = 0;
    let mut i = 0u64;
    let mut v = Vec::new();
    let mut sizes = Vec::new();
    loop {
        if b.len() < p + 36 {
            return Err("block header cut short");
        }
        let n = le32(&b[p + 32..]) as usize;
        if b.len() < p + 36 + n {
            return Err("block cut short");
        }
        let d = &b[p + 36..p + 36 + n];
        if !crate::sx::same(&b[p..p + 32], &block_tag(k, i, d)) {
            return Err("block tag");
        }
        p += 36 + n;
        i += 1;
        if n == 0 {
            return if p == b.len() { Ok((v, sizes)) } else { Err("data after the last block") };
        }
        sizes.push(n);
        v.extend_from_slice(d);
    }
}
pub struct Opened {
    pub parsed: Parsed,
    pub keys: Keys,
    pub inner: Vec<(u8, Vec<u8>)>,
    pub xml: Vec<u8>,
    pub sizes: Vec<usize>,
}
/// Decode a complete KDBX 4 file with the given credentials.
pub fn read4(f: &[u8], composite: &[u8]) -> Result<Opened, &'static str> {
    let p = parse4(f).ok_or("header structure")?;
    if p.major != 4 {
        return Err("version");
    }
    if p.rest.len() < 64 {
        return Err("file cut short");
    }
    if !crate::sx::same(&p.rest[..32], &sha256(&[&p.header])) {
        return Err("header hash");
    }
    let kdf = kdf_of(p.field(11).ok_or("no KDF field")?).ok_or("KDF dictionary")?;
    let seed = p.field(4).ok_or("no seed")?.to_vec();
    let k = keys(&seed, &transform(&kdf, composite));
    if !crate::sx::same(&p.rest[32..64], &header_tag(&k, &p.header)) {
        return Err("header tag");
    }
    let (enc, sizes) = unframe(&k, &p.rest[64..])?;
    let c: [u8; 16] = p.field(2).ok_or("no cipher")?.try_into().map_err(|_| "cipher id")?;
    let iv = p.field(7).ok_or("no IV")?.to_vec();
    let body = decrypt(&c, &k.cipher, &iv, &enc).ok_or("decryption")?;
    let body = match le32(p.field(3).ok_or("no compression")?) {
        0 => body,
        1 => gunzip(&body).ok_or("decompression")?,
        _ => return Err("compression id"),
    };
    let (inner, n) = fields(&body).ok_or("inner header")?;
    Ok(Opened { keys: k, inner, xml: body[n..].to_vec(), sizes, parsed: p })
}
/// Inner stream cipher for protected values.
pub fn inner_stream(alg: u32, key: &[u8]) -> Option<Box<dyn StreamCipher>> {
    match alg {
        2 => {
            let k = sha256(&[key]);
            Some(Box::new(
                salsa20::Salsa20::new_from_slices(&k, &[0xe8, 0x30, 0x09, 0x4b, 0x97, 0x20, 0x5d, 0x2a]).unwrap(),
            ))
        }
        3 => {
            let k = sha512(&[key]);
            Some(Box::new(chacha20::ChaCha20::new_from_slices(&k[..32], &k[32..44]).unwrap()))
        }
        _ => None,
    }
}
