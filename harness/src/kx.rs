//! Shared pieces of the harnesses.
#![allow(dead_code)]
use crate::refk::*;
use crate::sx;
use kdbx_rs::binary::{Cipher, CompressionType, InnerStreamCipherAlgorithm, KdfParams};
use kdbx_rs::database::{Entry, Field, Group, Times};
use kdbx_rs::{CompositeKey, Database, Kdbx};

pub const PW: &str = "pw";
pub fn key() -> CompositeKey {
    CompositeKey::from_password(PW)
}
pub fn comp() -> Vec<u8> {
    composite(Some(PW.as_bytes()), None)
}
/// Deterministic filler.
pub fn fill(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(7).wrapping_add(k)).collect()
}
pub const CIPHERS: [[u8; 16]; 3] = [AES256, TWOFISH, CHACHA20];
pub fn iv_len(c: &[u8; 16]) -> usize {
    if *c == CHACHA20 {
        12
    } else {
        16
    }
}
pub fn lib_cipher(c: usize) -> Cipher {
    match c {
        0 => Cipher::Aes256,
        1 => Cipher::TwoFish,
        _ => Cipher::ChaCha20,
    }
}
/// 0: AES, 1: Argon2d, 2: Argon2id
pub fn kdf(k: usize) -> Kdf {
    match k {
        0 => Kdf::Aes { rounds: 2, salt: fill(32, 11), old: false },
        1 => Kdf::Argon2 { id: false, mem: 16 * 1024, iters: 1, lanes: 2, version: 0x13, salt: fill(32, 12) },
        _ => Kdf::Argon2 { id: true, mem: 8 * 1024, iters: 2, lanes: 1, version: 0x13, salt: fill(16, 13) },
    }
}
pub fn lib_kdf(k: &Kdf) -> KdfParams {
    match k {
        Kdf::Aes { rounds, salt, .. } => KdfParams::Aes { rounds: *rounds, salt: salt.clone() },
        Kdf::Argon2 { id, mem, iters, lanes, version, salt } => KdfParams::Argon2 {
            variant: if *id { argon2::Variant::Argon2id } else { argon2::Variant::Argon2d },
            memory_bytes: *mem,
            version: *version,
            salt: salt.clone(),
            lanes: *lanes,
            iterations: *iters,
        },
    }
}
/// A plain KDBX 4 configuration.
pub fn spec4(cipher: usize, compression: u32, k: usize, inner: u32) -> Spec {
    let c = CIPHERS[cipher];
    Spec {
        major: 4,
        minor: 0,
        cipher: c,
        compression,
        seed: fill(32, 1),
        iv: fill(iv_len(&c), 2),
        kdf: kdf(k),
        inner_alg: inner,
        inner_key: fill(if inner == 3 { 64 } else { 32 }, 3),
        extra_outer: vec![],
        extra_inner: vec![],
        order: vec![],
        end_filler: b"\r\n\r\n".to_vec(),
        start_bytes: fill(32, 4),
        splits: vec![],
    }
}
pub fn spec3(cipher: usize, compression: u32, inner: u32) -> Spec {
    let mut s = spec4(cipher, compression, 0, inner);
    s.major = 3;
    s.minor = 1;
    s.inner_key = fill(32, 3);
    s
}
/// New database with its settings taken from `s` instead of the random source.
pub fn with_settings(db: Database, s: &Spec) -> Kdbx<kdbx_rs::binary::Unlocked> {
    let mut k = Kdbx::from_database(db);
    apply(&mut k, s);
    k
}
pub fn apply(k: &mut Kdbx<kdbx_rs::binary::Unlocked>, s: &Spec) {
    let h = k.header_mut();
    h.cipher = lib_cipher(CIPHERS.iter().position(|c| *c == s.cipher).unwrap());
    h.compression_type = if s.compression == 1 { CompressionType::Gzip } else { CompressionType::None };
    h.master_seed = s.seed.clone();
    h.encryption_iv = s.iv.clone();
    h.kdf_params = lib_kdf(&s.kdf);
    let i = k.inner_header_mut();
    i.inner_stream_cipher =
        if s.inner_alg == 2 { InnerStreamCipherAlgorithm::Salsa20 } else { InnerStreamCipherAlgorithm::ChaCha20 };
    i.inner_stream_key = s.inner_key.clone();
}
pub fn tiny_xml() -> Vec<u8> {
    xml_named(b"db", b"")
}
/// Minimal document with the given (already escaped) name and extra content of the root group.
pub fn xml_named(name: &[u8], extra: &[u8]) -> Vec<u8> {
    let mut v = b"<KeePassFile><Meta><DatabaseName>".to_vec();
    v.extend_from_slice(name);
    v.extend_from_slice(b"</DatabaseName></Meta><Root><Group><UUID>AAECAwQFBgcICQoLDA0ODw==</UUID><Name>r</Name>");
    v.extend_from_slice(extra);
    v.extend_from_slice(b"</Group></Root></KeePassFile>");
    v
}
// ---- canonical form of everything a user can see ---------------------------
fn put(o: &mut Vec<u8>, b: &[u8]) {
    o.extend_from_slice(&(b.len() as u32).to_le_bytes());
    o.extend_from_slice(b);
}
pub fn dump_field(o: &mut Vec<u8>, f: &Field) {
    put(o, f.key().as_bytes());
    o.push(f.protected() as u8);
    put(o, f.value().unwrap_or("").as_bytes());
}
pub fn dump_times(o: &mut Vec<u8>, t: &Times) {
    for d in [&t.last_modification_time, &t.creation_time, &t.last_access_time, &t.expiry_time, &t.location_changed] {
        o.extend_from_slice(&d.and_utc().timestamp().to_le_bytes());
    }
    o.push(t.expires as u8);
    o.extend_from_slice(&t.usage_count.to_le_bytes());
}
pub fn dump_entry(o: &mut Vec<u8>, e: &Entry) {
    o.extend_from_slice(e.uuid().as_bytes());
    dump_times(o, e.times());
    o.extend_from_slice(&(e.fields().count() as u32).to_le_bytes());
    for f in e.fields() {
        dump_field(o, f);
    }
    o.extend_from_slice(&(e.history().len() as u32).to_le_bytes());
    for h in e.history().entries() {
        dump_entry(o, h);
    }
}
pub fn dump_group(o: &mut Vec<u8>, g: &Group) {
    o.extend_from_slice(g.uuid().as_bytes());
    put(o, g.name().as_bytes());
    dump_times(o, g.times());
    o.extend_from_slice(&(g.entries().count() as u32).to_le_bytes());
    for e in g.entries() {
        dump_entry(o, e);
    }
    o.extend_from_slice(&(g.groups().count() as u32).to_le_bytes());
    for x in g.groups() {
        dump_group(o, x);
    }
}
pub fn dump(db: &Database) -> Vec<u8> {
    let mut o = Vec::new();
    let m = db.meta();
    put(&mut o, m.database_name.as_bytes());
    put(&mut o, m.database_description.as_bytes());
    o.extend_from_slice(&(m.custom_data.len() as u32).to_le_bytes());
    for f in &m.custom_data {
        dump_field(&mut o, f);
    }
    let p = &m.memory_protection;
    o.extend_from_slice(&[
        p.protect_title as u8,
        p.protect_user_name as u8,
        p.protect_password as u8,
        p.protect_url as u8,
        p.protect_notes as u8,
    ]);
    dump_group(&mut o, db.root());
    o
}
pub fn uuid(k: u8) -> uuid::Uuid {
    uuid::Uuid::from_bytes([k; 16])
}
pub fn entry(k: u8) -> Entry {
    let mut e = Entry::default();
    e.set_uuid(uuid(k));
    e
}
pub fn at(secs: i64) -> chrono::NaiveDateTime {
    chrono::DateTime::from_timestamp(secs, 0).unwrap().naive_utc()
}
/// Five different times, flags and count derived from `k`.
pub fn set_times(t: &mut Times, k: i64) {
    t.last_modification_time = at(1_000_000 * k + 1);
    t.creation_time = at(1_000_000 * k + 2);
    t.last_access_time = at(1_000_000 * k + 3);
    t.expiry_time = at(1_000_000 * k + 4);
    t.location_changed = at(1_000_000 * k + 5);
    t.expires = k % 2 == 1;
    t.usage_count = k as u32;
}
pub fn tiny_db() -> Database {
    let mut db = Database::default();
    db.root_mut().set_uuid(uuid(9));
    db
}
/// A small database with something in every place.
pub fn sample(text: &str, secret: &str) -> Database {
    let mut db = tiny_db();
    db.set_name("name");
    db.set_description(text);
    let m = db.meta_mut();
    m.custom_data.push(Field::new("c1", "v1"));
    m.custom_data.push(Field::new_protected("c2", "v2"));
    m.memory_protection.protect_password = true;
    m.memory_protection.protect_notes = true;
    set_times(db.root_mut().times_mut(), 3);
    let mut e = entry(1);
    set_times(e.times_mut(), 4);
    e.set_title(text);
    e.set_password("old");
    e.new_version();
    set_times(e.times_mut(), 5);
    e.set_password(secret);
    e.add_field(Field::new("note", "plain"));
    let mut f = Field::new_protected("empty", "x");
    f.clear();
    e.add_field(f);
    db.add_entry(e);
    let mut g = Group::new("sub");
    g.set_uuid(uuid(2));
    set_times(g.times_mut(), 6);
    let mut e = entry(3);
    e.set_password("second");
    g.add_entry(e);
    g.add_group(Group::new("subsub"));
    db.add_group(g);
    db
}

/// What a KDBX 4 file consists of, whatever the order of its key derivation parameters.
pub fn canon(f: &[u8]) -> Option<Vec<u8>> {
    let o = read4(f, &comp()).ok()?;
    let mut r = (f.len() as u64).to_le_bytes().to_vec();
    for (id, d) in &o.parsed.fields {
        r.push(*id);
        if *id == 11 {
            let mut e = dict(d)?;
            e.sort();
            for x in e {
                r.push(x.0);
                r.extend_from_slice(&x.1);
                r.extend_from_slice(&x.2);
            }
        } else {
            r.extend_from_slice(d);
        }
    }
    for (id, d) in &o.inner {
        r.push(*id);
        r.extend_from_slice(d);
    }
    for n in &o.sizes {
        r.extend_from_slice(&(*n as u64).to_le_bytes());
    }
    r.extend_from_slice(&o.xml);
    Some(r)
}
pub fn same_file(a: &[u8], b: &[u8]) -> bool {
    match (canon(a), canon(b)) {
        (Some(a), Some(b)) => crate::sx::same(&a, &b),
        _ => false,
    }
}
