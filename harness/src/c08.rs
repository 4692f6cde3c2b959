//! C08: files written, read by the reference reader.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::{CompositeKey, Database, Kdbx};

fn conforms(k: &Kdbx<kdbx_rs::binary::Unlocked>, out: &[u8], s: &Spec, c: &[u8], db: &Database) {
    let o = match read4(out, c) {
        Ok(o) => o,
        Err(e) => return sx::check(false, e),
    };
    let p = &o.parsed;
    sx::check(p.minor == k.minor_version() && p.major == 4, "version");
    sx::check(p.field(2).is_some_and(|d| sx::same(d, &s.cipher)), "cipher field");
    sx::check(p.field(3).is_some_and(|d| sx::same(d, &s.compression.to_le_bytes())), "compression field");
    sx::check(p.field(4).is_some_and(|d| sx::same(d, &s.seed)), "seed field");
    sx::check(p.field(7).is_some_and(|d| sx::same(d, &s.iv)), "IV field");
    for f in [5, 6, 8, 9, 10] {
        sx::check(p.field(f).is_none(), "no fields of the old format");
    }
    let same_kdf = match (p.field(11).and_then(kdf_of), &s.kdf) {
        (Some(Kdf::Aes { rounds: a, salt: b, old }), Kdf::Aes { rounds, salt, .. }) => a == *rounds && sx::same(&b, salt) && !old,
        (
            Some(Kdf::Argon2 { id: a, mem: b, iters: c, lanes: d, version: e, salt: f }),
            Kdf::Argon2 { id, mem, iters, lanes, version, salt },
        ) => a == *id && b == *mem && c == *iters && d == *lanes && e == *version && sx::same(&f, salt),
        _ => false,
    };
    sx::check(same_kdf, "key derivation field");
    let one = |id: u8| {
        let mut it = o.inner.iter().filter(|x| x.0 == id);
        match (it.next(), it.next()) {
            (Some(x), None) => Some(x.1.clone()),
            _ => None,
        }
    };
    sx::check(one(1).is_some_and(|d| sx::same(&d, &s.inner_alg.to_le_bytes())), "inner cipher field");
    sx::check(one(2).is_some_and(|d| sx::same(&d, &s.inner_key)), "inner key field");
    sx::check(o.inner.len() == 3 + s.extra_inner.len(), "inner header fields");
    let mut xml = Vec::new();
    let mut st = inner_stream(s.inner_alg, &s.inner_key).unwrap();
    kdbx_rs::xml::write_xml(&mut xml, db, &mut *st).unwrap();
    sx::check(sx::same(&o.xml, &xml), "document");
    sx::check(o.sizes.iter().all(|n| *n <= 1 << 20), "block sizes");
}
/// every configuration (params: cipher, compression, kdf, inner cipher, what is symbolic)
pub fn c08_config() {
    let mut s = spec4(sx::param(0), sx::param(1) as u32, sx::param(2), sx::param(3) as u32);
    let mut db = sample("text", "secret");
    let mut pw = Some("pw".to_string());
    let mut kf = None;
    match sx::param(4) {
        0 => db = sample(&sx::word(1, "text"), &sx::word(2, "secret")),
        1 => s.seed = sx::bytes(32, "seed"),
        2 => s.iv = sx::bytes(s.iv.len(), "iv"),
        3 => match &mut s.kdf {
            Kdf::Aes { salt, .. } | Kdf::Argon2 { salt, .. } => *salt = sx::bytes(salt.len(), "salt"),
        },
        4 => {
            pw = Some(sx::ascii(2, "password"));
            if sx::flip() {
                kf = Some(sx::bytes(2, "keyfile"));
            }
        }
        5 => {
            pw = None;
            kf = Some(sx::bytes(3, "keyfile"));
        }
        _ => s.inner_key = sx::bytes(s.inner_key.len(), "inner_key"),
    }
    let c = composite(pw.as_ref().map(|p| p.as_bytes()), kf.as_deref());
    let mut k = with_settings(db, &s);
    k.set_key(CompositeKey::new(pw, kf)).unwrap();
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    if s.compression == 0 {
        sx::observe(0, &(out.len() as u64).to_le_bytes());
    }
    let db = k.database();
    conforms(&k, &out, &s, &c, db);
}
/// every content length modulo the cipher block size (params: cipher, compression, length)
pub fn c08_len() {
    let s = spec4(sx::param(0), sx::param(1) as u32, 0, 3);
    let mut db = tiny_db();
    let mut t = sx::word(1, "text");
    for _ in 0..sx::param(2) {
        t.push('x');
    }
    db.set_description(t);
    let mut k = with_settings(db, &s);
    k.set_key(key()).unwrap();
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    if s.compression == 0 {
        sx::observe(0, &(out.len() as u64).to_le_bytes());
    }
    conforms(&k, &out, &s, &comp(), k.database());
}
/// no content at all, and content larger than a block (params: cipher, compression, KiB, size relative to that less 64)
pub fn c08_big() {
    sx::max_alloc(256 << 20);
    let mut s = spec4(sx::param(0), sx::param(1) as u32, 0, 3);
    let size = sx::param(2) * 1024 + sx::param(3) - 64;
    let mut db = tiny_db();
    db.set_description(sx::word(1, "text"));
    let mut cipher = kdbx_rs::utils::NullStreamCipher;
    let mut xml = Vec::new();
    kdbx_rs::xml::write_xml(&mut xml, &db, &mut cipher).unwrap();
    let fixed = 9 + 5 + s.inner_key.len() + 5 + xml.len();
    s.extra_inner = vec![(3, fill(size - fixed - 5, 1))];
    s.compression = 0;
    let f = write4(&s, &comp(), &xml);
    let mut k = match kdbx_rs::from_reader(&*f).ok().and_then(|l| l.unlock(&key()).ok()) {
        Some(k) => k,
        None => return sx::check(false, "a conforming file unlocks"),
    };
    s.compression = sx::param(1) as u32;
    apply(&mut k, &s);
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    if s.compression == 0 {
        sx::observe(0, &(out.len() as u64).to_le_bytes());
    }
    conforms(&k, &out, &s, &comp(), k.database());
}
