//! C03: saving and reopening.
use crate::kx::*;
use crate::refk;
use crate::sx;
use kdbx_rs::Database;

/// Save, reopen, compare everything visible.
fn round_trip(db: Database, s: &refk::Spec) {
    let want = dump(&db);
    let mut k = with_settings(db, s);
    k.set_key(key()).unwrap();
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    if s.compression == 0 {
        sx::observe(0, &out);
    }
    let l = match kdbx_rs::from_reader(&*out) {
        Ok(l) => l,
        Err(_) => {
            sx::check(false, "the saved file opens");
            return;
        }
    };
    match l.unlock(&key()) {
        Ok(u) => {
            let got = dump(u.database());
            sx::check(sx::same(&got, &want), "same content after reopening");
            let (h, w) = (u.header(), k.header());
            sx::check(h.cipher == w.cipher && h.compression_type == w.compression_type, "same cipher and compression");
            sx::check(h.kdf_params == w.kdf_params, "same key derivation settings");
            sx::check(h.master_seed == w.master_seed && h.encryption_iv == w.encryption_iv, "same seed and IV");
            sx::check(u.inner_header() == k.inner_header(), "same inner header");
            sx::observe(1, &got);
        }
        Err(_) => sx::check(false, "the saved file unlocks"),
    }
}
/// every configuration (params: cipher, compression, kdf, inner cipher)
pub fn c03_config() {
    let s = spec4(sx::param(0), sx::param(1) as u32, sx::param(2), sx::param(3) as u32);
    let text = sx::word(2, "text");
    let secret = sx::word(2, "secret");
    round_trip(sample(&text, &secret), &s);
}
/// every content length modulo the cipher block size (params: cipher, compression, length)
pub fn c03_len() {
    let s = spec4(sx::param(0), sx::param(1) as u32, 0, 3);
    let mut db = tiny_db();
    let mut t = sx::word(1, "text");
    for _ in 0..sx::param(2) {
        t.push('x');
    }
    db.set_description(t);
    round_trip(db, &s);
}
/// sizes around whole payload blocks (params: cipher, compression, KiB, size relative to that)
pub fn c03_big() {
    sx::max_alloc(256 << 20);
    let mut s = spec4(sx::param(0), sx::param(1) as u32, 0, 3);
    let size = sx::param(2) * 1024 + sx::param(3) - 64;
    let mut db = tiny_db();
    db.set_description(sx::word(1, "text"));
    let mut cipher = kdbx_rs::utils::NullStreamCipher;
    let mut xml = Vec::new();
    kdbx_rs::xml::write_xml(&mut xml, &db, &mut cipher).unwrap();
    // inner header: cipher, key, end, one odd sized item and many equal ones
    let part = 65536;
    let fixed = 9 + 5 + s.inner_key.len() + 5 + xml.len() + 5;
    let n = (size - fixed - 5) / (part + 5);
    let rest = size - fixed - n * (part + 5);
    s.extra_inner = vec![(3, fill(part, 0)), (3, fill(rest, 1))];
    s.compression = 0;
    let f = refk::write4(&s, &comp(), &xml);
    let mut k = match kdbx_rs::from_reader(&*f).ok().and_then(|l| l.unlock(&key()).ok()) {
        Some(k) => k,
        None => {
            sx::check(false, "a conforming file unlocks");
            return;
        }
    };
    let one = k.inner_header().other_headers[0].clone();
    for _ in 1..n {
        k.inner_header_mut().other_headers.push(one.clone());
    }
    s.compression = sx::param(1) as u32;
    apply(&mut k, &s);
    let want = dump(k.database());
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    sx::check(out.len() >= size, "the whole content is saved");
    sx::observe(0, &(out.len() as u64).to_le_bytes());
    match kdbx_rs::from_reader(&*out).ok().and_then(|l| l.unlock(&key()).ok()) {
        Some(u) => {
            sx::check(u.inner_header() == k.inner_header(), "same inner header");
            sx::check(sx::same(&dump(u.database()), &want), "same content after reopening");
        }
        None => sx::check(false, "the saved file unlocks"),
    }
}
