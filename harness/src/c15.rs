//! C15: settings written are the settings read back.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::binary::{Cipher, CompressionType, KdfParams, Unlocked, VariantDict, VariantDictValue as Value};
use kdbx_rs::{Database, Kdbx};

/// Save, open and unlock again; both headers must be equal to those of the saved database.
fn kept(k: &Kdbx<Unlocked>) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    if k.write(&mut out).is_err() {
        sx::check(false, "the settings can be saved");
        return None;
    }
    let l = match kdbx_rs::from_reader(&*out) {
        Ok(l) => l,
        Err(_) => {
            sx::check(false, "the saved file opens");
            return None;
        }
    };
    sx::check((l.major_version() == k.major_version()) & (l.minor_version() == k.minor_version()), "version");
    same_header(k, l.header());
    let u = match l.unlock(&key()) {
        Ok(u) => u,
        Err(_) => {
            sx::check(false, "the saved file unlocks");
            return None;
        }
    };
    same_header(k, u.header());
    let (a, b) = (k.inner_header(), u.inner_header());
    sx::check(a.inner_stream_cipher == b.inner_stream_cipher, "inner cipher");
    sx::check(sx::same(&a.inner_stream_key, &b.inner_stream_key), "inner key");
    sx::check(a.other_headers == b.other_headers, "other inner header fields");
    Some(out)
}
fn same_header(k: &Kdbx<Unlocked>, b: &kdbx_rs::binary::KdbxHeader) {
    let a = k.header();
    sx::check(a.cipher == b.cipher, "cipher");
    sx::check(a.compression_type == b.compression_type, "compression");
    sx::check(sx::same(&a.master_seed, &b.master_seed), "seed");
    sx::check(sx::same(&a.encryption_iv, &b.encryption_iv), "IV");
    sx::check(a.kdf_params == b.kdf_params, "key derivation parameters");
    sx::check(a.other_headers == b.other_headers, "other header fields");
}
fn open(f: &[u8]) -> Option<Kdbx<Unlocked>> {
    match kdbx_rs::from_reader(f).ok().map(|l| l.unlock(&key())) {
        Some(Ok(u)) => Some(u),
        _ => {
            sx::check(false, "a conforming file unlocks");
            None
        }
    }
}
/// every configuration (params: cipher, compression, kdf, inner cipher, what is symbolic)
pub fn c15_config() {
    let mut s = spec4(sx::param(0), sx::param(1) as u32, sx::param(2), sx::param(3) as u32);
    match sx::param(4) {
        0 => s.seed = sx::bytes(32, "seed"),
        1 => s.iv = sx::bytes(s.iv.len(), "iv"),
        2 => s.inner_key = sx::bytes(s.inner_key.len(), "inner_key"),
        _ => match &mut s.kdf {
            Kdf::Aes { rounds, salt, .. } => {
                *rounds = sx::u64_("rounds");
                sx::assume(*rounds < 3);
                *salt = sx::bytes(32, "salt");
            }
            Kdf::Argon2 { mem, iters, lanes, version, salt, .. } => {
                *mem = sx::u64_("memory");
                sx::assume((*mem >= 32 << 10) & (*mem < 1 << 18));
                *iters = sx::u64_("iterations");
                sx::assume((*iters > 0) & (*iters < 3));
                *lanes = 1 + sx::choose(3) as u32;
                *version = if sx::flip() { 0x10 } else { 0x13 };
                *salt = sx::bytes(8 + sx::choose(3), "salt");
            }
        },
    }
    let mut k = with_settings(tiny_db(), &s);
    if k.set_key(key()).is_err() {
        return sx::check(false, "the key can be set");
    }
    if kept(&k).is_some() {
        sx::observe(0, &[1]);
    }
}
/// extra fields of a file are still there after saving it (params: data length, sizes of attachments)
pub fn c15_extra() {
    let n = sx::param(0);
    let mut s = spec4(sx::choose(3), 0, 0, 3);
    s.minor = [0, 1, 0xffff][sx::choose(3)];
    let id = sx::u8_("id");
    sx::assume((id == 1) | (id > 11));
    s.extra_outer = vec![(id, sx::bytes(n, "data")), (12, fill(n, 1)), (id, vec![1])];
    let inner = sx::u8_("inner_id");
    sx::assume(inner > 2);
    s.extra_inner = vec![(3, fill(sx::param(1), 1)), (inner, sx::bytes(n, "inner")), (3, vec![]), (3, fill(3, 9))];
    let f = write4(&s, &comp(), &tiny_xml());
    let u = match open(&f) {
        Some(u) => u,
        None => return,
    };
    sx::check((u.header().other_headers.len() == 3) & (u.inner_header().other_headers.len() == 4), "extra fields are held");
    let out = match kept(&u) {
        Some(o) => o,
        None => return,
    };
    // and in the written file
    match read4(&out, &comp()) {
        Ok(o) => {
            let known = [0, 2, 3, 4, 7, 11];
            let rest: Vec<_> = o.parsed.fields.iter().filter(|f| !known.contains(&f.0)).collect();
            let ok = rest.len() == 3 && rest.iter().zip(&s.extra_outer).all(|(a, b)| (a.0 == b.0) & sx::same(&a.1, &b.1));
            sx::check(ok, "extra fields in the file");
            let rest: Vec<_> = o.inner.iter().filter(|f| f.0 > 2).collect();
            let ok = rest.len() == 4 && rest.iter().zip(&s.extra_inner).all(|(a, b)| (a.0 == b.0) & sx::same(&a.1, &b.1));
            sx::check(ok, "extra inner fields in the file");
            sx::check(o.parsed.minor == s.minor, "minor version in the file");
        }
        Err(e) => sx::check(false, e),
    }
    sx::observe(0, &[2]);
}
/// identifiers that are not known stay as they are (params: what)
pub fn c15_ids() {
    let mut s = spec4(2, 0, 0, 3);
    let at = sx::param(1);
    match sx::param(0) {
        0 => {
            let b = sx::bytes(4, "cipher");
            s.cipher[at..at + 4].copy_from_slice(&b);
        }
        _ => s.compression = sx::u32_("compression"),
    }
    let mut f = header(&s);
    let h = sha256(&[&f]);
    f.extend_from_slice(&h);
    f.extend_from_slice(&fill(32, 1));
    let l = match kdbx_rs::from_reader(&*f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a file with unknown identifiers opens"),
    };
    let u: uuid::Uuid = l.header().cipher.into();
    sx::check(sx::same(u.as_bytes(), &s.cipher), "cipher identifier");
    sx::check(u32::from(l.header().compression_type) == s.compression, "compression identifier");
    let named = match l.header().cipher {
        Cipher::Aes256 => s.cipher == AES256,
        Cipher::TwoFish => s.cipher == TWOFISH,
        Cipher::ChaCha20 => s.cipher == CHACHA20,
        Cipher::Aes128 => s.cipher[0] == 0x61,
        Cipher::Unknown(_) => s.cipher != CHACHA20,
    };
    sx::check(named, "known ciphers are recognised");
    let named = match l.header().compression_type {
        CompressionType::None => s.compression == 0,
        CompressionType::Gzip => s.compression == 1,
        CompressionType::Unknown(_) => s.compression > 1,
    };
    sx::check(named, "known compression is recognised");
    sx::observe(0, u.as_bytes());
    // set on a database: either saved as it is or refused
    let mut k = with_settings(tiny_db(), &spec4(2, 0, 0, 3));
    sx::check(k.set_key(key()).is_ok(), "key");
    k.header_mut().cipher = l.header().cipher;
    k.header_mut().compression_type = l.header().compression_type;
    let mut out = Vec::new();
    if k.write(&mut out).is_ok() {
        kept(&k);
        sx::cover(0);
    } else {
        sx::cover(1);
    }
}
/// parameters of a file over their full ranges (params: kdf, salt length)
pub fn c15_read() {
    let mut s = spec4(2, 0, sx::param(0), 3);
    let n = sx::param(1);
    s.kdf = match sx::param(0) {
        0 => Kdf::Aes { rounds: sx::u64_("rounds"), salt: sx::bytes(n, "salt"), old: sx::flip() },
        k => Kdf::Argon2 {
            id: k == 2,
            mem: sx::u64_("memory"),
            iters: sx::u64_("iterations"),
            lanes: sx::u32_("lanes"),
            version: sx::u32_("version"),
            salt: sx::bytes(n, "salt"),
        },
    };
    let mut f = header(&s);
    let h = sha256(&[&f]);
    f.extend_from_slice(&h);
    f.extend_from_slice(&fill(32, 1));
    match kdbx_rs::from_reader(&*f) {
        Ok(l) => sx::check(l.header().kdf_params == lib_kdf(&s.kdf), "parameters"),
        Err(_) => sx::check(false, "any parameter values open"),
    }
    // as a dictionary and back
    let p = lib_kdf(&s.kdf);
    let d: VariantDict = p.clone().into();
    match &s.kdf {
        Kdf::Aes { rounds, salt, .. } => {
            sx::check(d.get("R") == Some(&Value::Uint64(*rounds)), "rounds entry");
            sx::check(d.get("S") == Some(&Value::Array(salt.clone())), "salt entry");
            sx::check(d.len() == 3, "number of entries");
        }
        Kdf::Argon2 { mem, iters, lanes, version, salt, .. } => {
            sx::check(d.get("M") == Some(&Value::Uint64(*mem)), "memory entry");
            sx::check(d.get("I") == Some(&Value::Uint64(*iters)), "iterations entry");
            sx::check(d.get("P") == Some(&Value::Uint32(*lanes)), "lanes entry");
            sx::check(d.get("V") == Some(&Value::Uint32(*version)), "version entry");
            sx::check(d.get("S") == Some(&Value::Array(salt.clone())), "salt entry");
            sx::check(d.len() == 6, "number of entries");
        }
    }
    sx::check(KdfParams::try_from(d).ok() == Some(p), "parameters from the dictionary");
    sx::observe(0, &[3]);
}
const NAMES: [&str; 6] = ["", "a", "S", "M", "\u{e4}\u{20ac}", "a name of more than sixteen characters"];
fn value(k: usize, n: usize) -> (u8, Vec<u8>, Value) {
    match k {
        0 => {
            let v = sx::u32_("u32");
            (4, v.to_le_bytes().to_vec(), Value::Uint32(v))
        }
        1 => {
            let v = sx::u64_("u64");
            (5, v.to_le_bytes().to_vec(), Value::Uint64(v))
        }
        2 => {
            let v = sx::flip();
            (8, vec![v as u8], Value::Boolean(v))
        }
        3 => {
            let v = sx::u32_("i32") as i32;
            (0x0c, v.to_le_bytes().to_vec(), Value::Int32(v))
        }
        4 => {
            let v = sx::u64_("i64") as i64;
            (0x0d, v.to_le_bytes().to_vec(), Value::Int64(v))
        }
        5 => {
            let v = sx::ascii(n, "string");
            (0x18, v.as_bytes().to_vec(), Value::String(v))
        }
        6 => {
            let v = sx::bytes(n, "array");
            (0x42, v.clone(), Value::Array(v))
        }
        _ => {
            let t = sx::u8_("type");
            for k in [0, 4, 5, 8, 0x0c, 0x0d, 0x18, 0x42] {
                sx::assume(t != k);
            }
            let v = sx::bytes(n, "unknown");
            (t, v.clone(), Value::Unknown(t, v))
        }
    }
}
/// a dictionary of an unknown function in a file (params: value type, length, name)
pub fn c15_dict() {
    let (ty, raw, v) = value(sx::param(0), sx::param(1));
    let name = NAMES[sx::param(2)].to_string();
    let u = sx::arr::<4>("uuid");
    let mut id = [0x77u8; 16];
    id[12..].copy_from_slice(&u);
    let mut d = vec![0, 1];
    let mut list = vec![(ty, name.as_bytes().to_vec(), raw), (0x42, b"$UUID".to_vec(), id.to_vec()), (8, b"b".to_vec(), vec![1])];
    list.rotate_left(sx::choose(3));
    for (t, n, v) in &list {
        d.push(*t);
        d.extend_from_slice(&(n.len() as u32).to_le_bytes());
        d.extend_from_slice(n);
        d.extend_from_slice(&(v.len() as u32).to_le_bytes());
        d.extend_from_slice(v);
    }
    d.push(0);
    let s = spec4(2, 0, 0, 3);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (i, x) in &outer_fields(&s) {
        tlv(4, &mut h, *i, if *i == 11 { &d } else { x });
    }
    tlv(4, &mut h, 0, b"");
    let sum = sha256(&[&h]);
    h.extend_from_slice(&sum);
    h.extend_from_slice(&fill(32, 1));
    let l = match kdbx_rs::from_reader(&*h) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a dictionary of an unknown function opens"),
    };
    match &l.header().kdf_params {
        KdfParams::Unknown { uuid, params } => {
            sx::check(sx::same(uuid.as_bytes(), &id), "function identifier");
            sx::check(params.get(&name) == Some(&v), "value and type");
            sx::check(params.get("b") == Some(&Value::Boolean(true)), "another value");
            sx::check(params.len() == 2, "number of values");
        }
        _ => sx::check(false, "an unknown function stays unknown"),
    }
    sx::observe(0, &[4]);
}
/// a parameter set carried as an extra header field is written with types and values, whatever the
/// order of the dictionary (params: value type, length, seed)
pub fn c15_carry() {
    sx::hash_seed(sx::param(2) as u64);
    let (ty, raw, v) = value(sx::param(0), sx::param(1));
    let name = NAMES[sx::choose(NAMES.len())].to_string();
    let id = uuid::Uuid::from_bytes(sx::arr("uuid"));
    let mut d = VariantDict::new();
    d.insert(name.clone(), v);
    d.insert("flag".into(), Value::Boolean(sx::flip()));
    let flag = d["flag"] == Value::Boolean(true);
    let s = spec4(2, 0, 0, 3);
    let mut k = with_settings(tiny_db(), &s);
    let p = KdfParams::Unknown { uuid: id, params: d };
    k.header_mut().other_headers.push(p.into());
    carried(&mut k, |d| {
        sx::check(d.len() == 3, "number of entries");
        sx::check(dict_get(d, 0x42, "$UUID").is_some_and(|x| sx::same(x, id.as_bytes())), "identifier entry");
        sx::check(dict_get(d, ty, &name).is_some_and(|x| sx::same(x, &raw)), "entry with its type");
        sx::check(dict_get(d, 8, "flag").is_some_and(|x| sx::same(x, &[flag as u8])), "flag");
    });
}
/// the same for known functions over the full ranges (params: kdf, salt length)
pub fn c15_full() {
    let n = sx::param(1);
    let q = match sx::param(0) {
        0 => Kdf::Aes { rounds: sx::u64_("rounds"), salt: sx::bytes(n, "salt"), old: false },
        k => Kdf::Argon2 {
            id: k == 2,
            mem: sx::u64_("memory"),
            iters: sx::u64_("iterations"),
            lanes: sx::u32_("lanes"),
            version: sx::u32_("version"),
            salt: sx::bytes(n, "salt"),
        },
    };
    let mut k = with_settings(tiny_db(), &spec4(2, 0, 0, 3));
    k.header_mut().other_headers.push(lib_kdf(&q).into());
    carried(&mut k, |d| {
        let u = |n, v: u64| dict_get(d, 5, n).is_some_and(|x| sx::same(x, &v.to_le_bytes()));
        let w = |n, v: u32| dict_get(d, 4, n).is_some_and(|x| sx::same(x, &v.to_le_bytes()));
        let ok = match &q {
            Kdf::Aes { rounds, salt, .. } => u("R", *rounds) & (dict_get(d, 0x42, "S").is_some_and(|x| sx::same(x, salt))),
            Kdf::Argon2 { mem, iters, lanes, version, salt, .. } => {
                u("M", *mem) & u("I", *iters) & w("P", *lanes) & w("V", *version) & dict_get(d, 0x42, "S").is_some_and(|x| sx::same(x, salt))
            }
        };
        sx::check(ok, "every parameter with its type");
    });
}
fn carried(k: &mut Kdbx<Unlocked>, f: impl Fn(&[(u8, Vec<u8>, Vec<u8>)])) {
    sx::check(k.set_key(key()).is_ok(), "key");
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saved");
    // a library that does not keep a second field of this kind has nothing to answer for
    let p = match parse4(&out) {
        Some(p) => p,
        None => return sx::check(false, "header structure"),
    };
    let l: Vec<_> = p.fields.iter().filter(|x| x.0 == 11).collect();
    if l.len() == 2 {
        sx::cover(0);
        match dict(&l[0].1) {
            Some(d) => f(&d),
            None => sx::check(false, "dictionary structure"),
        }
    }
    sx::observe(0, &[5]);
}
/// settings of a KDBX 3 file as they are read (params: inner cipher)
pub fn c15_three() {
    let mut s = spec3(sx::choose(3), 0, sx::param(0) as u32);
    s.seed = sx::bytes(32, "seed");
    s.inner_key = sx::bytes(32, "inner_key");
    s.start_bytes = sx::bytes(32, "start");
    let r = sx::u64_("rounds");
    sx::assume(r < 3);
    s.kdf = Kdf::Aes { rounds: r, salt: fill(32, 11), old: false };
    let u = match open(&write3(&s, &comp(), &tiny_xml())) {
        Some(u) => u,
        None => return,
    };
    let h = u.header();
    sx::check(sx::same(&h.master_seed, &s.seed) & sx::same(&h.encryption_iv, &s.iv), "seed and IV");
    sx::check(h.kdf_params == KdfParams::Aes { rounds: r, salt: fill(32, 11) }, "key derivation parameters");
    sx::check(h.stream_start_bytes.as_ref().is_some_and(|x| sx::same(x, &s.start_bytes)), "start bytes");
    sx::check(sx::same(&u.inner_header().inner_stream_key, &s.inner_key), "inner key");
    sx::check(u32::from(u.inner_header().inner_stream_cipher) == s.inner_alg, "inner cipher");
    let _: &Database = u.database();
    sx::observe(0, &[6]);
}
