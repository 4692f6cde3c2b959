//! C20: changes of keys and settings followed by saves.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::binary::{CompressionType, InnerStreamCipherAlgorithm, Unlocked};
use kdbx_rs::{CompositeKey, Kdbx};

/// Credentials by number.
fn cred(k: usize) -> CompositeKey {
    match k {
        0 => CompositeKey::from_password("pw"),
        1 => CompositeKey::from_password("other"),
        2 => CompositeKey::new(Some("pw".to_string()), Some(vec![1, 2, 3])),
        _ => CompositeKey::new(None, Some(b"else".to_vec())),
    }
}
fn settings(k: &Kdbx<Unlocked>) -> Vec<u8> {
    let h = k.header();
    let mut o = format!("{:?}{:?}{:?}", h.cipher, h.compression_type, h.kdf_params).into_bytes();
    o.extend_from_slice(&h.master_seed);
    o.extend_from_slice(&h.encryption_iv);
    let i = k.inner_header();
    o.extend_from_slice(&u32::from(i.inner_stream_cipher).to_le_bytes());
    o.extend_from_slice(&i.inner_stream_key);
    o.extend_from_slice(&(h.other_headers.len() as u32).to_le_bytes());
    o.extend_from_slice(&(i.other_headers.len() as u32).to_le_bytes());
    o
}
fn open(f: &[u8], k: usize) -> Option<Kdbx<Unlocked>> {
    kdbx_rs::from_reader(f).ok().and_then(|l| l.unlock(&cred(k)).ok())
}
/// Save and look at the result. `usable`: the settings are consistent, so saving has to succeed.
fn saved(u: &Kdbx<Unlocked>, key: Option<usize>, usable: bool) -> Option<Vec<u8>> {
    let (d, s) = (dump(u.database()), settings(u));
    let mut out = Vec::new();
    let r = u.write(&mut out);
    sx::check(sx::same(&dump(u.database()), &d) && sx::same(&settings(u), &s), "saving changes nothing");
    let k = match key {
        None => {
            sx::cover(0);
            sx::check(r.is_err(), "saving without a key is refused");
            return None;
        }
        Some(k) => k,
    };
    if r.is_err() {
        sx::cover(1);
        sx::check(!usable, "usable settings are saved");
        return None;
    }
    sx::cover(2);
    match open(&out, k) {
        Some(n) => {
            sx::check(sx::same(&settings(&n), &s), "the current settings");
            sx::check(dump(n.database()) == d, "the current content");
        }
        None => sx::check(false, "a saved file opens with the latest key"),
    }
    for o in 0..4 {
        if o != k {
            sx::check(open(&out, o).is_none(), "other keys do not open the file");
        }
    }
    Some(out)
}
fn start(k: usize) -> (Kdbx<Unlocked>, Option<usize>, bool) {
    match k {
        0 => (with_settings(tiny_db(), &spec4(2, 0, 0, 3)), None, true),
        1 | 3 => {
            let mut s = spec4(2, 0, 1, 2);
            s.extra_outer = vec![(12, vec![0, 1, 0])];
            s.extra_inner = vec![(3, vec![1, 2])];
            let mut u = open(&write4(&s, &comp(), &tiny_xml()), 0);
            if k == 3 {
                // already saved once
                let n = u.as_ref().and_then(|u| {
                    let mut o = Vec::new();
                    u.write(&mut o).ok().and_then(|_| open(&o, 0))
                });
                u = n;
            }
            match u {
                Some(u) => (u, Some(0), true),
                None => {
                    sx::check(false, "a conforming file unlocks");
                    start(0)
                }
            }
        }
        _ => match open(&write3(&spec3(2, 0, 2), &comp(), &tiny_xml()), 0) {
            Some(u) => (u, Some(0), false),
            None => {
                sx::check(false, "a conforming file unlocks");
                start(0)
            }
        },
    }
}
fn set_cipher(u: &mut Kdbx<Unlocked>, c: usize) {
    u.header_mut().cipher = lib_cipher(c);
    u.header_mut().encryption_iv = fill(iv_len(&CIPHERS[c]), 40 + c as u8);
}
/// sequences (params: start, operations, first operation, second operation, symbolic seeds)
pub fn c20_sequence() {
    let (mut u, mut key, mut usable) = start(sx::param(0));
    for i in 0..sx::param(1) {
        let op = match i {
            0 => sx::param(2),
            1 => sx::param(3),
            _ => sx::choose(9),
        };
        match op {
            0 => {
                let k = sx::choose(3);
                sx::check(u.set_key(cred(k)).is_ok(), "a key can be set");
                key = Some(k);
            }
            1 => {
                let k = sx::choose(4);
                let p = match k {
                    3 => Kdf::Aes { rounds: 1, salt: fill(32, 77), old: false },
                    k => kdf(k),
                };
                u.header_mut().kdf_params = lib_kdf(&p);
            }
            2 => set_cipher(&mut u, sx::choose(3)),
            3 => u.header_mut().compression_type = if sx::flip() { CompressionType::Gzip } else { CompressionType::None },
            4 => {
                let i = u.inner_header_mut();
                i.inner_stream_cipher = if sx::flip() { InnerStreamCipherAlgorithm::Salsa20 } else { InnerStreamCipherAlgorithm::ChaCha20 };
                i.inner_stream_key = if sx::param(4) == 1 { sx::bytes(64, "inner_key") } else { fill(64, 50) };
            }
            5 => {
                u.header_mut().master_seed = if sx::param(4) == 1 { sx::bytes(32, "seed") } else { fill(32, 60) };
                u.header_mut().other_headers.clear();
            }
            6 => {
                u.set_name("edited");
                let mut e = entry(5);
                e.set_password("new");
                u.add_entry(e);
            }
            7 => {
                // save and go on with what was saved
                let (d, s) = (dump(u.database()), settings(&u));
                let mut out = Vec::new();
                if u.write(&mut out).is_ok() {
                    sx::check(key.is_some(), "saving without a key is refused");
                    match key.and_then(|k| open(&out, k)) {
                        Some(n) => {
                            sx::check(sx::same(&dump(n.database()), &d) && sx::same(&settings(&n), &s), "content and settings after reopening");
                            u = n;
                            usable = true;
                        }
                        None => return sx::check(false, "a saved file opens with the latest key"),
                    }
                } else {
                    sx::check(key.is_none() || !usable, "usable settings are saved");
                }
            }
            _ => {
                // save and go on with the same database
                let mut out = Vec::new();
                let ok = u.write(&mut out).is_ok();
                sx::check(ok == (key.is_some() && usable) || !usable, "usable settings are saved");
            }
        }
    }
    saved(&u, key, usable);
    sx::observe(0, &[key.map_or(9, |k| k as u8)]);
}
/// settings that do not fit each other: refused, or the file opens (params: start, what)
pub fn c20_misfit() {
    let (mut u, mut key, _) = start(sx::param(0));
    if key.is_none() {
        sx::check(u.set_key(cred(0)).is_ok(), "a key can be set");
        key = Some(0);
    }
    match sx::param(1) {
        0 => {
            let c = sx::choose(3);
            u.header_mut().cipher = lib_cipher(c);
            u.header_mut().encryption_iv = fill(sx::choose(40), 1);
        }
        1 => u.header_mut().cipher = kdbx_rs::binary::Cipher::Aes128,
        2 => u.header_mut().cipher = kdbx_rs::binary::Cipher::Unknown(uuid::Uuid::from_bytes(sx::arr("cipher"))),
        3 => u.header_mut().compression_type = CompressionType::Unknown(sx::u32_("compression")),
        4 => u.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::Unknown(sx::u32_("inner")),
        5 => u.inner_header_mut().inner_stream_cipher = InnerStreamCipherAlgorithm::ArcFour,
        6 => u.inner_header_mut().inner_stream_key = sx::bytes(sx::choose(5) * 11, "inner_key"),
        7 => u.header_mut().master_seed = sx::bytes([0, 1, 31, 33][sx::choose(4)], "seed"),
        _ => u.header_mut().kdf_params = kdbx_rs::binary::KdfParams::Aes { rounds: 1, salt: fill([0, 16, 31, 33][sx::choose(4)], 1) },
    }
    let mut out = Vec::new();
    if u.write(&mut out).is_ok() {
        sx::cover(0);
        match key.and_then(|k| open(&out, k)) {
            Some(n) => sx::check(dump(n.database()) == dump(u.database()), "the current content"),
            None => sx::check(false, "what is saved can be opened"),
        }
    } else {
        sx::cover(1);
    }
    // usable again after repairing the settings
    let keep = u.inner_header().other_headers.len();
    apply(&mut u, &spec4(2, 0, 0, 3));
    sx::check(u.inner_header().other_headers.len() == keep, "attachments");
    let mut out = Vec::new();
    let ok = u.write(&mut out).is_ok();
    sx::check(ok || sx::param(0) == 2, "usable settings are saved");
    if ok {
        sx::check(key.and_then(|k| open(&out, k)).is_some_and(|n| dump(n.database()) == dump(u.database())), "the file opens");
    }
    sx::observe(0, &[ok as u8]);
}
/// arbitrary passwords one after the other (params: length, kdf, save in between)
pub fn c20_keys() {
    let n = sx::param(0);
    let (a, b) = (sx::ascii(n, "first"), sx::ascii(n, "second"));
    sx::assume(!sx::same(a.as_bytes(), b.as_bytes()));
    let mut u = with_settings(tiny_db(), &spec4(2, 0, sx::param(1), 3));
    sx::check(u.set_key(CompositeKey::from_password(a.as_str())).is_ok(), "first key");
    if sx::param(2) == 1 {
        let mut o = Vec::new();
        sx::check(u.write(&mut o).is_ok(), "saved");
    }
    if sx::param(2) == 2 {
        u.header_mut().kdf_params = lib_kdf(&kdf(0));
    }
    sx::check(u.set_key(CompositeKey::from_password(b.as_str())).is_ok(), "second key");
    let mut out = Vec::new();
    sx::check(u.write(&mut out).is_ok(), "saved");
    let l = kdbx_rs::from_reader(&*out).ok();
    let r = l.map(|l| match l.unlock(&CompositeKey::from_password(a.as_str())) {
        Ok(_) => {
            sx::check(false, "an earlier key does not open the file");
            false
        }
        Err(e) => match e.0.unlock(&CompositeKey::from_password(b.as_str())) {
            Ok(n) => sx::same(&dump(n.database()), &dump(u.database())),
            Err(_) => false,
        },
    });
    sx::check(r == Some(true), "the latest key opens the file");
    sx::observe(0, &[1]);
}
/// arbitrary content edited between saves (params: cipher, compression)
pub fn c20_content() {
    let mut u = with_settings(sample("t", "s"), &spec4(sx::param(0), sx::param(1) as u32, 0, 3));
    sx::check(u.set_key(cred(0)).is_ok(), "key");
    let mut first = Vec::new();
    sx::check(u.write(&mut first).is_ok(), "saved");
    let t = sx::word(1, "text");
    u.set_description(&t);
    if let Some(e) = u.find_entry_mut(|e| e.uuid() == uuid(1)) {
        e.set_title(&t);
        e.remove_field("note");
        e.new_version();
        e.set_password(&t);
    }
    let gone = u.root_mut().remove_group(uuid(2)).is_some();
    sx::check(gone, "group removed");
    let mut out = Vec::new();
    sx::check(u.write(&mut out).is_ok(), "saved");
    sx::check(open(&out, 0).is_some_and(|n| sx::same(&dump(n.database()), &dump(u.database()))), "the current content");
    let old = sample("t", "s");
    match open(&first, 0) {
        Some(n) => {
            sx::check(n.database().description() == old.description(), "the file saved before");
            sx::check(n.database().root().group_count() == 1, "the file saved before");
        }
        None => sx::check(false, "the file saved before"),
    }
    sx::observe(0, &[2]);
}
