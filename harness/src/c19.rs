//! C19: a locked database is written as it was read.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::binary::Locked;
use kdbx_rs::{CompositeKey, Kdbx};

fn written(l: &Kdbx<Locked>, f: &[u8]) {
    let mut out = Vec::new();
    sx::check(l.write(&mut out).is_ok(), "a locked database can be written");
    sx::check(sx::same(&out, f), "the bytes that were read");
}
fn spec(major: usize, cipher: usize) -> Spec {
    if major == 3 {
        spec3(cipher, 0, 2)
    } else {
        spec4(cipher, 0, 0, 3)
    }
}
/// any content of the header fields and of everything after them (params: version, payload bytes, cipher)
pub fn c19_any() {
    let mut s = spec(sx::param(0), sx::param(2));
    s.minor = sx::u16_("minor");
    s.seed = sx::bytes(32, "seed");
    s.iv = sx::bytes(16, "iv");
    s.start_bytes = sx::bytes(32, "start");
    s.inner_key = sx::bytes(32, "inner_key");
    s.compression = sx::u32_("compression");
    s.cipher = sx::arr("cipher");
    s.end_filler = sx::bytes(4, "filler");
    s.extra_outer = vec![(12, sx::bytes(3, "public")), (1, sx::bytes(2, "comment"))];
    let mut f = header(&s);
    if s.major == 4 {
        let h = sha256(&[&f]);
        f.extend_from_slice(&h);
        f.extend_from_slice(&sx::bytes(32, "tag"));
    }
    f.extend_from_slice(&sx::bytes(sx::param(1), "payload"));
    match kdbx_rs::from_reader(&*f) {
        Ok(l) => {
            written(&l, &f);
            written(&l, &f);
        }
        Err(_) => sx::check(false, "the file opens"),
    }
    sx::observe(0, &[1]);
}
/// any header field lengths, identifiers and repetitions that open (params: version, which field, length)
pub fn c19_layout() {
    let s = spec(sx::param(0), 2);
    let mut l = outer_fields(&s);
    let id = sx::u8_("id");
    sx::assume(id != 0);
    if sx::param(2) > 8 {
        // longer dictionaries are decided by c19_dict
        sx::assume(id != 11);
    }
    let x = (id, sx::bytes(sx::param(2), "data"));
    let at = sx::param(1) % (l.len() + 1);
    if sx::flip() {
        l.insert(at, x);
    } else {
        l.rotate_left(at);
        l.push(x);
    }
    let mut f = SIGNATURE.to_vec();
    f.extend_from_slice(&s.minor.to_le_bytes());
    f.extend_from_slice(&s.major.to_le_bytes());
    for (i, d) in &l {
        tlv(s.major, &mut f, *i, d);
    }
    tlv(s.major, &mut f, 0, &fill(sx::choose(5), 1));
    if s.major == 4 {
        let h = sha256(&[&f]);
        f.extend_from_slice(&h);
        f.extend_from_slice(&fill(32, 7));
    }
    f.extend_from_slice(&fill(5, 9));
    match kdbx_rs::from_reader(&*f) {
        Ok(l) => {
            sx::cover(0);
            written(&l, &f);
        }
        Err(_) => {
            sx::cover(1);
            sx::check(true, "refused");
        }
    }
    sx::observe(0, &[2]);
}
/// parameter dictionaries of any order and content (params: kdf, seed)
pub fn c19_dict() {
    sx::hash_seed(sx::param(1) as u64);
    let s = spec4(2, 0, sx::param(0), 3);
    let mut e = dict(&kdf_dict(&s.kdf)).unwrap();
    e.push((0x18, b"text".to_vec(), b"x".to_vec()));
    e.push((0x77, b"new".to_vec(), sx::bytes(2, "value")));
    let by = sx::choose(e.len());
    e.rotate_right(by);
    let mut d = vec![0, 1];
    for (t, n, v) in &e {
        d.push(*t);
        d.extend_from_slice(&(n.len() as u32).to_le_bytes());
        d.extend_from_slice(n);
        d.extend_from_slice(&(v.len() as u32).to_le_bytes());
        d.extend_from_slice(v);
    }
    d.push(0);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (id, x) in &outer_fields(&s) {
        tlv(4, &mut h, *id, if *id == 11 { &d } else { x });
    }
    tlv(4, &mut h, 0, &s.end_filler);
    let x = tiny_xml();
    let mut p = inner_header(&s);
    p.extend_from_slice(&x);
    let mut f = build4(&s, &comp(), &p);
    f.hash = sha256(&[&h]);
    f.tag = header_tag(&f.keys, &h);
    f.header = h;
    unlocks(&f.bytes(), &key(), &dump_of(&f.bytes(), &key()));
}
fn dump_of(f: &[u8], k: &CompositeKey) -> Vec<u8> {
    match kdbx_rs::from_reader(f).ok().map(|l| l.unlock(k)) {
        Some(Ok(u)) => dump(u.database()),
        _ => {
            sx::check(false, "a conforming file unlocks");
            vec![]
        }
    }
}
/// written before unlocking, after a failed unlock, and after being written before
fn unlocks(f: &[u8], k: &CompositeKey, want: &[u8]) {
    let l = match kdbx_rs::from_reader(f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a conforming file opens"),
    };
    written(&l, f);
    let l = match l.unlock(&CompositeKey::from_password("not it")) {
        Ok(_) => return sx::check(false, "a wrong key is refused"),
        Err(e) => e.0,
    };
    written(&l, f);
    let mut out = Vec::new();
    sx::check(l.write(&mut out).is_ok(), "written");
    let again = kdbx_rs::from_reader(&*out).ok().map(|l| l.unlock(k));
    match again {
        Some(Ok(u)) => sx::check(sx::same(&dump(u.database()), want), "content of the written file"),
        _ => sx::check(false, "the written file unlocks"),
    }
    match l.unlock(k) {
        Ok(u) => sx::check(sx::same(&dump(u.database()), want), "content after a failed unlock"),
        Err(_) => sx::check(false, "a second attempt with the right key unlocks"),
    }
    sx::observe(0, want);
}
/// conforming files (params: version, cipher, compression, kdf, what is symbolic)
pub fn c19_config() {
    let mut s = if sx::param(0) == 3 { spec3(sx::param(1), sx::param(2) as u32, 2) } else { spec4(sx::param(1), sx::param(2) as u32, sx::param(3), 3) };
    let mut x = tiny_xml();
    match sx::param(4) {
        0 => x = xml_named(sx::word(1, "name").as_bytes(), b""),
        1 if s.major == 3 => s.inner_key = sx::bytes(32, "inner_key"),
        1 => s.seed = sx::bytes(32, "seed"),
        2 => {
            s.minor = sx::u16_("minor");
            s.extra_outer = vec![(12, sx::bytes(3, "public"))];
            s.end_filler = sx::bytes(2, "filler");
        }
        _ => {
            s.extra_inner = vec![(3, sx::bytes(2, "binary"))];
            s.splits = vec![1, 16, 33];
        }
    }
    let f = if s.major == 3 { write3(&s, &comp(), &x) } else { write4(&s, &comp(), &x) };
    unlocks(&f, &key(), &dump_of(&f, &key()));
}
/// header settings changed while locked do not spoil the file (params: version, what)
pub fn c19_touched() {
    let s = spec(sx::param(0), 2);
    let x = tiny_xml();
    let f = if s.major == 3 { write3(&s, &comp(), &x) } else { write4(&s, &comp(), &x) };
    let mut l = match kdbx_rs::from_reader(&*f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a conforming file opens"),
    };
    let h = l.header_mut();
    match sx::param(1) {
        0 => h.master_seed = sx::bytes(32, "seed"),
        1 => h.encryption_iv = sx::bytes(12, "iv"),
        2 => h.cipher = kdbx_rs::binary::Cipher::Aes256,
        3 => h.compression_type = kdbx_rs::binary::CompressionType::Gzip,
        4 => h.other_headers.clear(),
        _ => h.kdf_params = kdbx_rs::binary::KdfParams::Aes { rounds: 1, salt: fill(32, 99) },
    }
    let mut out = Vec::new();
    if l.write(&mut out).is_ok() {
        sx::check(dump_of(&out, &key()) == dump_of(&f, &key()), "the written file still unlocks");
    }
    sx::observe(0, &[3]);
}
/// a failed unlock for other reasons than the key (params: version, damage)
pub fn c19_damaged() {
    let s = spec(sx::param(0), 2);
    let x = tiny_xml();
    let mut f = if s.major == 3 { write3(&s, &comp(), &x) } else { write4(&s, &comp(), &x) };
    let n = f.len();
    match sx::param(1) {
        0 => f[n - 70] ^= 1 | sx::u8_("damage"),
        1 => f.truncate(n - 1 - sx::choose(40)),
        2 => f.extend_from_slice(&sx::bytes(3, "more")),
        _ => {
            let x = b"<KeePassFile><Root><Group><UUID>*</UUID></Group></Root></KeePassFile>";
            f = if s.major == 3 { write3(&s, &comp(), x) } else { write4(&s, &comp(), x) };
        }
    }
    let l = match kdbx_rs::from_reader(&*f) {
        Ok(l) => l,
        Err(_) => return sx::check(true, "refused"),
    };
    written(&l, &f);
    match l.unlock(&key()) {
        Ok(_) => sx::cover(0),
        Err(e) => {
            sx::cover(1);
            written(&e.0, &f);
        }
    }
    sx::observe(0, &[4]);
}
