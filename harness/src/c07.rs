//! C07: files laid out by other writers.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

fn content(text: &str) -> Vec<u8> {
    let mut e = b"<Entry><UUID>AQECAwQFBgcICQoLDA0ODw==</UUID><String><Key>Title</Key><Value>".to_vec();
    e.extend_from_slice(text.as_bytes());
    e.extend_from_slice(b"</Value></String></Entry>");
    xml_named(text.as_bytes(), &e)
}
/// The file must open and unlock to the given settings, document and text.
fn reads(f: &[u8], s: &Spec, c: &[u8], key: &kdbx_rs::CompositeKey, xml: &[u8], text: &str) {
    let _ = c;
    let l = match kdbx_rs::from_reader(f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a conforming file opens"),
    };
    sx::check(l.major_version() == 4 && l.minor_version() == s.minor, "version");
    let u = match l.unlock(key) {
        Ok(u) => u,
        Err(_) => return sx::check(false, "a conforming file unlocks"),
    };
    let h = u.header();
    sx::check(h.cipher == lib_cipher(CIPHERS.iter().position(|c| *c == s.cipher).unwrap()), "cipher");
    sx::check(u32::from(h.compression_type) == s.compression, "compression");
    sx::check(sx::same(&h.master_seed, &s.seed) && sx::same(&h.encryption_iv, &s.iv), "seed and IV");
    sx::check(h.kdf_params == lib_kdf(&s.kdf), "key derivation parameters");
    sx::check(h.other_headers.len() == s.extra_outer.len(), "other header fields");
    let i = u.inner_header();
    sx::check(u32::from(i.inner_stream_cipher) == s.inner_alg && sx::same(&i.inner_stream_key, &s.inner_key), "inner cipher and key");
    sx::check(i.other_headers.len() == s.extra_inner.len(), "other inner header fields");
    sx::check(u.raw_xml().is_some_and(|x| sx::same(x, xml)), "document");
    let db = u.database();
    sx::check(sx::same(db.name().as_bytes(), text.as_bytes()), "database name");
    let mut t = db.root().entries();
    sx::check(t.next().and_then(|e| e.title()).is_some_and(|x| sx::same(x.as_bytes(), text.as_bytes())), "entry");
    sx::check(t.next().is_none(), "number of entries");
    sx::observe(0, &dump(db));
}
fn go(s: &Spec) {
    let t = sx::word(1, "text");
    let x = content(&t);
    reads(&write4(s, &comp(), &x), s, &comp(), &key(), &x, &t);
}
/// every configuration (params: cipher, compression, kdf, inner cipher)
pub fn c07_config() {
    let mut s = spec4(sx::param(0), sx::param(1) as u32, sx::param(2), sx::param(3) as u32);
    s.seed = sx::bytes(32, "seed");
    s.minor = sx::u16_("minor");
    if let Kdf::Aes { old, .. } = &mut s.kdf {
        *old = sx::flip();
    }
    go(&s);
}
fn permute(n: usize) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut v = Vec::new();
    while !left.is_empty() {
        v.push(left.remove(if left.len() > 1 { sx::choose(left.len()) } else { 0 }));
    }
    v
}
/// every order of the header fields (params: kdf, first field)
pub fn c07_order() {
    let mut s = spec4(2, 0, sx::param(0), 3);
    s.extra_outer = vec![(12, vec![0, 1, 0])];
    s.order = permute(6);
    let x = content("t");
    reads(&write4(&s, &comp(), &x), &s, &comp(), &key(), &x, "t");
}
/// every order of the parameter dictionary, with entries the library does not know (params: kdf, more)
pub fn c07_dict() {
    let s = spec4(2, 0, sx::param(0), 3);
    let mut e = dict(&kdf_dict(&s.kdf)).unwrap();
    if sx::param(1) == 1 {
        e.truncate(e.len());
        e.push((0x08, b"extra".to_vec(), vec![1]));
        e.push((0x42, b"other".to_vec(), sx::bytes(2, "value")));
        e.push((0x18, b"text".to_vec(), b"x".to_vec()));
        let by = sx::choose(e.len());
        e.rotate_right(by);
    } else {
        let o = permute(e.len());
        e = o.iter().map(|i| e[*i].clone()).collect();
    }
    let mut d = vec![0, 1];
    for (t, n, v) in &e {
        d.push(*t);
        d.extend_from_slice(&(n.len() as u32).to_le_bytes());
        d.extend_from_slice(n);
        d.extend_from_slice(&(v.len() as u32).to_le_bytes());
        d.extend_from_slice(v);
    }
    d.push(0);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (id, x) in &outer_fields(&s) {
        tlv(4, &mut h, *id, if *id == 11 { &d } else { x });
    }
    tlv(4, &mut h, 0, &s.end_filler);
    let x = content("t");
    let mut p = inner_header(&s);
    p.extend_from_slice(&x);
    let mut f = build4(&s, &comp(), &p);
    f.hash = sha256(&[&h]);
    f.tag = header_tag(&f.keys, &h);
    f.header = h;
    reads(&f.bytes(), &s, &comp(), &key(), &x, "t");
}
/// extra header fields of any identifier and content, any end filler (params: length, end filler)
pub fn c07_extra() {
    let mut s = spec4(2, 0, 0, 3);
    let id = sx::u8_("id");
    sx::assume((id == 1) | (id > 11));
    s.extra_outer = vec![(id, sx::bytes(sx::param(0), "data")), (1, b"c".to_vec())];
    s.end_filler = sx::bytes(sx::param(1), "filler");
    s.order = vec![5, 0, 1, 2, 6, 3, 4];
    go(&s);
}
/// inner header fields: binaries, unknown ones, order, filler (params: length)
pub fn c07_inner() {
    let mut s = spec4(2, sx::choose(2) as u32, 0, 2 + sx::choose(2) as u32);
    let id = sx::u8_("id");
    sx::assume(id > 2);
    s.extra_inner = vec![(3, vec![1, b'a']), (id, sx::bytes(sx::param(0), "data")), (3, vec![])];
    s.inner_key = sx::bytes(s.inner_key.len(), "inner_key");
    let t = sx::word(1, "text");
    let x = content(&t);
    let mut p = Vec::new();
    let mut l = vec![(1, s.inner_alg.to_le_bytes().to_vec()), (2, s.inner_key.clone())];
    for f in &s.extra_inner {
        l.push(f.clone());
    }
    l.rotate_left(sx::choose(5));
    for (i, d) in &l {
        tlv(4, &mut p, *i, d);
    }
    tlv(4, &mut p, 0, &fill(sx::choose(3) * 2, 1));
    p.extend_from_slice(&x);
    reads(&build4(&s, &comp(), &p).bytes(), &s, &comp(), &key(), &x, &t);
}
/// every division into blocks (params: cipher, compression, size of the first block)
pub fn c07_split() {
    let mut s = spec4(sx::param(0), sx::param(1) as u32, 0, 3);
    s.splits = match sx::choose(3) {
        0 => vec![sx::param(2), 1 + sx::choose(33)],
        1 => vec![sx::param(2); 600],
        _ => vec![1, sx::param(2), 15, 17, 1, 1],
    };
    let x = content("t");
    reads(&write4(&s, &comp(), &x), &s, &comp(), &key(), &x, "t");
}
/// compressed with Huffman codes, gzip headers with optional parts (params: data, header)
pub fn c07_gzip() {
    let s = spec4(sx::choose(3), 1, 0, 3);
    let plain: &[u8] = include_bytes!("../data/plain.bin");
    let z: &[u8] = match sx::param(0) {
        0 => include_bytes!("../data/dynamic.gz"),
        1 => include_bytes!("../data/fixed.gz"),
        _ => &gzip(plain),
    };
    let mut g = z[..10].to_vec();
    g[4..8].copy_from_slice(&sx::bytes(4, "mtime"));
    match sx::param(1) {
        1 => {
            g[3] = 8;
            g.extend_from_slice(b"name.xml\0");
        }
        2 => {
            g[3] = 4;
            g.extend_from_slice(&[5, 0, b'a', b'b', 1, 0, 9]);
        }
        3 => {
            g[3] = 16;
            g.extend_from_slice(b"comment\0");
        }
        4 => g[3] = 1,
        _ => {}
    }
    g.extend_from_slice(&z[10..]);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let h = header(&s);
    let enc = encrypt(&s.cipher, &k.cipher, &s.iv, &g);
    let f = File { hash: sha256(&[&h]), tag: header_tag(&k, &h), header: h, frames: frame(&k, &split(&enc, &[100])), keys: k };
    match kdbx_rs::from_reader(&*f.bytes()).ok().and_then(|l| l.unlock(&key()).ok()) {
        Some(u) => {
            sx::check(u.raw_xml().is_some_and(|x| sx::same(x, &plain[plain.len() - x.len()..])), "document");
            sx::check(u.database().name() == "compressed" && u.database().root().entries().count() == 12, "content");
        }
        None => sx::check(false, "a conforming file unlocks"),
    }
    sx::observe(0, &[1]);
}
/// credentials of every kind (params: kind, length)
pub fn c07_key() {
    let s = spec4(2, 0, sx::choose(3), 3);
    let p = if sx::param(0) & 1 == 1 { Some(sx::ascii(sx::param(1), "password")) } else { None };
    let k = if sx::param(0) & 2 == 2 { Some(sx::bytes(sx::param(1), "keyfile")) } else { None };
    let c = composite(p.as_ref().map(|x| x.as_bytes()), k.as_deref());
    let x = content("t");
    reads(&write4(&s, &c, &x), &s, &c, &kdbx_rs::CompositeKey::new(p, k), &x, "t");
}
