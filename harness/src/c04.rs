//! C04: modified headers.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

/// The file must not open and unlock.
fn refused(f: &[u8]) {
    match kdbx_rs::from_reader(f) {
        Ok(l) => {
            let r = l.unlock(&key());
            sx::cover(1);
            sx::check(r.is_err(), "a file with a modified header is not unlocked");
            sx::observe(0, &[1]);
        }
        Err(_) => {
            sx::cover(0);
            sx::check(true, "a file with a modified header is not opened");
            sx::observe(0, &[0]);
        }
    }
}
fn original(c: usize, k: usize) -> File {
    let s = settings(c, k);
    let mut p = inner_header(&s);
    p.extend_from_slice(&tiny_xml());
    build4(&s, &comp(), &p)
}
/// Header bytes from (identifier, claimed length, data) triples.
fn raw(version: &[u8], l: &[(u8, u32, Vec<u8>)]) -> Vec<u8> {
    let mut h = version.to_vec();
    for (id, n, d) in l {
        h.push(*id);
        h.extend_from_slice(&n.to_le_bytes());
        h.extend_from_slice(d);
    }
    h
}
fn prefix() -> Vec<u8> {
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    h
}
fn settings(c: usize, k: usize) -> Spec {
    let mut s = spec4(c, 0, k, 3);
    s.extra_outer = vec![(1, b"comment".to_vec())];
    s
}
fn triples(s: &Spec) -> Vec<(u8, u32, Vec<u8>)> {
    let mut l: Vec<(u8, u32, Vec<u8>)> = outer_fields(s).into_iter().map(|(i, d)| (i, d.len() as u32, d)).collect();
    l.push((0, 4, b"\r\n\r\n".to_vec()));
    l
}
/// Put the modified header in front of the rest, with the stored or a recomputed hash.
fn replaced(mut f: File, h: Vec<u8>) {
    sx::assume(!sx::same(&h, &f.header));
    if sx::flip() {
        f.hash = sha256(&[&h]);
    }
    f.header = h;
    refused(&f.bytes());
}
/// signature and version (params: first byte, bytes)
pub fn c04_prefix() {
    let s = settings(2, 0);
    let (at, w) = (sx::param(0), sx::param(1));
    let mut v = prefix();
    let new = sx::bytes(w, "bytes");
    v[at..at + w].copy_from_slice(&new);
    replaced(original(2, 0), raw(&v, &triples(&s)));
}
/// data of one field (params: cipher, kdf, field, first byte, bytes)
pub fn c04_data() {
    let s = settings(sx::param(0), sx::param(1));
    let mut l = triples(&s);
    let d = &mut l[sx::param(2)].2;
    let at = sx::param(3);
    if at >= d.len() {
        return refused(b"");
    }
    let w = sx::param(4).min(d.len() - at);
    let new = sx::bytes(w, "bytes");
    d[at..at + w].copy_from_slice(&new);
    replaced(original(sx::param(0), sx::param(1)), raw(&prefix(), &l));
}
/// data of two fields at once (params: cipher, field, field)
pub fn c04_two() {
    let s = settings(sx::param(0), 0);
    let mut l = triples(&s);
    for i in 1..3 {
        let d = &mut l[sx::param(i)].2;
        let n = d.len();
        let new = sx::bytes(2, "bytes");
        d[n - 2..].copy_from_slice(&new);
    }
    replaced(original(sx::param(0), 0), raw(&prefix(), &l));
}
/// identifier or claimed length of one field (params: field, 0 identifier 1 length)
pub fn c04_field() {
    let s = settings(2, 0);
    let mut l = triples(&s);
    let f = &mut l[sx::param(0)];
    if sx::param(1) == 0 {
        // after the end marker the parser would run into the hash: one path per value
        f.0 = if f.0 == 0 { sx::choose(256) as u8 } else { sx::u8_("id") };
    } else {
        f.1 = sx::length(64, "length");
    }
    replaced(original(2, 0), raw(&prefix(), &l));
}
/// one entry of the parameter dictionary (params: kdf, entry, 0 type 1 value 2 name 3 lengths 4 left out 5 repeated 6 new)
pub fn c04_dict() {
    let k = sx::param(0);
    let s = settings(2, k);
    let mut l = triples(&s);
    let mut e: Vec<(u8, Vec<u8>, u32, Vec<u8>)> =
        dict(&l[4].2).unwrap().into_iter().map(|(t, n, v)| (t, n, v.len() as u32, v)).collect();
    let i = sx::param(1);
    match sx::param(2) {
        0 => e[i].0 = sx::u8_("type"),
        1 => {
            let n = e[i].3.len();
            e[i].3 = sx::bytes(n, "value");
            // rounds and lanes that can be executed
            if e[i].1 == b"R" {
                sx::assume((e[i].3[0] < 4) & e[i].3[1..].iter().fold(true, |a, b| a & (*b == 0)));
            }
            if e[i].1 == b"P" {
                sx::assume((e[i].3[0] < 4) & e[i].3[1..].iter().fold(true, |a, b| a & (*b == 0)));
            }
        }
        2 => {
            let n = e[i].1.len();
            e[i].1[n - 1] = sx::u8_("name");
        }
        3 => e[i].2 = sx::length(40, "length"),
        4 => {
            e.remove(i);
        }
        5 => {
            let x = e[i].clone();
            e.push(x);
        }
        _ => e.insert(i, (0x0c, b"X".to_vec(), 4, sx::bytes(4, "value"))),
    }
    let mut d = vec![0, 1];
    for (t, n, c, v) in &e {
        d.push(*t);
        d.extend_from_slice(&(n.len() as u32).to_le_bytes());
        d.extend_from_slice(n);
        d.extend_from_slice(&c.to_le_bytes());
        d.extend_from_slice(v);
    }
    d.push(0);
    l[4].1 = d.len() as u32;
    l[4].2 = d;
    replaced(original(2, k), raw(&prefix(), &l));
}
/// the stored hash itself
pub fn c04_hash() {
    let mut f = original(2, 0);
    let h = sx::bytes(32, "hash");
    sx::assume(!sx::same(&h, &f.hash));
    f.hash = h;
    refused(&f.bytes());
}
/// fields added, repeated, left out, moved, with the hash recomputed (params: what, length of new data)
pub fn c04_fields() {
    let s = settings(2, 0);
    let mut f = original(2, 0);
    let mut l = outer_fields(&s);
    let n = sx::param(1);
    let mut end = b"\r\n\r\n".to_vec();
    let at = sx::choose(l.len());
    match sx::param(0) {
        0 => {
            let id = sx::u8_("id");
            sx::assume((id != 0) & ((id != 11) | (n < 8)));
            l.insert(at, (id, sx::bytes(n, "data")));
        }
        1 => {
            let x = l[at].clone();
            l.push(x);
        }
        2 => {
            l.remove(at);
        }
        3 => {
            let b = (at + 1) % l.len();
            l.swap(at, b);
        }
        4 => {
            end = sx::bytes(n, "filler");
            if n == 4 {
                sx::assume(!sx::same(&end, b"\r\n\r\n"));
            }
        }
        _ => {
            // an end marker in the middle
            l.insert(at, (0, sx::bytes(n, "filler")));
        }
    }
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (id, d) in &l {
        tlv(4, &mut h, *id, d);
    }
    tlv(4, &mut h, 0, &end);
    f.hash = sha256(&[&h]);
    f.header = h;
    refused(&f.bytes());
}
/// a modifier who also replaces the authentication code (params: 0 the code, 1 a setting and the code)
pub fn c04_tag() {
    let mut f = original(2, 0);
    let tag = sx::bytes(32, "tag");
    if sx::param(0) == 0 {
        sx::assume(!sx::same(&tag, &f.tag));
        f.tag = tag;
    } else {
        // any code derived without the key: all zero, a plain hash, the code of the first block
        f.header[8] = 1;
        f.hash = sha256(&[&f.header]);
        f.tag = match sx::choose(5) {
            0 => vec![0; 32],
            1 => f.hash.clone(),
            2 => f.frames[0].0.clone(),
            3 => hmac256(&[], &[&f.header]),
            _ => f.tag.clone(),
        };
    }
    refused(&f.bytes());
}
