//! C01: opening arbitrary bytes.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

fn open(b: &[u8]) {
    sx::max_alloc(1 << 20);
    let r = kdbx_rs::from_reader(b);
    sx::cover(r.is_ok() as u64);
    sx::check(true, "opening returned");
    if let Ok(l) = &r {
        // a locked database can be looked at and written
        let mut out = Vec::new();
        sx::check(l.write(&mut out).is_ok(), "a locked database can be written");
        let _ = (l.major_version(), l.minor_version(), l.header().cipher, l.header().master_seed.len());
    }
    sx::observe(0, &[r.is_ok() as u8]);
}
/// n arbitrary bytes
pub fn c01_raw() {
    let b = sx::bytes(sx::param(0), "file");
    open(&b);
}
/// signature and version, then n arbitrary bytes (params: major, n)
pub fn c01_fields() {
    let mut b = SIGNATURE.to_vec();
    b.extend_from_slice(&sx::u16_("minor").to_le_bytes());
    b.extend_from_slice(&(sx::param(0) as u16).to_le_bytes());
    b.extend_from_slice(&sx::bytes(sx::param(1), "header"));
    open(&b);
}
/// Everything after the header fields of `h` so that the hash is right.
fn seal(major: u16, h: Vec<u8>) -> Vec<u8> {
    let mut b = h;
    if major >= 4 {
        let hash = sha256(&[&b]);
        b.extend_from_slice(&hash);
        b.extend_from_slice(&fill(32, 5));
    }
    b.extend_from_slice(&fill(40, 6));
    b
}
fn spec(major: usize) -> Spec {
    if major == 4 {
        spec4(0, 0, sx::choose(2), 3)
    } else {
        spec3(0, 0, 2)
    }
}
/// a whole header with one field replaced by an arbitrary one (params: major, field index, length)
pub fn c01_replace() {
    let s = spec(sx::param(0));
    let f = outer_fields(&s);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&s.minor.to_le_bytes());
    h.extend_from_slice(&s.major.to_le_bytes());
    let at = sx::param(1);
    for (i, (id, d)) in f.iter().enumerate() {
        if i == at {
            let keep = sx::flip();
            let new = if keep { *id } else { sx::u8_("id") };
            // long dictionaries are the subject of c01_dict and c01_entry
            sx::assume((sx::param(2) < 12) | (new != 11));
            tlv(s.major, &mut h, new, &sx::bytes(sx::param(2), "data"));
        } else {
            tlv(s.major, &mut h, *id, d);
        }
    }
    tlv(s.major, &mut h, 0, b"\r\n\r\n");
    open(&seal(s.major, h));
}
/// a whole header with the claimed length of one field arbitrary (params: major, field index)
pub fn c01_length() {
    let s = spec(sx::param(0));
    let f = outer_fields(&s);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&s.minor.to_le_bytes());
    h.extend_from_slice(&s.major.to_le_bytes());
    let at = sx::param(1);
    for (i, (id, d)) in f.iter().enumerate() {
        let p = h.len();
        tlv(s.major, &mut h, *id, d);
        if i == at {
            // too large for the file, or anything small
            let n = if s.major >= 4 { 4 } else { 2 };
            let v = sx::bytes(n, "length");
            let small = (v[0] < 8) & v[1..].iter().fold(true, |a, b| a & (*b == 0));
            let large = if n == 4 { (v[3] != 0) | (v[2] != 0) } else { v[1] > 4 };
            sx::assume(small | large);
            h[p + 1..p + 1 + n].copy_from_slice(&v);
        }
    }
    tlv(s.major, &mut h, 0, b"\r\n\r\n");
    open(&seal(s.major, h));
}
fn with_dict(d: &[u8]) {
    let s = spec4(0, 0, 0, 3);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&s.minor.to_le_bytes());
    h.extend_from_slice(&s.major.to_le_bytes());
    for (id, x) in &outer_fields(&s) {
        tlv(4, &mut h, *id, if *id == 11 { d } else { x });
    }
    tlv(4, &mut h, 0, b"\r\n\r\n");
    open(&seal(4, h));
}
/// parameter dictionary of n arbitrary bytes
pub fn c01_dict() {
    let d = sx::bytes(sx::param(0), "dictionary");
    with_dict(&d);
}
/// parameter dictionary with one entry changed (params: kdf, entry, length of its value)
pub fn c01_entry() {
    let base = kdf_dict(&kdf(sx::param(0)));
    let e = dict(&base).unwrap();
    let mut d = vec![0, 1];
    for (i, (ty, name, data)) in e.iter().enumerate() {
        let hit = i == sx::param(1);
        let what = if hit { sx::choose(4) } else { 0 };
        // 1: other type and data, 2: left out, 3: claimed length of value or name
        if hit && what == 2 {
            continue;
        }
        let (t, v) = if hit && what == 1 {
            let t = sx::u8_("type");
            sx::assume((sx::param(2) < 9) | (t != 0x18));
            (t, sx::bytes(sx::param(2), "value"))
        } else {
            (*ty, data.clone())
        };
        d.push(t);
        let mut nl = (name.len() as u32).to_le_bytes().to_vec();
        let mut vl = (v.len() as u32).to_le_bytes().to_vec();
        if hit && what == 3 {
            let l = sx::bytes(4, "length");
            sx::assume((l[3] != 0) | (l[0] < 4) & (l[1] == 0) & (l[2] == 0));
            if sx::flip() {
                nl = l;
            } else {
                vl = l;
            }
        }
        d.extend_from_slice(&nl);
        d.extend_from_slice(name);
        d.extend_from_slice(&vl);
        d.extend_from_slice(&v);
    }
    d.push(0);
    with_dict(&d);
}
/// a conforming file cut short anywhere (params: major)
pub fn c01_cut() {
    let f = if sx::param(0) == 4 {
        write4(&spec4(sx::choose(2) * 2, 0, 0, 3), &comp(), &tiny_xml())
    } else {
        write3(&spec3(0, 0, 2), &comp(), &tiny_xml())
    };
    let n = 400.min(f.len());
    open(&f[..sx::choose(n)]);
}
