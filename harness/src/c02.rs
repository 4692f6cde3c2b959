//! C02: unlocking whatever was opened.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

fn unlock(b: &[u8]) {
    sx::max_alloc(2 << 20);
    match kdbx_rs::from_reader(b) {
        Ok(l) => {
            let r = l.unlock(&key());
            sx::cover(1 + r.is_ok() as u64);
            sx::observe(0, &[1 + r.is_ok() as u8]);
            if let Ok(u) = r {
                sx::observe(1, &dump(u.database()));
            }
        }
        Err(_) => {
            sx::cover(0);
            sx::observe(0, &[0]);
        }
    }
    sx::check(true, "unlocking returned");
}
/// A file whose header is `fields`, correctly authenticated, with the payload given by `payload`.
fn file4(fields: &[(u8, Vec<u8>)], k: &Keys, payload: &[u8]) -> Vec<u8> {
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (id, d) in fields {
        tlv(4, &mut h, *id, d);
    }
    tlv(4, &mut h, 0, b"\r\n\r\n");
    let hash = sha256(&[&h]);
    let tag = header_tag(k, &h);
    h.extend_from_slice(&hash);
    h.extend_from_slice(&tag);
    h.extend_from_slice(payload);
    h
}
fn body(s: &Spec, k: &Keys, plain: &[u8]) -> Vec<u8> {
    let enc = encrypt(&s.cipher, &k.cipher, &s.iv, plain);
    frame_bytes(&frame(k, &split(&enc, &s.splits)))
}
fn plain(s: &Spec) -> Vec<u8> {
    let mut p = inner_header(s);
    p.extend_from_slice(&tiny_xml());
    p
}
/// identifiers of cipher and compression (params: cipher the file was made with)
pub fn c02_ids() {
    let s = spec4(sx::param(0), 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut f = outer_fields(&s);
    match sx::choose(3) {
        0 => f[0].1 = sx::bytes(16, "cipher"),
        1 => f[0].1 = vec![0x61, 0xab, 0x05, 0xa1, 0x94, 0x64, 0x41, 0xc3, 0x8d, 0x74, 0x3a, 0x56, 0x3d, 0xf8, 0xdd, 0x35],
        _ => f[1].1 = sx::u32_("compression").to_le_bytes().to_vec(),
    }
    unlock(&file4(&f, &k, &body(&s, &k, &plain(&s))));
}
/// lengths of IV and seed (params: cipher, field 0 IV 1 seed, length)
pub fn c02_lengths() {
    let mut s = spec4(sx::param(0), 0, 0, 3);
    let n = sx::param(2);
    if sx::param(1) == 1 {
        s.seed = sx::bytes(n, "seed");
    }
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut f = outer_fields(&s);
    if sx::param(1) == 0 {
        // with the right length the payload would decrypt to arbitrary bytes: see c02_inner and c02_padding
        f[3].1 = if n == s.iv.len() { fill(n, 9) } else { sx::bytes(n, "iv") };
    }
    unlock(&file4(&f, &k, &body(&s, &k, &plain(&s))));
}
/// key derivation parameters (params: kdf, length of the salt)
pub fn c02_kdf() {
    let mut s = spec4(2, 0, 0, 3);
    let salt = sx::bytes(sx::param(1), "salt");
    s.kdf = match sx::param(0) {
        0 => {
            let r = sx::u64_("rounds");
            sx::assume(r < 3);
            Kdf::Aes { rounds: r, salt, old: sx::flip() }
        }
        k => Kdf::Argon2 {
            id: k == 2,
            mem: {
                let m = sx::u64_("memory");
                sx::assume((m < 1 << 20) | (m > 1 << 41));
                m
            },
            iters: sx::u64_("iterations"),
            lanes: [0, 1, 2, 3, 64, 0xff_ffff, 0x100_0000, u32::MAX][sx::choose(8)],
            version: sx::u32_("version"),
            salt,
        },
    };
    let k = keys(&s.seed, &fill(32, 8));
    unlock(&file4(&outer_fields(&s), &k, &fill(40, 1)));
}
/// inner header of n arbitrary bytes (params: cipher, n)
pub fn c02_inner() {
    let s = spec4(sx::param(0), 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let p = sx::bytes(sx::param(1), "inner header");
    unlock(&file4(&outer_fields(&s), &k, &body(&s, &k, &p)));
}
/// inner header with one field changed (params: field, length)
pub fn c02_inner_field() {
    let s = spec4(2, 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut p = Vec::new();
    let d = sx::bytes(sx::param(1), "data");
    let fl = sx::param(0);
    let present = sx::flip();
    if fl != 1 || present {
        let id3 = 3u32.to_le_bytes();
        tlv(4, &mut p, 1, if fl == 1 { &d } else { &id3 });
    }
    if fl != 2 || present {
        tlv(4, &mut p, 2, if fl == 2 { &d } else { &s.inner_key });
    }
    if fl == 3 {
        tlv(4, &mut p, sx::u8_("id"), &d);
    }
    if fl == 4 {
        // claimed length
        p.push(3);
        p.extend_from_slice(&sx::length(24, "length").to_le_bytes());
        p.extend_from_slice(&d);
    }
    tlv(4, &mut p, 0, &[]);
    p.extend_from_slice(&tiny_xml());
    unlock(&file4(&outer_fields(&s), &k, &body(&s, &k, &p)));
}
/// authenticated payload whose last cipher block is arbitrary (params: cipher, blocks before it)
pub fn c02_padding() {
    let s = spec4(sx::param(0), 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut p = plain(&s);
    p.truncate(sx::param(1) * 16);
    p.extend_from_slice(&sx::bytes(16, "last block"));
    let enc = encrypt_padded(&s.cipher, &k.cipher, &s.iv, &p);
    unlock(&file4(&outer_fields(&s), &k, &frame_bytes(&frame(&k, &[enc]))));
}
/// authenticated ciphertext that is not a whole number of cipher blocks (params: cipher, blocks before, length)
pub fn c02_ragged() {
    let s = spec4(sx::param(0), 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut d = encrypt(&s.cipher, &k.cipher, &s.iv, &plain(&s));
    d.truncate(sx::param(1) * 16);
    d.extend_from_slice(&sx::bytes(sx::param(2), "ciphertext"));
    let blocks = if d.is_empty() { vec![] } else { vec![d] };
    unlock(&file4(&outer_fields(&s), &k, &frame_bytes(&frame(&k, &blocks))));
}
/// block framing: claimed length of a block, or no final block (params: cipher)
pub fn c02_framing() {
    let mut s = spec4(sx::param(0), 0, 0, 3);
    s.splits = vec![32, 64];
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut b = body(&s, &k, &plain(&s));
    match sx::choose(3) {
        0 => {
            let at = [32, 32 + 36 + 32][sx::choose(2)];
            b[at..at + 4].copy_from_slice(&sx::length(80, "length").to_le_bytes());
        }
        1 => {
            let n = b.len();
            b.truncate(n - 36);
        }
        _ => b.truncate(sx::choose(120)),
    }
    unlock(&file4(&outer_fields(&s), &k, &b));
}
/// compressed payload: arbitrary gzip header bytes or deflate bytes (params: part, n)
pub fn c02_gzip() {
    let s = spec4(2, 1, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut z = gzip(&plain(&s));
    let n = sx::param(1);
    match sx::param(0) {
        0 => {
            // flags, time, system
            let b = sx::bytes(n, "gzip header");
            z[3..3 + n].copy_from_slice(&b);
        }
        1 => {
            // block header; with a stored block also its lengths
            if n == 1 {
                z[10] = sx::choose(256) as u8;
            } else {
                let l = sx::choose(n) as u16;
                z[11..13].copy_from_slice(&l.to_le_bytes());
                if sx::flip() {
                    z[13..15].copy_from_slice(&(!l).to_le_bytes());
                } else {
                    let b = sx::bytes(2, "length check");
                    z[13..15].copy_from_slice(&b);
                }
            }
        }
        2 => z.truncate(n),
        _ => {
            let l = z.len();
            let b = sx::bytes(n, "checksum and length");
            z[l - n..].copy_from_slice(&b);
        }
    }
    unlock(&file4(&outer_fields(&s), &k, &body(&s, &k, &z)));
}
/// inner stream identifier and key length (params: key length)
pub fn c02_stream() {
    let mut s = spec4(2, 0, 0, 3);
    s.inner_alg = sx::u32_("stream cipher");
    s.inner_key = sx::bytes(sx::param(0), "stream key");
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut p = inner_header(&s);
    p.extend_from_slice(&xml_named(b"d", b"<Entry><String><Key>Password</Key><Value Protected=\"True\">AAEC</Value></String></Entry>"));
    unlock(&file4(&outer_fields(&s), &k, &body(&s, &k, &p)));
}
/// document of n arbitrary bytes (params: n)
pub fn c02_xml() {
    let s = spec4(2, 0, 0, 3);
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut p = inner_header(&s);
    p.extend_from_slice(&sx::bytes(sx::param(0), "document"));
    unlock(&file4(&outer_fields(&s), &k, &body(&s, &k, &p)));
}
/// KDBX 3 header fields (params: field, length)
pub fn c02_v3_field() {
    let s = spec3(sx::choose(2) * 2, 0, 2);
    let mut f = outer_fields(&s);
    let at = sx::param(0);
    let n = sx::param(1);
    let id = f[at].0;
    if sx::flip() {
        f[at].1 = if matches!(id, 4 | 5 | 7) { fill(n, 9) } else { sx::bytes(n, "data") };
        if id == 6 && n >= 8 {
            sx::assume((f[at].1[0] < 3) & f[at].1[1..8].iter().fold(true, |a, b| a & (*b == 0)));
        }
    } else {
        f.remove(at);
    }
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[1, 0, 3, 0]);
    for (id, d) in &f {
        tlv(3, &mut h, *id, d);
    }
    tlv(3, &mut h, 0, b"\r\n\r\n");
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut p = s.start_bytes.clone();
    p.extend_from_slice(&blocks3_bytes(&blocks3(&tiny_xml(), &[])));
    h.extend_from_slice(&encrypt(&s.cipher, &k.cipher, &s.iv, &p));
    unlock(&h);
}
/// KDBX 3 payload: arbitrary bytes after the start bytes, or block headers changed (params: kind, n)
pub fn c02_v3_blocks() {
    let s = spec3(2, 0, 2);
    let mut p = s.start_bytes.clone();
    let mut b = blocks3_bytes(&blocks3(&tiny_xml(), &[40]));
    match sx::param(0) {
        0 => b = sx::bytes(sx::param(1), "blocks"),
        1 => {
            b[36..40].copy_from_slice(&sx::length(80, "length").to_le_bytes());
        }
        _ => b.truncate(sx::choose(100)),
    }
    p.extend_from_slice(&b);
    unlock(&seal3(&s, &comp(), &p));
}
/// arbitrary ciphertext in a KDBX 3 file (params: cipher, n)
pub fn c02_v3_raw() {
    let s = spec3(sx::param(0), 0, 2);
    let mut f = header(&s);
    f.extend_from_slice(&sx::bytes(sx::param(1), "ciphertext"));
    unlock(&f);
}
