//! C09: KDBX 3 files.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

const SECRET: &str = "s3cret";
fn document(s: &Spec, text: &str) -> Vec<u8> {
    let mut c = SECRET.as_bytes().to_vec();
    inner_stream(s.inner_alg, &s.inner_key).unwrap().apply_keystream(&mut c);
    let mut e = b"<Entry><UUID>AQECAwQFBgcICQoLDA0ODw==</UUID><String><Key>Title</Key><Value>".to_vec();
    e.extend_from_slice(text.as_bytes());
    e.extend_from_slice(b"</Value></String><String><Key>Password</Key><Value Protected=\"True\">");
    e.extend_from_slice(&base64(&c));
    e.extend_from_slice(b"</Value></String></Entry>");
    xml_named(text.as_bytes(), &e)
}
fn reads(f: &[u8], s: &Spec, xml: &[u8], text: &str) {
    let l = match kdbx_rs::from_reader(f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a conforming file opens"),
    };
    sx::check(l.major_version() == 3 && l.minor_version() == s.minor, "version");
    let u = match l.unlock(&key()) {
        Ok(u) => u,
        Err(_) => return sx::check(false, "a conforming file unlocks"),
    };
    let h = u.header();
    sx::check(h.kdf_params == lib_kdf(&s.kdf), "key derivation parameters");
    sx::check(sx::same(&h.master_seed, &s.seed) && sx::same(&h.encryption_iv, &s.iv), "seed and IV");
    sx::check(h.stream_start_bytes.as_ref().is_some_and(|b| sx::same(b, &s.start_bytes)), "start bytes");
    let i = u.inner_header();
    sx::check(u32::from(i.inner_stream_cipher) == s.inner_alg && sx::same(&i.inner_stream_key, &s.inner_key), "inner cipher and key");
    sx::check(u.raw_xml().is_some_and(|x| sx::same(x, xml)), "document");
    sx::check(sx::same(u.database().name().as_bytes(), text.as_bytes()), "database name");
    let e = u.database().root().entries().next();
    sx::check(e.and_then(|e| e.title()).is_some_and(|t| sx::same(t.as_bytes(), text.as_bytes())), "title");
    sx::check(e.and_then(|e| e.password()) == Some(SECRET), "protected value");
    sx::observe(0, text.as_bytes());
}
/// every configuration (params: cipher, compression, inner cipher, rounds, symbolic part)
pub fn c09_config() {
    let mut s = spec3(sx::param(0), sx::param(1) as u32, sx::param(2) as u32);
    s.kdf = Kdf::Aes { rounds: sx::param(3) as u64, salt: fill(32, 11), old: true };
    let mut t = "t".to_string();
    match sx::param(4) {
        0 => t = sx::word(2, "text"),
        1 => s.seed = sx::bytes(32, "seed"),
        2 => s.start_bytes = sx::bytes(32, "start"),
        3 => s.minor = sx::u16_("minor"),
        _ => {
            s.extra_outer = vec![(1, sx::bytes(2, "comment"))];
            s.end_filler = sx::bytes(3, "filler");
        }
    }
    let x = document(&s, &t);
    reads(&write3(&s, &comp(), &x), &s, &x, &t);
}
/// every order of the header fields is not required; every division into blocks is (params: cipher, compression, first block)
pub fn c09_split() {
    let mut s = spec3(sx::param(0), sx::param(1) as u32, 2);
    s.splits = match sx::choose(3) {
        0 => vec![sx::param(2), 1 + sx::choose(33)],
        1 => vec![sx::param(2); 600],
        _ => vec![1, sx::param(2), 15, 17, 1, 1],
    };
    let x = document(&s, "t");
    reads(&write3(&s, &comp(), &x), &s, &x, "t");
}
/// order of the header fields (params: rotation)
pub fn c09_order() {
    let mut s = spec3(0, 0, 2);
    let n = outer_fields(&s).len();
    let mut o: Vec<usize> = (0..n).collect();
    o.rotate_left(sx::param(0));
    let (a, b) = (sx::choose(n), sx::choose(n));
    o.swap(a, b);
    s.order = o;
    let x = document(&s, "t");
    reads(&write3(&s, &comp(), &x), &s, &x, "t");
}
fn refused(f: &[u8], what: &str) {
    let r = kdbx_rs::from_reader(f).ok().map(|l| l.unlock(&key()).is_err());
    sx::check(r != Some(false), what);
    sx::observe(0, &[1]);
}
/// damaged content (params: cipher, compression, what, place)
pub fn c09_damage() {
    let s = spec3(sx::param(0), sx::param(1) as u32, 2);
    let x = document(&s, "t");
    let body = if s.compression == 1 { gzip(&x) } else { x.clone() };
    let mut start = s.start_bytes.clone();
    let mut b = blocks3(&body, &[100, 100]);
    let at = sx::param(3);
    let what = match sx::param(2) {
        0 => {
            let new = sx::bytes(4, "start");
            sx::assume(!sx::same(&new, &start[at..at + 4]));
            start[at..at + 4].copy_from_slice(&new);
            "start bytes that do not match are refused"
        }
        1 => {
            let i = sx::choose(b.len() - 1);
            let at = at.min(b[i].2.len() - 4);
            let new = sx::bytes(4, "data");
            sx::assume(!sx::same(&new, &b[i].2[at..at + 4]));
            b[i].2[at..at + 4].copy_from_slice(&new);
            "block data that does not match its hash is refused"
        }
        2 => {
            let i = sx::choose(b.len() - 1);
            let new = sx::bytes(4, "hash");
            let at = at.min(28);
            sx::assume(!sx::same(&new, &b[i].1[at..at + 4]));
            b[i].1[at..at + 4].copy_from_slice(&new);
            "a hash that does not match its block is refused"
        }
        3 => {
            // contents exchanged under their hashes
            let t = b[0].2.clone();
            b[0].2 = b[1].2.clone();
            b[1].2 = t;
            "exchanged blocks are refused"
        }
        4 => {
            // block shortened
            let i = sx::choose(2);
            let n = b[i].2.len();
            b[i].2.truncate(n - 1 - sx::choose(3));
            "a shortened block is refused"
        }
        _ => {
            // everything replaced by zero hash
            let i = sx::choose(b.len() - 1);
            b[i].1 = vec![0; 32];
            "a zero hash on data is refused"
        }
    };
    let mut p = start;
    p.extend_from_slice(&blocks3_bytes(&b));
    refused(&seal3(&s, &comp(), &p), what);
}
