//! C06: wrong keys.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::CompositeKey;

type Cred = (Option<Vec<u8>>, Option<Vec<u8>>);

/// kind bit 0: password, bit 1: key file
fn cred(kind: usize, a: usize, b: usize, name: &str) -> Cred {
    let p = if kind & 1 == 1 {
        let t = sx::ascii(a, name);
        Some(t.into_bytes())
    } else {
        None
    };
    (p, if kind & 2 == 2 { Some(sx::bytes(b, name)) } else { None })
}
fn lib(c: &Cred) -> CompositeKey {
    CompositeKey::new(c.0.clone().map(|b| String::from_utf8(b).unwrap()), c.1.clone())
}
fn refc(c: &Cred) -> Vec<u8> {
    composite(c.0.as_deref(), c.1.as_deref())
}
/// By the format a password and a key file with the same bytes are the same single credential.
fn parts(c: &Cred) -> Vec<Vec<u8>> {
    [&c.0, &c.1].iter().filter_map(|x| (*x).clone()).collect()
}
fn different(a: &Cred, b: &Cred) -> bool {
    let (x, y) = (parts(a), parts(b));
    x.len() != y.len() || !x.iter().zip(&y).fold(true, |s, (p, q)| s & sx::same(p, q))
}
fn attempts(file: &[u8], right: &Cred, wrong: &[&Cred]) {
    let want = match kdbx_rs::from_reader(file).ok().and_then(|l| l.unlock(&lib(right)).ok()) {
        Some(u) => u,
        None => return sx::check(false, "the right key unlocks"),
    };
    let mut l = match kdbx_rs::from_reader(file) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "the file opens"),
    };
    for w in wrong {
        l = match l.unlock(&lib(w)) {
            Ok(_) => return sx::check(false, "a wrong key is refused"),
            Err(f) => {
                sx::check(true, "a wrong key is refused");
                f.0
            }
        };
        let mut out = Vec::new();
        sx::check(l.write(&mut out).is_ok() && sx::same(&out, file), "the locked database handed back is unchanged");
    }
    match l.unlock(&lib(right)) {
        Ok(u) => {
            sx::check(sx::same(&dump(u.database()), &dump(want.database())), "the right key then gives the same content");
            sx::check(u.inner_header() == want.inner_header() && u.header() == want.header(), "and the same settings");
        }
        Err(_) => sx::check(false, "the right key still works"),
    }
    sx::observe(0, &[1]);
}
fn file(s: &Spec, c: &Cred) -> Vec<u8> {
    if s.major == 3 {
        write3(s, &refc(c), &tiny_xml())
    } else {
        write4(s, &refc(c), &tiny_xml())
    }
}
/// every pair of kinds (params: kind right, length, kind wrong, length)
pub fn c06_pair() {
    let s = spec4(2, 0, 0, 3);
    let right = cred(sx::param(0), sx::param(1), sx::param(1), "right");
    let wrong = cred(sx::param(2), sx::param(3), sx::param(3), "wrong");
    sx::assume(different(&right, &wrong));
    attempts(&file(&s, &right), &right, &[&wrong]);
}
/// bytes moved between password and key file (params: length of one, length of other, same reversed)
pub fn c06_shift() {
    let s = spec4(2, 0, 0, 3);
    let right = cred(3, sx::param(0), sx::param(1), "right");
    let wrong = cred(3, sx::param(2), sx::param(3), "wrong");
    sx::assume(different(&right, &wrong));
    attempts(&file(&s, &right), &right, &[&wrong]);
}
/// several failures in a row, every cipher and KDF (params: cipher, compression, kdf, failures)
pub fn c06_repeat() {
    let s = spec4(sx::param(0), sx::param(1) as u32, sx::param(2), 3);
    let right: Cred = (Some(b"right".to_vec()), None);
    let w: Vec<Cred> = (0..sx::param(3)).map(|i| if i == 0 { cred(1, 2, 0, "wrong") } else { cred(2, 0, 2, "wrong") }).collect();
    attempts(&file(&s, &right), &right, &w.iter().collect::<Vec<_>>());
}
/// KDBX 3 (params: cipher, compression)
pub fn c06_v3() {
    let s = spec3(sx::param(0), sx::param(1) as u32, 2);
    let all: Vec<Cred> = vec![
        (Some(b"right".to_vec()), None),
        (Some(b"Right".to_vec()), None),
        (Some(b"".to_vec()), None),
        (None, Some(b"r".to_vec())),
        (Some(b"right".to_vec()), Some(b"r".to_vec())),
        (Some(b"right".to_vec()), Some(b"".to_vec())),
        (Some(b"r".to_vec()), Some(b"right".to_vec())),
        (None, None),
    ];
    let r = sx::choose(all.len());
    let w = sx::choose(all.len());
    let v = sx::choose(all.len());
    sx::assume(w != r && v != r);
    attempts(&file(&s, &all[r]), &all[r], &[&all[w], &all[v]]);
}
