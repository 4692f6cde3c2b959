//! C10: key derivation.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::binary::{KdfParams, VariantDictValue};
use kdbx_rs::CompositeKey;

/// Either refused when the key is set or used, or the reference derives the same keys.
fn honoured(s: &Spec, p: KdfParams, key: CompositeKey, c: &[u8], representable: bool) {
    let mut k = with_settings(tiny_db(), s);
    k.header_mut().kdf_params = p;
    let mut out = Vec::new();
    if k.set_key(key).is_err() || k.write(&mut out).is_err() {
        sx::cover(0);
        sx::check(true, "refused");
        sx::observe(0, &[0]);
        return;
    }
    sx::cover(1);
    sx::check(representable, "a parameter that cannot be honoured is refused");
    sx::check(read4(&out, c).is_ok(), "the keys are those the format prescribes");
    sx::observe(0, &[1]);
}
/// AES: rounds and salt (params: salt length)
pub fn c10_aes() {
    let n = sx::param(0);
    let mut s = spec4(2, 0, 0, 3);
    let r = sx::u64_("rounds");
    sx::assume(r < 4);
    s.kdf = Kdf::Aes { rounds: r, salt: sx::bytes(n, "salt"), old: false };
    honoured(&s, lib_kdf(&s.kdf), key(), &comp(), n == 32);
}
/// AES: a number of rounds that does not fit a smaller type takes its time (params: shift)
pub fn c10_rounds() {
    let s = spec4(2, 0, 0, 3);
    let mut k = with_settings(tiny_db(), &s);
    let low = sx::choose(3) as u64;
    k.header_mut().kdf_params = KdfParams::Aes { rounds: (1u64 << sx::param(0)) + low, salt: fill(32, 1) };
    sx::check(true, "started");
    sx::long_run(if sx::param(0) < 20 { 300_000 } else { 3_000_000 });
    let r = k.set_key(key()).is_ok();
    sx::check(!r, "all rounds are executed");
}
/// Argon2 (params: variant, salt length, lanes)
pub fn c10_argon() {
    let mut s = spec4(2, 0, 1, 3);
    let mem = sx::u64_("memory");
    sx::assume((mem < 1 << 18) | (mem >= 1 << 42));
    let iters = sx::u64_("iterations");
    sx::assume((iters < 3) | (iters >= 1 << 32));
    let lanes = [0, 1, 2, 3, 0xff_ffff, 0x100_0000, u32::MAX][sx::param(2)];
    let version = match sx::choose(3) {
        0 => 0x10,
        1 => 0x13,
        _ => {
            let v = sx::u32_("version");
            sx::assume((v != 0x10) & (v != 0x13));
            v
        }
    };
    s.kdf = Kdf::Argon2 { id: sx::param(0) == 1, mem, iters, lanes, version, salt: sx::bytes(sx::param(1), "salt") };
    let fits = (mem >> 42 == 0) & (iters >> 32 == 0) & ((version == 0x10) | (version == 0x13));
    honoured(&s, lib_kdf(&s.kdf), key(), &comp(), fits);
}
/// functions the library does not implement (params: what)
pub fn c10_unknown() {
    let s = spec4(2, 0, 0, 3);
    let p = if sx::param(0) == 0 {
        KdfParams::Argon2 { variant: argon2::Variant::Argon2i, memory_bytes: 8192, version: 0x13, salt: fill(16, 1), lanes: 1, iterations: 1 }
    } else {
        let mut d = kdbx_rs::binary::VariantDict::new();
        d.insert("S".into(), VariantDictValue::Array(fill(32, 1)));
        d.insert("R".into(), VariantDictValue::Uint64(2));
        KdfParams::Unknown { uuid: uuid::Uuid::from_bytes(sx::arr("uuid")), params: d }
    };
    let mut k = with_settings(tiny_db(), &s);
    k.header_mut().kdf_params = p.clone();
    sx::check(k.set_key(key()).is_err(), "an unknown function is refused when the key is set");
    // set after the key
    let mut k = with_settings(tiny_db(), &s);
    sx::check(k.set_key(key()).is_ok(), "a known function is accepted");
    k.header_mut().kdf_params = p;
    sx::check(k.write(Vec::new()).is_err(), "an unknown function is refused when the key is used");
    sx::observe(0, &[1]);
}
/// unknown function in a file (params: part of the identifier that is arbitrary)
pub fn c10_unknown_file() {
    let s = spec4(2, 0, 0, 3);
    let mut f = outer_fields(&s);
    let u = sx::bytes(4, "uuid");
    let at = sx::param(0) * 4;
    let d = &mut f[4].1;
    // after version, type, name length and name, value length
    let p = 2 + 1 + 4 + 5 + 4;
    sx::assume(!sx::same(&u, &d[p + at..p + at + 4]));
    d[p + at..p + at + 4].copy_from_slice(&u);
    let mut h = SIGNATURE.to_vec();
    h.extend_from_slice(&[0, 0, 4, 0]);
    for (id, d) in &f {
        tlv(4, &mut h, *id, d);
    }
    tlv(4, &mut h, 0, b"");
    let k = keys(&s.seed, &transform(&s.kdf, &comp()));
    let mut pl = inner_header(&s);
    pl.extend_from_slice(&tiny_xml());
    let mut o = build4(&s, &comp(), &pl);
    o.hash = sha256(&[&h]);
    o.tag = header_tag(&k, &h);
    o.header = h;
    let r = kdbx_rs::from_reader(&*o.bytes()).ok().map(|l| l.unlock(&key()).is_err());
    sx::check(r != Some(false), "a file with an unknown function is refused");
    sx::observe(0, &[1]);
}
/// credentials of every kind on the writing side (params: kind, length, kdf)
pub fn c10_key() {
    let s = spec4(2, 0, sx::param(2), 3);
    let p = if sx::param(0) & 1 == 1 { Some(sx::ascii(sx::param(1), "password")) } else { None };
    let k = if sx::param(0) & 2 == 2 { Some(sx::bytes(sx::param(1), "keyfile")) } else { None };
    let c = composite(p.as_ref().map(|x| x.as_bytes()), k.as_deref());
    honoured(&s, lib_kdf(&s.kdf), CompositeKey::new(p, k), &c, true);
}
/// parameters on the reading side (params: kdf, salt length)
pub fn c10_read() {
    let mut s = spec4(2, 0, sx::param(0), 3);
    let salt = sx::bytes(sx::param(1), "salt");
    s.kdf = match sx::param(0) {
        0 => {
            let r = sx::u64_("rounds");
            sx::assume(r < 4);
            Kdf::Aes { rounds: r, salt, old: sx::flip() }
        }
        k => {
            let mem = sx::u64_("memory");
            sx::assume((mem >= 32 << 10) & (mem < 1 << 18));
            let iters = sx::u64_("iterations");
            sx::assume((iters > 0) & (iters < 3));
            Kdf::Argon2 { id: k == 2, mem, iters, lanes: 1 + sx::choose(3) as u32, version: if sx::flip() { 0x10 } else { 0x13 }, salt }
        }
    };
    let f = write4(&s, &comp(), &tiny_xml());
    match kdbx_rs::from_reader(&*f).ok().map(|l| l.unlock(&key())) {
        Some(Ok(u)) => {
            sx::check(u.header().kdf_params == lib_kdf(&s.kdf), "parameters");
            sx::check(u.database().name() == "db", "content");
        }
        _ => sx::check(false, "the file unlocks with the key the format prescribes"),
    }
    sx::observe(0, &[1]);
}
