//! C22: how reads and writes are divided.
use crate::iox::*;
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};

fn division(p: u64) -> Division {
    Division { size: [usize::MAX, 1, 2, 3, 13, 64][sx::param(p)], from: sx::param(p + 1), span: sx::param(p + 2), interrupt: true }
}
/// A file of either version around one text.
fn file(version: usize, config: usize, text: &str) -> Vec<u8> {
    let x = xml_named(text.as_bytes(), b"");
    if version == 4 {
        let mut s = spec4(config % 3, (config / 3 % 2) as u32, 0, 3);
        s.extra_outer = vec![(1, b"comment".to_vec())];
        s.extra_inner = vec![(3, vec![0, 9, 9])];
        write4(&s, &comp(), &x)
    } else {
        write3(&spec3(config % 3, (config / 3 % 2) as u32, 2), &comp(), &x)
    }
}
fn opened(r: Source, unlock: bool) -> Option<Vec<u8>> {
    let l = kdbx_rs::from_reader(r).ok()?;
    let mut w = Vec::new();
    sx::check(l.write(&mut w).is_ok(), "an opened file is written");
    if !unlock {
        return Some(w);
    }
    match l.unlock(&key()) {
        Ok(u) => {
            w.extend_from_slice(&dump(u.database()));
            w.push(1);
        }
        Err(_) => w.push(0),
    }
    Some(w)
}
fn same(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => sx::same(a, b),
        (None, None) => true,
        _ => false,
    }
}
/// opening (params: version, configuration, default size, first varied call, varied calls)
pub fn c22_open() {
    let f = file(sx::param(0), sx::param(1), &sx::word(1, "name"));
    let a = opened(Source::new(&f, Division::whole()), true);
    sx::check(a.as_ref().is_some_and(|a| a.last() == Some(&1)), "a conforming file opens");
    let b = opened(Source::new(&f, division(2)), true);
    sx::check(same(&a, &b), "the same result");
    sx::observe(0, &[1]);
}
/// a damaged or cut file (params: version, damage, default size, first varied call, varied calls)
pub fn c22_damaged() {
    let mut f = file(sx::param(0), 2, "n");
    let n = f.len();
    match sx::param(1) {
        0 => f.truncate(sx::choose(n)),
        1 => {
            let at = 12 + sx::choose(n - 12);
            f[at] ^= 0x10;
        }
        2 => f[4..12].copy_from_slice(&sx::bytes(8, "start")),
        3 => {
            let h = if sx::param(0) == 4 { header(&spec4(2, 0, 0, 3)).len() } else { 100 };
            let at = 12 + sx::choose(h - 13);
            f[at] = [0, 1, 128, 255][sx::choose(4)];
        }
        _ => f.extend_from_slice(&sx::bytes(3, "tail")),
    }
    let a = opened(Source::new(&f, Division::whole()), matches!(sx::param(1), 0 | 4));
    let b = opened(Source::new(&f, division(2)), matches!(sx::param(1), 0 | 4));
    sx::cover(a.is_some() as u64);
    sx::check(same(&a, &b), "the same result");
    sx::observe(0, &[a.is_some() as u8]);
}
/// importing (params: document, default size, first varied call, varied calls, interruptions)
pub fn c22_import() {
    let t = sx::word(1, "name");
    let x = match sx::param(0) {
        0 => xml_named(t.as_bytes(), b""),
        1 => {
            let mut o = Vec::new();
            sx::check(write_xml(&mut o, &sample(&t, "s\u{e9}"), &mut NullStreamCipher).is_ok(), "exported");
            o
        }
        2 => {
            let mut x = xml_named("\u{20ac}\u{1f511}&amp;\r\n".as_bytes(), b"");
            x.truncate(sx::choose(x.len()));
            x
        }
        _ => xml_named("\u{20ac}\u{1f511}&amp;\r\n<![CDATA[x]]>".as_bytes(), b""),
    };
    let mut d = division(1);
    d.interrupt = sx::param(4) == 1;
    let a = parse_xml(Source::new(&x, Division::whole()), &mut NullStreamCipher).ok().map(|d| dump(&d));
    let b = parse_xml(Source::new(&x, d), &mut NullStreamCipher).ok().map(|d| dump(&d));
    sx::cover(a.is_some() as u64);
    sx::check(same(&a, &b), "the same result");
    sx::observe(0, &[a.is_some() as u8]);
}
/// saving (params: configuration, default size, first varied call, varied calls)
pub fn c22_save() {
    let c = sx::param(0);
    let mut u = with_settings(sample(&sx::word(1, "text"), "s"), &spec4(c % 3, (c / 3 % 2) as u32, c % 2, 3));
    sx::check(u.set_key(key()).is_ok(), "key");
    let mut a = Vec::new();
    let ra = u.write(&mut a).is_ok();
    let mut b = Sink::new(division(1));
    let rb = u.write(&mut b).is_ok();
    sx::cover(ra as u64);
    sx::check(ra == rb, "the same result");
    sx::check(!ra || same_file(&a, &b.data), "the same file");
    sx::observe(0, &[ra as u8]);
}
/// saving while locked (params: version, default size, first varied call, varied calls)
pub fn c22_locked() {
    let mut f = file(sx::param(0), 2, "n");
    let n = f.len();
    f[n - 8..].copy_from_slice(&sx::bytes(8, "payload"));
    match kdbx_rs::from_reader(&*f) {
        Ok(l) => {
            let mut b = Sink::new(division(1));
            sx::check(l.write(&mut b).is_ok(), "written");
            sx::check(sx::same(&f, &b.data), "the same bytes");
        }
        Err(_) => sx::check(false, "a conforming file is read"),
    }
    sx::observe(0, &[1]);
}
/// exporting (params: symbolic characters, default size, first varied call, varied calls)
pub fn c22_export() {
    let t = sx::ascii(sx::param(0), "text");
    for b in t.bytes() {
        sx::assume(b >= 0x20);
    }
    let db = sample(&t, "s");
    let mut a = Vec::new();
    let ra = write_xml(&mut a, &db, &mut NullStreamCipher).is_ok();
    let mut b = Sink::new(division(1));
    let rb = write_xml(&mut b, &db, &mut NullStreamCipher).is_ok();
    sx::check(ra && rb, "exported");
    sx::check(sx::same(&a, &b.data), "the same bytes");
    sx::observe(0, &[1]);
}
