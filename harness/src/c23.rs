//! C23: failures of readers and writers.
use crate::iox::*;
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};

fn size(k: usize) -> Division {
    Division { size: [usize::MAX, 1, 3, 64][k], from: 0, span: 0, interrupt: false }
}
/// Anywhere up to the end.
fn position(n: usize) -> usize {
    let s = sx::choose(n / 32 + 1) * 32;
    s + sx::below((n + 1 - s).min(32) as u32, "position") as usize
}
fn file(version: usize) -> Vec<u8> {
    if version == 4 {
        let mut s = spec4(2, 0, 0, 3);
        s.extra_outer = vec![(1, sx::bytes(2, "comment"))];
        write4(&s, &comp(), &tiny_xml())
    } else {
        let mut s = spec3(2, 0, 2);
        s.extra_outer = vec![(1, sx::bytes(2, "comment"))];
        write3(&s, &comp(), &tiny_xml())
    }
}
/// opening (params: version, size, kind)
pub fn c23_open() {
    let f = file(sx::param(0));
    let mut r = Source::new(&f, size(sx::param(1)));
    r.once = sx::flip();
    r.fail = Some((position(f.len()), KINDS[sx::param(2)]));
    let ok = kdbx_rs::from_reader(&mut r).is_ok();
    sx::cover(r.failed as u64);
    sx::check(!(ok && r.failed), "a failing reader is reported");
    sx::observe(0, &[ok as u8]);
}
/// files that end early (params: version, size)
pub fn c23_cut() {
    let f = file(sx::param(0));
    let n = sx::choose(f.len());
    let r = kdbx_rs::from_reader(Source::new(&f[..n], size(sx::param(1))));
    let ok = match r {
        Ok(l) => l.unlock(&key()).is_ok(),
        Err(_) => false,
    };
    sx::check(!ok, "a file that ends early does not open");
    sx::observe(0, &[n as u8]);
}
/// importing (params: size, kind)
pub fn c23_import() {
    let x = xml_named(sx::word(1, "name").as_bytes(), b"");
    let mut r = Source::new(&x, size(sx::param(0)));
    r.once = sx::flip();
    r.fail = Some((position(x.len()), KINDS[sx::param(1)]));
    let ok = parse_xml(&mut r, &mut NullStreamCipher).is_ok();
    sx::cover(r.failed as u64);
    sx::check(!(ok && r.failed), "a failing reader is reported");
    sx::observe(0, &[ok as u8]);
}
fn fault(k: usize) -> Fault {
    match k {
        6 => Fault::Full,
        7 => Fault::Flush(KINDS[0]),
        k => Fault::Error(KINDS[k]),
    }
}
fn judge(w: &Sink, ok: bool, complete: bool, whole: &[u8], at: usize) {
    sx::cover(w.failed as u64);
    sx::check(!(ok && w.failed), "a failing writer is reported");
    sx::check(!ok || complete, "success means everything was delivered");
    if let Some((_, Fault::Error(_) | Fault::Full)) = w.fail {
        sx::check(!ok || w.once || at >= whole.len(), "success means everything was delivered");
    }
    sx::observe(0, &[ok as u8]);
}
/// saving (params: configuration, size, fault)
pub fn c23_save() {
    let c = sx::param(0);
    let mut u = with_settings(tiny_db(), &spec4(c % 3, (c / 3 % 2) as u32, 0, 3));
    u.header_mut().master_seed = fill(32, 9);
    sx::check(u.set_key(key()).is_ok(), "key");
    let mut a = Vec::new();
    sx::check(u.write(&mut a).is_ok(), "saved");
    let mut w = Sink::new(size(sx::param(1)));
    let at = position(a.len());
    w.once = sx::flip();
    w.fail = Some((at, fault(sx::param(2))));
    let ok = u.write(&mut w).is_ok();
    judge(&w, ok, !ok || same_file(&w.data, &a), &a, at);
    // a later attempt still works
    let mut b = Vec::new();
    sx::check(u.write(&mut b).is_ok() && same_file(&a, &b), "saving again");
}
/// saving while locked (params: version, size, fault)
pub fn c23_locked() {
    let f = file(sx::param(0));
    let l = match kdbx_rs::from_reader(&*f) {
        Ok(l) => l,
        Err(_) => return sx::check(false, "a conforming file is read"),
    };
    let mut w = Sink::new(size(sx::param(1)));
    let at = position(f.len());
    w.once = sx::flip();
    w.fail = Some((at, fault(sx::param(2))));
    let ok = l.write(&mut w).is_ok();
    judge(&w, ok, sx::same(&w.data, &f), &f, at);
}
/// exporting (params: size, fault)
pub fn c23_export() {
    let db = {
        let mut d = tiny_db();
        d.set_name(sx::word(2, "name"));
        d
    };
    let mut a = Vec::new();
    sx::check(write_xml(&mut a, &db, &mut NullStreamCipher).is_ok(), "exported");
    let mut w = Sink::new(size(sx::param(0)));
    let at = position(a.len());
    w.once = sx::flip();
    w.fail = Some((at, fault(sx::param(1))));
    let ok = write_xml(&mut w, &db, &mut NullStreamCipher).is_ok();
    judge(&w, ok, sx::same(&w.data, &a), &a, at);
}
