//! C05: modified payloads.
use crate::kx::*;
use crate::refk::*;
use crate::sx;

fn spec(c: usize, z: u32) -> Spec {
    let mut s = spec4(c, z, 0, 3);
    s.splits = vec![96, 96];
    s
}
fn xml() -> Vec<u8> {
    xml_named(b"db", b"<Entry><UUID>AQECAwQFBgcICQoLDA0ODw==</UUID><String><Key>Title</Key><Value>text</Value></String></Entry>")
}
fn original(s: &Spec) -> File {
    let mut p = inner_header(s);
    p.extend_from_slice(&xml());
    build4(s, &comp(), &p)
}
/// Error, or the content that was saved.
fn judge(s: &Spec, f: &[u8]) {
    let want = original(s).bytes();
    let want = kdbx_rs::from_reader(&*want).ok().and_then(|l| l.unlock(&key()).ok());
    let want = match want {
        Some(u) => u,
        None => return sx::check(false, "the unmodified file unlocks"),
    };
    match kdbx_rs::from_reader(f) {
        Ok(l) => match l.unlock(&key()) {
            Ok(u) => {
                sx::cover(1);
                sx::check(sx::same(&dump(u.database()), &dump(want.database())), "only the saved content is returned");
                sx::check(u.inner_header() == want.inner_header(), "only the saved inner header is returned");
                sx::check(u.raw_xml() == want.raw_xml(), "only the saved document is returned");
                sx::observe(0, &[1]);
            }
            Err(_) => {
                sx::cover(0);
                sx::check(true, "refused");
                sx::observe(0, &[0]);
            }
        },
        Err(_) => {
            sx::check(true, "refused");
            sx::observe(0, &[2]);
        }
    }
}
fn head(f: &File) -> Vec<u8> {
    let mut o = f.header.clone();
    o.extend_from_slice(&f.hash);
    o.extend_from_slice(&f.tag);
    o
}
/// any bytes at one place (params: cipher, compression, place, bytes)
pub fn c05_bytes() {
    let s = spec(sx::param(0), sx::param(1) as u32);
    let f = original(&s);
    let mut p = frame_bytes(&f.frames);
    let at = sx::param(2);
    let w = sx::param(3).min(p.len().saturating_sub(at));
    let new = sx::bytes(w, "bytes");
    if w > 0 {
        sx::assume(!sx::same(&new, &p[at..at + w]));
        p[at..at + w].copy_from_slice(&new);
    }
    let mut o = head(&f);
    o.extend_from_slice(&p);
    judge(&s, &o);
}
/// cut short anywhere (params: cipher, compression)
pub fn c05_cut() {
    let s = spec(sx::param(0), sx::param(1) as u32);
    let f = original(&s);
    let p = frame_bytes(&f.frames);
    let mut o = head(&f);
    o.extend_from_slice(&p[..sx::choose(p.len())]);
    judge(&s, &o);
}
/// any sequence of blocks of the file, then optionally other bytes (params: cipher, compression, blocks, trailing bytes)
pub fn c05_blocks() {
    let s = spec(sx::param(0), sx::param(1) as u32);
    let f = original(&s);
    let mut l = Vec::new();
    for _ in 0..sx::param(2) {
        l.push(f.frames[sx::choose(f.frames.len())].clone());
    }
    let mut o = head(&f);
    o.extend_from_slice(&frame_bytes(&l));
    o.extend_from_slice(&sx::bytes(sx::param(3), "trailing"));
    judge(&s, &o);
}
/// blocks joined, divided or emptied while tags are kept, or with tags of other things (params: cipher, compression)
pub fn c05_resize() {
    let s = spec(sx::param(0), sx::param(1) as u32);
    let f = original(&s);
    let mut l = f.frames.clone();
    match sx::choose(5) {
        0 => {
            // two blocks joined under one of their tags
            let i = sx::choose(2);
            let mut d = l[i].1.clone();
            d.extend_from_slice(&l[i + 1].1.clone());
            let t = l[i + sx::choose(2)].0.clone();
            l[i] = (t, d);
            l.remove(i + 1);
        }
        1 => {
            // one block divided, both parts under its tag or the next
            let i = sx::choose(2);
            let at = sx::choose(l[i].1.len());
            let (a, b) = (l[i].1[..at].to_vec(), l[i].1[at..].to_vec());
            l[i].1 = a;
            let t = l[i + sx::choose(2)].0.clone();
            l.insert(i + 1, (t, b));
        }
        2 => {
            // contents under exchanged tags
            let (i, j) = (sx::choose(l.len()), sx::choose(l.len()));
            let t = l[i].0.clone();
            l[i].0 = l[j].0.clone();
            l[j].0 = t;
        }
        3 => {
            // a block emptied, with its own, the last or the header's tag: an early end
            let i = sx::choose(l.len() - 1);
            l[i].1 = Vec::new();
            let n = l.len();
            match sx::choose(4) {
                0 => {}
                1 => l[i].0 = l[n - 1].0.clone(),
                2 => l[i].0 = f.tag.clone(),
                _ => l[i].0 = sx::bytes(32, "tag"),
            }
            if sx::flip() {
                l.truncate(i + 1);
            }
        }
        _ => {
            // the final block replaced by data
            let n = l.len();
            l[n - 1].1 = sx::bytes(16, "data");
            if sx::flip() {
                l[n - 1].0 = sx::bytes(32, "tag");
                sx::assume(!sx::same(&l[n - 1].0, &block_tag(&f.keys, n as u64 - 1, &l[n - 1].1)));
            }
        }
    }
    let mut o = head(&f);
    o.extend_from_slice(&frame_bytes(&l));
    judge(&s, &o);
}
