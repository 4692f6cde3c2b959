//! C12: protected values and the inner keystream.
use crate::kx::*;
use crate::refk::*;
use crate::sx;
use cipher::{StreamCipher, StreamCipherError};
use kdbx_rs::database::{Entry, Field, Group};
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};
use kdbx_rs::Database;

/// A cipher with a given keystream.
#[derive(Clone)]
struct Given {
    stream: Vec<u8>,
    used: usize,
}
impl StreamCipher for Given {
    fn try_apply_keystream_inout(&mut self, mut buf: cipher::inout::InOutBuf<'_, '_, u8>) -> Result<(), StreamCipherError> {
        let n = buf.len();
        buf.xor_in2out(&self.stream[self.used..self.used + n]);
        self.used += n;
        Ok(())
    }
}
fn b64(b: &[u8]) -> Vec<u8> {
    const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let n = b.len() / 3 * 3;
    let mut o = base64(&b[..n]);
    match b[n..] {
        [x] => o.extend_from_slice(&[A[(x >> 2) as usize], A[((x & 3) << 4) as usize], b'=', b'=']),
        [x, y] => {
            let c = (x as usize) << 8 | y as usize;
            o.extend_from_slice(&[A[c >> 10], A[c >> 4 & 63], A[c << 2 & 63], b'=']);
        }
        _ => {}
    }
    o
}
/// One value in the tree: name (unique), value, protected
type Item = (String, Vec<u8>, bool);
struct Make {
    items: Vec<Item>,
    values: bool,
    secret: u8,
}
impl Make {
    /// Next field; protected or not by choice, of 0-3 bytes
    fn field(&mut self, n: usize) -> Field {
        let key = format!("k{}", self.items.len());
        let protected = sx::flip();
        let v = if !protected {
            vec![b'p'; n]
        } else if self.values {
            sx::ascii(n, "value").into_bytes()
        } else {
            vec![self.secret; n]
        };
        let s = unsafe { core::str::from_utf8_unchecked(&v) };
        let f = if protected { Field::new_protected(&key, s) } else { Field::new(&key, s) };
        self.items.push((key, v, protected));
        f
    }
    fn entry(&mut self, id: u8, sizes: &[usize]) -> Entry {
        let mut e = entry(id);
        for n in sizes {
            e.add_field(self.field(*n));
        }
        e
    }
}
/// Custom data, entries, versions and a subgroup.
fn tree(m: &mut Make, shape: usize) -> Database {
    let mut db = tiny_db();
    match shape {
        // custom data and an entry with a version
        0 => {
            let f = m.field(2);
            db.meta_mut().custom_data.push(f);
            let mut e = m.entry(1, &[3, 1]);
            e.history_mut().push(m.entry(1, &[2, 4]));
            db.add_entry(e);
            db.add_entry(m.entry(2, &[1]));
        }
        // entries in nested groups
        1 => {
            db.add_entry(m.entry(1, &[1]));
            let mut g = Group::new("g");
            g.add_entry(m.entry(2, &[2]));
            let mut h = Group::new("h");
            h.add_entry(m.entry(3, &[3]));
            g.add_group(h);
            db.add_group(g);
            let mut g = Group::new("i");
            let mut e = m.entry(4, &[1]);
            e.history_mut().push(m.entry(4, &[5]));
            e.history_mut().push(m.entry(4, &[1]));
            g.add_entry(e);
            db.add_group(g);
        }
        // empty and long values
        _ => {
            for n in [0, 6] {
                let f = m.field(n);
                db.meta_mut().custom_data.push(f);
            }
            db.add_entry(m.entry(1, &[7, 0, 16]));
        }
    }
    db
}
fn find(b: &[u8], what: &[u8], from: usize) -> Option<usize> {
    (from..(b.len() + 1).saturating_sub(what.len())).find(|i| &b[*i..*i + what.len()] == what)
}
/// Protected values in document order: place of the stored text, name.
fn places(out: &[u8], items: &[Item]) -> Vec<(usize, usize)> {
    let mut r = Vec::new();
    let mut at = 0;
    let mut name = Vec::new();
    while at < out.len() {
        if out[at..].starts_with(b"<Key>") {
            let e = find(out, b"</Key>", at).unwrap_or(out.len());
            name = out[at + 5..e].to_vec();
            at = e;
        } else if out[at..].starts_with(b"<Value") {
            let e = find(out, b">", at).unwrap_or(out.len()) + 1;
            let i = items.iter().position(|i| i.0.as_bytes() == name);
            if let Some(i) = i {
                let marked = find(&out[at..e], b"Protected=\"True\"", 0).is_some();
                sx::check(marked == items[i].2, "marked as protected");
                if items[i].2 {
                    r.push((e, i));
                    at = e + (items[i].1.len() + 2) / 3 * 4;
                    continue;
                }
            }
            at = e;
        } else {
            at += 1;
        }
    }
    r
}
/// writing with any keystream and any protected values (params: shape, values symbolic)
pub fn c12_write() {
    let mut m = Make { items: vec![], values: sx::param(1) == 1, secret: b'S' };
    let db = tree(&mut m, sx::param(0));
    let total: usize = m.items.iter().filter(|i| i.2).map(|i| i.1.len()).sum();
    let stream = sx::bytes(total, "keystream");
    let mut c = Given { stream: stream.clone(), used: 0 };
    let mut out = Vec::new();
    sx::check(write_xml(&mut out, &db, &mut c).is_ok(), "writing succeeds");
    sx::check(c.used == total, "keystream is used for protected values only");
    let p = places(&out, &m.items);
    sx::check(p.len() == m.items.iter().filter(|i| i.2).count(), "every protected value is stored");
    let mut used = 0;
    let mut rest = out.clone();
    for (at, i) in &p {
        let v = &m.items[*i].1;
        let x: Vec<u8> = v.iter().enumerate().map(|(j, b)| b ^ stream[used + j]).collect();
        used += v.len();
        let want = b64(&x);
        sx::check(sx::same(&out[*at..*at + want.len()], &want), "base64 of the encrypted value");
        if !v.is_empty() {
            sx::check(out[*at + want.len()..].starts_with(b"</Value>"), "nothing but the encrypted value");
        }
        for b in &mut rest[*at..*at + want.len()] {
            *b = b'.';
        }
    }
    // everything else in the document is independent of the values and the keystream
    let mut other = Vec::new();
    let mut db2 = db.clone();
    blank(&mut db2);
    let _ = write_xml(&mut other, &db2, &mut NullStreamCipher);
    for (at, i) in &p {
        for b in &mut other[*at..*at + (m.items[*i].1.len() + 2) / 3 * 4] {
            *b = b'.';
        }
    }
    sx::check(sx::same(&rest, &other), "no trace of the value elsewhere");
    sx::observe(0, &out);
}
/// reading back (params: shape, first of three arbitrary bytes of the keystream)
pub fn c12_back() {
    let mut m = Make { items: vec![], values: false, secret: b'S' };
    let db = tree(&mut m, sx::param(0));
    let total: usize = m.items.iter().filter(|i| i.2).map(|i| i.1.len()).sum();
    let mut stream = fill(total, 5);
    let w = total.min(sx::param(1));
    let n = 3.min(total - w);
    stream[w..w + n].copy_from_slice(&sx::bytes(n, "keystream"));
    let mut out = Vec::new();
    let _ = write_xml(&mut out, &db, &mut Given { stream: stream.clone(), used: 0 });
    let mut c = Given { stream, used: 0 };
    match parse_xml(&*out, &mut c) {
        Ok(got) => {
            sx::check(c.used == total, "keystream is used for protected values only");
            sx::check(sx::same(&dump(&got), &dump(&db)), "the same values");
        }
        Err(_) => sx::check(false, "the document can be read"),
    }
}
fn blank_entry(e: &mut Entry) {
    for f in e.fields_mut() {
        if f.protected() {
            let v = "x".repeat(f.value().unwrap_or("").len());
            f.set_value(&v);
        }
    }
    for h in e.history_mut().entries_mut() {
        blank_entry(h);
    }
}
fn blank_group(g: &mut Group) {
    for e in g.entries_mut() {
        blank_entry(e);
    }
    for g in g.groups_mut() {
        blank_group(g);
    }
}
/// The same database with other protected values.
fn blank(db: &mut Database) {
    for f in &mut db.meta_mut().custom_data {
        if f.protected() {
            let v = "x".repeat(f.value().unwrap_or("").len());
            f.set_value(&v);
        }
    }
    blank_group(db.root_mut());
}
fn el(o: &mut Vec<u8>, wrap: &str, name: &str, value: &[u8], mark: &str) {
    for p in ["<", wrap, "><Key>", name, "</Key><Value", mark, ">"] {
        o.extend_from_slice(p.as_bytes());
    }
    o.extend_from_slice(value);
    for p in ["</Value></", wrap, ">"] {
        o.extend_from_slice(p.as_bytes());
    }
}
/// documents of other programs: order of elements, spelling of the mark (params: spelling, order, first of three arbitrary bytes)
pub fn c12_read() {
    let mark = [" Protected=\"True\"", " Protected='true'", " x=\"1\" Protected=\"True\"", " ProtectInMemory=\"True\" Protected=\"True\""][sx::param(0)];
    let mut stream = fill(12, 9);
    let mut plain = b"abcdefghijkl".to_vec();
    let w = sx::param(2);
    stream[w..w + 3].copy_from_slice(&sx::bytes(3, "keystream"));
    plain[w..w + 3].copy_from_slice(sx::ascii(3, "value").as_bytes());
    let mut used = 0;
    let mut next = |n: usize| {
        let x: Vec<u8> = (used..used + n).map(|i| plain[i] ^ stream[i]).collect();
        used += n;
        b64(&x)
    };
    const U: &str = "<UUID>AAECAwQFBgcICQoLDA0ODw==</UUID>";
    let mut o = b"<KeePassFile><Meta><CustomData>".to_vec();
    el(&mut o, "Item", "c0", &next(2), mark);
    el(&mut o, "Item", "c1", b"plain", " Protected=\"False\"");
    o.extend_from_slice(b"</CustomData></Meta><Root><Group>");
    o.extend_from_slice(U.as_bytes());
    let first = sx::param(1);
    if first == 1 {
        // the group before the entry, the history before the fields
        o.extend_from_slice(b"<Group><UUID>AAECAwQFBgcICQoLDA0ODw==</UUID><Entry>");
        el(&mut o, "String", "g", &next(3), mark);
        o.extend_from_slice(b"</Entry></Group><Entry><History><Entry>");
        el(&mut o, "String", "h", &next(1), mark);
        o.extend_from_slice(b"</Entry></History>");
        el(&mut o, "String", "f", &next(4), mark);
        el(&mut o, "String", "p", b"QUJD", "");
        el(&mut o, "String", "e", b"", mark);
        el(&mut o, "String", "l", &next(2), mark);
        o.extend_from_slice(b"</Entry>");
    } else {
        o.extend_from_slice(b"<Entry>");
        el(&mut o, "String", "f", &next(4), mark);
        el(&mut o, "String", "p", b"QUJD", "");
        el(&mut o, "String", "e", b"", mark);
        o.extend_from_slice(b"<History><Entry>");
        el(&mut o, "String", "h", &next(1), mark);
        o.extend_from_slice(b"</Entry></History>");
        el(&mut o, "String", "l", &next(2), mark);
        o.extend_from_slice(b"</Entry><Group><UUID>AAECAwQFBgcICQoLDA0ODw==</UUID><Entry>");
        el(&mut o, "String", "g", &next(3), mark);
        o.extend_from_slice(b"</Entry></Group>");
    }
    o.extend_from_slice(b"</Group></Root></KeePassFile>");
    let mut c = Given { stream: stream.clone(), used: 0 };
    let db = match parse_xml(&*o, &mut c) {
        Ok(db) => db,
        Err(_) => return sx::check(false, "the document can be read"),
    };
    sx::check(c.used == 12, "keystream is used for protected values only");
    let m = &db.meta().custom_data;
    let is = |f: Option<&Field>, a: usize, n: usize| f.is_some_and(|f| f.protected() && f.value().is_some_and(|v| sx::same(v.as_bytes(), &plain[a..a + n])));
    sx::check(is(m.first(), 0, 2), "custom data");
    sx::check(m.get(1).is_some_and(|f| f.value() == Some("plain") && !f.protected()), "unprotected custom data");
    let e = db.root().entries().next().unwrap();
    let g = db.root().groups().next().unwrap().entries().next().unwrap();
    let h = e.history().get(0).unwrap();
    let at = if first == 1 { [6, 5, 2, 10] } else { [2, 6, 9, 7] };
    sx::check(is(e.find("f"), at[0], 4), "field");
    sx::check(is(h.find("h"), at[1], 1), "version");
    sx::check(is(g.find("g"), at[2], 3), "field in subgroup");
    sx::check(is(e.find("l"), at[3], 2), "last field");
    sx::check(e.find("p").is_some_and(|f| f.value() == Some("QUJD") && !f.protected()), "unprotected field");
    sx::check(e.find("e").is_some_and(|f| f.value().unwrap_or("").is_empty() && f.protected()), "empty field");
}
/// saved files, with the inner ciphers of the format (params: inner cipher, shape)
pub fn c12_file() {
    let s = spec4(2, 0, 0, sx::param(0) as u32);
    let mut m = Make { items: vec![], values: false, secret: b'S' };
    let db = tree(&mut m, sx::param(1));
    let mut k = with_settings(db, &s);
    k.set_key(key()).unwrap();
    let mut out = Vec::new();
    sx::check(k.write(&mut out).is_ok(), "saving succeeds");
    let o = match read4(&out, &comp()) {
        Ok(o) => o,
        Err(e) => return sx::check(false, e),
    };
    let total: usize = m.items.iter().filter(|i| i.2).map(|i| i.1.len()).sum();
    let mut st = inner_stream(s.inner_alg, &s.inner_key).unwrap();
    let mut ks = vec![0; total];
    st.apply_keystream(&mut ks);
    let mut used = 0;
    let p = places(&o.xml, &m.items);
    sx::check(p.len() == m.items.iter().filter(|i| i.2).count(), "every protected value is stored");
    for (at, i) in p {
        let v = &m.items[i].1;
        let x: Vec<u8> = v.iter().enumerate().map(|(j, b)| b ^ ks[used + j]).collect();
        used += v.len();
        let want = b64(&x);
        sx::check(sx::same(&o.xml[at..at + want.len()], &want), "base64 of the encrypted value");
    }
    sx::observe(0, &o.xml);
    match kdbx_rs::from_reader(&*out).map(|l| l.unlock(&key())) {
        Ok(Ok(u)) => sx::check(sx::same(&dump(u.database()), &dump(k.database())), "the same values"),
        _ => sx::check(false, "the saved file opens"),
    }
}
