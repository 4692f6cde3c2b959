//! C21: one-time-password parameters.
use crate::kx::*;
use crate::sx;
use kdbx_rs::database::{Entry, Field, Otp};

fn base32(n: usize, pad: usize) -> String {
    let mut b = sx::bytes(n, "secret");
    for c in &b {
        sx::assume((*c >= b'A') & (*c <= b'Z') | (*c >= b'2') & (*c <= b'7'));
    }
    b.resize(n + pad, b'=');
    String::from_utf8(b).unwrap_or_default()
}
const NUMBERS: [u32; 18] = [0, 1, 6, 8, 9, 10, 30, 60, 99, 100, 255, 256, 3600, 65535, 65536, 86400, i32::MAX as u32 + 1, u32::MAX];
fn number(kind: usize, name: &str) -> u32 {
    match kind {
        0 => sx::below(10, name),
        1 => sx::below(1000, name),
        2 => sx::below(10_000, name),
        _ => NUMBERS[sx::choose(NUMBERS.len())],
    }
}
fn compare(o: &Otp, secret: &str, period: u32, digits: u32) {
    sx::check(o.secret().is_some_and(|s| sx::same(s.as_bytes(), secret.as_bytes())), "the secret");
    sx::check(o.period() == Some(period), "the period");
    sx::check(o.digits() == Some(digits), "the digits");
}
/// any secret, period and digits (params: length, padding, period kind, digits kind, stored)
pub fn c21_make() {
    let s = base32(sx::param(0), sx::param(1));
    let (p, d) = (number(sx::param(2), "period"), number(sx::param(3), "digits"));
    let o = if sx::flip() { Otp::new(s.as_str(), p, d) } else { Otp::new(s.clone(), p, d) };
    compare(&o, &s, p, d);
    let mut e = Entry::default();
    match sx::param(4) {
        1 => e.set_otp(Otp::new("OLD", 1, 2)),
        2 => e.add_field(Field::new("otp", "text")),
        3 => {
            e.set_title("t");
            e.add_field(Field::new_protected("otp", ""));
            e.set_password("p");
        }
        _ => {}
    }
    e.set_otp(o);
    match e.otp() {
        Some(o) => compare(&o, &s, p, d),
        None => sx::check(false, "a stored value is found"),
    }
    sx::check(e.fields().filter(|f| f.key() == "otp").count() == 1, "one field");
    if let Some(f) = e.find("otp") {
        sx::check(f.protected(), "the secret is protected");
    }
    sx::observe(0, s.as_bytes());
}
/// the same after saving (params: length, padding)
pub fn c21_saved() {
    let s = base32(sx::param(0), sx::param(1));
    let (p, d) = ([30, 0, u32::MAX][sx::choose(3)], [6, 8][sx::choose(2)]);
    let mut db = tiny_db();
    let mut e = entry(7);
    e.set_otp(Otp::new(s.as_str(), p, d));
    db.add_entry(e);
    let mut u = with_settings(db, &spec4(2, 0, 0, 3));
    sx::check(u.set_key(key()).is_ok(), "key");
    let mut out = Vec::new();
    sx::check(u.write(&mut out).is_ok(), "saved");
    let n = kdbx_rs::from_reader(&*out).ok().and_then(|l| l.unlock(&key()).ok());
    let found = match &n {
        Some(n) => match n.database().find_entry(|e| e.uuid() == uuid(7)).and_then(|e| e.otp()) {
            Some(o) => {
                compare(&o, &s, p, d);
                true
            }
            None => false,
        },
        None => false,
    };
    sx::check(found, "a saved value is found");
    sx::observe(0, s.as_bytes());
}

const TEXTS: [&str; 7] = [
    "otpauth://totp/a:b?secret=AB&period=30&digits=6",
    "otpauth://totp/a:b?digits=8&algorithm=SHA1&period=6&secret=X",
    "x?secret=A=&issuer=I&period=007",
    "key=AB&step=30&size=6",
    "?secret&digits=6",
    "x?a=1?secret=B&period=5#secret=C",
    "?period=4294967295&digits=4294967296&secret=",
];
/// Does `name=v`, delimited as a parameter, occur in the text?
fn named(t: &[u8], name: &[u8], v: &[u8]) -> bool {
    let mut r = false;
    for i in 0..t.len() {
        let (a, b) = (i + 1 + name.len(), i + 2 + name.len() + v.len());
        if b > t.len() {
            break;
        }
        let before = (t[i] == b'?') | (t[i] == b'&');
        let after = match t.get(b) {
            None => true,
            Some(c) => (*c == b'&') | (*c == b'?') | (*c == b'#'),
        };
        r |= before & after & sx::same(&t[i + 1..a], name) & (t[a] == b'=') & sx::same(&t[a + 1..b], v);
    }
    r
}
/// The parameter when the text is a plain URL that has it exactly once with a value.
fn expected<'a>(t: &'a [u8], name: &[u8]) -> Option<&'a [u8]> {
    let q = t.iter().position(|c| *c == b'?')?;
    let query = &t[q + 1..];
    if query.iter().any(|c| *c == b'?' || *c == b'#') || t.iter().any(|c| *c == b'#' || *c == b'%') {
        return None;
    }
    let mut found = None;
    for p in query.split(|c| *c == b'&') {
        let end = p.iter().position(|c| *c == b'=').unwrap_or(p.len());
        if &p[..end] == name {
            if found.is_some() || end == p.len() {
                return None;
            }
            found = Some(&p[end + 1..]);
        }
    }
    found
}
fn plain(v: &[u8]) -> Option<u32> {
    if v.is_empty() || v.len() > 9 || !v.iter().all(u8::is_ascii_digit) {
        return None;
    }
    Some(v.iter().fold(0, |n, c| n * 10 + (*c - b'0') as u32))
}
fn examine(t: &str) {
    let mut e = Entry::default();
    e.add_field(if sx::flip() { Field::new("otp", t) } else { Field::new_protected("otp", t) });
    let o = match e.otp() {
        Some(o) => o,
        None => return sx::check(false, "a stored text is found"),
    };
    let b = t.as_bytes();
    let (s, p, d) = (o.secret(), o.period(), o.digits());
    match s {
        Some(s) => {
            sx::cover(0);
            sx::check(named(b, b"secret", s.as_bytes()), "the secret is a parameter of the text");
        }
        None => sx::cover(1),
    }
    if let Some(x) = expected(b, b"secret") {
        sx::cover(2);
        sx::check(s.is_some_and(|s| sx::same(s.as_bytes(), x)), "a present secret is found");
    }
    for (name, v) in [(&b"period"[..], p), (&b"digits"[..], d)] {
        if v.is_some() {
            sx::check(b.windows(8).any(|w| &w[1..7] == name && w[7] == b'='), "a number is a parameter of the text");
        }
        if let Some(x) = expected(b, name) {
            match plain(x) {
                Some(n) => {
                    sx::cover(3);
                    sx::check(v == Some(n), "a present number is found");
                }
                None => {
                    let big = x.iter().all(u8::is_ascii_digit) && !x.is_empty() || x.first() == Some(&b'+');
                    sx::check(v.is_none() || big, "something else is not a number");
                }
            }
        }
    }
    let mut r = s.unwrap_or("-").as_bytes().to_vec();
    r.extend_from_slice(&p.unwrap_or(77).to_le_bytes());
    r.extend_from_slice(&d.unwrap_or(77).to_le_bytes());
    sx::observe(0, &r);
}
/// symbolic characters in place of some of a text (params: text, window)
pub fn c21_window() {
    let t = TEXTS[sx::param(0)];
    let w = sx::param(1);
    let at = sx::choose(t.len() + 1 - w);
    let mut s = String::new();
    s.push_str(&t[..at]);
    s.push_str(&sx::ascii(w, "text"));
    s.push_str(&t[at + w..]);
    examine(&s);
}
/// symbolic characters between the parts of a text (params: text, inserted)
pub fn c21_insert() {
    let t = TEXTS[sx::param(0)];
    let at = sx::choose(t.len() + 1);
    let mut s = String::new();
    s.push_str(&t[..at]);
    s.push_str(&sx::ascii(sx::param(1), "text"));
    s.push_str(&t[at..]);
    examine(&s);
}
/// short texts of any characters (params: length, before, after)
pub fn c21_any() {
    let mut s = ["", "?secret=", "?", "x?period="][sx::param(1)].to_string();
    s.push_str(&sx::ascii(sx::param(0), "text"));
    s.push_str(["", "&secret=AB", "secret=A&digits=5"][sx::param(2)]);
    examine(&s);
}
/// text that is not ASCII (params: text)
pub fn c21_wide() {
    let t = TEXTS[sx::param(0)];
    let at = sx::choose(t.len() + 1);
    let c = ["\u{e9}", "\u{2003}", "\u{1f511}", "\u{ff1d}"][sx::choose(4)];
    let mut s = String::new();
    s.push_str(&t[..at]);
    s.push_str(c);
    s.push_str(&t[at..]);
    examine(&s);
}
