//! C14: times and identifiers as text.
use crate::refk::base64;
use crate::sx;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use kdbx_rs::xml::{decode_datetime, decode_uuid, encode_datetime, encode_uuid};

const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/// base64 with padding
fn b64(b: &[u8]) -> String {
    let n = b.len() / 3 * 3;
    let mut o = base64(&b[..n]);
    let r = &b[n..];
    if r.len() == 1 {
        o.extend_from_slice(&[A[(r[0] >> 2) as usize], A[((r[0] & 3) << 4) as usize], b'=', b'=']);
    } else if r.len() == 2 {
        let c = (r[0] as usize) << 8 | r[1] as usize;
        o.extend_from_slice(&[A[c >> 10], A[c >> 4 & 63], A[c << 2 & 63], b'=']);
    }
    unsafe { String::from_utf8_unchecked(o) }
}
/// Days before January 1 of the year, counted from year 1.
fn days(year: i64) -> i64 {
    let y = year - 1;
    y * 365 + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400)
}
const YEARS: [i32; 26] = [
    1, 2, 4, 100, 400, 1600, 1899, 1900, 1904, 1969, 1970, 1972, 1999, 2000, 2001, 2023, 2024, 2038, 2100, 2400, 9999, 0, -1, -400, 262142, -262143,
];
/// one of the years above (param 0), or param 2
fn year() -> i32 {
    match sx::param(2) {
        0 => YEARS[sx::param(0)],
        y => y as i32,
    }
}
fn leap(year: i32) -> bool {
    (year % 4 == 0 && year % 100 != 0) || year % 400 == 0
}
/// param 1: any second of any day of the year, or one of some days and seconds
fn any(year: i32) -> (NaiveDateTime, u32, u32) {
    let last = if leap(year) { 366 } else { 365 };
    let (o, s) = if sx::param(1) == 0 {
        (1 + sx::below(last, "ordinal"), sx::below(86400, "second"))
    } else {
        ([1, 2, 59, 60, 61, last - 1, last][sx::choose(7)], [0, 1, 59, 60, 3599, 3600, 43200, 86398, 86399][sx::choose(9)])
    };
    let d = NaiveDate::from_yo_opt(year, o).unwrap();
    let t = NaiveTime::from_num_seconds_from_midnight_opt(s, 0).unwrap();
    (NaiveDateTime::new(d, t), o, s)
}
pub fn c14_encode() {
    let year = year();
    let (d, o, s) = any(year);
    let t = encode_datetime(d);
    let n = (days(year as i64) + o as i64 - 1) * 86400 + s as i64;
    sx::check(sx::same(t.as_bytes(), b64(&n.to_le_bytes()).as_bytes()), "encoding");
    sx::observe(0, t.as_bytes());
}
pub fn c14_roundtrip() {
    let year = year();
    let (d, _, _) = any(year);
    let t = encode_datetime(d);
    sx::check(decode_datetime(&t) == Some(d), "the same instant");
    sx::observe(0, t.as_bytes());
}
pub fn c14_decode() {
    let year = year();
    let (_, o, s) = any(year);
    let n = (days(year as i64) + o as i64 - 1) * 86400 + s as i64;
    match decode_datetime(&b64(&n.to_le_bytes())) {
        Some(d) => {
            sx::check((d.year() == year) & (d.ordinal() == o) & (d.num_seconds_from_midnight() == s) & (d.nanosecond() == 0), "instant");
        }
        None => sx::check(false, "a valid time decodes"),
    }
    sx::observe(0, &[1]);
}
pub fn c14_uuid() {
    let b: [u8; 16] = sx::arr("uuid");
    let u = uuid::Uuid::from_bytes(b);
    let t = encode_uuid(u);
    sx::check(sx::same(t.as_bytes(), b64(&b).as_bytes()), "encoding");
    sx::check(decode_uuid(&t).is_some_and(|x| sx::same(x.as_bytes(), &b)), "the same identifier");
    sx::observe(0, t.as_bytes());
}
/// Value of a base64 symbol, 64 for other characters.
fn symbol(c: u8) -> u32 {
    let mut v = 64;
    let mut i = 0;
    while i < 64 {
        v = if c == A[i] { i as u32 } else { v };
        i += 1;
    }
    v
}
/// Whether this is padded base64 of whole bytes.
fn is_base64(t: &[u8]) -> bool {
    let n = t.len();
    if n % 4 != 0 {
        return false;
    }
    let mut ok = true;
    for (i, c) in t.iter().enumerate() {
        let v = symbol(*c);
        let last = t[n - 1] == b'=';
        let last2 = last & (t[n - 2] == b'=');
        ok &= if i == n - 1 {
            (v < 64) | last
        } else if i == n - 2 {
            ((v < 64) & (!last | (v & 3 == 0))) | last2
        } else if i == n - 3 {
            (v < 64) & (!last2 | (v & 15 == 0))
        } else {
            v < 64
        };
    }
    ok
}
fn ascii(n: usize) -> Vec<u8> {
    sx::ascii(n, "text").into_bytes()
}
/// any text of param 0 characters
pub fn c14_text() {
    let b = ascii(sx::param(0));
    let t = unsafe { core::str::from_utf8_unchecked(&b) };
    let d = decode_datetime(t);
    sx::check(d.is_none() | is_base64(&b), "no date without base64 or ISO 8601");
    sx::check(decode_uuid(t).is_none(), "too short for an identifier");
    sx::observe(0, &[d.is_some() as u8]);
    sx::cover(d.is_some() as u64);
}
/// valid date and identifier texts with two arbitrary characters at param 1; param 0: date, identifier of 15-18 bytes
pub fn c14_change() {
    let (k, at) = (sx::param(0), sx::param(1));
    let mut t = match k {
        0 => b64(&[0x80, 0x4e, 0xc8, 0xd6, 0x0e, 0, 0, 0]),
        n => b64(&[0x5au8, 0x31, 0xff, 0, 1, 0xc3, 0x28, 0x99, 0x7e, 0x10, 0xab, 0xcd, 0xef, 0x42, 0xfe, 0xdc, 0x10, 0x11][..14 + n]),
    }
    .into_bytes();
    let x = ascii(2);
    let at = at.min(t.len() - 2);
    t[at] = x[0];
    t[at + 1] = x[1];
    let s = unsafe { core::str::from_utf8_unchecked(&t) };
    let ok = is_base64(&t);
    let n = t.len() / 4 * 3 - (t[t.len() - 1] == b'=') as usize - (t[t.len() - 2] == b'=') as usize;
    if k == 0 {
        let d = decode_datetime(s);
        sx::check(d.is_none() | ok, "no date without base64");
        sx::cover(d.is_some() as u64);
    } else {
        match decode_uuid(s) {
            Some(u) => {
                sx::cover(1);
                sx::check(ok && n == 16, "no identifier without 16 bytes of base64");
                sx::check(sx::same(encode_uuid(u).as_bytes(), &t), "the identifier of the text");
            }
            None => {
                sx::cover(0);
                sx::check(!(ok && n == 16), "a valid identifier decodes");
            }
        }
    }
}
/// counts of seconds beyond the dates that can be held
pub fn c14_range() {
    let end = days(262143) * 86400;
    let start = days(-262143) * 86400;
    let n = match sx::param(0) {
        0 => end - 4 + sx::choose(8) as i64,
        1 => start - 4 + sx::choose(8) as i64,
        2 => end + sx::u32_("seconds") as i64,
        3 => start - 1 - sx::u32_("seconds") as i64,
        k => {
            let n = sx::u64_("seconds") as i64;
            sx::assume(match k {
                4 => n > i64::MAX / 1000,
                5 => n < -i64::MAX / 1000,
                6 => n > end,
                _ => n < start,
            });
            n
        }
    };
    let d = decode_datetime(&b64(&n.to_le_bytes()));
    sx::check(d.is_some() == ((n >= start) & (n < end)), "dates that can be held");
}
fn two(v: u32) -> [u8; 2] {
    [b'0' + (v / 10) as u8, b'0' + (v % 10) as u8]
}
/// ISO 8601; param 0: which part has arbitrary digits
pub fn c14_iso() {
    let mut v = [20, 24, 2, 29, 12, 34, 56];
    let p = sx::param(0);
    let mut t = *b"2024-02-29T12:34:56Z";
    const AT: [usize; 7] = [0, 2, 5, 8, 11, 14, 17];
    match sx::param(1) {
        0 => {}
        1 => v = [19, 99, 12, 31, 23, 59, 59],
        _ => v = [0, 1, 1, 1, 0, 0, 0],
    }
    if p < 7 {
        let (a, b) = if p == 2 { (sx::choose(10) as u32, sx::choose(10) as u32) } else { (sx::below(10, "tens"), sx::below(10, "units")) };
        v[p] = a * 10 + b;
        for i in 0..7 {
            t[AT[i]..AT[i] + 2].copy_from_slice(&if i == p { [b'0' + a as u8, b'0' + b as u8] } else { two(v[i]) });
        }
    }
    let year = (v[0] * 100 + v[1]) as i32;
    let feb = 28 + leap(year) as u32;
    let mut lengths = [31, feb, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let d = decode_datetime(unsafe { core::str::from_utf8_unchecked(&t) });
    sx::assume(v[6] != 60);
    let mut o = v[3];
    let mut len = 0;
    for m in 0..12u32 {
        o += if m + 1 < v[2] { lengths[m as usize] } else { 0 };
        len = if m + 1 == v[2] { lengths[m as usize] } else { len };
    }
    lengths[0] = 0;
    let valid = (v[2] >= 1) & (v[2] <= 12) & (v[3] >= 1) & (v[3] <= len) & (v[4] < 24) & (v[5] < 60) & (v[6] < 60);
    match d {
        Some(d) => {
            sx::check(valid, "only dates that exist");
            sx::check((d.year() == year) & (d.ordinal() == o) & (d.num_seconds_from_midnight() == v[4] * 3600 + v[5] * 60 + v[6]) & (d.nanosecond() == 0), "instant");
            sx::cover(1);
        }
        None => {
            sx::check(!valid, "a valid date decodes");
            sx::cover(0);
        }
    }
}
/// offsets from UTC
pub fn c14_offset() {
    let mut t = *b"2024-03-01T12:34:56+00:00";
    if sx::param(1) == 1 {
        t[..19].copy_from_slice(b"2023-12-31T23:59:59");
    }
    let minus = sx::flip();
    t[19] = if minus { b'-' } else { b'+' };
    let at = if sx::param(0) == 0 { 20 } else { 23 };
    let (a, b) = (sx::below(10, "tens"), sx::below(10, "units"));
    t[at] = b'0' + a as u8;
    t[at + 1] = b'0' + b as u8;
    let w = (a * 10 + b) as i64;
    let off = w * if at == 20 { 60 } else { 1 } * if minus { -1 } else { 1 };
    let base = if sx::param(1) == 1 { NaiveDate::from_ymd_opt(2023, 12, 31).unwrap().and_hms_opt(23, 59, 59) } else { NaiveDate::from_ymd_opt(2024, 3, 1).unwrap().and_hms_opt(12, 34, 56) }.unwrap();
    match decode_datetime(unsafe { core::str::from_utf8_unchecked(&t) }) {
        Some(d) => {
            sx::check(base.signed_duration_since(d).num_seconds() == off * 60, "instant in UTC");
            sx::cover(1);
        }
        None => {
            sx::check(w >= if at == 20 { 24 } else { 60 }, "a valid offset decodes");
            sx::cover(0);
        }
    }
}
/// a valid ISO text with two arbitrary characters or cut short
pub fn c14_iso_text() {
    let mut t = b"2024-02-29T12:34:56Z".to_vec();
    let at = sx::param(0);
    if at < 19 {
        let x = ascii(2);
        t[at] = x[0];
        t[at + 1] = x[1];
    } else {
        t.truncate(at - 19);
    }
    let mut iso = t.len() == 20;
    for (i, c) in t.iter().enumerate() {
        iso &= match i {
            4 | 7 => *c == b'-',
            10 => (*c == b'T') | (*c == b't') | (*c == b' '),
            13 | 16 => *c == b':',
            19 => (*c == b'Z') | (*c == b'z'),
            _ => (*c >= b'0') & (*c <= b'9'),
        };
    }
    let d = decode_datetime(unsafe { core::str::from_utf8_unchecked(&t) });
    sx::check(d.is_none() | iso | is_base64(&t), "no date without base64 or ISO 8601");
    sx::observe(0, &[d.is_some() as u8]);
    sx::cover(d.is_some() as u64);
}
