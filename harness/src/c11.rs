//! C11: a database as an XML document and back.
use crate::kx::*;
use crate::sx;
use kdbx_rs::database::{Entry, Field, Group, Times};
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};
use kdbx_rs::Database;

/// Writing succeeds if and only if it can, and parsing gives the same.
fn round_trip(db: &Database, writable: bool) {
    let want = dump(db);
    let mut out = Vec::new();
    let r = write_xml(&mut out, db, &mut NullStreamCipher);
    sx::check(r.is_ok() == writable, "written if and only if XML can hold it");
    if r.is_err() {
        sx::cover(0);
        return;
    }
    sx::cover(1);
    sx::observe(0, &out);
    match parse_xml(&*out, &mut NullStreamCipher) {
        Ok(got) => sx::check(sx::same(&dump(&got), &want), "the same database"),
        Err(_) => sx::check(false, "a written document can be read"),
    }
}
/// Any text of the kind: 0-3: that many ASCII characters, 4-6: one character of 2-4 bytes,
/// 7: an ASCII character within text, 8: between markup, 9: at both ends
fn text(kind: usize) -> (String, bool) {
    let v = match kind {
        0..=3 => sx::ascii(kind, "text").into_bytes(),
        4 => {
            let b = sx::bytes(2, "text");
            sx::assume((b[0] >= 0xc2) & (b[0] <= 0xdf) & (b[1] & 0xc0 == 0x80));
            b
        }
        5 => {
            let b = sx::bytes(3, "text");
            sx::assume((b[0] & 0xf0 == 0xe0) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80));
            sx::assume((b[0] != 0xe0) | (b[1] >= 0xa0));
            sx::assume((b[0] != 0xed) | (b[1] < 0xa0));
            b
        }
        6 => {
            let b = sx::bytes(4, "text");
            sx::assume((b[0] >= 0xf0) & (b[0] <= 0xf4) & (b[1] & 0xc0 == 0x80) & (b[2] & 0xc0 == 0x80) & (b[3] & 0xc0 == 0x80));
            sx::assume((b[0] != 0xf0) | (b[1] >= 0x90));
            sx::assume((b[0] != 0xf4) | (b[1] < 0x90));
            b
        }
        7 => {
            let mut v = b"ab".to_vec();
            v.push(sx::ascii(1, "text").into_bytes()[0]);
            v.extend_from_slice(b"cd");
            v
        }
        8 => {
            let mut v = b"<a>&amp;".to_vec();
            v.push(sx::ascii(1, "text").into_bytes()[0]);
            v.extend_from_slice(b"]]>\"'</Key><!--");
            v
        }
        _ => {
            let mut v = sx::ascii(1, "text").into_bytes();
            v.extend_from_slice(" \u{e9}\n\u{20ac} ".as_bytes());
            v.extend_from_slice(sx::ascii(1, "text").as_bytes());
            v
        }
    };
    let mut ok = true;
    for (i, b) in v.iter().enumerate() {
        ok &= (*b >= 0x20) | (*b == 9) | (*b == 10) | (*b == 13);
        if i >= 2 {
            ok &= !((v[i - 2] == 0xef) & (v[i - 1] == 0xbf) & (*b >= 0xbe));
        }
    }
    (unsafe { String::from_utf8_unchecked(v) }, ok)
}
/// text in one position (params: position, kind of text)
pub fn c11_text() {
    let (at, kind) = (sx::param(0), sx::param(1));
    let (t, mut ok) = text(kind);
    let mut db = sample("d", "s");
    let m = db.meta_mut();
    match at {
        0 => m.database_name = t,
        1 => m.database_description = t,
        2 => m.custom_data[0].set_key(&t),
        3 => m.custom_data[0].set_value(&t),
        4 => m.custom_data[1].set_value(&t),
        5 => db.root_mut().set_name(t),
        6 => db.find_group_mut(|g| g.name() == "subsub").unwrap().set_name(t),
        7 => db.add_entry(with(Field::new(&t, "v"))),
        8 => db.add_entry(with(Field::new("k", &t))),
        9 => db.add_entry(with(Field::new_protected("k", &t))),
        10 | 11 => {
            let mut e = with(if at == 10 { Field::new("k", &t) } else { Field::new_protected("k", &t) });
            e.new_version();
            e.find_mut("k").unwrap().set_value("new");
            db.add_entry(e);
        }
        12 => db.find_group_mut(|g| g.name() == "sub").unwrap().add_entry(with(Field::new("k", &t))),
        _ => db.add_entry(with(Field::new_protected(&t, "v"))),
    }
    if at == 4 || at == 9 || at == 11 {
        ok = true;
    }
    if kind == 0 && (at == 2 || at == 7 || at == 13) {
        ok = false;
    }
    round_trip(&db, ok);
}
fn with(f: Field) -> Entry {
    let mut e = entry(7);
    e.add_field(Field::new("before", "b"));
    e.add_field(f);
    e.add_field(Field::new_protected("after", "a"));
    e
}
/// any time of a minute, or one of some days
fn when(name: &str) -> chrono::NaiveDateTime {
    use chrono::{NaiveDate, NaiveTime};
    let (y, o, s) = match sx::choose(6) {
        0 => (2021, 182, 43200 + sx::below(60, name)),
        1 => (1, 1, 0),
        2 => (1970, 1, 1),
        3 => (2024, 366, 86399),
        4 => (9999, 365, 86399),
        _ => (2000, 60, 61),
    };
    NaiveDate::from_yo_opt(y, o).unwrap().and_time(NaiveTime::from_num_seconds_from_midnight_opt(s, 0).unwrap())
}
fn times(t: &mut Times, which: usize) {
    match which {
        0 => t.last_modification_time = when("time"),
        1 => t.creation_time = when("time"),
        2 => t.last_access_time = when("time"),
        3 => t.expiry_time = when("time"),
        4 => t.location_changed = when("time"),
        5 => t.expires = sx::flip(),
        6 => t.usage_count = sx::below(10, "count"),
        7 => t.usage_count = 10 + sx::below(90, "count"),
        _ => t.usage_count = [100, 255, 256, 65535, 65536, 99999, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX][sx::choose(10)],
    }
}
/// times, flags and counts of root, subgroup, entry and old version (params: object, which)
pub fn c11_times() {
    let which = sx::param(1);
    let mut db = sample("d", "s");
    match sx::param(0) {
        0 => times(db.root_mut().times_mut(), which),
        1 => times(db.find_group_mut(|g| g.name() == "sub").unwrap().times_mut(), which),
        2 => times(db.root_mut().entries_mut().next().unwrap().times_mut(), which),
        _ => times(db.root_mut().entries_mut().next().unwrap().history_mut()[0].times_mut(), which),
    }
    round_trip(&db, true);
}
/// identifiers of every object (params: object, first of three arbitrary bytes)
pub fn c11_uuid() {
    let mut u = [0x5a; 16];
    let at = sx::param(1);
    let n = 3.min(16 - at);
    u[at..at + n].copy_from_slice(&sx::bytes(n, "uuid"));
    let u = uuid::Uuid::from_bytes(u);
    let mut db = sample("d", "s");
    match sx::param(0) {
        0 => db.root_mut().set_uuid(u),
        1 => db.find_group_mut(|g| g.name() == "sub").unwrap().set_uuid(u),
        2 => db.root_mut().entries_mut().next().unwrap().set_uuid(u),
        _ => db.root_mut().entries_mut().next().unwrap().history_mut()[0].set_uuid(u),
    }
    round_trip(&db, true);
}
/// every combination of flags of the metadata
pub fn c11_flags() {
    let mut db = sample("d", "s");
    let m = &mut db.meta_mut().memory_protection;
    m.protect_title = sx::flip();
    m.protect_user_name = sx::flip();
    m.protect_password = sx::flip();
    m.protect_url = sx::flip();
    m.protect_notes = sx::flip();
    round_trip(&db, true);
}
fn some_fields(e: &mut Entry, n: usize, budget: &mut u8) {
    for _ in 0..sx::choose(n + 1) {
        *budget += 1;
        let k = [b'k', b'0' + *budget % 10];
        let k = core::str::from_utf8(&k).unwrap();
        let mut f = if sx::flip() { Field::new_protected(k, "value") } else { Field::new(k, "value") };
        if sx::flip() {
            f.clear();
        }
        e.add_field(f);
    }
}
fn some_group(depth: usize, budget: &mut u8) -> Group {
    *budget += 1;
    let mut g = Group::new("g");
    g.set_uuid(uuid(*budget));
    set_times(g.times_mut(), *budget as i64);
    for _ in 0..sx::choose(if depth == 0 { 3 } else { 2 }) {
        *budget += 1;
        let mut e = entry(*budget);
        set_times(e.times_mut(), *budget as i64);
        e.add_field(Field::new_protected("k", "v"));
        if sx::param(0) == 0 && sx::flip() {
            e.new_version();
            e.set_title("later");
        }
        g.add_entry(e);
    }
    if depth > 0 {
        for _ in 0..sx::choose(3) {
            g.add_group(some_group(depth - 1, budget));
        }
    }
    g
}
/// every tree with up to 2 groups per group, 1 entry per group and 2 per innermost group (params: depth)
pub fn c11_tree() {
    let mut db = tiny_db();
    let mut n = 0;
    db.replace_root(some_group(sx::param(0), &mut n));
    round_trip(&db, true);
}
/// entries with up to 3 fields, protected or not, empty or not, and 2 versions
pub fn c11_fields() {
    let mut db = tiny_db();
    let mut e = entry(1);
    let mut n = 0;
    some_fields(&mut e, sx::param(0), &mut n);
    for _ in 0..sx::choose(3) {
        e.new_version();
        e.set_password("x");
    }
    db.add_entry(e);
    round_trip(&db, true);
}
/// up to 2 items of custom data
pub fn c11_custom() {
    let mut db = tiny_db();
    let mut e = entry(1);
    let mut n = 0;
    some_fields(&mut e, 2, &mut n);
    db.meta_mut().custom_data = e.fields().cloned().collect();
    round_trip(&db, true);
}
/// versions that have versions themselves
pub fn c11_nested() {
    let mut db = tiny_db();
    let mut e = entry(1);
    let mut old = entry(2);
    for _ in 0..sx::choose(3) {
        old.set_title(sx::word(1, "text"));
        old.new_version();
    }
    e.history_mut().push(old);
    for _ in 0..sx::choose(2) {
        e.new_version();
    }
    db.add_entry(e);
    round_trip(&db, true);
}
/// documents with two top level groups keep both
pub fn c11_roots() {
    let t = sx::word(1, "text");
    let mut x = b"<KeePassFile><Meta><Generator>kdbx-rs</Generator></Meta><Root><Group><UUID>AAECAwQFBgcICQoLDA0ODw==</UUID><Name>".to_vec();
    x.extend_from_slice(t.as_bytes());
    x.extend_from_slice(b"</Name></Group><Group><UUID>AAECAwQFBgcICQoLDA0OEA==</UUID><Name>second</Name></Group></Root></KeePassFile>");
    let a = parse_xml(&*x, &mut NullStreamCipher).unwrap();
    let mut out = Vec::new();
    write_xml(&mut out, &a, &mut NullStreamCipher).unwrap();
    let b = parse_xml(&*out, &mut NullStreamCipher).unwrap();
    sx::check(a == b, "both groups");
    sx::observe(0, &out);
}
