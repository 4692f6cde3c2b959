//! C13: arbitrary documents.
use crate::kx::*;
use crate::sx;
use kdbx_rs::database::{Entry, Field, Group};
use kdbx_rs::utils::NullStreamCipher;
use kdbx_rs::xml::{parse_xml, write_xml};
use kdbx_rs::Database;

/// Every operation of a database.
fn everything(mut db: Database) {
    let d = dump(&db);
    sx::observe(1, &(d.len() as u32).to_le_bytes());
    let n = db.root().recursive_entries().count();
    let g = db.root().recursive_groups().count();
    let mut seen = 0;
    sx::check(db.find_entry(|_| { seen += 1; false }).is_none(), "no entry without a match");
    sx::check(seen == n, "every entry visited");
    seen = 0;
    sx::check(db.find_group(|_| { seen += 1; false }).is_none(), "no group without a match");
    sx::check(seen == g, "every group visited");
    sx::check(db.root_mut().recursive_entries_mut().count() == n, "every entry visited");
    if let Some(e) = db.find_entry_mut(|_| true) {
        let _ = (e.title().is_some(), e.username().is_some(), e.url().is_some(), e.password().is_some());
        if let Some(o) = e.otp() {
            let _ = (o.secret().is_some(), o.period(), o.digits());
        }
        e.set_title("t");
        e.set_password("p");
        e.new_version();
        e.remove_field("Title");
    }
    let _ = (db.name().len(), db.description().len(), db.meta().generator.len());
    let mut out = Vec::new();
    let _ = write_xml(&mut out, &db, &mut NullStreamCipher);
    db.add_entry(Entry::default());
    db.add_group(Group::new("g"));
    db.root_mut().set_name("r");
    let u = db.root().entries().next().map(|e| e.uuid());
    if let Some(u) = u {
        sx::check(db.root_mut().remove_entry(u).is_some(), "removed");
    }
    let u = db.root().groups().next().map(|e| e.uuid());
    if let Some(u) = u {
        sx::check(db.root_mut().remove_group(u).is_some(), "removed");
    }
    db.meta_mut().custom_data.push(Field::new("a", "b"));
    let _ = db.clone() == db;
}
fn run(doc: &[u8]) {
    match parse_xml(doc, &mut NullStreamCipher) {
        Ok(db) => {
            sx::observe(0, &[1]);
            sx::cover(1);
            everything(db);
        }
        Err(_) => {
            sx::observe(0, &[0]);
            sx::cover(0);
        }
    }
}
const U: &str = "<UUID>AAECAwQFBgcICQoLDA0ODw==</UUID>";
/// Beginnings of documents and what closes them.
const CONTEXTS: [(&str, &str); 12] = [
    ("", ""),
    ("<KeePassFile>", "</KeePassFile>"),
    ("<KeePassFile><Meta>", "</Meta></KeePassFile>"),
    ("<KeePassFile><Meta><CustomData><Item>", "</Item></CustomData></Meta></KeePassFile>"),
    ("<KeePassFile><Root>", "</Root></KeePassFile>"),
    ("<KeePassFile><Root><Group>", "</Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Times>", "</Times></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry>", "</Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><String>", "</String></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><History>", "</History></Entry></Group></Root></KeePassFile>"),
    ("<KeePassFile><Root><Group><Entry><String><Key>k</Key><Value Protected=\"True\">", "</Value></String></Entry></Group></Root></KeePassFile>"),
    ("<?xml version=\"1.0\"?>", ""),
];
/// any bytes within a document (params: context, number, closed)
pub fn c13_raw() {
    let (a, z) = CONTEXTS[sx::param(0)];
    let mut d = a.as_bytes().to_vec();
    d.extend_from_slice(&sx::bytes(sx::param(1), "bytes"));
    if sx::param(2) == 1 {
        d.extend_from_slice(z.as_bytes());
    }
    run(&d);
}
const TAGS: [&str; 30] = [
    "KeePassFile", "Meta", "Root", "Group", "Entry", "History", "String", "Key", "Value", "Times", "UUID", "Name", "CustomData", "Item", "MemoryProtection", "Generator", "DatabaseName",
    "DatabaseDescription", "LastModificationTime", "CreationTime", "LastAccessTime", "ExpiryTime", "LocationChanged", "Expires", "UsageCount", "ProtectTitle", "ProtectURL", "Other", "x:Group", "Binaries",
];
/// any sequence of elements (params: context, number of tokens, number of tags, first tag)
pub fn c13_tokens() {
    let (a, z) = CONTEXTS[sx::param(0)];
    let (n, tags, first) = (sx::param(1), sx::param(2), sx::param(3));
    let mut d = a.as_bytes().to_vec();
    let mut open: Vec<&str> = vec![];
    for _ in 0..n {
        let k = sx::choose(tags + 4);
        if k < tags {
            let t = TAGS[(first + k) % 30];
            d.push(b'<');
            d.extend_from_slice(t.as_bytes());
            d.push(b'>');
            open.push(t);
        } else if k == tags {
            match open.pop() {
                Some(t) => {
                    d.extend_from_slice(b"</");
                    d.extend_from_slice(t.as_bytes());
                    d.push(b'>');
                }
                None => {
                    // closes an element of the context
                    d.extend_from_slice(z.as_bytes());
                    break;
                }
            }
        } else if k == tags + 1 {
            d.extend_from_slice(b"QUJD");
        } else if k == tags + 2 {
            d.extend_from_slice(U.as_bytes());
        } else {
            // the document ends here
            return run(&d);
        }
    }
    for t in open.iter().rev() {
        d.extend_from_slice(b"</");
        d.extend_from_slice(t.as_bytes());
        d.push(b'>');
    }
    d.extend_from_slice(z.as_bytes());
    run(&d);
}
/// any text in an element (params: element, characters, kind of surroundings)
pub fn c13_value() {
    const PLACES: [(usize, &str); 20] = [
        (5, "UUID"), (7, "UUID"), (5, "Name"), (6, "LastModificationTime"), (6, "CreationTime"), (6, "ExpiryTime"), (6, "LastAccessTime"), (6, "LocationChanged"), (6, "Expires"), (6, "UsageCount"),
        (8, "Key"), (8, "Value"), (3, "Key"), (3, "Value"), (2, "DatabaseName"), (2, "Generator"), (2, "DatabaseDescription"), (10, ""), (2, "MemoryProtection"), (5, "Times"),
    ];
    let (c, t) = PLACES[sx::param(0)];
    let (a, z) = CONTEXTS[c];
    let mut d = a.as_bytes().to_vec();
    let x = sx::ascii(sx::param(1), "text");
    let (before, after) = [("", ""), ("AAECAwQFBgcICQoLDA0OD", ""), ("2024-01-0", "T00:00:00Z"), ("4", "9"), ("AAAA", "AAAA"), ("-", ""), (" ", " "), ("42949672", "")][sx::param(2)];
    if !t.is_empty() {
        d.push(b'<');
        d.extend_from_slice(t.as_bytes());
        d.push(b'>');
    }
    d.extend_from_slice(before.as_bytes());
    d.extend_from_slice(x.as_bytes());
    d.extend_from_slice(after.as_bytes());
    if !t.is_empty() {
        d.extend_from_slice(b"</");
        d.extend_from_slice(t.as_bytes());
        d.push(b'>');
    }
    d.extend_from_slice(z.as_bytes());
    run(&d);
}
/// deep nesting of one element (params: element, depth)
pub fn c13_deep() {
    let t = ["Group", "Entry", "History", "Other"][sx::param(0)];
    let n = sx::param(1);
    let mut d = b"<KeePassFile><Root><Group>".to_vec();
    for _ in 0..n {
        d.push(b'<');
        d.extend_from_slice(t.as_bytes());
        d.push(b'>');
    }
    if sx::flip() {
        for _ in 0..n {
            d.extend_from_slice(b"</");
            d.extend_from_slice(t.as_bytes());
            d.push(b'>');
        }
        d.extend_from_slice(b"</Group></Root></KeePassFile>");
    }
    run(&d);
}
