//! C18: versions of an entry.
use crate::kx::*;
use crate::sx;
use kdbx_rs::database::{Entry, Field};

/// Everything of an entry but its versions.
fn own(e: &Entry) -> Vec<u8> {
    let mut o = e.uuid().as_bytes().to_vec();
    dump_times(&mut o, e.times());
    o.extend_from_slice(&(e.fields().count() as u32).to_le_bytes());
    for f in e.fields() {
        dump_field(&mut o, f);
        o.push(f.value().is_some() as u8);
    }
    o
}
fn agrees(e: &Entry, now: &[u8], old: &[Vec<u8>]) {
    sx::check(sx::same(&own(e), now), "the entry itself");
    let h = e.history();
    sx::check((h.len() == old.len()) & (h.entries().count() == old.len()) & (h.is_empty() == old.is_empty()), "number of versions");
    for (i, o) in old.iter().enumerate() {
        match h.get(i) {
            Some(v) => {
                sx::check(sx::same(&own(v), o), "stored version");
                sx::check(v.history().is_empty(), "a stored version has no versions");
            }
            None => sx::check(false, "stored version exists"),
        }
    }
    for (v, o) in h.entries().zip(old) {
        sx::check(sx::same(&own(v), o), "versions in order");
    }
    sx::check(h.get(old.len()).is_none(), "no further version");
}
fn edit(e: &mut Entry, k: usize) {
    let v = sx::ascii(1, "text");
    match k {
        0 => e.set_title(&v),
        1 => e.set_password(&v),
        2 => e.add_field(Field::new_protected(&v, "x")),
        3 => {
            e.remove_field("Title");
            e.remove_field(&v);
        }
        4 => {
            e.times_mut().usage_count = sx::u32_("count");
            e.times_mut().expires = true;
            e.times_mut().expiry_time = at(77);
            e.times_mut().location_changed = at(78);
            e.times_mut().last_modification_time = at(79);
        }
        5 => e.set_uuid(uuid::Uuid::from_bytes(sx::arr("id"))),
        _ => {
            for f in e.fields_mut() {
                f.clear();
            }
        }
    }
}
/// sequences (params: operations, first operation, second operation)
pub fn c18_sequence() {
    let mut e = entry(1);
    set_times(e.times_mut(), 4);
    e.set_title(sx::ascii(2, "title"));
    e.set_password("p");
    e.add_field(Field::new(&sx::ascii(1, "name"), "v"));
    let mut old: Vec<Vec<u8>> = Vec::new();
    let mut now = own(&e);
    for k in 0..sx::param(0) {
        let op = match k {
            0 => sx::param(1),
            1 => sx::param(2),
            _ => sx::choose(10),
        };
        match op {
            0 | 1 => {
                e.new_version();
                old.push(now.clone());
            }
            2 => {
                if !old.is_empty() {
                    let i = sx::choose(old.len());
                    let r = e.history_mut().remove(i);
                    sx::check(sx::same(&own(&r), &old.remove(i)), "the removed version is returned");
                    sx::check(r.history().is_empty(), "the removed version has no versions");
                }
            }
            o => {
                edit(&mut e, o - 3);
                let n = own(&e);
                // the edit itself is decided elsewhere; here it must not reach the versions
                now = n;
            }
        }
        agrees(&e, &now, &old);
    }
    let c = e.clone();
    agrees(&c, &now, &old);
    sx::check(c == e, "a copy is equal");
    sx::observe(0, &[old.len() as u8]);
}
/// many versions (params: number)
pub fn c18_many() {
    let mut e = entry(2);
    let mut old = Vec::new();
    for _ in 0..sx::param(0) {
        e.set_password(sx::ascii(1, "password"));
        e.times_mut().usage_count = sx::u32_("count");
        old.push(own(&e));
        e.new_version();
        agrees(&e, &own(&e), &old);
    }
    // any removal
    if !old.is_empty() {
        let i = sx::choose(old.len());
        let r = e.history_mut().remove(i);
        sx::check(sx::same(&own(&r), &old.remove(i)), "the removed version is returned");
    }
    agrees(&e, &own(&e), &old);
    sx::observe(0, &[old.len() as u8]);
}
/// a version pushed by hand and edited in place
pub fn c18_push() {
    let mut e = entry(3);
    e.set_title("t");
    let mut old = Vec::new();
    for k in 0..3 {
        let mut v = entry(10 + k);
        edit(&mut v, sx::choose(7));
        old.push(own(&v));
        e.history_mut().push(v);
        agrees(&e, &own(&e), &old);
    }
    let i = sx::choose(3);
    let before = own(&e);
    match sx::choose(3) {
        0 => match e.history_mut().get_mut(i) {
            Some(v) => edit(v, 1),
            None => return sx::check(false, "stored version exists"),
        },
        1 => edit(&mut e.history_mut()[i], 1),
        _ => match e.history_mut().entries_mut().nth(i) {
            Some(v) => edit(v, 1),
            None => return sx::check(false, "stored version exists"),
        },
    }
    old[i] = own(&e.history()[i]);
    sx::check(e.history()[i].password().is_some(), "the edit arrived");
    agrees(&e, &before, &old);
    e.new_version();
    old.push(before.clone());
    agrees(&e, &before, &old);
    sx::observe(0, &[i as u8]);
}
