//! C17: fields of an entry.
use crate::sx;
use kdbx_rs::database::{Entry, Field, Otp};

#[derive(Clone)]
struct Model {
    name: String,
    value: Option<String>,
    protected: bool,
}
fn same_text(a: Option<&str>, b: Option<&str>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => sx::same(a.as_bytes(), b.as_bytes()),
        _ => false,
    }
}
fn first<'a>(m: &'a [Model], name: &str) -> Option<&'a Model> {
    m.iter().find(|f| f.name == name)
}
fn agrees(e: &Entry, m: &[Model]) {
    let n = e.fields().count();
    sx::check(n == m.len(), "number of fields");
    for (f, x) in e.fields().zip(m) {
        sx::check(sx::same(f.key().as_bytes(), x.name.as_bytes()), "name and order");
        sx::check(same_text(f.value(), x.value.as_deref()), "value");
        sx::check(f.protected() == x.protected, "protection");
    }
    let named = |n| first(m, n).and_then(|f| f.value.as_deref());
    sx::check(same_text(e.title(), named("Title")), "title");
    sx::check(same_text(e.username(), named("UserName")), "user name");
    sx::check(same_text(e.url(), named("URL")), "URL");
    sx::check(same_text(e.password(), named("Password")), "password");
    sx::check(e.otp().is_some() == named("otp").is_some(), "one-time password");
    for n in ["Title", "UserName", "URL", "Password", "otp", "k", "x"] {
        match (e.find(n), first(m, n)) {
            (None, None) => {}
            (Some(f), Some(x)) => {
                sx::check(same_text(f.value(), x.value.as_deref()) & (f.protected() == x.protected) & (f.key() == n), "find gives the first field of the name");
            }
            _ => sx::check(false, "find gives a field exactly if there is one"),
        }
    }
}
fn otp_text(secret: &str) -> String {
    let mut e = Entry::default();
    e.set_otp(Otp::new(secret, 30, 6));
    let t = e.fields().next().and_then(|f| f.value()).map(|v| v.to_string());
    t.unwrap_or_default()
}
/// one operation through the entry and on the model
fn step(op: usize, e: &mut Entry, m: &mut Vec<Model>, names: &[&str], which: usize) {
    let name = names[if names.len() > 1 { sx::choose(names.len()) } else { 0 }];
    let v = sx::ascii(1, "value");
    match op {
        0 => {
            e.add_field(Field::new(name, &v));
            m.push(Model { name: name.into(), value: Some(v), protected: false });
        }
        1 => {
            e.add_field(Field::new_protected(name, &v));
            m.push(Model { name: name.into(), value: Some(v), protected: true });
        }
        2 => {
            // the named accessor
            let (n, v) = match which {
                0 => {
                    e.set_title(&v);
                    ("Title", v)
                }
                1 => {
                    e.set_username(&v);
                    ("UserName", v)
                }
                2 => {
                    e.set_url(&v);
                    ("URL", v)
                }
                3 => {
                    e.set_password(&v);
                    ("Password", v)
                }
                _ => {
                    let t = otp_text("ABCDEFGH");
                    e.set_otp(Otp::new("ABCDEFGH", 30, 6));
                    ("otp", t)
                }
            };
            let secret = which >= 3;
            match m.iter_mut().find(|f| f.name == n) {
                Some(f) => {
                    f.value = Some(v);
                    f.protected |= secret;
                }
                None => m.push(Model { name: n.into(), value: Some(v), protected: secret }),
            }
        }
        3 => {
            e.remove_field(name);
            m.retain(|f| f.name != name);
        }
        _ => {
            // on one field, by name or by position
            let at = if sx::flip() {
                m.iter().position(|f| f.name == name)
            } else if m.is_empty() {
                None
            } else {
                Some(sx::choose(m.len()))
            };
            let by_name = m.iter().position(|f| f.name == name) == at;
            let f = if by_name { e.find_mut(name) } else { e.fields_mut().nth(at.unwrap_or(0)) };
            let (f, x) = match (f, at) {
                (Some(f), Some(i)) => (f, &mut m[i]),
                (None, None) => return,
                _ => return sx::check(false, "a field that exists can be changed"),
            };
            match op {
                4 => {
                    f.set_value(&v);
                    x.value = Some(v);
                }
                5 => {
                    f.clear();
                    x.value = None;
                }
                6 => {
                    let p = sx::flip();
                    f.set_protected(p);
                    x.protected = p;
                }
                _ => {
                    let n = names[if names.len() > 1 { sx::choose(names.len()) } else { 0 }];
                    f.set_key(n);
                    x.name = n.into();
                }
            }
        }
    }
}
const STANDARD: [&str; 5] = ["Title", "UserName", "URL", "Password", "otp"];
/// sequences of operations (params: standard name, operations, first operation, second operation)
pub fn c17_sequence() {
    let which = sx::param(0);
    let names = [STANDARD[which], "k"];
    let mut e = Entry::default();
    let mut m = Vec::new();
    for k in 0..sx::param(1) {
        let op = match k {
            0 => sx::param(2),
            1 => sx::param(3),
            _ => sx::choose(8),
        };
        step(op, &mut e, &mut m, &names, which);
        agrees(&e, &m);
    }
    sx::observe(0, &[m.len() as u8]);
}
/// from an entry that has everything, also twice (params: standard name, operations)
pub fn c17_full() {
    let which = sx::param(0);
    let names = [STANDARD[which], "k"];
    let mut e = Entry::default();
    let mut m = Vec::new();
    for n in ["x", names[0], "k", names[0], "x", "k"] {
        let v = sx::ascii(1, "value");
        let p = (n != "x") & (m.len() % 2 == 1);
        e.add_field(if p { Field::new_protected(n, &v) } else { Field::new(n, &v) });
        m.push(Model { name: n.into(), value: Some(v), protected: p });
    }
    agrees(&e, &m);
    for _ in 0..sx::param(1) {
        step(sx::choose(8), &mut e, &mut m, &names, which);
        agrees(&e, &m);
    }
    sx::observe(0, &[m.len() as u8]);
}
/// arbitrary names (params: fields, name length, asked name length)
pub fn c17_names() {
    let n = sx::param(0);
    let mut e = Entry::default();
    let mut m = Vec::new();
    for i in 0..n {
        let name = sx::ascii(sx::param(1), "name");
        let v = sx::ascii(1, "value");
        e.add_field(if i % 2 == 0 { Field::new(&name, &v) } else { Field::new_protected(&name, &v) });
        m.push(Model { name, value: Some(v), protected: i % 2 == 1 });
    }
    let asked = sx::ascii(sx::param(2), "asked");
    let f = e.find(&asked);
    match (f, first(&m, &asked)) {
        (None, None) => sx::cover(0),
        (Some(f), Some(x)) => {
            sx::cover(1);
            sx::check(same_text(f.value(), x.value.as_deref()), "find gives the first field of the name");
        }
        _ => sx::check(false, "find gives a field exactly if there is one"),
    }
    e.remove_field(&asked);
    m.retain(|f| f.name != asked);
    sx::check(e.fields().count() == m.len(), "every field of the name is removed and no other");
    for (f, x) in e.fields().zip(&m) {
        sx::check(sx::same(f.key().as_bytes(), x.name.as_bytes()) & same_text(f.value(), x.value.as_deref()) & (f.protected() == x.protected), "the others keep order and content");
    }
    sx::observe(0, &[m.len() as u8]);
}
/// values of any length and any character (params: length)
pub fn c17_value() {
    let t = sx::ascii(sx::param(0), "text");
    let u = format!("\u{e4}{}\u{1f600}", t);
    let mut f = Field::new("n", "");
    for v in [&t, &u] {
        f.set_value(v);
        sx::check(same_text(f.value(), Some(v)) & !f.protected(), "value as set");
        f.set_protected(true);
        sx::check(same_text(f.value(), Some(v)) & f.protected(), "protected");
        f.clear();
        sx::check(f.value().is_none() & f.protected(), "cleared");
        f.set_value(v);
        sx::check(same_text(f.value(), Some(v)) & f.protected(), "set again");
        f.set_protected(false);
        sx::check(same_text(f.value(), Some(v)) & !f.protected(), "not protected");
        f.set_key(v);
        sx::check(sx::same(f.key().as_bytes(), v.as_bytes()), "renamed");
        let g = f.clone();
        sx::check(g == f, "a copy is equal");
    }
    sx::observe(0, &[1]);
}
