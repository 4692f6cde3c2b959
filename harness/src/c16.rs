//! C16: the tree of groups and entries.
use crate::kx::*;
use crate::sx;
use kdbx_rs::database::{Database, Entry, Group};
use uuid::Uuid;

/// What the tree should be. Nodes are told apart by a serial number kept in title or name.
#[derive(Clone)]
struct Node {
    serial: usize,
    id: Uuid,
    entries: Vec<(usize, Uuid)>,
    groups: Vec<Node>,
}
struct Made {
    next: usize,
    left: usize,
    symbolic: bool,
}
impl Made {
    fn id(&mut self) -> (usize, Uuid) {
        let n = self.next;
        self.next += 1;
        (n, if self.symbolic { Uuid::from_bytes(sx::arr("id")) } else { uuid(n as u8) })
    }
    /// Every shape of at most `left` further nodes, at most three entries and groups each.
    fn node(&mut self, depth: usize) -> Node {
        let (serial, id) = self.id();
        let mut n = Node { serial, id, entries: vec![], groups: vec![] };
        let e = self.take();
        for _ in 0..e {
            let x = self.id();
            n.entries.push(x);
        }
        if depth > 0 {
            let g = self.take();
            for _ in 0..g {
                let x = self.node(depth - 1);
                n.groups.push(x);
            }
        }
        n
    }
    fn take(&mut self) -> usize {
        let m = self.left.min(3);
        let n = if m == 0 { 0 } else { sx::choose(m + 1) };
        self.left -= n;
        n
    }
}
fn make_entry(x: &(usize, Uuid)) -> Entry {
    let mut e = Entry::default();
    e.set_uuid(x.1);
    e.set_title(x.0);
    e
}
fn make(n: &Node) -> Group {
    let mut g = Group::new(n.serial);
    g.set_uuid(n.id);
    for e in &n.entries {
        g.add_entry(make_entry(e));
    }
    for x in &n.groups {
        g.add_group(make(x));
    }
    g
}
fn num(s: &str) -> usize {
    s.bytes().fold(0, |a, b| a * 10 + (b - b'0') as usize)
}
fn of(e: &Entry) -> usize {
    e.title().map_or(999, num)
}
fn of_group(g: &Group) -> usize {
    num(g.name())
}
/// The tree is exactly the expected one.
fn is(g: &Group, n: &Node) -> bool {
    if (g.entry_count() != n.entries.len()) | (g.group_count() != n.groups.len()) | (of_group(g) != n.serial) {
        return false;
    }
    if (g.entries().count() != n.entries.len()) | (g.groups().count() != n.groups.len()) {
        return false;
    }
    let mut ok = g.uuid() == n.id;
    for (e, x) in g.entries().zip(&n.entries) {
        if (of(e) != x.0) | (e.fields().count() != 1) {
            return false;
        }
        ok &= e.uuid() == x.1;
    }
    g.groups().zip(&n.groups).all(|(a, b)| is(a, b)) && ok
}
fn all_entries(n: &Node, o: &mut Vec<usize>) {
    o.extend(n.entries.iter().map(|e| e.0));
    for g in &n.groups {
        all_entries(g, o);
    }
}
fn all_groups(n: &Node, o: &mut Vec<usize>) {
    for g in &n.groups {
        o.push(g.serial);
        all_groups(g, o);
    }
}
fn sorted(mut v: Vec<usize>) -> Vec<usize> {
    v.sort_unstable();
    v
}
fn tree(left: usize, symbolic: bool) -> Node {
    Made { next: 0, left, symbolic }.node(3)
}
fn database(n: &Node) -> Database {
    let mut db = Database::default();
    db.replace_root(make(n));
    db
}
fn once(seen: &[usize], all: &[usize]) -> bool {
    let s = sorted(seen.to_vec());
    s.windows(2).all(|w| w[0] != w[1]) && s.iter().all(|x| all.contains(x))
}
/// finding with every outcome of the predicate (params: nodes, entries or groups)
pub fn c16_find() {
    let n = tree(sx::param(0), false);
    let mut db = database(&n);
    let mut all = Vec::new();
    if sx::param(1) == 0 {
        all_entries(&n, &mut all);
    } else {
        all_groups(&n, &mut all);
    }
    let bits = sx::bytes(16, "outcome");
    let hit = |k: usize| bits[k] & 1 == 1;
    let (mut a, mut b, mut c, mut d) = (vec![], vec![], vec![], vec![]);
    let (r1, r2, r3, r4);
    if sx::param(1) == 0 {
        let mut see = |v: &mut Vec<usize>, e: &Entry| {
            v.push(of(e));
            hit(of(e))
        };
        r1 = db.find_entry(|e| see(&mut a, e)).map(of);
        r2 = db.find_entry_mut(|e| see(&mut b, e)).map(|e| of(e));
        r3 = db.root().find_entry(|e| see(&mut c, e)).map(of);
        r4 = db.root_mut().find_entry_mut(|e| see(&mut d, e)).map(|e| of(e));
    } else {
        let mut see = |v: &mut Vec<usize>, e: &Group| {
            v.push(of_group(e));
            hit(of_group(e))
        };
        r1 = db.find_group(|e| see(&mut a, e)).map(of_group);
        r2 = db.find_group_mut(|e| see(&mut b, e)).map(|e| of_group(e));
        r3 = db.root().find_group(|e| see(&mut c, e)).map(of_group);
        r4 = db.root_mut().find_group_mut(|e| see(&mut d, e)).map(|e| of_group(e));
    }
    for v in [&a, &b, &c, &d] {
        sx::check(once(v, &all), "only descendants are visited, each once");
    }
    match r1 {
        Some(k) => {
            sx::cover(0);
            sx::check(all.contains(&k), "what is found is a descendant");
            sx::check(hit(k), "what is found matches");
        }
        None => {
            sx::cover(1);
            sx::check(all.iter().all(|k| !hit(*k)), "nothing is found only if nothing matches");
            for v in [&a, &b, &c, &d] {
                sx::check(v.len() == all.len(), "all descendants are visited");
            }
        }
    }
    sx::check((r1 == r2) & (r1 == r3) & (r1 == r4), "all forms find the same");
    sx::check(is(db.root(), &n), "finding changes nothing");
    sx::observe(0, &[r1.map_or(255, |k| k as u8)]);
}
/// recursive iteration (params: nodes)
pub fn c16_walk() {
    let n = tree(sx::param(0), false);
    let mut g = make(&n);
    let (mut e, mut s) = (vec![], vec![]);
    all_entries(&n, &mut e);
    all_groups(&n, &mut s);
    let a: Vec<usize> = g.recursive_entries().map(of).collect();
    let b: Vec<usize> = g.recursive_entries_mut().map(|e| of(e)).collect();
    let c: Vec<usize> = g.recursive_groups().map(of_group).collect();
    sx::check(sorted(a.clone()) == sorted(e), "every entry once");
    sx::check(a == b, "the mutable form gives the same");
    sx::check(sorted(c) == sorted(s), "every group once");
    sx::check(is(&g, &n), "iterating changes nothing");
    let x: Vec<usize> = g.entries_mut().map(|e| of(e)).collect();
    sx::check(x == n.entries.iter().map(|e| e.0).collect::<Vec<_>>(), "direct entries");
    let x: Vec<usize> = g.groups_mut().map(|e| of_group(e)).collect();
    sx::check(x == n.groups.iter().map(|e| e.serial).collect::<Vec<_>>(), "direct groups");
    // edits through the iterators arrive
    for e in g.recursive_entries_mut() {
        let k = of(e);
        e.set_title(k + 100);
    }
    let d: Vec<usize> = g.recursive_entries().map(of).collect();
    sx::check(d.len() == a.len() && d.iter().zip(&a).all(|(x, y)| *x == y + 100), "edits through the iterator");
    sx::observe(0, &[a.len() as u8]);
}
/// removing with any identifiers, also repeated ones (params: nodes, entries or groups)
pub fn c16_remove() {
    let n = tree(sx::param(0), true);
    let mut g = make(&n);
    let target = Uuid::from_bytes(sx::arr("target"));
    let (hits, got): (Vec<usize>, Option<usize>);
    if sx::param(1) == 0 {
        hits = (0..n.entries.len()).filter(|i| n.entries[*i].1 == target).collect();
        let r = g.remove_entry(target);
        got = r.as_ref().map(|e| of(e));
        if let Some(e) = &r {
            sx::check(e.uuid() == target, "the removed entry has the identifier");
        }
    } else {
        hits = (0..n.groups.len()).filter(|i| n.groups[*i].id == target).collect();
        let r = g.remove_group(target);
        got = r.as_ref().map(of_group);
        if let Some(x) = &r {
            sx::check(x.uuid() == target, "the removed group has the identifier");
            sx::check(n.groups.iter().any(|m| m.serial == of_group(x) && is(x, m)), "the removed group is complete");
        }
    }
    sx::cover(hits.len() as u64);
    match got {
        None => {
            sx::check(hits.is_empty(), "a child with the identifier is removed");
            sx::check(is(&g, &n), "otherwise nothing changes");
        }
        Some(k) => {
            let ok = hits.iter().any(|i| {
                let mut m = n.clone();
                let serial = if sx::param(1) == 0 { m.entries.remove(*i).0 } else { m.groups.remove(*i).serial };
                serial == k && is(&g, &m)
            });
            sx::check(ok, "exactly the removed child is missing");
        }
    }
    sx::observe(0, &[got.map_or(255, |k| k as u8)]);
}
fn nth<'a>(n: &'a mut Node, serial: usize) -> Option<&'a mut Node> {
    if n.serial == serial {
        return Some(n);
    }
    n.groups.iter_mut().find_map(|g| nth(g, serial))
}
/// The `k`th group of the tree by serial number, the root included.
fn pick(n: &Node) -> usize {
    let mut v = vec![n.serial];
    all_groups(n, &mut v);
    v[if v.len() > 1 { sx::choose(v.len()) } else { 0 }]
}
/// sequences of operations (params: nodes to begin with, operations, first operation)
pub fn c16_sequence() {
    let mut made = Made { next: 0, left: sx::param(0), symbolic: false };
    let mut n = made.node(2);
    let mut db = database(&n);
    for step in 0..sx::param(1) {
        let op = if step == 0 { sx::param(2) } else { sx::choose(7) };
        let at = pick(&n);
        let root = n.serial;
        let (serial, id) = made.id();
        let m = nth(&mut n, at).unwrap();
        let g = if at == root { Some(db.root_mut()) } else { db.find_group_mut(|g| of_group(g) == at) };
        let g = match g {
            Some(g) => g,
            None => return sx::check(false, "a group in the tree is found"),
        };
        match op {
            0 => {
                m.entries.push((serial, id));
                g.add_entry(make_entry(&(serial, id)));
            }
            1 => {
                let x = Node { serial, id, entries: vec![(serial + 50, uuid(99))], groups: vec![] };
                g.add_group(make(&x));
                m.groups.push(x);
            }
            2 => {
                if !m.entries.is_empty() {
                    let i = sx::choose(m.entries.len());
                    let x = m.entries.remove(i);
                    sx::check(g.remove_entry(x.1).is_some_and(|e| of(&e) == x.0), "entry removed");
                }
            }
            3 => {
                if !m.groups.is_empty() {
                    let i = sx::choose(m.groups.len());
                    let x = m.groups.remove(i);
                    sx::check(g.remove_group(x.id).is_some_and(|g| is(&g, &x)), "group removed");
                }
            }
            4 => {
                // a new identifier and name
                m.id = uuid(200 + step as u8);
                g.set_uuid(m.id);
                sx::check(of_group(g) == m.serial, "name");
            }
            5 => {
                // move an entry to the root group
                if let Some(x) = m.entries.pop() {
                    let e = g.remove_entry(x.1);
                    sx::check(e.is_some(), "entry taken out");
                    if let Some(e) = e {
                        db.add_entry(e);
                        n.entries.push(x);
                    }
                }
            }
            _ => {
                // move a group to the end of the root group
                if !m.groups.is_empty() {
                    let x = m.groups.remove(0);
                    let e = g.remove_group(x.id);
                    sx::check(e.is_some(), "group taken out");
                    if let Some(e) = e {
                        db.add_group(e);
                        n.groups.push(x);
                    }
                }
            }
        }
        sx::check(is(db.root(), &n), "the tree is as the operations imply");
    }
    let mut e = vec![];
    all_entries(&n, &mut e);
    sx::check(db.root().recursive_entries().count() == e.len(), "number of entries");
    sx::observe(0, &[e.len() as u8]);
}
