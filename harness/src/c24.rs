//! C24: where the secrets and identifiers of new databases come from.
use crate::sx;
use kdbx_rs::binary::{KdbxHeader, KdbxInnerHeader, KdfParams};
use kdbx_rs::database::{Entry, Group};
use kdbx_rs::{Database, Kdbx};

extern "C" {
    fn symx_random_source(p: *const u8, n: usize);
    fn symx_random_left() -> usize;
}
/// Bits of a version 4 identifier that are random.
const UUID: [u8; 16] = [255, 255, 255, 255, 255, 255, 0x0f, 255, 0x3f, 255, 255, 255, 255, 255, 255, 255];

#[derive(Default)]
struct Seen {
    bytes: Vec<u8>,
    mask: Vec<u8>,
}
impl Seen {
    fn secret(&mut self, b: &[u8], len: usize, name: &str) {
        sx::check(b.len() >= len, name);
        self.bytes.extend_from_slice(b);
        self.mask.resize(self.bytes.len(), 255);
    }
    fn id(&mut self, u: uuid::Uuid) {
        self.bytes.extend_from_slice(u.as_bytes());
        self.mask.extend_from_slice(&UUID);
    }
    fn header(&mut self, h: &KdbxHeader) {
        self.secret(&h.master_seed, 32, "the seed is complete");
        self.secret(&h.encryption_iv, if h.cipher == kdbx_rs::binary::Cipher::ChaCha20 { 12 } else { 16 }, "the IV is complete");
        match &h.kdf_params {
            KdfParams::Argon2 { salt, .. } | KdfParams::Aes { salt, .. } => self.secret(salt, 32, "the salt is complete"),
            _ => sx::check(false, "a known key derivation"),
        }
    }
    fn inner(&mut self, h: &KdbxInnerHeader) {
        self.secret(&h.inner_stream_key, 32, "the inner key is complete");
    }
}
/// Create things of a kind with these outcomes of the random source.
fn create(kind: usize, random: &[u8]) -> Seen {
    unsafe { symx_random_source(random.as_ptr(), random.len()) };
    let mut s = Seen::default();
    match kind {
        0 => {
            let k = Kdbx::from_database(Database::default());
            s.header(k.header());
            s.inner(k.inner_header());
            s.id(k.database().root().uuid());
        }
        1 => {
            for _ in 0..2 {
                s.header(&KdbxHeader::from_os_random());
                s.inner(&KdbxInnerHeader::from_os_random());
            }
        }
        2 => {
            for _ in 0..3 {
                s.id(Entry::default().uuid());
                s.id(Group::new("g").uuid());
                s.id(Group::default().uuid());
                s.id(Database::default().root().uuid());
            }
        }
        3 => {
            // two databases with content
            for i in 0..2 {
                let mut db = Database::default();
                db.set_name("n");
                let mut e = Entry::default();
                e.set_password("p");
                s.id(e.uuid());
                db.add_entry(e);
                let g = Group::new("g");
                s.id(g.uuid());
                db.root_mut().add_group(g);
                s.id(db.root().uuid());
                let mut k = Kdbx::from_database(db);
                if i == 0 {
                    let _ = k.set_key(kdbx_rs::CompositeKey::from_password("p"));
                }
                s.header(k.header());
                s.inner(k.inner_header());
            }
        }
        _ => {
            // a copy of a database gets secrets of its own
            let db = crate::kx::tiny_db();
            for _ in 0..2 {
                let k = Kdbx::from_database(db.clone());
                s.header(k.header());
                s.inner(k.inner_header());
            }
        }
    }
    unsafe {
        sx::check(symx_random_left() > 0, "the supply of random bytes was enough");
        symx_random_source(core::ptr::null(), 0);
    }
    s
}
/// every bit comes from the random source (params: kind, supply)
pub fn c24_every() {
    let r = sx::bytes(sx::param(1), "random");
    let f: Vec<u8> = r.iter().map(|b| !*b).collect();
    let (a, b) = (create(sx::param(0), &r), create(sx::param(0), &f));
    sx::check(a.bytes.len() == b.bytes.len(), "the same amount");
    for i in 0..a.bytes.len().min(b.bytes.len()) {
        let m = a.mask[i];
        sx::check((a.bytes[i] ^ b.bytes[i]) & m == m, "every bit changes with the random source");
    }
    sx::cover(0);
    sx::observe(0, &a.bytes);
}
/// no two bytes come from the same one (params: kind, supply)
pub fn c24_one() {
    let r = sx::bytes(sx::param(1), "random");
    let at = sx::below(sx::param(1) as u32, "position") as usize;
    let v = sx::u8_("other");
    let f: Vec<u8> = r.iter().enumerate().map(|(i, b)| *b ^ (((i == at) as u8).wrapping_neg() & v)).collect();
    let (a, b) = (create(sx::param(0), &r), create(sx::param(0), &f));
    let (mut one, mut two) = (false, false);
    for i in 0..a.bytes.len().min(b.bytes.len()) {
        let d = a.bytes[i] != b.bytes[i];
        two |= one & d;
        one |= d;
    }
    sx::check(!two, "one random byte affects one stored byte");
    sx::cover(0);
    sx::observe(0, &a.bytes);
}
