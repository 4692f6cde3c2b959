//! Runs one harness function natively, with the real primitives, on recorded
//! values. usage: kdbx-replay ENTRY LOGFILE PARAMS
//! Exit status: 0 ran to the end, 100 a check failed, 101 panic, 102 allocation
//! limit, 110 the recorded values do not fit the harness, 111 an assumption
//! does not hold.
#![allow(clippy::missing_safety_doc)]
include!("../../harness/src/all.rs");

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

static MAX: AtomicUsize = AtomicUsize::new(64 << 20);
struct A;
fn too_big(n: usize) -> ! {
    MAX.store(usize::MAX, SeqCst);
    finish(102, &format!("ALLOC {}", n))
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX.load(SeqCst) {
            too_big(l.size());
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() > MAX.load(SeqCst) {
            too_big(l.size());
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > MAX.load(SeqCst) {
            too_big(n);
        }
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GA: A = A;

struct St {
    log: Vec<String>,
    pos: usize,
    params: Vec<u64>,
}
static S: Mutex<St> = Mutex::new(St { log: vec![], pos: 0, params: vec![] });
static RND: AtomicU64 = AtomicU64::new(0);
static RND_SYM: AtomicU64 = AtomicU64::new(0);
static NOW: AtomicU64 = AtomicU64::new(1_700_000_000);
static SEED: AtomicU64 = AtomicU64::new(0);

fn finish(code: i32, msg: &str) -> ! {
    let mut o = std::io::stdout();
    let _ = writeln!(o, "END {} {}", code, msg);
    let _ = o.flush();
    extern "C" {
        fn _exit(c: i32) -> !;
    }
    unsafe { _exit(code) }
}
fn next() -> Option<String> {
    let mut s = S.lock().unwrap();
    let p = s.pos;
    s.pos += 1;
    s.log.get(p).cloned()
}
fn random_byte(i: u64) -> u8 {
    let mut x = i.wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    (x ^ (x >> 31)) as u8
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn take(n: usize) -> Vec<u8> {
    match next() {
        None => finish(110, "values exhausted"),
        Some(l) => {
            let f: Vec<&str> = l.split(' ').collect();
            if f[0] != "B" {
                finish(110, "expected bytes");
            }
            let b = unhex(f.get(2).unwrap_or(&""));
            if b.len() != n {
                finish(110, "length differs");
            }
            b
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn symx_bytes(p: *mut u8, n: usize, _name: *const u8, _nl: usize) {
    let b = take(n);
    std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
}
#[no_mangle]
pub extern "C" fn symx_below(v: u64, n: u64) -> u64 {
    symx_assume((v < n) as u32);
    v
}
#[no_mangle]
pub extern "C" fn symx_choose(n: u64) -> u64 {
    match next() {
        None => finish(110, "values exhausted"),
        Some(l) => {
            let f: Vec<&str> = l.split(' ').collect();
            if f[0] != "C" || f[1] != n.to_string() {
                finish(110, "expected a choice");
            }
            f[2].parse().unwrap()
        }
    }
}
#[no_mangle]
pub extern "C" fn symx_assume(c: u32) {
    if c == 0 {
        finish(111, "assumption")
    }
}
#[no_mangle]
pub unsafe extern "C" fn symx_check(c: u32, name: *const u8, nl: usize) {
    if c == 0 {
        let n = String::from_utf8_lossy(std::slice::from_raw_parts(name, nl)).into_owned();
        finish(100, &format!("CHECK {}", n))
    }
}
#[no_mangle]
pub extern "C" fn symx_cover(_k: u64) {}
#[no_mangle]
pub unsafe extern "C" fn symx_observe(tag: u64, p: *const u8, n: usize) {
    let b = if n == 0 { &[][..] } else { std::slice::from_raw_parts(p, n) };
    let h: String = b.iter().map(|x| format!("{:02x}", x)).collect();
    println!("O {} {}", tag, h);
}
#[no_mangle]
pub extern "C" fn symx_limit(k: u64, v: u64) {
    match k {
        0 => MAX.store(v as usize, SeqCst),
        2 => RND_SYM.store(v, SeqCst),
        3 => NOW.store(v, SeqCst),
        4 => SEED.store(v, SeqCst),
        _ => {}
    }
}
#[no_mangle]
pub extern "C" fn symx_param(i: u64) -> u64 {
    S.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn symx_note(p: *const u8, n: usize) {
    println!("N {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
#[no_mangle]
pub unsafe extern "C" fn symx_random(p: *mut u8, n: usize) {
    let r = RND.fetch_add(n as u64, SeqCst);
    if RND_SYM.load(SeqCst) != 0 {
        let b = take(n);
        std::ptr::copy_nonoverlapping(b.as_ptr(), p, n);
    } else {
        for i in 0..n {
            *p.add(i) = random_byte(r + i as u64);
        }
    }
}
// The same seeds for hash maps and the same clock as in the symbolic run.
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    for i in 0..n {
        *p.add(i) = random_byte(0x5eed_0000 + SEED.load(SeqCst) * 64 + i as u64);
    }
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, ts: *mut i64) -> i32 {
    *ts = NOW.load(SeqCst) as i64;
    *ts.add(1) = 0;
    0
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let log = std::fs::read_to_string(&a[2]).expect("log file");
    {
        let mut s = S.lock().unwrap();
        s.log = log.lines().filter(|l| l.starts_with("B ") || l.starts_with("C ")).map(|l| l.to_string()).collect();
        s.params = a.get(3).map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        MAX.store(usize::MAX, SeqCst);
        finish(101, &format!("PANIC {} {}", l, i.to_string().replace('\n', " ")))
    }));
    match ENTRIES.iter().find(|e| e.0 == a[1]) {
        Some(e) => (e.1)(),
        None => finish(112, "no such entry"),
    }
    finish(0, "done")
}
