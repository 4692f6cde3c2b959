//! Memory shared by the forked exploration processes.
use std::sync::atomic::{AtomicI32, AtomicU64, AtomicU8, Ordering::SeqCst};

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
}
const JOBS: usize = 4096;
#[repr(C)]
struct Sh {
    tokens: AtomicI32,
    stop: AtomicU64,
    kept: AtomicU64,
    left: AtomicU64,
    samples: [AtomicU64; JOBS],
}
static mut SH: *const Sh = std::ptr::null();
static mut COV: *const AtomicU8 = std::ptr::null();
static mut NCOV: usize = 0;

fn sh() -> &'static Sh {
    unsafe { &*SH }
}
pub fn init(tokens: i32, ncov: usize) {
    unsafe {
        // PROT_READ|WRITE, MAP_SHARED|ANONYMOUS
        let p = mmap(std::ptr::null_mut(), std::mem::size_of::<Sh>(), 3, 0x21, -1, 0);
        assert!(p as isize != -1);
        SH = p as *const Sh;
        let c = mmap(std::ptr::null_mut(), ncov.max(1), 3, 0x21, -1, 0);
        assert!(c as isize != -1);
        COV = c as *const AtomicU8;
        NCOV = ncov;
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
    }
    sh().tokens.store(tokens, SeqCst);
}
pub fn take_token() -> bool {
    let t = &sh().tokens;
    if t.load(SeqCst) <= 0 {
        return false;
    }
    if t.fetch_sub(1, SeqCst) <= 0 {
        t.fetch_add(1, SeqCst);
        return false;
    }
    true
}
pub fn give_token() {
    sh().tokens.fetch_add(1, SeqCst);
}
pub fn tokens() -> i32 {
    sh().tokens.load(SeqCst)
}
pub fn stop() {
    sh().stop.store(1, SeqCst);
}
pub fn stopped() -> bool {
    sh().stop.load(SeqCst) != 0
}
pub fn sample(job: u32) -> (u64, u64) {
    let n = sh().samples[job as usize % JOBS].fetch_add(1, SeqCst) + 1;
    (n, sh().kept.load(SeqCst))
}
pub fn sample_kept() {
    sh().kept.fetch_add(1, SeqCst);
}
pub fn cover(c: &[bool]) {
    for (i, v) in c.iter().enumerate().take(unsafe { NCOV }) {
        if *v {
            unsafe { (*COV.add(i)).store(1, SeqCst) }
        }
    }
}
pub fn covered(i: usize) -> bool {
    unsafe { i < NCOV && (*COV.add(i)).load(SeqCst) != 0 }
}
pub fn do_fork() -> i32 {
    unsafe { fork() }
}
pub fn exit(c: i32) -> ! {
    unsafe { _exit(c) }
}
pub fn pid() -> i32 {
    unsafe { getpid() }
}
/// Wait for every descendant; number that ended abnormally.
pub fn wait_all() -> u32 {
    let mut bad = 0;
    loop {
        let mut s = 0;
        let r = unsafe { waitpid(-1, &mut s, 0) };
        if r <= 0 {
            return bad;
        }
        if s != 0 {
            bad += 1;
        }
    }
}
