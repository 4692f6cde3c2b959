//! Stand-in for `getrandom` in symbolic execution and in native replay: the
//! bytes come from the harness environment, so both sides see the same ones.
use core::mem::MaybeUninit;
use core::num::NonZeroU32;

extern "C" {
    fn symx_random(out: *mut u8, len: usize);
}
#[derive(Copy, Clone, Eq, PartialEq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const INTERNAL_START: u32 = 1 << 31;
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl From<NonZeroU32> for Error {
    fn from(code: NonZeroU32) -> Self {
        Self(code)
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("getrandom error")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}
/// Bytes to hand out instead, up to their end.
static mut SOURCE: (*const u8, usize) = (core::ptr::null(), 0);
/// Take the next bytes from here (until changed again); the memory has to stay around.
#[no_mangle]
pub unsafe extern "C" fn symx_random_source(p: *const u8, n: usize) {
    SOURCE = (p, n);
}
/// How many of them are left.
#[no_mangle]
pub unsafe extern "C" fn symx_random_left() -> usize {
    SOURCE.1
}
unsafe fn fill(out: *mut u8, len: usize) {
    if SOURCE.1 >= len {
        core::ptr::copy_nonoverlapping(SOURCE.0, out, len);
        SOURCE = (SOURCE.0.add(len), SOURCE.1 - len);
    } else {
        symx_random(out, len);
    }
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    unsafe { fill(dest.as_mut_ptr(), dest.len()) };
    Ok(())
}
pub fn getrandom_uninit(dest: &mut [MaybeUninit<u8>]) -> Result<&mut [u8], Error> {
    unsafe {
        fill(dest.as_mut_ptr() as *mut u8, dest.len());
        Ok(core::slice::from_raw_parts_mut(dest.as_mut_ptr() as *mut u8, dest.len()))
    }
}
