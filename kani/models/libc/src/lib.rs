//! Environment model used only under Kani: the C library / kernel as the runtime sees it.
//!
//! Everything here is an *assumed contract* on the environment (POSIX read/write/errno,
//! pthread TLS keys for the one thread under analysis, memcmp, abort).  `read` and `write`
//! make every choice POSIX allows: any positive short count, EINTR, any other error, EOF.
#![no_std]
#![allow(non_camel_case_types, static_mut_refs, clippy::all)]
pub use core::ffi::c_void;
pub type c_int = i32;
pub type c_uint = u32;
pub type c_char = i8;
pub type c_long = i64;
pub type c_ulong = u64;
pub type size_t = usize;
pub type ssize_t = isize;
pub type pthread_key_t = u32;
pub const EINTR: c_int = 4;
pub const EIO: c_int = 5;
pub const EBADF: c_int = 9;
pub const EAGAIN: c_int = 11;
pub const EWOULDBLOCK: c_int = 11;
pub const EINVAL: c_int = 22;
pub const STDIN_FILENO: c_int = 0;
pub const STDOUT_FILENO: c_int = 1;
pub const STDERR_FILENO: c_int = 2;

pub const IN_MAX: usize = 6;
pub const OUT_MAX: usize = 8;

pub mod model {
    use super::*;
    // ---- stdin -------------------------------------------------------------
    pub static mut INPUT: [u8; IN_MAX] = [0; IN_MAX];
    pub static mut INPUT_LEN: usize = 0;
    pub static mut INPUT_POS: usize = 0;
    /// how many more spurious EINTRs read() may deliver
    pub static mut READ_EINTR_LEFT: u32 = 0;
    /// whether read() may fail with a hard error once the input is exhausted / at any time
    pub static mut READ_MAY_FAIL: bool = false;
    pub static mut READ_FAILED: bool = false;
    pub static mut READ_ERR: i32 = 0;
    pub static mut READ_CALLS: u32 = 0;
    // ---- stdout ------------------------------------------------------------
    pub static mut OUT: [u8; OUT_MAX] = [0; OUT_MAX];
    pub static mut OUT_LEN: usize = 0;
    pub static mut OUT_OTHER_FD: bool = false;
    pub static mut WRITE_EINTR_LEFT: u32 = 0;
    pub static mut WRITE_MAY_FAIL: bool = false;
    pub static mut WRITE_FAILED: bool = false;
    pub static mut WRITE_AFTER_FAIL: bool = false;
    pub static mut ERRNO: i32 = 0;
    // ---- abort -------------------------------------------------------------
    pub static mut ABORT_EXPECTED: bool = false;
    // ---- tls ---------------------------------------------------------------
    pub static mut TLS_VALUE: *const c_void = core::ptr::null();
    pub static mut TLS_KEY_CREATED: u32 = 0;

    pub fn on_abort() -> ! {
        unsafe {
            assert!(ABORT_EXPECTED, "CONTRACT: the runtime aborts only where the contract allows it");
        }
        kani::assume(false);
        loop {}
    }
}
use model::*;

pub unsafe fn __errno_location() -> *mut c_int { &raw mut ERRNO }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, count: size_t) -> ssize_t {
    assert!(fd == STDIN_FILENO, "CONTRACT: line input reads the standard input only");
    assert!(count > 0, "CONTRACT: read() is given room");
    READ_CALLS = READ_CALLS.wrapping_add(1);
    assert!(!READ_FAILED, "CONTRACT: no further read() within a call after a hard error");
    if READ_EINTR_LEFT > 0 && kani::any() {
        READ_EINTR_LEFT -= 1;
        ERRNO = EINTR;
        return -1;
    }
    if READ_MAY_FAIL && kani::any() {
        READ_FAILED = true;
        let e: i32 = kani::any();
        kani::assume(e != EINTR && e > 0 && e < 4096);
        READ_ERR = e;
        ERRNO = e;
        return -1;
    }
    let avail = INPUT_LEN - INPUT_POS;
    if avail == 0 { return 0; }
    let max = if count < avail { count } else { avail };
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= max);
    let mut i = 0;
    while i < n {
        *(buf as *mut u8).add(i) = INPUT[INPUT_POS + i];
        i += 1;
    }
    INPUT_POS += n;
    n as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, count: size_t) -> ssize_t {
    if fd != STDOUT_FILENO { OUT_OTHER_FD = true; return count as isize; }
    if WRITE_FAILED { WRITE_AFTER_FAIL = true; ERRNO = EIO; return -1; }
    if WRITE_EINTR_LEFT > 0 && kani::any() {
        WRITE_EINTR_LEFT -= 1;
        ERRNO = EINTR;
        return -1;
    }
    if WRITE_MAY_FAIL && kani::any() {
        WRITE_FAILED = true;
        let e: i32 = kani::any();
        kani::assume(e != EINTR && e > 0 && e < 4096);
        ERRNO = e;
        return -1;
    }
    if count == 0 { return 0; }
    let n: usize = kani::any();
    kani::assume(n >= 1 && n <= count);
    let mut i = 0;
    while i < n {
        assert!(OUT_LEN < OUT_MAX, "CONTRACT: nothing beyond the requested bytes is written");
        OUT[OUT_LEN] = *(buf as *const u8).add(i);
        OUT_LEN += 1;
        i += 1;
    }
    n as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn memcmp(a: *const c_void, b: *const c_void, n: size_t) -> c_int {
    let (a, b) = (a as *const u8, b as *const u8);
    let mut i = 0;
    while i < n {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y { return if x < y { -1 } else { 1 }; }
        i += 1;
    }
    0
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn abort() -> ! { on_abort() }

#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_key_create(key: *mut pthread_key_t, _d: Option<unsafe extern "C" fn(*mut c_void)>) -> c_int {
    TLS_KEY_CREATED += 1;
    *key = 7;
    0
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_getspecific(key: pthread_key_t) -> *mut c_void {
    assert!(key == 7 && TLS_KEY_CREATED == 1, "CONTRACT: thread state is reached through the one created key");
    TLS_VALUE as *mut c_void
}
#[unsafe(no_mangle)]
pub unsafe extern "C" fn pthread_setspecific(key: pthread_key_t, value: *const c_void) -> c_int {
    assert!(key == 7 && TLS_KEY_CREATED == 1, "CONTRACT: thread state is reached through the one created key");
    TLS_VALUE = value;
    0
}
