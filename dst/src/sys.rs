//! Raw system calls and the few libc entry points the simulator itself needs.
//! Everything here bypasses the interposed symbols of `shim.rs`.
use std::arch::asm;

#[inline]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!("syscall", inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(libc::SYS_futex, addr as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: i32) {
    sc6(libc::SYS_futex, addr as i64, 129, n as i64, 0, 0, 0);
}
pub unsafe fn exit_group(code: i32) -> ! {
    sc6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    loop {}
}
pub unsafe fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = sc6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0);
        if n == -(libc::EINTR as i64) { continue; }
        if n <= 0 { return; }
        b = &b[n as usize..];
    }
}
/// Turns a raw kernel return value into the libc convention.
pub unsafe fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) { set_errno((-r) as i32); -1 } else { r }
}
pub unsafe fn set_errno(e: i32) { *libc::__errno_location() = e; }

type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, *mut libc::c_void) -> i32;
type PtJoin = unsafe extern "C" fn(libc::pthread_t, *mut *mut libc::c_void) -> i32;
static mut REAL_CREATE: Option<PtCreate> = None;
static mut REAL_JOIN: Option<PtJoin> = None;
pub unsafe fn init() {
    REAL_CREATE = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
    REAL_JOIN = Some(std::mem::transmute(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
}
pub unsafe fn real_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, p: *mut libc::c_void) -> i32 {
    if REAL_CREATE.is_none() { init(); }
    (REAL_CREATE.unwrap())(t, a, f, p)
}
pub unsafe fn real_join(t: libc::pthread_t, r: *mut *mut libc::c_void) -> i32 {
    if REAL_JOIN.is_none() { init(); }
    (REAL_JOIN.unwrap())(t, r)
}
