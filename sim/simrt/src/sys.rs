//! Raw system calls: the simulator's own I/O and blocking never goes through an intercepted symbol.
use core::arch::asm;

pub unsafe fn raw6(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let ret: isize;
    asm!("syscall", inlateout("rax") n as isize => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    ret
}
pub const SYS_WRITE: usize = 1;
pub const SYS_CLOCK_GETTIME: usize = 228;
pub const SYS_GETRANDOM: usize = 318;
pub const SYS_FUTEX: usize = 202;
pub const SYS_EXIT_GROUP: usize = 231;

pub fn exit_now(code: i32) -> ! {
    unsafe {
        raw6(SYS_EXIT_GROUP, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn write_all(fd: usize, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw6(SYS_WRITE, fd, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r <= 0 {
            if r == -4 {
                continue;
            }
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn futex_wait(w: &core::sync::atomic::AtomicU32, val: u32) {
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 128, val as usize, 0, 0, 0);
    }
}
pub fn futex_wake(w: &core::sync::atomic::AtomicU32) {
    unsafe {
        raw6(SYS_FUTEX, w as *const _ as usize, 129, i32::MAX as usize, 0, 0, 0);
    }
}
extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    pub fn alarm(s: u32) -> u32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn prctl(a: i32, b: usize, c: usize, d: usize, e: usize) -> i32;
    pub fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    pub fn __errno_location() -> *mut i32;
    pub fn malloc(n: usize) -> *mut u8;
    pub fn free(p: *mut u8);
}
pub fn map_shared(n: usize) -> *mut u8 {
    // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
    let p = unsafe { mmap(core::ptr::null_mut(), n, 3, 0x01 | 0x20 | 0x4000, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p
}
/// Real monotonic nanoseconds (supervisor only: wall-clock caps and rates).
pub fn real_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        raw6(SYS_CLOCK_GETTIME, 1, ts.as_mut_ptr() as usize, 0, 0, 0, 0);
    }
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}
