//! Raw system calls (bypassing the interposed libc symbols) and a few libc
//! functions the simulator needs.

use core::arch::asm;

#[inline(always)]
pub unsafe fn sc6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
#[inline(always)]
pub unsafe fn sc3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sc6(n, a, b, c, 0, 0, 0)
}

pub const SYS_READ: i64 = 0;
pub const SYS_WRITE: i64 = 1;
pub const SYS_OPEN: i64 = 2;
pub const SYS_CLOSE: i64 = 3;
pub const SYS_STAT: i64 = 4;
pub const SYS_FSTAT: i64 = 5;
pub const SYS_LSTAT: i64 = 6;
pub const SYS_LSEEK: i64 = 8;
pub const SYS_MMAP: i64 = 9;
pub const SYS_PREAD64: i64 = 17;
pub const SYS_READV: i64 = 19;
pub const SYS_WRITEV: i64 = 20;
pub const SYS_SCHED_YIELD: i64 = 24;
pub const SYS_NANOSLEEP: i64 = 35;
pub const SYS_FCNTL: i64 = 72;
pub const SYS_PERSONALITY: i64 = 135;
pub const SYS_FUTEX: i64 = 202;
pub const SYS_CLOCK_GETTIME: i64 = 228;
pub const SYS_CLOCK_NANOSLEEP: i64 = 230;
pub const SYS_EXIT_GROUP: i64 = 231;
pub const SYS_OPENAT: i64 = 257;
pub const SYS_NEWFSTATAT: i64 = 262;
pub const SYS_GETRANDOM: i64 = 318;
pub const SYS_STATX: i64 = 332;

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const ENOENT: i32 = 2;
pub const ETIMEDOUT: i32 = 110;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sc3(SYS_WRITE, fd as i64, b.as_ptr() as i64, b.len() as i64) };
        if r == -(EINTR as i64) {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}

pub fn say(s: &str) {
    write_all(1, s.as_bytes());
    write_all(1, b"\n");
}
pub fn complain(s: &str) {
    write_all(2, s.as_bytes());
    write_all(2, b"\n");
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        sc3(SYS_EXIT_GROUP, code as i64, 0, 0);
    }
    loop {}
}

pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sc6(SYS_FUTEX, addr as i64, 128, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32) {
    sc6(SYS_FUTEX, addr as i64, 129, i32::MAX as i64, 0, 0, 0);
}

/// Real monotonic time in nanoseconds (never used inside a simulated run).
pub fn real_now() -> u64 {
    let mut t = Timespec { sec: 0, nsec: 0 };
    unsafe {
        sc3(SYS_CLOCK_GETTIME, 1, &mut t as *mut _ as i64, 0);
    }
    t.sec as u64 * 1_000_000_000 + t.nsec as u64
}

/// Maps zeroed memory; `fixed` = 0 for anywhere.
pub fn map(fixed: usize, len: usize, shared: bool) -> *mut u8 {
    let mut flags: i64 = 0x20 | 0x4000; // ANONYMOUS | NORESERVE
    flags |= if shared { 1 } else { 2 };
    if fixed != 0 {
        flags |= 0x100000; // FIXED_NOREPLACE
    }
    let r = unsafe { sc6(SYS_MMAP, fixed as i64, len as i64, 3, flags, -1, 0) };
    if r < 0 && r > -4096 {
        complain(&format!("msim: mmap of {} bytes at {:x} failed: {}", len, fixed, r));
        exit_now(2);
    }
    r as usize as *mut u8
}

extern "C" {
    pub fn fork() -> i32;
    pub fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    pub fn alarm(s: u32) -> u32;
    pub fn getrlimit(what: i32, lim: *mut [u64; 2]) -> i32;
    pub fn setrlimit(what: i32, lim: *const [u64; 2]) -> i32;
    pub fn kill(pid: i32, sig: i32) -> i32;
    pub fn __errno_location() -> *mut i32;
}

pub fn set_errno(e: i32) {
    unsafe { *__errno_location() = e }
}
