//! What a call does besides returning: everything it changes in the process,
//! on the disk or in the world is recorded, and happens in the simulation
//! only.  Files other than those of a load live on a disk of their own, so
//! that what one call leaves there is found by the next.

use crate::{alloc, raw, sched, sys};

/// Per thread, since the operation in progress began.
pub static mut SEEN: [Vec<String>; sched::MAXT] = [const { Vec::new() }; sched::MAXT];
/// Which descriptors the operation in progress may write to (bits 1 and 2).
pub static mut MAY: [u8; sched::MAXT] = [6; sched::MAXT];
/// Bytes written to descriptors 1 and 2 by each thread.
pub static mut WROTE: [[u64; 3]; sched::MAXT] = [[0; 3]; sched::MAXT];
/// Times the caller's panic hook ran, panics thrown by callers, and panics of
/// the library.
pub static mut HOOKS: [u64; sched::MAXT] = [0; sched::MAXT];
pub static mut THROWN: [u64; sched::MAXT] = [0; sched::MAXT];
pub static mut PANICS: [u64; sched::MAXT] = [0; sched::MAXT];
/// Times the hook ran outside of the simulation.
pub static mut PROBED: u64 = 0;
/// Whether callers' panics go through the hook.
pub static mut HOOKED: bool = false;

pub struct DiskFile {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub gone: bool,
}
pub static mut DISK: Vec<DiskFile> = Vec::new();
static mut VARS: Vec<(Vec<u8>, Option<&'static [u8]>)> = Vec::new();

/// The library is what is running.
pub fn lib() -> Option<usize> {
    if alloc::IN_LIB.with(|c| c.get()) != 0 && sched::in_sim() {
        sched::me()
    } else {
        None
    }
}

pub fn note(id: usize, s: String) {
    let _p = alloc::pause();
    unsafe {
        let v = &mut (*std::ptr::addr_of_mut!(SEEN))[id];
        if v.len() < 20 && !v.contains(&s) {
            v.push(s);
        }
    }
}

fn text(b: &[u8]) -> String {
    crate::plan::esc(&b[..b.len().min(200)])
}

unsafe fn did(what: &str, p: *const u8) -> bool {
    match lib() {
        Some(id) => {
            let _p = alloc::pause();
            let s = if p.is_null() { String::new() } else { format!(" {}", text(sys::cstr(p))) };
            note(id, format!("{}{}", what, s));
            true
        }
        None => false,
    }
}

/// Opens a file that is none of a load's.
pub unsafe fn open(id: usize, path: &[u8], flags: i32) -> Result<usize, i64> {
    let write = flags & 0o3103 != 0;
    note(id, format!("{} {}", if write { "opened for writing" } else { "opened" }, text(path)));
    let d = &mut *std::ptr::addr_of_mut!(DISK);
    let i = match d.iter().position(|f| !f.gone && f.path == path) {
        Some(_) if flags & 0o300 == 0o300 => return Err(-17),
        Some(i) => i,
        None if flags & 0o100 != 0 => {
            d.push(DiskFile { path: path.to_vec(), data: vec![], gone: false });
            d.len() - 1
        }
        None => return Err(-(raw::ENOENT as i64)),
    };
    if flags & 0o1000 != 0 {
        d[i].data.clear();
    }
    Ok(i)
}

pub unsafe fn find(path: &[u8]) -> Option<&'static DiskFile> {
    (*std::ptr::addr_of!(DISK)).iter().find(|f| !f.gone && f.path == path)
}

pub unsafe fn var(name: &[u8]) -> Option<Option<&'static [u8]>> {
    (*std::ptr::addr_of!(VARS)).iter().rev().find(|v| v.0 == name).map(|v| v.1)
}

unsafe fn set_var(name: *const u8, value: Option<*const u8>) {
    let _p = alloc::pause();
    let v = value.map(|p| {
        let mut b = sys::cstr(p).to_vec();
        b.push(0);
        &*b.leak()
    });
    (*std::ptr::addr_of_mut!(VARS)).push((sys::cstr(name).to_vec(), v));
}

extern "C" {
    fn dlsym(h: *const u8, n: *const u8) -> *const u8;
}
/// The function of that name in the C library.
unsafe fn real(name: &'static str) -> *const u8 {
    let p = dlsym(usize::MAX as *const u8, name.as_ptr());
    if p.is_null() {
        raw::complain("msim: a C library function is missing");
        raw::exit_now(2);
    }
    p
}
fn fail(e: i32) -> i32 {
    raw::set_errno(e);
    -1
}

/// Functions of which the library has no business calling any: recorded, and
/// answered with `$r`; passed on for everyone else.
macro_rules! world {
    ($($n:ident($($a:ident: $t:ty),*) -> $rt:ty, $what:expr, $path:expr, $r:expr;)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n($($a: $t),*) -> $rt {
            if did($what, $path) {
                return $r;
            }
            let f: unsafe extern "C" fn($($t),*) -> $rt = std::mem::transmute(real(concat!(stringify!($n), "\0")));
            f($($a),*)
        }
    )*};
}
type P = *const u8;
const NO: P = std::ptr::null();
world! {
    mkdir(p: P, m: u32) -> i32, "made directory", p, 0;
    rmdir(p: P) -> i32, "removed directory", p, 0;
    symlink(a: P, b: P) -> i32, "made link", b, fail(1);
    link(a: P, b: P) -> i32, "made link", b, fail(1);
    linkat(a: i32, b: P, c: i32, d: P, e: i32) -> i32, "made link", d, fail(1);
    chmod(p: P, m: u32) -> i32, "changed the mode of", p, 0;
    fchmod(f: i32, m: u32) -> i32, "changed the mode of a file", NO, 0;
    truncate(p: P, n: i64) -> i32, "cut off", p, 0;
    truncate64(p: P, n: i64) -> i32, "cut off", p, 0;
    futimens(f: i32, t: P) -> i32, "changed the times of a file", NO, 0;
    utimensat(d: i32, p: P, t: P, f: i32) -> i32, "changed the times of", p, 0;
    opendir(p: P) -> P, "read directory", p, { fail(2); NO };
    chdir(p: P) -> i32, "changed the working directory to", p, 0;
    fchdir(f: i32) -> i32, "changed the working directory", NO, 0;
    chroot(p: P) -> i32, "changed the root directory to", p, fail(1);
    umask(m: u32) -> u32, "changed the file mode mask", NO, 0o22;
    socket(a: i32, b: i32, c: i32) -> i32, "opened a socket", NO, fail(97);
    socketpair(a: i32, b: i32, c: i32, d: *mut i32) -> i32, "opened a socket", NO, fail(97);
    pipe(a: *mut i32) -> i32, "opened a pipe", NO, fail(24);
    pipe2(a: *mut i32, b: i32) -> i32, "opened a pipe", NO, fail(24);
    dup(a: i32) -> i32, "copied a descriptor", NO, fail(24);
    dup2(a: i32, b: i32) -> i32, "replaced a descriptor", NO, b;
    dup3(a: i32, b: i32, c: i32) -> i32, "replaced a descriptor", NO, b;
    fork() -> i32, "started a process", NO, fail(11);
    execvp(p: P, a: *const P) -> i32, "ran a program", p, fail(1);
    execve(p: P, a: *const P, e: *const P) -> i32, "ran a program", p, fail(1);
    posix_spawn(i: *mut i32, p: P, a: P, b: P, c: *const P, d: *const P) -> i32, "started a process", p, 11;
    posix_spawnp(i: *mut i32, p: P, a: P, b: P, c: *const P, d: *const P) -> i32, "started a process", p, 11;
    kill(p: i32, s: i32) -> i32, "sent a signal", NO, 0;
    raise(s: i32) -> i32, "sent a signal", NO, 0;
    sigaction(s: i32, a: P, o: *mut u8) -> i32, "changed what a signal does", NO, 0;
    signal(s: i32, h: usize) -> usize, "changed what a signal does", NO, 0;
    sigprocmask(h: i32, s: P, o: *mut u8) -> i32, "blocked signals", NO, 0;
    pthread_sigmask(h: i32, s: P, o: *mut u8) -> i32, "blocked signals", NO, 0;
    setrlimit(r: i32, l: P) -> i32, "changed a limit", NO, 0;
    setrlimit64(r: i32, l: P) -> i32, "changed a limit", NO, 0;
    nice(n: i32) -> i32, "changed the priority", NO, 0;
    sched_setaffinity(p: i32, n: usize, m: P) -> i32, "chose processors", NO, 0;
    setlocale(c: i32, l: P) -> P, "changed the locale", l, NO;
    putenv(s: P) -> i32, "changed environment variable", s, 0;
    clearenv() -> i32, "changed the environment", NO, 0;
    tzset() -> (), "changed the time zone", NO, ();
}

#[no_mangle]
pub unsafe extern "C" fn setenv(n: P, v: P, over: i32) -> i32 {
    if did("changed environment variable", n) {
        set_var(n, Some(v));
        return 0;
    }
    let f: unsafe extern "C" fn(P, P, i32) -> i32 = std::mem::transmute(real("setenv\0"));
    f(n, v, over)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(n: P) -> i32 {
    if did("removed environment variable", n) {
        set_var(n, None);
        return 0;
    }
    let f: unsafe extern "C" fn(P) -> i32 = std::mem::transmute(real("unsetenv\0"));
    f(n)
}
unsafe fn remove(p: P) -> i32 {
    let _p = alloc::pause();
    let path = sys::cstr(p);
    for f in &mut *std::ptr::addr_of_mut!(DISK) {
        if !f.gone && f.path == path {
            f.gone = true;
            return 0;
        }
    }
    fail(2)
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: P) -> i32 {
    if did("removed", p) {
        return remove(p);
    }
    let f: unsafe extern "C" fn(P) -> i32 = std::mem::transmute(real("unlink\0"));
    f(p)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: i32, p: P, g: i32) -> i32 {
    if did("removed", p) {
        return remove(p);
    }
    let f: unsafe extern "C" fn(i32, P, i32) -> i32 = std::mem::transmute(real("unlinkat\0"));
    f(d, p, g)
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: P, b: P) -> i32 {
    if did("renamed to", b) {
        remove(b);
        let _p = alloc::pause();
        let (from, to) = (sys::cstr(a), sys::cstr(b).to_vec());
        for f in &mut *std::ptr::addr_of_mut!(DISK) {
            if !f.gone && f.path == from {
                f.path = to;
                return 0;
            }
        }
        return fail(2);
    }
    let f: unsafe extern "C" fn(P, P) -> i32 = std::mem::transmute(real("rename\0"));
    f(a, b)
}
unsafe fn cut(fd: i32, n: i64) -> i32 {
    if did("cut off a file", NO) {
        if let Some(f) = sys::sim_file(fd) {
            if let Some(d) = (*std::ptr::addr_of_mut!(DISK)).get_mut(f.disk) {
                let _p = alloc::pause();
                d.data.resize(n as usize, 0);
            }
        }
        return 0;
    }
    let r = raw::sc3(77, fd as i64, n, 0);
    if r < 0 {
        return fail(-r as i32);
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    cut(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    cut(fd, n)
}

/// Runs at every panic.
pub fn hook() {
    unsafe {
        match sched::me() {
            Some(id) if sched::in_sim() => HOOKS[id] += 1,
            _ => PROBED += 1,
        }
    }
}

/// A panic of the caller's.
pub fn throw(v: crate::exec::SimPanic) -> ! {
    unsafe {
        if HOOKED {
            if let Some(id) = sched::me() {
                THROWN[id] += 1;
                std::panic::panic_any(v);
            }
        }
    }
    std::panic::resume_unwind(Box::new(v))
}

/// Whether the hook is still the caller's.
pub fn probe() -> bool {
    struct Probe;
    unsafe {
        let n = PROBED;
        let _ = std::panic::catch_unwind(|| std::panic::panic_any(Probe));
        PROBED == n + 1
    }
}

/// Threads the library started which have not ended: with the thread of the
/// simulation whose operation started them.
static LOOSE: [std::sync::atomic::AtomicU32; sched::MAXT] = [const { std::sync::atomic::AtomicU32::new(0) }; sched::MAXT];
struct Start {
    run: extern "C" fn(*mut u8) -> *mut u8,
    arg: *mut u8,
    owner: usize,
}
extern "C" fn started(s: *mut u8) -> *mut u8 {
    unsafe {
        let s = Box::from_raw(s as *mut Start);
        let r = (s.run)(s.arg);
        LOOSE[s.owner].fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        r
    }
}
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut usize, a: P, run: extern "C" fn(*mut u8) -> *mut u8, arg: *mut u8) -> i32 {
    let f: unsafe extern "C" fn(*mut usize, P, extern "C" fn(*mut u8) -> *mut u8, *mut u8) -> i32 =
        std::mem::transmute(real("pthread_create\0"));
    match lib() {
        Some(owner) => {
            let _p = alloc::pause();
            LOOSE[owner].fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let s = Box::into_raw(Box::new(Start { run, arg, owner }));
            let r = f(t, a, started, s as *mut u8);
            if r != 0 {
                drop(Box::from_raw(s));
                LOOSE[owner].fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
            }
            r
        }
        None => f(t, a, run, arg),
    }
}
/// Threads the operation started are to have ended a moment after it.
pub unsafe fn settle(id: usize) {
    use std::sync::atomic::Ordering::SeqCst;
    let t0 = raw::real_now();
    while LOOSE[id].load(SeqCst) > 0 {
        if raw::real_now() - t0 > 2_000_000_000 {
            note(id, "started a thread that goes on".into());
            LOOSE[id].store(0, SeqCst);
            return;
        }
        std::hint::spin_loop();
    }
}
