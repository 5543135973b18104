//! The simulated operating system: libc entry points that std (and so the
//! library) uses, interposed for simulated threads.  Descriptors 1 and 2 are
//! captured with faults, files live under /simfs/, the clock is simulated and
//! randomness is seeded.  Everything else passes through.

use crate::plan::{Fault, FK};
use crate::{alloc, effects, raw, sched};

/// One captured output stream (descriptor 1 or 2, or a caller's writer).
pub struct Stream {
    pub got: Vec<u8>,
    pub chunks: Vec<(u8, u32)>,
    pub faults: Vec<Fault>,
    pub next: usize,
    pub repeat: u32,
    pub max: usize,
    pub calls: u64,
    pub fired: Vec<FK>,
}

/// What a write of `len` bytes at the current position does.
pub enum Act {
    /// The writer makes a call of its own first.
    Nest(i64),
    Take(usize),
    Intr,
    Zero,
    Err(i64),
    Panic,
}

impl Stream {
    pub const fn new() -> Stream {
        Stream {
            got: Vec::new(),
            chunks: Vec::new(),
            faults: Vec::new(),
            next: 0,
            repeat: 0,
            max: 0,
            calls: 0,
            fired: Vec::new(),
        }
    }
    pub fn with(faults: &[Fault], max: u32) -> Stream {
        let mut s = Stream::new();
        s.faults = faults.to_vec();
        s.faults.sort_by_key(|f| f.at);
        s.max = max as usize;
        s
    }
    pub fn act(&mut self, len: usize) -> Act {
        self.calls += 1;
        let pos = self.got.len() as u64;
        while self.next < self.faults.len() {
            let f = self.faults[self.next];
            if f.at > pos {
                break;
            }
            if f.at < pos {
                self.next += 1;
                continue;
            }
            match f.k {
                FK::Cut => {
                    self.next += 1;
                }
                FK::Intr => {
                    self.repeat += 1;
                    if self.repeat >= f.val.max(1) as u32 {
                        self.next += 1;
                        self.repeat = 0;
                    }
                    self.fired.push(FK::Intr);
                    return Act::Intr;
                }
                FK::Nest => {
                    self.next += 1;
                    self.fired.push(FK::Nest);
                    return Act::Nest(f.val);
                }
                FK::Zero | FK::Err | FK::Panic => {
                    if !f.sticky {
                        self.next += 1;
                    }
                    self.fired.push(f.k);
                    return match f.k {
                        FK::Zero => Act::Zero,
                        FK::Err => Act::Err(f.val),
                        _ => Act::Panic,
                    };
                }
                _ => {
                    self.next += 1;
                }
            }
        }
        let mut n = len;
        if self.next < self.faults.len() {
            let room = (self.faults[self.next].at - pos) as usize;
            if room < n {
                n = room;
                self.fired.push(FK::Cut);
            }
        }
        if self.max > 0 && n > self.max {
            n = self.max;
            self.fired.push(FK::Cut);
        }
        Act::Take(n)
    }
}

pub static mut STREAMS: [Stream; 2] = [Stream::new(), Stream::new()];
pub static mut CAPTURE: bool = false;
/// Refused writes (errors and zero-length writes) seen by each thread.
pub static mut HARD: [u64; sched::MAXT] = [0; sched::MAXT];

#[derive(Clone)]
pub struct OpenFile {
    pub which: u8,
    pub owner: usize,
    pub pos: usize,
    pub open: bool,
    pub delivered: Vec<u8>,
    pub next: usize,
    pub repeat: u32,
    pub text: usize,
    pub eof: bool,
    /// Made or cut off by opening it.
    pub empty: bool,
    /// Which file on the other disk this is, if it is none of a load's.
    pub disk: usize,
}

pub static mut FILES: Vec<OpenFile> = Vec::new();
/// File contents by number (the plan's texts).
pub static mut TEXTS: Vec<Vec<u8>> = Vec::new();
/// Faults of the load in progress, per thread: (which file, fault).
pub static mut LOAD: [Vec<(u8, Fault)>; sched::MAXT] = [const { Vec::new() }; sched::MAXT];
/// What the two files of each thread's load hold (the plan's texts).
pub static mut CURRENT: [[usize; 2]; sched::MAXT] = [[usize::MAX; 2]; sched::MAXT];
pub static mut OPENS: [u32; sched::MAXT] = [0; sched::MAXT];
/// Whether a load is in progress, per thread.
pub static mut LOADING: [bool; sched::MAXT] = [false; sched::MAXT];
pub static mut REAL_OPEN: i64 = 0;
/// Loads in progress.
pub static mut LOADS: u32 = 0;
/// Faults that fired in the operation in progress, per thread.
pub static mut SYS_FIRED: [Vec<FK>; sched::MAXT] = [const { Vec::new() }; sched::MAXT];
pub static mut RAND: u64 = 0;

/// Open descriptors: which file each stands for.
static mut FDS: Vec<usize> = Vec::new();
/// The first descriptor the simulator gives out.
static mut FD0: i32 = 1 << 20;

pub unsafe fn forget_fds() {
    *std::ptr::addr_of_mut!(FDS) = Vec::new();
}

/// What a program can see of the machine and the moment it runs at.
pub struct Env {
    seed: u64,
    real: i128,
    tty: u8,
    cpus: usize,
    pid: i32,
    block: u32,
    mode: u32,
    mtime: i64,
}
/// Where texts start, past a multiple of 16.
pub static mut TEXT_SKEW: usize = 0;
static mut ENV0: u64 = 0;
static mut ENV: Env = Env {
    seed: 0,
    real: 1_700_000_000_000_000_000,
    tty: 0,
    cpus: 2,
    pid: 4242,
    block: 4096,
    mode: 0o100644,
    mtime: 0,
};

extern "C" {
    static mut environ: *const *const u8;
}

const NAMES: [&str; 16] = [
    "HOME", "USER", "LANG", "LC_ALL", "LC_CTYPE", "LC_NUMERIC", "TERM", "COLORTERM", "NO_COLOR",
    "CLICOLOR_FORCE", "COLUMNS", "TZ", "PATH", "TMPDIR", "DEBUG", "CI",
];
const VALUES: [&str; 16] = [
    "0\0", "1\0", "\0", "C\0", "de_DE.UTF-8\0", "tr_TR\0", "C.UTF-8\0", "dumb\0", "xterm-256color\0", "40\0",
    "true\0", "Asia/Kathmandu\0", "/x:/y\0", "/tmp\0", "off\0", "full\0",
];

fn value(seed: u64, name: &[u8]) -> Option<&'static str> {
    if name.starts_with(b"RUST") || name.starts_with(b"MSIM") || name.starts_with(b"LD_") || name.starts_with(b"GLIBC") {
        return None;
    }
    let h = crate::rng::mix(crate::rng::fnv(0, name), seed);
    if h & 1 == 0 {
        None
    } else {
        Some(VALUES[(h >> 1) as usize % VALUES.len()])
    }
}

/// Decides everything a process can see of its surroundings besides its
/// arguments, its files and its streams.
pub unsafe fn set_env(env: u64, seed: u64) {
    RAND = seed;
    ENV0 = env;
    environ = {
        // (the harness itself needs none)
        let v: Vec<*const u8> = NAMES
            .iter()
            .filter_map(|n| value(env, n.as_bytes()).filter(|_| env != 0).map(|x| format!("{}={}", n, x)))
            .map(|s| s.leak().as_ptr())
            .chain(std::iter::once(std::ptr::null()))
            .collect();
        v.leak().as_ptr()
    };
    if env == 0 {
        return;
    }
    let mut r = crate::rng::Rng::new(crate::rng::mix(env, 77));
    RAND = crate::rng::mix(seed, env);
    let day = 86_400_000_000_000i128;
    let e = Env {
        seed: env,
        real: *r.pick(&[0, 1, -day * 400, 951_782_399 * 1_000_000_000, 1_700_000_000_123_456_789, 2_147_483_646 * 1_000_000_000, 4_294_967_295 * 1_000_000_000, day * 60_000]),
        tty: r.below(8) as u8,
        cpus: [1, 2, 3, 64, 200][r.below(5)],
        pid: r.range(1, 4_000_000) as i32,
        block: [512, 4096, 65536, 1 << 20, 0, 1][r.below(6)],
        mode: [0o100644, 0o100400, 0o100777][r.below(3)],
        mtime: [0, -1, 1_700_000_000, 1 << 40][r.below(4)],
    };
    *std::ptr::addr_of_mut!(ENV) = e;
    FD0 = [1 << 20, 3, 10, 1023, 65_536][r.below(5)];
    sched::TICK = [1, 10, 1000, 100_000, 50_000_000][r.below(5)];
    sched::MONO = [1, 1_000_000_000, 90 * 86_400_000_000_000, 1 << 62][r.below(4)];
    sched::SKEW = r.below(2000) * 4096;
    TEXT_SKEW = r.below(16);
    alloc::SKEW = r.below(1 << 16) * 16;
    alloc::FRESH = [0xcd, 0, 0xff, 1, 0x20, 0x7f][r.below(6)];
    alloc::FREED = [0xdd, 0, 0xff, 1, 0x22][r.below(5)];
    alloc::REUSE = r.below(3) as u8;
    alloc::IN_PLACE = r.chance(1, 2);
}

fn ret(r: i64) -> i64 {
    if r < 0 {
        raw::set_errno(-r as i32);
        -1
    } else {
        r
    }
}

pub unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

/// /simfs/a12 -> (0, 12); /simfs/b3 -> (1, 3).  The letter says which of the
/// files of the load in progress this is; the number is only a name.
fn sim_path(p: &[u8]) -> Option<(u8, usize)> {
    let r = p.strip_prefix(b"/simfs/")?;
    let w = match r.first()? {
        b'a' => 0,
        b'b' => 1,
        _ => return None,
    };
    let mut n = 0usize;
    for &c in &r[1..] {
        if !c.is_ascii_digit() || n > 1 << 30 {
            return None;
        }
        n = n * 10 + (c - b'0') as usize;
    }
    Some((w, n))
}

unsafe fn take_fault(id: usize, which: u8, k: FK) -> Option<Fault> {
    let _p = alloc::pause();
    let l = &mut LOAD[id];
    let i = l.iter().position(|(w, f)| *w == which && f.k == k)?;
    let f = l[i].1;
    if !f.sticky {
        if f.val2 > 1 {
            l[i].1.val2 -= 1;
        } else {
            l.remove(i);
        }
    }
    SYS_FIRED[id].push(k);
    Some(f)
}

unsafe fn sim_open(path: &[u8], flags: i32) -> Option<i64> {
    if !sched::in_sim() {
        return None;
    }
    let id = sched::me().unwrap();
    sched::env_point();
    let _p = alloc::pause();
    let (which, text) = match sim_path(path) {
        Some((w, _)) if effects::find(path).is_none() => (w, CURRENT[id][w as usize]),
        _ => {
            drop(_p);
            effects::lib()?;
            let _p = alloc::pause();
            return Some(match effects::open(id, path, flags) {
                Ok(disk) => new_fd(OpenFile {
                    which: 2,
                    owner: id,
                    pos: if flags & 0o2000 != 0 { usize::MAX } else { 0 },
                    open: true,
                    delivered: Vec::new(),
                    next: 0,
                    repeat: 0,
                    text: usize::MAX,
                    eof: false,
                    empty: false,
                    disk,
                }),
                Err(e) => e,
            });
        }
    };
    if flags & 0o3103 != 0 {
        effects::note(id, "opened a file of a load for writing".into());
    } else if !LOADING[id] {
        effects::note(id, "opened a file without a load".into());
    }
    OPENS[id] += 1;
    if take_fault(id, which, FK::OpenIntr).is_some() {
        return Some(-(raw::EINTR as i64));
    }
    const O_CREAT: i32 = 0o100;
    const O_TRUNC: i32 = 0o1000;
    // a file opened this way is empty, whatever it was before
    let mut empty = flags & O_TRUNC != 0;
    if let Some(f) = take_fault(id, which, FK::OpenErr) {
        if f.val != raw::ENOENT as i64 || flags & O_CREAT == 0 {
            return Some(-f.val);
        }
        empty = true;
    }
    if text >= TEXTS.len() {
        return Some(-(raw::ENOENT as i64));
    }
    Some(new_fd(OpenFile {
        which,
        owner: id,
        pos: 0,
        open: true,
        delivered: Vec::new(),
        next: 0,
        repeat: 0,
        text,
        eof: empty,
        empty,
        disk: usize::MAX,
    }))
}

unsafe fn new_fd(f: OpenFile) -> i64 {
    let files = &mut *std::ptr::addr_of_mut!(FILES);
    files.push(f);
    // the lowest descriptor that is free
    let fds = &mut *std::ptr::addr_of_mut!(FDS);
    let n = files.len() - 1;
    let k = fds.iter().position(|&i| files.get(i).map_or(true, |f| !f.open)).unwrap_or(fds.len());
    if k == fds.len() {
        fds.push(n);
    } else {
        fds[k] = n;
    }
    FD0 as i64 + k as i64
}

pub unsafe fn sim_file(fd: i32) -> Option<&'static mut OpenFile> {
    if fd < FD0 || !sched::in_sim() {
        return None;
    }
    let i = (fd - FD0) as usize;
    // before the reference is taken: another thread may open a file here
    sched::env_point();
    let files = &mut *std::ptr::addr_of_mut!(FILES);
    let fds = &*std::ptr::addr_of!(FDS);
    files.get_mut(*fds.get(i)?)
}

unsafe fn sim_read(f: &mut OpenFile, buf: *mut u8, len: usize) -> i64 {
    let _p = alloc::pause();
    if !f.open {
        return -(raw::EBADF as i64);
    }
    if len == 0 || f.empty {
        return 0;
    }
    if let Some(d) = (*std::ptr::addr_of!(effects::DISK)).get(f.disk) {
        let n = len.min(d.data.len().saturating_sub(f.pos));
        std::ptr::copy_nonoverlapping(d.data.as_ptr().add(f.pos.min(d.data.len())), buf, n);
        f.pos += n;
        return n as i64;
    }
    let id = f.owner;
    let l: Vec<Fault> = LOAD[id]
        .iter()
        .filter(|(w, x)| {
            *w == f.which
                && matches!(x.k, FK::ReadCut | FK::ReadIntr | FK::ReadErr | FK::Swap | FK::Eof)
        })
        .map(|x| x.1)
        .collect();
    let pos = f.pos as u64;
    while f.next < l.len() {
        let x = l[f.next];
        if x.at > pos {
            break;
        }
        match x.k {
            FK::ReadIntr => {
                f.repeat += 1;
                if f.repeat >= x.val.max(1) as u32 {
                    f.next += 1;
                    f.repeat = 0;
                }
                SYS_FIRED[id].push(FK::ReadIntr);
                return -(raw::EINTR as i64);
            }
            FK::ReadErr => {
                if !x.sticky {
                    f.next += 1;
                }
                SYS_FIRED[id].push(FK::ReadErr);
                return -x.val;
            }
            FK::Swap => {
                // another process overwrote the file in place
                f.next += 1;
                if (x.val as usize) < TEXTS.len() {
                    f.text = x.val as usize;
                    SYS_FIRED[id].push(FK::Swap);
                }
            }
            FK::Eof => {
                SYS_FIRED[id].push(FK::Eof);
                f.eof = true;
                return 0;
            }
            _ => {
                f.next += 1;
            }
        }
    }
    let t = &TEXTS[f.text];
    if f.pos >= t.len() {
        f.eof = true;
        return 0;
    }
    let mut n = len.min(t.len() - f.pos);
    if f.next < l.len() {
        let room = (l[f.next].at - pos) as usize;
        if room < n {
            n = room;
            SYS_FIRED[id].push(FK::ReadCut);
        }
    }
    std::ptr::copy_nonoverlapping(t.as_ptr().add(f.pos), buf, n);
    f.delivered.extend_from_slice(&t[f.pos..f.pos + n]);
    f.pos += n;
    n as i64
}

unsafe fn size_of(f: &OpenFile) -> Result<u64, i64> {
    if let Some(d) = (*std::ptr::addr_of!(effects::DISK)).get(f.disk) {
        return Ok(d.data.len() as u64);
    }
    if let Some(x) = take_fault(f.owner, f.which, FK::StatErr) {
        return Err(-x.val);
    }
    if let Some(x) = take_fault(f.owner, f.which, FK::StatSize) {
        return Ok(x.val as u64);
    }
    Ok(if f.empty { 0 } else { TEXTS[f.text].len() as u64 })
}

unsafe fn sim_write(fd: i32, buf: *const u8, len: usize) -> Option<i64> {
    if !sched::in_sim() {
        return None;
    }
    if !(fd == 1 || fd == 2) {
        let f = sim_file(fd)?;
        let _p = alloc::pause();
        if !f.open {
            return Some(-(raw::EBADF as i64));
        }
        let b = std::slice::from_raw_parts(buf, len);
        effects::note(f.owner, "wrote to a file".into());
        if let Some(d) = (*std::ptr::addr_of_mut!(effects::DISK)).get_mut(f.disk) {
            let at = if f.pos == usize::MAX { d.data.len() } else { f.pos };
            if d.data.len() < at + len {
                d.data.resize(at + len, 0);
            }
            d.data[at..at + len].copy_from_slice(b);
            if f.pos != usize::MAX {
                f.pos += len;
            }
        }
        return Some(len as i64);
    }
    if let Some(id) = effects::lib() {
        let _p = alloc::pause();
        effects::WROTE[id][fd as usize] += len as u64;
        if effects::MAY[id] >> fd & 1 == 0 {
            let b = std::slice::from_raw_parts(buf, len.min(60));
            effects::note(id, format!("wrote to descriptor {}: {}", fd, crate::plan::esc(b)));
            if !CAPTURE {
                return Some(len as i64);
            }
        }
    }
    if !CAPTURE {
        return None;
    }
    sched::env_point();
    let _p = alloc::pause();
    let s = &mut *std::ptr::addr_of_mut!(STREAMS[fd as usize - 1]);
    if len == 0 {
        return Some(0);
    }
    let act = loop {
        // the operating system makes no calls of its own
        match s.act(len) {
            Act::Nest(_) => {}
            a => break a,
        }
    };
    Some(match act {
        Act::Take(n) => {
            s.got.extend_from_slice(std::slice::from_raw_parts(buf, n));
            s.chunks.push((sched::me().unwrap() as u8, n as u32));
            n as i64
        }
        Act::Intr => -(raw::EINTR as i64),
        a => {
            HARD[sched::me().unwrap()] += 1;
            match a {
                Act::Zero => 0,
                Act::Err(e) => -e,
                _ => -(raw::EIO as i64),
            }
        }
    })
}

#[repr(C)]
pub struct Iovec {
    base: *mut u8,
    len: usize,
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, len: usize) -> isize {
    ret(match sim_write(fd, buf, len) {
        Some(r) => r,
        None => raw::sc3(raw::SYS_WRITE, fd as i64, buf as i64, len as i64),
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const Iovec, n: i32) -> isize {
    if sched::in_sim() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                match sim_write(fd, v.base, v.len) {
                    Some(r) => return ret(r) as isize,
                    None => break,
                }
            }
        }
        if (fd == 1 || fd == 2) && CAPTURE {
            return 0;
        }
    }
    ret(raw::sc3(raw::SYS_WRITEV, fd as i64, iov as i64, n as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, len: usize) -> isize {
    if fd == 0 {
        if let Some(id) = effects::lib() {
            effects::note(id, "read standard input".into());
            return 0;
        }
    }
    ret(match sim_file(fd) {
        Some(f) => sim_read(f, buf, len),
        None => raw::sc3(raw::SYS_READ, fd as i64, buf as i64, len as i64),
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, iov: *const Iovec, n: i32) -> isize {
    if let Some(f) = sim_file(fd) {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.len > 0 {
                return ret(sim_read(f, v.base, v.len)) as isize;
            }
        }
        return 0;
    }
    ret(raw::sc3(raw::SYS_READV, fd as i64, iov as i64, n as i64)) as isize
}
unsafe fn do_pread(fd: i32, buf: *mut u8, len: usize, off: i64) -> isize {
    ret(match sim_file(fd) {
        Some(f) => {
            let old = f.pos;
            f.pos = off as usize;
            let r = sim_read(f, buf, len);
            f.pos = old;
            r
        }
        None => raw::sc6(raw::SYS_PREAD64, fd as i64, buf as i64, len as i64, off, 0, 0),
    }) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, len: usize, off: i64) -> isize {
    do_pread(fd, buf, len, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: i32, buf: *mut u8, len: usize, off: i64) -> isize {
    do_pread(fd, buf, len, off)
}
unsafe fn do_open(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    if let Some(r) = sim_open(cstr(path), flags) {
        return ret(r) as i32;
    }
    let r = raw::sc6(raw::SYS_OPENAT, dir as i64, path as i64, flags as i64, mode as i64, 0, 0);
    if r >= 0 && sched::in_sim() {
        REAL_OPEN += 1;
    }
    ret(r) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: i32, path: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if let Some(f) = sim_file(fd) {
        if !f.open {
            return ret(-(raw::EBADF as i64)) as i32;
        }
        f.open = false;
        return 0;
    }
    let r = raw::sc3(raw::SYS_CLOSE, fd as i64, 0, 0);
    if r >= 0 && sched::in_sim() {
        REAL_OPEN -= 1;
    }
    ret(r) as i32
}

unsafe fn fill_stat(p: *mut u8, size: u64) {
    std::ptr::write_bytes(p, 0, 144);
    *(p.add(16) as *mut u64) = 1; // nlink
    *(p.add(24) as *mut u32) = ENV.mode;
    *(p.add(48) as *mut u64) = size;
    *(p.add(56) as *mut u64) = ENV.block as u64;
    *(p.add(88) as *mut i64) = ENV.mtime;
}
unsafe fn fill_statx(p: *mut u8, size: u64) {
    std::ptr::write_bytes(p, 0, 256);
    *(p as *mut u32) = 0x7ff;
    *(p.add(4) as *mut u32) = ENV.block;
    *(p.add(16) as *mut u32) = 1;
    *(p.add(28) as *mut u16) = ENV.mode as u16;
    *(p.add(40) as *mut u64) = size;
    *(p.add(112) as *mut i64) = ENV.mtime;
}
unsafe fn path_size(path: &[u8]) -> Option<i64> {
    if !sched::in_sim() {
        return None;
    }
    let id = sched::me().unwrap();
    if let Some(d) = effects::find(path) {
        return Some(d.data.len() as i64);
    }
    let (which, _) = match sim_path(path) {
        Some(x) => x,
        None => {
            effects::lib()?;
            return Some(-(raw::ENOENT as i64));
        }
    };
    let t = CURRENT[id][which as usize];
    sched::env_point();
    if let Some(x) = take_fault(id, which, FK::StatErr) {
        return Some(-x.val);
    }
    if let Some(x) = take_fault(id, which, FK::StatSize) {
        return Some(x.val);
    }
    if t >= TEXTS.len() {
        return Some(-(raw::ENOENT as i64));
    }
    Some(TEXTS[t].len() as i64)
}
unsafe fn do_stat(nr: i64, path: *const u8, st: *mut u8) -> i32 {
    if let Some(r) = path_size(cstr(path)) {
        if r >= 0 {
            fill_stat(st, r as u64);
            return 0;
        }
        return ret(r) as i32;
    }
    ret(raw::sc3(nr, path as i64, st as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const u8, st: *mut u8) -> i32 {
    do_stat(raw::SYS_STAT, path, st)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const u8, st: *mut u8) -> i32 {
    do_stat(raw::SYS_LSTAT, path, st)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, st: *mut u8) -> i32 {
    if let Some(f) = sim_file(fd) {
        return match size_of(f) {
            Ok(n) => {
                fill_stat(st, n);
                0
            }
            Err(e) => ret(e) as i32,
        };
    }
    ret(raw::sc3(raw::SYS_FSTAT, fd as i64, st as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, st: *mut u8) -> i32 {
    fstat64(fd, st)
}
unsafe fn do_statx(dir: i32, path: *const u8, flags: i32, mask: u32, st: *mut u8) -> i64 {
    if let Some(f) = sim_file(dir) {
        return match size_of(f) {
            Ok(n) => {
                fill_statx(st, n);
                0
            }
            Err(e) => e,
        };
    }
    if !path.is_null() {
        if let Some(r) = path_size(cstr(path)) {
            if r >= 0 {
                fill_statx(st, r as u64);
                return 0;
            }
            return r;
        }
    }
    raw::sc6(raw::SYS_STATX, dir as i64, path as i64, flags as i64, mask as i64, st as i64, 0)
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, st: *mut u8) -> i32 {
    ret(do_statx(dir, path, flags, mask, st)) as i32
}
unsafe fn do_lseek(fd: i32, off: i64, whence: i32) -> i64 {
    if let Some(f) = sim_file(fd) {
        if let Some(x) = take_fault(f.owner, f.which, FK::SeekErr) {
            return ret(-x.val);
        }
        let size = match (*std::ptr::addr_of!(effects::DISK)).get(f.disk) {
            Some(d) => d.data.len(),
            None => TEXTS[f.text].len(),
        };
        let n = match whence {
            0 => off,
            1 => (if f.pos == usize::MAX { size } else { f.pos }) as i64 + off,
            _ => size as i64 + off,
        };
        if n < 0 {
            return ret(-22);
        }
        if n as usize != f.pos {
            f.pos = n as usize;
            f.delivered.truncate(f.pos);
        }
        return n;
    }
    ret(raw::sc3(raw::SYS_LSEEK, fd as i64, off, whence as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    do_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 {
    do_lseek(fd, off, whence)
}
unsafe fn sim_random(buf: *mut u8, len: usize) -> i64 {
    for i in 0..len {
        RAND = RAND.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (RAND >> 33) as u8;
    }
    len as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if sched::in_sim() {
        return sim_random(buf, len) as isize;
    }
    ret(raw::sc3(raw::SYS_GETRANDOM, buf as i64, len as i64, flags as i64)) as isize
}
/// Nanoseconds on clock `id`.  The wall clock may be set at any time.
unsafe fn sim_now(id: i32) -> i128 {
    if id != 0 && id != 5 {
        return sched::MONO as i128 + sched::clock() as i128;
    }
    if ENV.seed != 0 {
        ENV.seed = crate::rng::mix(ENV.seed, 5);
        let d = [1_000_000i128, 3_600_000_000_000, 86_400_000_000_000 * 365][(ENV.seed >> 8) as usize % 3];
        match ENV.seed % 6 {
            0 => ENV.real += d,
            1 => ENV.real -= d,
            _ => {}
        }
    }
    ENV.real + sched::clock() as i128
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut raw::Timespec, zone: *mut u8) -> i32 {
    if sched::in_sim() {
        let now = sim_now(0);
        *t = raw::Timespec { sec: now.div_euclid(1_000_000_000) as i64, nsec: now.rem_euclid(1_000_000_000) as i64 / 1000 };
        return 0;
    }
    ret(raw::sc3(96, t as i64, zone as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
    if sched::in_sim() {
        let now = sim_now(0).div_euclid(1_000_000_000) as i64;
        if !t.is_null() {
            *t = now;
        }
        return now;
    }
    ret(raw::sc3(201, t as i64, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
    let n = cstr(name);
    if sched::in_sim() {
        if let Some(v) = effects::var(n) {
            return v.map_or(std::ptr::null(), |v| v.as_ptr());
        }
        if ENV0 == 0 {
            return std::ptr::null();
        }
        return value(ENV0, n).map_or(std::ptr::null(), |v| v.as_ptr());
    }
    let mut p = environ;
    while !p.is_null() && !(*p).is_null() {
        if let Some(r) = cstr(*p).strip_prefix(n) {
            if r.first() == Some(&b'=') {
                return r.as_ptr().add(1);
            }
        }
        p = p.add(1);
    }
    std::ptr::null()
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
    if sched::in_sim() {
        if (0..3).contains(&fd) && ENV.tty >> fd & 1 == 1 {
            return 1;
        }
        raw::set_errno(25);
        return 0;
    }
    let mut b = [0u8; 256];
    (ret(raw::sc3(16, fd as i64, 0x5401, b.as_mut_ptr() as i64)) == 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if sched::in_sim() {
        return ENV.pid;
    }
    raw::sc3(39, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut u8, len: usize) -> *mut u8 {
    if sched::in_sim() && !buf.is_null() {
        let d: &[u8] = [b"/\0".as_slice(), b"/home/a b/\xc3\xa9\0", b"/w\0"][ENV.pid as usize % 3];
        if d.len() > len {
            raw::set_errno(34);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(d.as_ptr(), buf, d.len());
        return buf;
    }
    if ret(raw::sc3(79, buf as i64, len as i64, 0)) < 0 {
        return std::ptr::null_mut();
    }
    buf
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: i32, n: usize, mask: *mut u8) -> i32 {
    if sched::in_sim() {
        std::ptr::write_bytes(mask, 0, n);
        for i in 0..ENV.cpus.min(n * 8) {
            *mask.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    ret(raw::sc3(204, pid as i64, n as i64, mask as i64)).min(0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, t: *mut raw::Timespec) -> i32 {
    if sched::in_sim() {
        let now = sim_now(id);
        *t = raw::Timespec { sec: now.div_euclid(1_000_000_000) as i64, nsec: now.rem_euclid(1_000_000_000) as i64 };
        return 0;
    }
    ret(raw::sc3(raw::SYS_CLOCK_GETTIME, id as i64, t as i64, 0)) as i32
}
unsafe fn do_sleep(req: *const raw::Timespec) {
    let r = *req;
    sched::sleep(r.sec as u64 * 1_000_000_000 + r.nsec as u64);
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const raw::Timespec, rem: *mut raw::Timespec) -> i32 {
    if sched::in_sim() {
        do_sleep(req);
        return 0;
    }
    ret(raw::sc3(raw::SYS_NANOSLEEP, req as i64, rem as i64, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: i32,
    flags: i32,
    req: *const raw::Timespec,
    rem: *mut raw::Timespec,
) -> i32 {
    if sched::in_sim() {
        do_sleep(req);
        return 0;
    }
    -raw::sc6(raw::SYS_CLOCK_NANOSLEEP, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::in_sim() {
        sched::yield_now();
        return 0;
    }
    ret(raw::sc3(raw::SYS_SCHED_YIELD, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::in_sim() {
        match n {
            raw::SYS_FUTEX => return ret(sched::futex(a as usize, b, c as u64, d as usize)),
            raw::SYS_GETRANDOM => return sim_random(a as *mut u8, b as usize),
            raw::SYS_STATX => {
                return ret(do_statx(a as i32, b as *const u8, c as i32, d as u32, e as *mut u8))
            }
            raw::SYS_SCHED_YIELD => {
                sched::yield_now();
                return 0;
            }
            _ => {}
        }
    }
    ret(raw::sc6(n, a, b, c, d, e, f))
}
unsafe fn do_fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    if let Some(f) = sim_file(fd) {
        if !f.open {
            return ret(-(raw::EBADF as i64)) as i32;
        }
        return 0;
    }
    ret(raw::sc3(raw::SYS_FCNTL, fd as i64, cmd as i64, arg as i64)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    do_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    do_fcntl(fd, cmd, arg)
}
