//! The scheduler: real threads, exactly one of which runs at a time; who runs
//! and for how many instrumented steps is read from the plan.  Yield points
//! are the edges, loads, stores and atomic operations of the instrumented
//! crates, futex calls, and the simulated environment's own entry points.
//! What a time slice counts is the plan's `fine`: 0 edges, 1 edges, loads and
//! stores, 2 accesses to global variables (atomic or not), 3 those and all
//! atomic operations.  Futex calls and the environment always count.

use crate::raw;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

pub const MAXT: usize = 8;
const UNUSED: u8 = 0;
const RUNNABLE: u8 = 1;
const BLOCKED: u8 = 2;
const STALLED: u8 = 3;
const DONE: u8 = 4;
const PAUSED: u8 = 5;

/// How a simulated process ended.
pub const ST_NONE: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_STEPS: u32 = 2;
pub const ST_DEADLOCK: u32 = 3;
pub const ST_MEMORY: u32 = 4;
pub const ST_HARNESS: u32 = 5;

/// Shared with the parent: survives the simulated process.
#[repr(C)]
pub struct Shared {
    pub status: u32,
    pub switches: u32,
    pub preempts: u32,
    pub stalls_hit: u32,
    pub pauses_hit: u32,
    pub blocks: u32,
    pub clock: u64,
    pub steps: [u64; MAXT],
    pub total: u64,
    pub trace: u64,
    pub out_len: u64,
    pub overflow: u32,
    pub cover: [u8; 1 << 16],
    pub out: [u8; OUT_CAP],
}
pub const OUT_CAP: usize = 64 << 20;

pub static mut SHM: *mut Shared = std::ptr::null_mut();
pub static mut GUARDS: u32 = 0;

static mut ON: bool = false;
static mut FINE: u8 = 0;
static mut HOT_AT: [u64; MAXT] = [u64::MAX; MAXT];
static mut HOTS: [u64; MAXT] = [0; MAXT];
static mut SINCE: u64 = 0;
static mut STATE: [u8; MAXT] = [UNUSED; MAXT];
static mut WAIT_ADDR: [usize; MAXT] = [0; MAXT];
static mut DEADLINE: [u64; MAXT] = [u64::MAX; MAXT];
static mut TIMED_OUT: [bool; MAXT] = [false; MAXT];
static mut STALL_AT: [u64; MAXT] = [u64::MAX; MAXT];
/// A thread's next pause: at its step or hot access, for how many steps of
/// the run, and by how many nanoseconds the clock jumps then.
static mut PAUSES: [Vec<(u64, u64, u64)>; MAXT] = [const { Vec::new() }; MAXT];
static mut PAUSE_AT: [u64; MAXT] = [u64::MAX; MAXT];
static mut WAKE_AT: [u64; MAXT] = [u64::MAX; MAXT];
static mut NEXT_WAKE: u64 = u64::MAX;
static mut STEPS: [u64; MAXT] = [0; MAXT];
static mut TOTAL: u64 = 0;
static mut LIMIT: u64 = 0;
static mut CLOCK: u64 = 0;
static mut QUANT: u64 = 0;
static mut SCHED: Vec<(u32, u32)> = Vec::new();
static mut POS: usize = 0;
static mut TRACE: u64 = 0;
static mut SWITCHES: u32 = 0;
static mut PREEMPTS: u32 = 0;
static mut N: usize = 0;
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static FINISHED: AtomicU32 = AtomicU32::new(0);
pub const DEFAULT_QUANTUM: u64 = 20_000;

thread_local! {
    pub static TID: Cell<u32> = const { Cell::new(0) };
    pub static MASK: Cell<u32> = const { Cell::new(0) };
}

/// Index of the current simulated thread, if this is one.
#[inline(always)]
pub fn me() -> Option<usize> {
    let t = TID.with(|t| t.get());
    if t == 0 {
        None
    } else {
        Some(t as usize - 1)
    }
}

pub fn in_sim() -> bool {
    unsafe { ON && me().is_some() }
}

/// Runs harness code that may touch instrumented code without yielding.
pub fn masked<R>(f: impl FnOnce() -> R) -> R {
    MASK.with(|m| m.set(m.get() + 1));
    let r = f();
    MASK.with(|m| m.set(m.get() - 1));
    r
}

pub fn my_steps() -> u64 {
    match me() {
        Some(i) => unsafe { STEPS[i] },
        None => 0,
    }
}
pub fn total_steps() -> u64 {
    unsafe { TOTAL }
}
/// Nanoseconds a step takes.
pub static mut TICK: u64 = 10;
/// What the monotonic clock showed at the start of the run.
pub static mut MONO: u64 = 1_000_000_000;
/// How much of a stack is in use before the thread starts.
pub static mut SKEW: usize = 0;

pub fn clock() -> u64 {
    unsafe { CLOCK + TOTAL * TICK }
}

pub fn die(status: u32) -> ! {
    publish(status);
    raw::exit_now(0)
}

pub fn publish(status: u32) {
    unsafe {
        let s = &mut *SHM;
        s.status = status;
        s.switches = SWITCHES;
        s.preempts = PREEMPTS;
        s.clock = clock();
        s.steps = STEPS;
        s.total = TOTAL;
        s.trace = TRACE;
    }
}

#[inline(always)]
fn point(g: u32, hot: bool) {
    unsafe {
        if !ON {
            return;
        }
        let t = TID.with(|t| t.get());
        if t == 0 || MASK.with(|m| m.get()) != 0 {
            return;
        }
        step(t as usize - 1, g, hot);
    }
}

#[inline(never)]
unsafe fn step(id: usize, g: u32, hot: bool) {
    STEPS[id] += 1;
    TOTAL += 1;
    if TOTAL > LIMIT {
        die(ST_STEPS);
    }
    if hot {
        HOTS[id] += 1;
    }
    if STEPS[id] >= STALL_AT[id] || HOTS[id] >= HOT_AT[id] {
        STALL_AT[id] = u64::MAX;
        HOT_AT[id] = u64::MAX;
        STATE[id] = STALLED;
        (*SHM).stalls_hit += 1;
        switch(id, g, true);
        return;
    }
    if (if FINE >= 2 { HOTS[id] } else { STEPS[id] }) >= PAUSE_AT[id] {
        let q = &mut (*std::ptr::addr_of_mut!(PAUSES))[id];
        let (_, steps, ns) = q.pop().unwrap();
        PAUSE_AT[id] = q.last().map(|x| x.0).unwrap_or(u64::MAX);
        CLOCK += ns;
        WAKE_AT[id] = TOTAL + steps;
        if WAKE_AT[id] < NEXT_WAKE {
            NEXT_WAKE = WAKE_AT[id];
        }
        STATE[id] = PAUSED;
        (*SHM).pauses_hit += 1;
        switch(id, g, true);
        return;
    }
    if TOTAL >= NEXT_WAKE {
        wake(TOTAL);
        switch(id, g, false);
        return;
    }
    SINCE += 1;
    if FINE >= 2 && !hot {
        // someone may be waiting without ever touching what counts here
        if SINCE >= DEFAULT_QUANTUM {
            switch(id, g, false);
        }
        return;
    }
    QUANT -= 1;
    if QUANT == 0 {
        switch(id, g, true);
    }
}

/// A yield point of the simulated environment itself.
pub fn env_point() {
    point(0xffff, true);
}

unsafe fn note(next: usize, g: u32, from: usize) {
    SWITCHES += 1;
    TRACE = (TRACE ^ (next as u64) ^ ((g as u64) << 8) ^ (STEPS[from] << 24))
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .rotate_left(23);
}

/// Ends the pauses that are over.
unsafe fn wake(now: u64) {
    NEXT_WAKE = u64::MAX;
    for i in 0..N {
        if STATE[i] == PAUSED {
            if WAKE_AT[i] <= now {
                STATE[i] = RUNNABLE;
            } else if WAKE_AT[i] < NEXT_WAKE {
                NEXT_WAKE = WAKE_AT[i];
            }
        }
    }
}

/// Gives the baton to the thread the plan names; returns when this thread
/// gets it back.
unsafe fn switch(id: usize, g: u32, use_plan: bool) {
    let next = loop {
        let mut run = [0usize; MAXT];
        let mut n = 0;
        for i in 0..N {
            if STATE[i] == BLOCKED && DEADLINE[i] <= clock() {
                STATE[i] = RUNNABLE;
                TIMED_OUT[i] = true;
            }
            if STATE[i] == RUNNABLE {
                run[n] = i;
                n += 1;
            }
        }
        if n == 0 && NEXT_WAKE != u64::MAX {
            // nobody else can run
            wake(NEXT_WAKE);
            continue;
        }
        if n == 0 {
            // nothing can run: finished, a timer, or a deadlock
            let mut waiting = false;
            let mut first = u64::MAX;
            let mut who = 0;
            for i in 0..N {
                if STATE[i] == BLOCKED {
                    waiting = true;
                    if DEADLINE[i] < first {
                        first = DEADLINE[i];
                        who = i;
                    }
                }
            }
            if first != u64::MAX {
                if first > clock() {
                    CLOCK += first - clock();
                }
                STATE[who] = RUNNABLE;
                TIMED_OUT[who] = true;
                continue;
            }
            if waiting {
                die(ST_DEADLOCK);
            }
            QUANT = u64::MAX;
            FINISHED.store(1, SeqCst);
            raw::futex_wake(FINISHED.as_ptr());
            park(id);
        }
        let nx = if use_plan && POS < SCHED.len() {
            let (c, q) = SCHED[POS];
            POS += 1;
            QUANT = if q == 0 { 1 } else { q as u64 };
            run[c as usize % n]
        } else {
            QUANT = DEFAULT_QUANTUM;
            let mut k = (id + 1) % N;
            while STATE[k] != RUNNABLE {
                k = (k + 1) % N;
            }
            k
        };
        break nx;
    };
    SINCE = 0;
    note(next, g, id);
    if next != id {
        if STATE[id] == RUNNABLE {
            PREEMPTS += 1;
        }
        GO[next].store(1, SeqCst);
        raw::futex_wake(GO[next].as_ptr());
        park(id);
    }
}

unsafe fn park(id: usize) {
    while GO[id].load(SeqCst) == 0 {
        raw::futex_wait(GO[id].as_ptr(), 0);
    }
    GO[id].store(0, SeqCst);
}

/// Called by a thread that has nothing left to do; never returns.
pub fn thread_done() -> ! {
    unsafe {
        let id = me().unwrap();
        STATE[id] = DONE;
        switch(id, 0, true);
        loop {
            park(id);
        }
    }
}

/// Yields to someone else if anyone else can run.
pub fn yield_now() {
    unsafe {
        if let Some(id) = me() {
            if ON && MASK.with(|m| m.get()) == 0 {
                TOTAL += 1;
                STEPS[id] += 1;
                if TOTAL > LIMIT {
                    die(ST_STEPS);
                }
                if TOTAL >= NEXT_WAKE {
                    wake(TOTAL);
                }
                switch(id, 1, false);
            }
        }
    }
}

/// futex(2) for simulated threads; returns a raw result (negative errno).
pub unsafe fn futex(addr: usize, op: i64, val: u64, timeout: usize) -> i64 {
    let id = me().unwrap();
    point(2, true);
    match op & 127 {
        0 | 9 => {
            if *(addr as *const u32) != val as u32 {
                return -(raw::EAGAIN as i64);
            }
            (*SHM).blocks += 1;
            WAIT_ADDR[id] = addr;
            STATE[id] = BLOCKED;
            TIMED_OUT[id] = false;
            DEADLINE[id] = u64::MAX;
            if timeout != 0 {
                let t = *(timeout as *const raw::Timespec);
                let d = t.sec as u64 * 1_000_000_000 + t.nsec as u64;
                // WAIT_BITSET carries an absolute monotonic time (see sys::clock_gettime)
                DEADLINE[id] = if op & 127 == 9 { d.saturating_sub(MONO) } else { clock() + d };
            }
            switch(id, 3, true);
            DEADLINE[id] = u64::MAX;
            WAIT_ADDR[id] = 0;
            if TIMED_OUT[id] {
                return -(raw::ETIMEDOUT as i64);
            }
            0
        }
        1 | 10 => {
            let mut woken = 0;
            let start = (TOTAL as usize) % N;
            for k in 0..N {
                let i = (start + k) % N;
                if woken < val && STATE[i] == BLOCKED && WAIT_ADDR[i] == addr {
                    STATE[i] = RUNNABLE;
                    woken += 1;
                }
            }
            woken as i64
        }
        _ => raw::sc6(raw::SYS_FUTEX, addr as i64, op, val as i64, timeout as i64, 0, 0),
    }
}

pub unsafe fn sleep(ns: u64) {
    let id = me().unwrap();
    STATE[id] = BLOCKED;
    WAIT_ADDR[id] = 1;
    DEADLINE[id] = clock() + ns;
    switch(id, 4, true);
    DEADLINE[id] = u64::MAX;
    WAIT_ADDR[id] = 0;
}

pub struct Setup {
    pub threads: usize,
    pub fine: u8,
    pub sched: Vec<(u32, u32)>,
    pub stalls: Vec<(usize, u64)>,
    pub pauses: Vec<(usize, u64, u64, u64)>,
    pub limit: u64,
}

#[repr(C)]
struct PthreadAttr([u64; 8]);
static DSO: u8 = 0;
extern "C" {
    fn __cxa_thread_atexit_impl(f: extern "C" fn(*mut u8), obj: *mut u8, dso: *mut u8) -> i32;
    fn pthread_attr_init(a: *mut PthreadAttr) -> i32;
    fn pthread_attr_setstack(a: *mut PthreadAttr, p: *mut u8, n: usize) -> i32;
    fn pthread_join(t: usize, r: *mut *mut u8) -> i32;
    fn pthread_create(
        t: *mut usize,
        a: *const PthreadAttr,
        f: extern "C" fn(*mut u8) -> *mut u8,
        arg: *mut u8,
    ) -> i32;
}

const STACKS: usize = 0x3000_0000_0000;
const STACK: usize = 64 << 20;

static mut BODY: Option<fn(usize)> = None;

/// Simulated threads whose place another thread takes when they end, which
/// generation each is, and the thread itself.
static mut SUCCEED: [bool; MAXT] = [false; MAXT];
static mut GENERATION: [usize; MAXT] = [0; MAXT];
static mut HANDLE: [usize; MAXT] = [0; MAXT];

/// When this thread ends, a new one goes on with `BODY` in its place.
pub fn succeed() {
    unsafe {
        SUCCEED[me().unwrap()] = true;
    }
}

unsafe fn spawn(id: usize) {
    let mut attr = PthreadAttr([0; 8]);
    pthread_attr_init(&mut attr);
    // two stacks in turn: the one before has ended by then
    let g = GENERATION[id];
    let at = STACKS + (id + (g & 1) * 2 * MAXT) * 2 * STACK;
    let p = if g < 2 { raw::map(at, STACK, false) } else { at as *mut u8 };
    pthread_attr_setstack(&mut attr, p, STACK - SKEW);
    let before = HANDLE[id];
    BEFORE[id] = before;
    if pthread_create(&mut *std::ptr::addr_of_mut!(HANDLE[id]), &attr, entry, id as *mut u8) != 0 {
        die(ST_HARNESS);
    }
}
static mut BEFORE: [usize; MAXT] = [0; MAXT];

extern "C" fn entry(arg: *mut u8) -> *mut u8 {
    let id = arg as usize;
    TID.with(|t| t.set(id as u32 + 1));
    unsafe {
        park(id);
        if GENERATION[id] > 0 && pthread_join(BEFORE[id], std::ptr::null_mut()) != 0 {
            die(ST_HARNESS);
        }
        // registered first, so it runs after every thread-local destructor
        __cxa_thread_atexit_impl(last, std::ptr::null_mut(), std::ptr::addr_of!(DSO) as *mut u8);
        (BODY.unwrap())(id);
    }
    std::ptr::null_mut()
}

extern "C" fn last(_: *mut u8) {
    unsafe {
        let id = me().unwrap();
        if SUCCEED[id] {
            SUCCEED[id] = false;
            GENERATION[id] += 1;
            spawn(id);
            // it is this thread's turn, and now the other one's
            GO[id].store(1, SeqCst);
            raw::futex_wake(GO[id].as_ptr());
            return;
        }
    }
    thread_done()
}

/// Runs `body(i)` on each simulated thread under the given schedule, and
/// returns when every thread that is not stalled has finished.
pub fn run(s: Setup, body: fn(usize)) {
    unsafe {
        N = s.threads;
        FINE = s.fine;
        SCHED = s.sched;
        POS = 0;
        LIMIT = s.limit;
        BODY = Some(body);
        for (t, at) in s.stalls {
            if t < MAXT {
                if FINE >= 2 {
                    HOT_AT[t] = at;
                } else {
                    STALL_AT[t] = at;
                }
            }
        }
        let mut pauses = s.pauses;
        pauses.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (t, at, steps, ns) in pauses {
            if t < N {
                (*std::ptr::addr_of_mut!(PAUSES))[t].push((at, steps, ns));
                PAUSE_AT[t] = at;
            }
        }
        for i in 0..N {
            STATE[i] = RUNNABLE;
            spawn(i);
        }
        ON = true;
        let first = if POS < SCHED.len() {
            let (c, q) = SCHED[POS];
            POS += 1;
            QUANT = if q == 0 { 1 } else { q as u64 };
            c as usize % N
        } else {
            QUANT = DEFAULT_QUANTUM;
            0
        };
        GO[first].store(1, SeqCst);
        raw::futex_wake(GO[first].as_ptr());
        while FINISHED.load(SeqCst) == 0 {
            raw::futex_wait(FINISHED.as_ptr(), 0);
        }
        ON = false;
    }
}

// ---- called by the instrumented code ----

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        GUARDS += 1;
        *p = GUARDS;
        p = p.add(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ON {
        return;
    }
    let g = *g;
    (*SHM).cover[(g & 0xffff) as usize] = 1;
    point(g, false);
}
extern "C" {
    static data_start: u8;
    static _end: u8;
}

/// Whether this is the address of a global variable that may change.
#[inline(always)]
fn global(p: *const u8) -> bool {
    p >= std::ptr::addr_of!(data_start) && p < std::ptr::addr_of!(_end)
}

#[inline(always)]
unsafe fn memory(p: *const u8) {
    match FINE {
        0 => {}
        1 => point(5, false),
        _ => {
            if global(p) {
                point(6, true);
            }
        }
    }
}
#[inline(always)]
unsafe fn atomic(p: *const u8) {
    match FINE {
        0 => {}
        1 => point(7, false),
        2 => {
            if global(p) {
                point(8, true);
            }
        }
        _ => point(8, true),
    }
}

macro_rules! mem {
    ($($n:ident)*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *const u8) {
            memory(p);
        }
    )*}
}
mem!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8
     __sanitizer_cov_load16 __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4
     __sanitizer_cov_store8 __sanitizer_cov_store16);

// The atomic operations of the instrumented crates arrive here.

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) {}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

macro_rules! atomics {
    ($($t:ty, $a:ident, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $strong:ident $weak:ident $val:ident;)*) => {$(
        atomics!(@fetch $t, $a, $xchg swap, $add fetch_add, $sub fetch_sub, $and fetch_and, $or fetch_or, $xor fetch_xor, $nand fetch_nand);
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *const $t, _: i32) -> $t {
            atomic(p as *const u8);
            (*(p as *const std::sync::atomic::$a)).load(SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, _: i32) {
            atomic(p as *const u8);
            (*(p as *const std::sync::atomic::$a)).store(v, SeqCst)
        }
        #[no_mangle]
        pub unsafe extern "C" fn $val(p: *mut $t, c: $t, v: $t, _: i32, _: i32) -> $t {
            atomic(p as *const u8);
            match (*(p as *const std::sync::atomic::$a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
        #[no_mangle]
        pub unsafe extern "C" fn $strong(p: *mut $t, c: *mut $t, v: $t, m: i32, f: i32) -> i32 {
            let old = *c;
            let now = $val(p, old, v, m, f);
            *c = now;
            (now == old) as i32
        }
        #[no_mangle]
        pub unsafe extern "C" fn $weak(p: *mut $t, c: *mut $t, v: $t, m: i32, f: i32) -> i32 {
            $strong(p, c, v, m, f)
        }
    )*};
    (@fetch $t:ty, $a:ident, $($n:ident $f:ident),*) => {$(
        #[no_mangle]
        pub unsafe extern "C" fn $n(p: *mut $t, v: $t, _: i32) -> $t {
            atomic(p as *const u8);
            (*(p as *const std::sync::atomic::$a)).$f(v, SeqCst)
        }
    )*};
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}
