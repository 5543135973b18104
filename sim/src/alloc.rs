//! The simulator's allocator: deterministic addresses (each simulated process
//! gets a fresh arena at a fixed address), immediate reuse of freed blocks,
//! poisoned contents, live counters, and failures on demand.

use crate::raw;
use std::alloc::{GlobalAlloc, Layout};
use std::cell::Cell;

pub struct SimAlloc;

#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const BASE_A: usize = 0x1000_0000_0000;
const BASE_B: usize = 0x2000_0000_0000;
const SIZE: usize = 64 << 30;

struct Arena {
    base: usize,
    top: usize,
    free: [usize; 64 * 4],
    live_bytes: i64,
    live_blocks: i64,
}

static mut ARENAS: [Arena; 2] = [
    Arena { base: 0, top: 0, free: [0; 256], live_bytes: 0, live_blocks: 0 },
    Arena { base: 0, top: 0, free: [0; 256], live_bytes: 0, live_blocks: 0 },
];
static mut WHICH: usize = 0;
/// How this process's memory behaves: where it starts, what it holds, and
/// whether freed blocks are used again (0 at once, 1 late, 2 sometimes) and
/// grow in place.
pub static mut SKEW: usize = 0;
pub static mut FRESH: u8 = 0xCD;
pub static mut FREED: u8 = 0xDD;
pub static mut REUSE: u8 = 0;
pub static mut IN_PLACE: bool = false;
static mut DICE: u32 = 1;
pub static mut HIGH: usize = 0;

/// Added to the number of the first allocation that fails: all later ones of
/// the call fail too.
pub const FROM_THEN_ON: u64 = 1 << 32;

thread_local! {
    /// Non-zero while inside a call into the library (and not in a callback).
    pub static IN_LIB: Cell<u32> = const { Cell::new(0) };
    /// Counts library allocations of the current operation.
    pub static COUNT: Cell<u64> = const { Cell::new(0) };
    /// The library allocation of the current operation that fails (0 = none).
    pub static FAIL_AT: Cell<u64> = const { Cell::new(0) };
    pub static FIRED: Cell<u32> = const { Cell::new(0) };
}

fn class(size: usize) -> (usize, usize) {
    // four classes per power of two, from 16 bytes
    let size = if size < 16 { 16 } else { size };
    let p = usize::BITS as usize - 1 - (size - 1).leading_zeros() as usize; // 2^p < size <= 2^(p+1)
    let p = if size == 1 { 0 } else { p };
    let lo = 1usize << p;
    let step = lo >> 2;
    let k = (size - lo + step - 1) / step; // 1..=4
    (p * 4 + (k - 1), lo + k * step)
}

/// From now on this (child) process allocates from the fresh arena.
pub fn enter_sim_arena() {
    unsafe {
        if ARENAS[1].base == 0 {
            let p = raw::map(BASE_B, SIZE, false) as usize;
            ARENAS[1].base = p;
            ARENAS[1].top = p + SKEW;
        }
        WHICH = 1;
    }
}

pub fn live() -> (i64, i64) {
    unsafe { (ARENAS[WHICH].live_bytes, ARENAS[WHICH].live_blocks) }
}

unsafe fn poison(p: *mut u8, n: usize, b: u8) {
    std::ptr::write_bytes(p, b, if n > 4096 { 4096 } else { n });
}

/// Counts an allocation of the library, and says whether it fails.
fn fails() -> bool {
    if IN_LIB.with(|c| c.get()) != 0 {
        let n = COUNT.with(|c| {
            c.set(c.get() + 1);
            c.get()
        });
        let at = FAIL_AT.with(|c| c.get());
        let now = if at > FROM_THEN_ON { n >= at - FROM_THEN_ON } else { n == at };
        if now && !std::thread::panicking() {
            // (a second panic while unwinding would abort by Rust's rules)
            FIRED.with(|c| c.set(c.get() + 1));
            return true;
        }
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if fails() {
            return std::ptr::null_mut();
        }
        raw_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let i = if (p as usize) >= BASE_B { 1 } else { 0 };
        let a = &mut *std::ptr::addr_of_mut!(ARENAS[i]);
        a.live_bytes -= l.size() as i64;
        a.live_blocks -= 1;
        let align = if l.align() > 16 { l.align() } else { 0 };
        let (c, sz) = class(l.size() + align);
        let start = if align > 0 { *(p as *mut usize).sub(1) } else { p as usize };
        poison(start as *mut u8, sz, FREED);
        *(start as *mut usize) = a.free[c];
        a.free[c] = start;
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, l.align());
        if IN_PLACE && l.align() <= 16 && class(l.size()) == class(new) {
            if fails() {
                return std::ptr::null_mut();
            }
            let i = if (p as usize) >= BASE_B { 1 } else { 0 };
            (*std::ptr::addr_of_mut!(ARENAS[i])).live_bytes += new as i64 - l.size() as i64;
            return p;
        }
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, if l.size() < new { l.size() } else { new });
            self.dealloc(p, l);
        }
        q
    }
}

unsafe fn raw_alloc(l: Layout) -> *mut u8 {
    let i = WHICH;
    let a = &mut *std::ptr::addr_of_mut!(ARENAS[i]);
    if a.base == 0 {
        let p = raw::map(if i == 0 { BASE_A } else { BASE_B }, SIZE, false) as usize;
        a.base = p;
        a.top = p;
    }
    // over-aligned blocks carry their start in the word before the payload
    let align = if l.align() > 16 { l.align() } else { 0 };
    let (c, sz) = class(l.size() + align);
    let again = i == 0
        || match REUSE {
            0 => true,
            1 => a.top - a.base > 64 << 20,
            _ => {
                DICE = DICE.wrapping_mul(1664525).wrapping_add(1013904223);
                DICE >> 31 == 0 || a.top - a.base > 64 << 20
            }
        };
    let start = if a.free[c] != 0 && again {
        let s = a.free[c];
        a.free[c] = *(s as *mut usize);
        s
    } else {
        let s = (a.top + 15) & !15;
        if s + sz > a.base + SIZE {
            return std::ptr::null_mut();
        }
        if i == 1 && s + sz > a.base + LIMIT {
            crate::sched::die(crate::sched::ST_MEMORY);
        }
        a.top = s + sz;
        s
    };
    poison(start as *mut u8, sz, FRESH);
    a.live_bytes += l.size() as i64;
    a.live_blocks += 1;
    if i == 1 && a.top - a.base > HIGH {
        HIGH = a.top - a.base;
    }
    if align > 0 {
        let p = (start + align) & !(align - 1);
        *(p as *mut usize).sub(1) = start;
        p as *mut u8
    } else {
        start as *mut u8
    }
}

/// Memory limit of a simulated process (bytes of arena ever used).
pub const LIMIT: usize = 512 << 20;

/// While alive, allocations are the simulator's own, not the library's.
pub struct Pause(u32);
pub fn pause() -> Pause {
    Pause(IN_LIB.with(|c| c.replace(0)))
}
impl Drop for Pause {
    fn drop(&mut self) {
        IN_LIB.with(|c| c.set(self.0));
    }
}
