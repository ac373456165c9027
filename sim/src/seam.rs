//! Seams of the process itself: the allocator (counting, and an optional
//! scheduling point on every allocation), the source of the hash seeds, and
//! the clocks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static IN_LIB: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static REQUESTS: Cell<u64> = const { Cell::new(0) };
    static YIELD: Cell<bool> = const { Cell::new(false) };
    static SEED: Cell<u64> = const { Cell::new(0) };
}

pub struct Counting;

fn count(delta: isize) {
    let _ = IN_LIB.try_with(|f| {
        if f.get() {
            let l = LIVE.get() + delta;
            LIVE.set(l);
            if l > PEAK.get() {
                PEAK.set(l);
            }
            if delta > 0 {
                TOTAL.set(TOTAL.get() + delta as u64);
                REQUESTS.set(REQUESTS.get() + 1);
            }
        }
    });
}

/// an allocation inside of the library is a point where another simulated
/// thread may run
fn alloc_point() {
    let due = IN_LIB.try_with(|f| f.get()).unwrap_or(false)
        && YIELD.try_with(|y| y.get()).unwrap_or(false);
    if due {
        let prev = leave_lib();
        YIELD.set(false);
        ALLOCS.set(ALLOCS.get() + 1);
        crate::world::alloc_yield();
        YIELD.set(true);
        enter_lib(prev);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        count(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        alloc_point();
        count(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        // old and new block may exist at the same time
        count(n as isize);
        let r = System.realloc(p, l, n);
        count(-(l.size() as isize));
        r
    }
}

#[global_allocator]
static ALLOC: Counting = Counting;

pub fn set_yield_on_alloc(on: bool) {
    YIELD.set(on);
    if !on {
        fine::set(0);
    }
}

/// Scheduling points between any two blocks of the library's code and before
/// its accesses to static memory, in a build with the instrumentation.
#[cfg(feature = "edges")]
mod fine {
    use super::*;

    thread_local! {
        static ARMED: Cell<u32> = const { Cell::new(0) };
    }

    fn hook(shared: bool, left: u32) -> u32 {
        let prev = leave_lib();
        let y = YIELD.replace(false);
        let next = crate::world::edge_yield(shared, left);
        YIELD.set(y);
        IN_LIB.set(prev);
        next
    }
    /// the library is entered
    pub fn enter() {
        let _ = ARMED.try_with(|a| edge::set_left(a.get()));
    }
    pub fn leave() {
        let _ = ARMED.try_with(|a| a.set(edge::left()));
        edge::set_left(0);
    }
    pub fn set(left: u32) {
        edge::set_hook(hook);
        edge::set_left(0);
        let _ = ARMED.try_with(|a| a.set(left));
    }

    /// Locks of the library end up here if they are contended: std waits and
    /// wakes through this symbol. A simulated thread waits in the simulation.
    ///
    /// # Safety
    /// same as syscall(2)
    #[no_mangle]
    pub unsafe extern "C" fn syscall(n: i64, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> i64 {
        const FUTEX: i64 = 202;
        if n == FUTEX && IN_LIB.try_with(|f| f.get()).unwrap_or(false) {
            let prev = leave_lib();
            let y = YIELD.replace(false);
            let r = match b & 127 {
                0 | 9 => crate::world::futex_wait(a, c as u32, d != 0),
                1 | 10 => crate::world::futex_wake(a, c as u32 as usize),
                _ => None,
            };
            YIELD.set(y);
            enter_lib(prev);
            if let Some(r) = r {
                return done(r);
            }
        }
        let r: i64;
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
            lateout("rcx") _, lateout("r11") _, options(nostack));
        done(r)
    }
    fn done(r: i64) -> i64 {
        extern "C" {
            fn __errno_location() -> *mut i32;
        }
        if r < 0 && r > -4096 {
            unsafe { *__errno_location() = -r as i32 };
            return -1;
        }
        r
    }
}
#[cfg(not(feature = "edges"))]
mod fine {
    pub fn enter() {}
    pub fn leave() {}
    pub fn set(_left: u32) {}
}

pub const FINE: bool = cfg!(feature = "edges");

/// the first scheduling point is that many edges away
pub fn set_edges(left: u32) {
    fine::set(left);
}

/// runs library code: allocations are attributed to it, and a panic is its panic
pub fn lib<T>(f: impl FnOnce() -> T) -> T {
    enter_lib(true);
    let r = f();
    leave_lib();
    r
}

/// harness code that is called by the library (the transport)
pub fn leave_lib() -> bool {
    let p = IN_LIB.get();
    if p {
        fine::leave();
    }
    IN_LIB.set(false);
    p
}

pub fn enter_lib(prev: bool) {
    IN_LIB.set(prev);
    if prev {
        fine::enter();
    }
}

#[allow(dead_code)]
pub fn in_lib() -> bool {
    IN_LIB.get()
}

pub fn live() -> isize {
    LIVE.get()
}
pub fn peak() -> isize {
    PEAK.get()
}
pub fn reset_peak() {
    PEAK.set(LIVE.get());
}
/// bytes and number of all requests for heap
pub fn work() -> (u64, u64) {
    (TOTAL.get(), REQUESTS.get())
}
pub fn reset_counters() {
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    REQUESTS.set(0);
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// hash seeds of this thread are derived from this value
pub fn set_thread_seed(s: u64) {
    SEED.set(s);
}

/// std asks the operating system for hash seeds through this symbol. The
/// iteration order of user properties depends on them, so it has to come from
/// the run's seed.
///
/// # Safety
/// called by std with a valid buffer
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let s = SEED.try_with(|s| s.get()).unwrap_or(0);
    for i in 0..len {
        *buf.add(i) = mix(s ^ ((i as u64) / 8)).to_le_bytes()[i % 8];
    }
    len as isize
}

fn in_library() -> bool {
    IN_LIB.try_with(|f| f.get()).unwrap_or(false)
}

unsafe fn call(n: i64, a: usize, b: usize, c: usize, d: usize) -> i32 {
    extern "C" {
        fn __errno_location() -> *mut i32;
    }
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        *__errno_location() = -r as i32;
        return -1;
    }
    r as i32
}

/// A clock the library reads shows simulated time. (It reads none today; what
/// it does must not depend on one.)
///
/// # Safety
/// same as clock_gettime(2)
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32 {
    let wall = matches!(clock, 0 | 5 | 11);
    if in_library() && (wall || matches!(clock, 1 | 4 | 6 | 7)) {
        let prev = leave_lib();
        let y = YIELD.replace(false);
        let us = crate::cx::clock(wall);
        YIELD.set(y);
        enter_lib(prev);
        *t = [(us / 1_000_000) as i64, (us % 1_000_000) as i64 * 1000];
        return 0;
    }
    call(228, clock as usize, t as usize, 0, 0)
}

unsafe fn slept(t: *const [i64; 2]) -> bool {
    if !in_library() || t.is_null() {
        return false;
    }
    let prev = leave_lib();
    crate::cx::slept(((*t)[0] as u64).saturating_mul(1_000_000) + (*t)[1] as u64 / 1000);
    enter_lib(prev);
    true
}

/// Sleeping takes simulated time.
///
/// # Safety
/// same as clock_nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clock: i32, flags: i32, t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    if flags == 0 && slept(t) {
        return 0;
    }
    // the number of the error is the result
    match call(230, clock as usize, flags as usize, t as usize, rest as usize) {
        0 => 0,
        _ => 4,
    }
}

/// # Safety
/// same as nanosleep(2)
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const [i64; 2], rest: *mut [i64; 2]) -> i32 {
    if slept(t) {
        return 0;
    }
    call(35, t as usize, rest as usize, 0, 0)
}
