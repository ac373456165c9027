//! Callbacks of the compiler's coverage instrumentation, used as scheduling
//! points: the library and the code generated from its generics call them on
//! every edge of their control flow and before every load and store. This
//! crate is not instrumented itself.

use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};

thread_local! {
    /// edges until the next scheduling point, 0: none at all
    static LEFT: Cell<u32> = const { Cell::new(0) };
}

static HOOK: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

/// called at scheduling points with what was left, returns what is left then
pub type Hook = fn(shared: bool, left: u32) -> u32;

pub fn set_hook(h: Hook) {
    HOOK.store(h as usize, Ordering::Relaxed);
}
pub fn left() -> u32 {
    LEFT.get()
}
pub fn set_left(n: u32) {
    LEFT.set(n)
}

#[inline(never)]
fn fire(shared: bool, left: u32) {
    LEFT.set(0);
    let h = HOOK.load(Ordering::Relaxed);
    if h != 0 {
        // only ever set from a function of this type
        let h: Hook = unsafe { std::mem::transmute(h) };
        LEFT.set(h(shared, left));
    }
}

/// an access to memory all threads can reach
#[inline(always)]
fn access(p: usize) {
    let n = LEFT.get();
    if n != 0 {
        let (lo, hi) = (&raw const __data_start as usize, &raw const _end as usize);
        if p >= lo && p < hi {
            fire(true, n);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc() {
    let n = LEFT.get();
    if n != 0 {
        if n == 1 {
            fire(false, 0);
        } else {
            LEFT.set(n - 1);
        }
    }
}

macro_rules! accesses {
    ($($f:ident)*) => { $(
        #[no_mangle]
        pub extern "C" fn $f(p: usize) {
            access(p)
        }
    )* }
}
accesses! {
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}
