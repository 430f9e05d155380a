//! A virtual clock: executed basic blocks. The check that needs it builds the
//! libraries with LLVM's sanitizer-coverage callbacks, which land here. The
//! count does not depend on the machine, so "this call never ends in practice"
//! becomes a deterministic budget instead of a wall-clock timeout.
use std::cell::RefCell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static NOW: AtomicU64 = AtomicU64::new(0);
static GIVEN: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

thread_local! {
    static WHAT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Basic blocks one measured call may execute.
pub const BUDGET: u64 = 30_000_000;

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut s: *mut u32, e: *mut u32) {
    while s < e {
        // SAFETY: the compiler passes its own guard array.
        unsafe {
            *s = 1;
            s = s.add(1);
        }
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    let n = NOW.load(Relaxed).wrapping_add(1);
    NOW.store(n, Relaxed);
    if n > LIMIT.load(Relaxed) {
        LIMIT.store(u64::MAX, Relaxed);
        blown();
    }
}

/// Unwinding out of arbitrary compiled code is not possible here, so the
/// process reports and ends; the supervisor and replay run plans as children.
#[cold]
#[inline(never)]
fn blown() {
    let what = WHAT.with(|w| w.borrow().clone());
    println!("W {} does not finish within {} basic blocks", what, GIVEN.load(Relaxed));
    std::process::exit(4);
}

/// Runs one call under the budget and returns the blocks it took.
pub fn measured<T>(what: &str, f: impl FnOnce() -> T) -> (T, u64) {
    measured_in(what, BUDGET, f)
}

pub fn measured_in<T>(what: &str, budget: u64, f: impl FnOnce() -> T) -> (T, u64) {
    GIVEN.store(budget, Relaxed);
    WHAT.with(|w| *w.borrow_mut() = what.to_string());
    let t0 = NOW.load(Relaxed);
    LIMIT.store(t0 + budget, Relaxed);
    let r = f();
    LIMIT.store(u64::MAX, Relaxed);
    (r, NOW.load(Relaxed) - t0)
}
