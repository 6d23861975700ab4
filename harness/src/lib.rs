//! Drives the real ordinal-map types through scripts derived from the TLA+
//! specifications, and records every public call with what it returned, which
//! values it destroyed, and what it printed.

pub mod big;
pub mod cursor;
pub mod io;
pub mod numbering;
pub mod vals;
pub mod keys;
pub mod script;
pub mod tok;

use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static IN_CALL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn in_call() -> bool {
    IN_CALL.with(|c| c.get())
}

/// Payload of the panics the harness itself injects into callbacks.
pub struct Injected;

/// Run one library call: `Err(-1)` = the injected panic came out of it,
/// `Err(-999)` = it panicked by itself.
pub fn call<R>(f: impl FnOnce() -> R) -> Result<R, i64> {
    let before = IN_CALL.with(|c| c.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CALL.with(|c| c.set(before));
    match r {
        Ok(r) => Ok(r),
        Err(p) => Err(if p.is::<Injected>() { -1 } else { -999 }),
    }
}

pub fn inject() -> ! {
    std::panic::panic_any(Injected)
}
