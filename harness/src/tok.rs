//! Values with identity: every construction, clone and destruction is logged.
use std::cell::{Cell, RefCell};
use std::fmt::Debug;

thread_local! {
    static DROPS: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static CLONES: RefCell<Vec<(i64, i64)>> = RefCell::new(Vec::new());
    static FRESH: Cell<i64> = const { Cell::new(0) };
    /// identities of values looked at
    static SEEN: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    static DEFAULTS: RefCell<Vec<i64>> = RefCell::new(Vec::new());
    /// which of several equivalent ways of making a call is taken next
    static WAY: Cell<usize> = const { Cell::new(0) };
    /// panic on the n-th clone from now (0 = never)
    static CLONE_FUSE: Cell<i64> = const { Cell::new(0) };
}

pub fn reset() {
    DROPS.with(|d| d.borrow_mut().clear());
    CLONES.with(|d| d.borrow_mut().clear());
    SEEN.with(|d| d.borrow_mut().clear());
    DEFAULTS.with(|d| d.borrow_mut().clear());
    CLONE_FUSE.with(|c| c.set(0));
    FRESH.with(|c| c.set(1));
    WAY.with(|c| c.set(0));
}
/// Standard adaptors that must all amount to the same: taken in turn.
pub fn way(n: usize) -> usize {
    WAY.with(|c| {
        let v = c.get();
        c.set(v.wrapping_mul(5).wrapping_add(3));
        (v >> 2) % n
    })
}
pub fn fresh() -> i64 {
    FRESH.with(|c| {
        let v = c.get();
        c.set(v + 1);
        v
    })
}
/// The identity made next.
pub fn next_id() -> i64 {
    FRESH.with(|c| c.get())
}
pub fn take_seen() -> Vec<i64> {
    let mut v = SEEN.with(|d| std::mem::take(&mut *d.borrow_mut()));
    v.sort();
    v.dedup();
    v
}
fn saw(id: i64) {
    SEEN.with(|d| d.borrow_mut().push(id))
}
pub fn take_drops() -> Vec<i64> {
    let mut v = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    v.sort();
    v
}
pub fn take_clones() -> Vec<(i64, i64)> {
    CLONES.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
pub fn take_defaults() -> Vec<i64> {
    DEFAULTS.with(|d| std::mem::take(&mut *d.borrow_mut()))
}
pub fn arm_clone_fuse(n: i64) {
    CLONE_FUSE.with(|c| c.set(n))
}

/// What the harness needs from a map's value type.
pub trait Val: Debug + Clone + Default + 'static {
    const TRACK: bool;
    /// prints as its identity
    const DBG: bool;
    /// all values look alike
    const UNIT: bool = false;
    fn mk(id: i64) -> Self;
    fn id(&self) -> i64;
}

/// A tracked value.
pub struct Tok(i64);
impl Val for Tok {
    const TRACK: bool = true;
    const DBG: bool = true;
    fn mk(id: i64) -> Self {
        Tok(id)
    }
    fn id(&self) -> i64 {
        saw(self.0);
        self.0
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        // (not during thread teardown)
        let _ = DROPS.try_with(|d| d.borrow_mut().push(self.0));
    }
}
impl Clone for Tok {
    fn clone(&self) -> Self {
        saw(self.0);
        let n = CLONE_FUSE.with(|c| c.get());
        if n > 0 {
            CLONE_FUSE.with(|c| c.set(n - 1));
            if n == 1 {
                crate::inject();
            }
        }
        let id = fresh();
        CLONES.with(|c| c.borrow_mut().push((self.0, id)));
        Tok(id)
    }
}
impl Default for Tok {
    fn default() -> Self {
        let id = fresh();
        DEFAULTS.with(|c| c.borrow_mut().push(id));
        Tok(id)
    }
}
impl Debug for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        saw(self.0);
        write!(f, "{}", self.0)
    }
}

/// One-byte plain value.
impl Val for u8 {
    const TRACK: bool = false;
    const DBG: bool = true;
    fn mk(id: i64) -> Self {
        id as u8
    }
    fn id(&self) -> i64 {
        *self as i64
    }
}
/// Plain value.
impl Val for u32 {
    const TRACK: bool = false;
    const DBG: bool = true;
    fn mk(id: i64) -> Self {
        id as u32
    }
    fn id(&self) -> i64 {
        *self as i64
    }
}
/// Large plain value with an unusual alignment.
#[derive(Clone, Copy, Default)]
#[repr(align(64))]
pub struct Wide([i64; 9], u8);
impl Debug for Wide {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.id())
    }
}
impl Val for Wide {
    const TRACK: bool = false;
    const DBG: bool = true;
    fn mk(id: i64) -> Self {
        Wide([id, !id, id, 7, id, id, id, id, id], 5)
    }
    fn id(&self) -> i64 {
        let i = self.0[0];
        // a torn or misplaced value
        if self as *const Self as usize % 64 == 0 && self.0 == [i, !i, i, 7, i, i, i, i, i] && self.1 == 5 { i } else if self.0 == [0; 9] { 0 } else { -77777 }
    }
}
/// Boxed value: `Option<V>` uses the null niche.
impl Val for Box<i64> {
    const TRACK: bool = false;
    const DBG: bool = true;
    fn mk(id: i64) -> Self {
        Box::new(id)
    }
    fn id(&self) -> i64 {
        **self
    }
}
/// Zero-sized value.
impl Val for () {
    const TRACK: bool = false;
    const DBG: bool = false;
    const UNIT: bool = true;
    fn mk(_: i64) -> Self {}
    fn id(&self) -> i64 {
        0
    }
}
