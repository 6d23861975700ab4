//! Key types: a plain `E<N>` of every size, and the library's own.
use std::cmp::Ordering;
use std::convert::Infallible;
use std::fmt::Debug;
use std::num::NonZeroI8;

use ordinal_map::Ordinal;

pub trait Key: Ordinal + Debug + 'static {
    /// prints as its ordinal
    const DBG: bool = false;
}

/// Key with `N` values, numbered by hand.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct E<const N: usize>(usize);
impl<const N: usize> Ordinal for E<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        self.0
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        if o < N {
            Some(E(o))
        } else {
            None
        }
    }
}
impl<const N: usize> Debug for E<N> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const N: usize> Key for E<N> {
    const DBG: bool = true;
}
impl Key for u8 {
    const DBG: bool = true;
}
impl Key for u16 {
    const DBG: bool = true;
}
impl Key for i8 {}
impl Key for bool {}
impl Key for Ordering {}
impl Key for Infallible {}
impl Key for NonZeroI8 {}
impl Key for Option<bool> {}
impl Key for Result<bool, Ordering> {}
impl Key for (bool, Ordering) {}
impl Key for [bool; 3] {}
impl Key for Option<u8> {}
impl Key for () {}

#[derive(Ordinal, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Shape {
    Dot,
    Line(bool),
    Box { w: Ordering, h: bool },
    Last,
}
impl Key for Shape {}
#[derive(Ordinal, Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rec {
    pub a: bool,
    pub b: Option<Shape>,
    pub c: (),
}
impl Key for Rec {}

thread_local! {
    /// state of the generator of wrong answers (0 = all answers are right), one wrong answer in so many
    static NOISE: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 1)) };
}
pub fn noise(seed: i64, rate: i64) {
    NOISE.with(|n| n.set((if rate <= 0 { 0 } else { (seed as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1 }, rate.max(1) as u64)))
}
fn dice() -> Option<usize> {
    if std::thread::panicking() || !crate::in_call() {
        return None;
    }
    NOISE.with(|n| {
        let (mut x, rate) = n.get();
        if x == 0 {
            return None;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        n.set((x, rate));
        if (x >> 33) % rate == 0 { Some((x >> 8) as usize & 0xffff) } else { None }
    })
}

/// A hand-written key type that breaks its contract: when the noise is on, its
/// answers are now and then out of range, unstable, missing, or a panic.
#[derive(Debug, PartialEq, Eq)]
pub struct H<const N: usize>(usize);
impl<const N: usize> Ordinal for H<N> {
    const ORDINAL_SIZE: usize = N;
    fn ordinal(&self) -> usize {
        match dice() {
            None => self.0,
            Some(x) => match x % 8 {
                0 | 1 => N,
                2 => N + 1,
                3 => usize::MAX,
                4 => crate::inject(),
                5 => 64,
                _ => (x >> 3) % N.max(1),
            },
        }
    }
    fn from_ordinal(o: usize) -> Option<Self> {
        match dice() {
            None => if o < N { Some(H(o)) } else { None },
            Some(x) => match x % 8 {
                0 | 1 => None,
                2 => crate::inject(),
                3 => Some(H(usize::MAX)),
                4 => Some(H(N)),
                _ => Some(H((x >> 3) % N.max(1))),
            },
        }
    }
}
impl<const N: usize> Key for H<N> {}
impl<const N: usize> Key for Option<H<N>> {}
impl<const N: usize, const M: usize> Key for (H<N>, H<M>) {}
impl<const N: usize> Key for [H<N>; 2] {}
#[derive(Ordinal, Debug, PartialEq, Eq)]
pub enum Hd {
    Dot,
    One(H<2>),
    Two { a: H<2>, b: bool },
}
impl Key for Hd {}
