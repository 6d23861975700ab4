//! Values of key types, produced without the Ordinal implementation under
//! test: their number, the i-th of them, and their notation for the
//! specification (spec/OrdinalTypes.tla).

use crate::big::big;
use std::cmp::Ordering;
use std::convert::Infallible;
use std::num::*;

pub trait Vals: Sized {
    /// How many values (saturating).
    const COUNT: u128;
    /// The type, as the specification writes it.
    fn ty() -> String;
    fn nth(i: u128) -> Self;
    fn code(&self, out: &mut String);
    fn same(&self, other: &Self) -> bool {
        let (mut a, mut b) = (String::new(), String::new());
        self.code(&mut a);
        other.code(&mut b);
        a == b
    }
}

pub const SHIFT: i128 = 1 << 63;
fn shifted(v: i128) -> String {
    big((v + SHIFT) as u128)
}
pub fn prim(iv: &[(i128, i128)]) -> String {
    let s: Vec<String> = iv.iter().map(|(a, b)| format!("[{},{}]", shifted(*a), shifted(*b))).collect();
    format!("{{\"k\":\"prim\",\"iv\":[{}]}}", s.join(","))
}
pub fn sum(a: &[String]) -> String {
    format!("{{\"k\":\"sum\",\"a\":[{}]}}", a.join(","))
}
pub fn prod(a: &[String]) -> String {
    format!("{{\"k\":\"prod\",\"a\":[{}]}}", a.join(","))
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Vals for $t {
            const COUNT: u128 = (<$t>::MAX as i128 - <$t>::MIN as i128 + 1) as u128;
            fn ty() -> String { prim(&[(<$t>::MIN as i128, <$t>::MAX as i128)]) }
            fn nth(i: u128) -> Self { (i as i128 + <$t>::MIN as i128) as $t }
            fn code(&self, out: &mut String) { out.push_str(&shifted(*self as i128)) }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
ints!(u8, i8, u16, i16, u32, i32);

macro_rules! nonzero {
    ($($t:ty, $p:ty, $signed:expr);*) => {$(
        impl Vals for $t {
            const COUNT: u128 = (<$p>::MAX as i128 - <$p>::MIN as i128) as u128;
            fn ty() -> String {
                if $signed { prim(&[(<$p>::MIN as i128, -1), (1, <$p>::MAX as i128)]) } else { prim(&[(1, <$p>::MAX as i128)]) }
            }
            fn nth(i: u128) -> Self {
                let mut v = i as i128 + <$p>::MIN as i128;
                if v >= 0 { v += 1; }
                <$t>::new(v as $p).expect("not zero")
            }
            fn code(&self, out: &mut String) { out.push_str(&shifted(self.get() as i128)) }
            fn same(&self, o: &Self) -> bool { self == o }
        }
    )*};
}
nonzero!(NonZeroU8, u8, false; NonZeroU16, u16, false; NonZeroU32, u32, false; NonZeroU64, u64, false; NonZeroUsize, usize, false;
         NonZeroI8, i8, true; NonZeroI16, i16, true; NonZeroI32, i32, true; NonZeroI64, i64, true; NonZeroIsize, isize, true);

impl Vals for bool {
    const COUNT: u128 = 2;
    fn ty() -> String { prim(&[(0, 1)]) }
    fn nth(i: u128) -> Self { [false, true][i as usize] }
    fn code(&self, out: &mut String) { out.push_str(&shifted(if *self { 1 } else { 0 })) }
    fn same(&self, o: &Self) -> bool { self == o }
}
impl Vals for char {
    const COUNT: u128 = 0x110000 - 0x800;
    fn ty() -> String { prim(&[(0, 0xd7ff), (0xe000, 0x10ffff)]) }
    fn nth(i: u128) -> Self {
        let i = i as u32;
        char::from_u32(if i <= 0xd7ff { i } else { i + 0x800 }).expect("a char")
    }
    fn code(&self, out: &mut String) { out.push_str(&shifted(*self as i128)) }
            fn same(&self, o: &Self) -> bool { self == o }
}
impl Vals for Ordering {
    const COUNT: u128 = 3;
    fn ty() -> String { prim(&[(-1, 1)]) }
    fn nth(i: u128) -> Self { [Ordering::Less, Ordering::Equal, Ordering::Greater][i as usize] }
    fn code(&self, out: &mut String) {
        out.push_str(&shifted(match self { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }))
    }
}
impl Vals for Infallible {
    const COUNT: u128 = 0;
    fn ty() -> String { sum(&[]) }
    fn nth(_: u128) -> Self { panic!("no values") }
    fn code(&self, _: &mut String) { match *self {} }
}

pub fn alt(i: usize, out: &mut String, f: impl FnOnce(&mut String)) {
    out.push_str(&format!("[{i},"));
    f(out);
    out.push(']');
}
impl<T: Vals> Vals for Option<T> {
    const COUNT: u128 = T::COUNT.saturating_add(1);
    fn ty() -> String { sum(&[prod(&[]), T::ty()]) }
    fn nth(i: u128) -> Self { if i == 0 { None } else { Some(T::nth(i - 1)) } }
    fn code(&self, out: &mut String) {
        match self {
            None => out.push_str("[1,[]]"),
            Some(x) => alt(2, out, |o| x.code(o)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (None, None) => true,
            (Some(a), Some(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<A: Vals, B: Vals> Vals for Result<A, B> {
    const COUNT: u128 = A::COUNT.saturating_add(B::COUNT);
    fn ty() -> String { sum(&[A::ty(), B::ty()]) }
    fn nth(i: u128) -> Self { if i < A::COUNT { Ok(A::nth(i)) } else { Err(B::nth(i - A::COUNT)) } }
    fn code(&self, out: &mut String) {
        match self {
            Ok(x) => alt(1, out, |o| x.code(o)),
            Err(x) => alt(2, out, |o| x.code(o)),
        }
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Ok(a), Ok(b)) => a.same(b),
            (Err(a), Err(b)) => a.same(b),
            _ => false,
        }
    }
}
impl<A: Vals, B: Vals> Vals for either::Either<A, B> {
    const COUNT: u128 = A::COUNT.saturating_add(B::COUNT);
    fn ty() -> String { sum(&[A::ty(), B::ty()]) }
    fn nth(i: u128) -> Self { if i < A::COUNT { either::Either::Left(A::nth(i)) } else { either::Either::Right(B::nth(i - A::COUNT)) } }
    fn code(&self, out: &mut String) {
        match self {
            either::Either::Left(x) => alt(1, out, |o| x.code(o)),
            either::Either::Right(x) => alt(2, out, |o| x.code(o)),
        }
    }
}
impl<T: Vals> Vals for Box<T> {
    const COUNT: u128 = T::COUNT;
    fn ty() -> String { T::ty() }
    fn nth(i: u128) -> Self { Box::new(T::nth(i)) }
    fn code(&self, out: &mut String) { (**self).code(out) }
    fn same(&self, o: &Self) -> bool { (**self).same(o) }
}
pub const fn pow(b: u128, n: usize) -> u128 {
    let (mut r, mut i) = (1u128, 0);
    while i < n && r != 0 && b != 1 {
        r = r.saturating_mul(b);
        i += 1;
    }
    r
}
impl<T: Vals, const N: usize> Vals for [T; N] {
    const COUNT: u128 = pow(T::COUNT, N);
    fn ty() -> String { format!("{{\"k\":\"arr\",\"n\":{},\"e\":{}}}", N, T::ty()) }
    fn nth(mut i: u128) -> Self {
        let mut v = vec![];
        for _ in 0..N {
            v.push(T::nth(i % T::COUNT));
            i /= T::COUNT;
        }
        v.reverse();
        v.try_into().ok().expect("N values")
    }
    fn code(&self, out: &mut String) {
        out.push('[');
        for (n, x) in self.iter().enumerate() {
            if n > 0 { out.push(','); }
            x.code(out);
        }
        out.push(']');
    }
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
}
#[macro_export]
macro_rules! parts_code {
    ($o:ident) => { $o.push_str("[]") };
    ($o:ident, $x:expr $(, $y:expr)*) => {{
        $o.push('[');
        $crate::vals::Vals::code($x, $o);
        $( $o.push(','); $crate::vals::Vals::code($y, $o); )*
        $o.push(']');
    }};
}
macro_rules! tuples {
    ($($T:ident $x:ident),*) => {
        impl<$($T: Vals),*> Vals for ($($T,)*) {
            const COUNT: u128 = 1u128 $(.saturating_mul($T::COUNT))*;
            fn ty() -> String { prod(&[$($T::ty()),*]) }
            #[allow(unused_mut, unused_variables, unused_assignments)]
            fn nth(mut i: u128) -> Self {
                let mut rest = Self::COUNT;
                $( rest /= $T::COUNT; let $x = $T::nth(i / rest); i %= rest; )*
                ($($x,)*)
            }
            fn code(&self, o: &mut String) {
                #[allow(unused_variables)]
                let ($($x,)*) = self;
                parts_code!(o $(, $x)*)
            }
            #[allow(unused_variables, non_snake_case)]
            fn same(&self, o: &Self) -> bool {
                let ($($x,)*) = self;
                let ($($T,)*) = o;
                true $(&& $x.same($T))*
            }
        }
    };
}
tuples!();
tuples!(A a);
tuples!(A a, B b);
tuples!(A a, B b, C c);
tuples!(A a, B b, C c, D d);
tuples!(A a, B b, C c, D d, E e);
tuples!(A a, B b, C c, D d, E e, F f);
tuples!(A a, B b, C c, D d, E e, F f, G g);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k, L l);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k, L l, M m);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k, L l, M m, N n);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k, L l, M m, N n, O o0);
tuples!(A a, B b, C c, D d, E e, F f, G g, H h, I i0, J j, K k, L l, M m, N n, O o0, P p);
