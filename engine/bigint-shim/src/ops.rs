use crate::engine::engine;
use crate::val::{c, s, BigInt, Repr};
use num_traits::Zero;
use real::BigInt as BI;
use std::iter::{Product, Sum};
use std::ops::*;

fn add(a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(x + y);
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().add(x, y);
    s(r)
}
fn sub(a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(x - y);
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().sub(x, y);
    s(r)
}
fn mul(a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(x * y);
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().mul(x, y);
    s(r)
}
fn div(a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(x / y);
    }
    if b.is_zero() {
        panic!("attempt to divide by zero");
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().div(x, y);
    s(r)
}
fn rem(a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(x % y);
    }
    if b.is_zero() {
        panic!("attempt to divide by zero");
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().rem(x, y);
    s(r)
}
fn bitop(w: u8, a: &BigInt, b: &BigInt) -> BigInt {
    if let (Some(x), Some(y)) = (a.conc(), b.conc()) {
        return c(match w {
            0 => x & y,
            1 => x | y,
            _ => x.clone() ^ y,
        });
    }
    let (x, y) = (a.id(), b.id());
    let r = engine().bitop(w, x, y);
    s(r)
}
fn bitand(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(0, a, b)
}
fn bitor(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(1, a, b)
}
fn bitxor(a: &BigInt, b: &BigInt) -> BigInt {
    bitop(2, a, b)
}

macro_rules! binop { ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
    impl $tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(&self, &o) } }
    impl<'a> $tr<&'a BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(&self, o) } }
    impl<'a> $tr<BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(self, &o) } }
    impl<'a, 'b> $tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(self, o) } }
    impl $tra<BigInt> for BigInt { fn $ma(&mut self, o: BigInt) { *self = $f(self, &o) } }
    impl<'a> $tra<&'a BigInt> for BigInt { fn $ma(&mut self, o: &BigInt) { *self = $f(self, o) } }
    binop!(@prim $tr $m $tra $ma $f; u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize);
};
(@prim $tr:ident $m:ident $tra:ident $ma:ident $f:ident; $($t:ty)*) => { $(
    impl $tr<$t> for BigInt { type Output = BigInt; fn $m(self, o: $t) -> BigInt { $f(&self, &BigInt::from(o)) } }
    impl<'a> $tr<$t> for &'a BigInt { type Output = BigInt; fn $m(self, o: $t) -> BigInt { $f(self, &BigInt::from(o)) } }
    impl $tr<BigInt> for $t { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(&BigInt::from(self), &o) } }
    impl<'a> $tr<&'a BigInt> for $t { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(&BigInt::from(self), o) } }
    impl $tra<$t> for BigInt { fn $ma(&mut self, o: $t) { *self = $f(self, &BigInt::from(o)) } }
)* } }
binop!(Add, add, AddAssign, add_assign, add);
binop!(Sub, sub, SubAssign, sub_assign, sub);
binop!(Mul, mul, MulAssign, mul_assign, mul);
binop!(Div, div, DivAssign, div_assign, div);
binop!(Rem, rem, RemAssign, rem_assign, rem);

macro_rules! bitop { ($tr:ident, $m:ident, $tra:ident, $ma:ident, $f:ident) => {
    impl $tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(&self, &o) } }
    impl<'a> $tr<&'a BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(&self, o) } }
    impl<'a> $tr<BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(self, &o) } }
    impl<'a, 'b> $tr<&'b BigInt> for &'a BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(self, o) } }
    impl $tra<BigInt> for BigInt { fn $ma(&mut self, o: BigInt) { *self = $f(self, &o) } }
    impl<'a> $tra<&'a BigInt> for BigInt { fn $ma(&mut self, o: &BigInt) { *self = $f(self, o) } }
} }
bitop!(BitAnd, bitand, BitAndAssign, bitand_assign, bitand);
bitop!(BitOr, bitor, BitOrAssign, bitor_assign, bitor);
bitop!(BitXor, bitxor, BitXorAssign, bitxor_assign, bitxor);

fn shl(a: &BigInt, k: usize) -> BigInt {
    match &a.0 {
        Repr::C(n) => c(n << k),
        Repr::S(i) => {
            let r = engine().shl(*i, k);
            s(r)
        }
    }
}
fn shr(a: &BigInt, k: usize) -> BigInt {
    match &a.0 {
        Repr::C(n) => c(n >> k),
        Repr::S(i) => {
            let r = engine().shr(*i, k);
            s(r)
        }
    }
}
macro_rules! shifts { ($($t:ty)*) => { $(
    impl Shl<$t> for BigInt { type Output = BigInt; fn shl(self, k: $t) -> BigInt { shl(&self, k as usize) } }
    impl<'a> Shl<$t> for &'a BigInt { type Output = BigInt; fn shl(self, k: $t) -> BigInt { shl(self, k as usize) } }
    impl Shr<$t> for BigInt { type Output = BigInt; fn shr(self, k: $t) -> BigInt { shr(&self, k as usize) } }
    impl<'a> Shr<$t> for &'a BigInt { type Output = BigInt; fn shr(self, k: $t) -> BigInt { shr(self, k as usize) } }
    impl ShlAssign<$t> for BigInt { fn shl_assign(&mut self, k: $t) { *self = shl(self, k as usize) } }
    impl ShrAssign<$t> for BigInt { fn shr_assign(&mut self, k: $t) { *self = shr(self, k as usize) } }
)* } }
// exactly what the real crate offers, so that untyped literals keep inferring to usize
shifts!(usize);

impl Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        sub(&c(BI::zero()), &self)
    }
}
impl<'a> Neg for &'a BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        sub(&c(BI::zero()), self)
    }
}
impl Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        sub(&c(BI::from(-1)), &self)
    }
}
impl<'a> Not for &'a BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        sub(&c(BI::from(-1)), self)
    }
}
impl Sum for BigInt {
    fn sum<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(c(BI::zero()), |a, b| a + b)
    }
}
impl<'a> Sum<&'a BigInt> for BigInt {
    fn sum<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(c(BI::zero()), |a, b| a + b)
    }
}
impl Product for BigInt {
    fn product<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(c(BI::from(1)), |a, b| a * b)
    }
}
impl<'a> Product<&'a BigInt> for BigInt {
    fn product<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(c(BI::from(1)), |a, b| a * b)
    }
}
