use crate::engine::{self, engine};
use num_integer::Integer;
use num_traits::{FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
use real::{BigInt as BI, BigUint, ParseBigIntError, Sign};
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::str::FromStr;

#[derive(Clone)]
pub(crate) enum Repr {
    C(BI),
    S(u32),
}
#[derive(Clone)]
pub struct BigInt(pub(crate) Repr);

pub trait ModInverse<R: Sized>: Sized {
    type Output: Sized;
    fn mod_inverse(self, m: R) -> Option<Self::Output>;
}
pub trait ExtendedGcd<R: Sized>: Sized {
    fn extended_gcd(self, other: R) -> (BigInt, BigInt, BigInt);
}
pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
pub trait IntoBigInt {
    fn into_bigint(self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl IntoBigInt for BigInt {
    fn into_bigint(self) -> Option<BigInt> {
        Some(self)
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(BigInt::from(self.clone()))
    }
}

pub(crate) fn c(n: BI) -> BigInt {
    BigInt(Repr::C(n))
}
/// id -> value, folding constants
pub(crate) fn s(id: u32) -> BigInt {
    let e = engine();
    match e.as_const(id) {
        Some(n) => c(n),
        None => BigInt(Repr::S(id)),
    }
}

impl BigInt {
    pub(crate) fn conc(&self) -> Option<&BI> {
        match &self.0 {
            Repr::C(n) => Some(n),
            Repr::S(_) => None,
        }
    }
    pub(crate) fn id(&self) -> u32 {
        match &self.0 {
            Repr::C(n) => engine().konst(n),
            Repr::S(i) => *i,
        }
    }
    /// value with symbolic terms replaced by a concrete one (decides on its value)
    pub(crate) fn concretized(&self) -> BI {
        match &self.0 {
            Repr::C(n) => n.clone(),
            Repr::S(i) => engine().concretize(*i),
        }
    }
    /// representation used when the value leaves the program as text or bytes
    pub(crate) fn outward(&self) -> BI {
        match &self.0 {
            Repr::C(n) => n.clone(),
            Repr::S(i) => engine::token(*i),
        }
    }
    /// interpretation of numbers entering the program as text
    pub(crate) fn inward_text(n: BI) -> BigInt {
        if engine::symx_active() {
            if let Some(id) = engine::is_token(&n) {
                return s(id);
            }
            if let Some(l) = engine::is_literal(&n) {
                let id = engine().sym(l);
                return s(id);
            }
        }
        c(engine::map_prime(n))
    }
    pub(crate) fn inward_bytes(n: BI) -> BigInt {
        if engine::symx_active() {
            if let Some(id) = engine::is_token(&n) {
                return s(id);
            }
        }
        c(n)
    }

    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        c(BI::new(sign, digits))
    }
    pub fn from_biguint(sign: Sign, data: BigUint) -> BigInt {
        c(BI::from_biguint(sign, data))
    }
    pub fn from_slice(sign: Sign, slice: &[u32]) -> BigInt {
        c(BI::from_slice(sign, slice))
    }
    pub fn assign_from_slice(&mut self, sign: Sign, slice: &[u32]) {
        *self = BigInt::from_slice(sign, slice);
    }
    pub fn from_bytes_be(sign: Sign, bytes: &[u8]) -> BigInt {
        Self::inward_bytes(BI::from_bytes_be(sign, bytes))
    }
    pub fn from_bytes_le(sign: Sign, bytes: &[u8]) -> BigInt {
        Self::inward_bytes(BI::from_bytes_le(sign, bytes))
    }
    pub fn from_signed_bytes_be(b: &[u8]) -> BigInt {
        Self::inward_bytes(BI::from_signed_bytes_be(b))
    }
    pub fn from_signed_bytes_le(b: &[u8]) -> BigInt {
        Self::inward_bytes(BI::from_signed_bytes_le(b))
    }
    pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<BigInt> {
        BI::parse_bytes(buf, radix).map(Self::inward_text)
    }
    pub fn from_radix_be(sign: Sign, buf: &[u8], radix: u32) -> Option<BigInt> {
        BI::from_radix_be(sign, buf, radix).map(c)
    }
    pub fn from_radix_le(sign: Sign, buf: &[u8], radix: u32) -> Option<BigInt> {
        BI::from_radix_le(sign, buf, radix).map(c)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        self.outward().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        self.outward().to_bytes_le()
    }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> {
        self.outward().to_signed_bytes_be()
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        self.outward().to_signed_bytes_le()
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        self.outward().to_str_radix(radix)
    }
    pub fn to_radix_be(&self, radix: u32) -> (Sign, Vec<u8>) {
        self.concretized().to_radix_be(radix)
    }
    pub fn to_radix_le(&self, radix: u32) -> (Sign, Vec<u8>) {
        self.concretized().to_radix_le(radix)
    }
    pub fn sign(&self) -> Sign {
        match &self.0 {
            Repr::C(n) => n.sign(),
            Repr::S(i) => {
                let mut e = engine();
                let z = e.konst(&BI::zero());
                if e.lt(*i, z) {
                    Sign::Minus
                } else if e.eq(*i, z) {
                    Sign::NoSign
                } else {
                    Sign::Plus
                }
            }
        }
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        self.concretized().to_biguint()
    }
    pub fn bits(&self) -> usize {
        self.concretized().bits()
    }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        if v.is_zero() {
            None
        } else {
            Some(self / v)
        }
    }
    pub fn pow(&self, e: u32) -> BigInt {
        num_traits::pow(self.clone(), e as usize)
    }
    pub fn sqrt(&self) -> BigInt {
        c(self.concretized().sqrt())
    }
    pub fn gcd(&self, o: &BigInt) -> BigInt {
        c(Integer::gcd(&self.concretized(), &o.concretized()))
    }
    pub fn modpow(&self, exponent: &BigInt, modulus: &BigInt) -> BigInt {
        if let (Some(a), Some(b), Some(m)) = (self.conc(), exponent.conc(), modulus.conc()) {
            return c(a.modpow(b, m));
        }
        if exponent.is_negative() {
            panic!("negative exponentiation is not supported!");
        }
        if modulus.is_zero() {
            panic!("divide by zero!");
        }
        // The exponent decides the shape of the term: fork on its value.
        let e = exponent.concretized();
        let mut n = e.to_u64().expect("symx: exponent too large for a symbolic base");
        let mut acc = BigInt::from(1).mod_floor(modulus);
        let mut b = self.mod_floor(modulus);
        while n > 0 {
            if n & 1 == 1 {
                acc = (&acc * &b).mod_floor(modulus);
            }
            n >>= 1;
            if n > 0 {
                b = (&b * &b).mod_floor(modulus);
            }
        }
        acc
    }
    pub fn get_limb(&self, n: usize) -> u64 {
        ((self.concretized() >> (64 * n)) & BI::from(u64::MAX)).to_u64().unwrap_or(0)
    }
    fn inv_impl(&self, m: &BigInt) -> Option<BigInt> {
        use real::ModInverse as R;
        if let (Some(a), Some(b)) = (self.conc(), m.conc()) {
            return R::mod_inverse(a, b).map(c);
        }
        let mc = m.concretized();
        let mut e = engine();
        if mc == e.p {
            let id = match &self.0 {
                Repr::S(i) => *i,
                Repr::C(n) => e.konst(n),
            };
            if e.zero_mod_p(id) {
                return None;
            }
            let r = e.inv(id);
            drop(e);
            Some(s(r))
        } else {
            drop(e);
            R::mod_inverse(&self.concretized(), &mc).map(c)
        }
    }
    pub fn mod_floor(&self, m: &BigInt) -> BigInt {
        if let (Some(a), Some(b)) = (self.conc(), m.conc()) {
            return c(Integer::mod_floor(a, b));
        }
        let r = self % m;
        // sign of the divisor
        if m.is_positive() {
            if let Repr::S(i) = r.0 {
                let mut e = engine();
                if m.conc() == Some(&e.p) {
                    let id = e.residue(i);
                    drop(e);
                    return s(id);
                }
            }
            if r.is_negative() {
                r + m
            } else {
                r
            }
        } else if r.is_positive() {
            r + m
        } else {
            r
        }
    }
}

impl<'a> ModInverse<&'a BigInt> for BigInt {
    type Output = BigInt;
    fn mod_inverse(self, m: &'a BigInt) -> Option<BigInt> {
        self.inv_impl(m)
    }
}
impl<'a, 'b> ModInverse<&'b BigInt> for &'a BigInt {
    type Output = BigInt;
    fn mod_inverse(self, m: &'b BigInt) -> Option<BigInt> {
        self.inv_impl(m)
    }
}
impl<'a> ModInverse<&'a BigUint> for BigInt {
    type Output = BigInt;
    fn mod_inverse(self, m: &'a BigUint) -> Option<BigInt> {
        self.inv_impl(&BigInt::from(m.clone()))
    }
}
impl<'a, 'b> ExtendedGcd<&'b BigInt> for &'a BigInt {
    fn extended_gcd(self, o: &'b BigInt) -> (BigInt, BigInt, BigInt) {
        let (a, b, d) = real::ExtendedGcd::extended_gcd(&self.concretized(), &o.concretized());
        (c(a), c(b), c(d))
    }
}

impl PartialEq for BigInt {
    fn eq(&self, o: &BigInt) -> bool {
        match (&self.0, &o.0) {
            (Repr::C(a), Repr::C(b)) => a == b,
            _ => {
                let (a, b) = (self.id(), o.id());
                engine().eq(a, b)
            }
        }
    }
}
impl Eq for BigInt {}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &BigInt) -> bool {
        lt(self, o)
    }
    fn gt(&self, o: &BigInt) -> bool {
        lt(o, self)
    }
    fn le(&self, o: &BigInt) -> bool {
        !lt(o, self)
    }
    fn ge(&self, o: &BigInt) -> bool {
        !lt(self, o)
    }
}
fn lt(a: &BigInt, b: &BigInt) -> bool {
    match (&a.0, &b.0) {
        (Repr::C(x), Repr::C(y)) => x < y,
        _ => {
            let (x, y) = (a.id(), b.id());
            engine().lt(x, y)
        }
    }
}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        match (&self.0, &o.0) {
            (Repr::C(a), Repr::C(b)) => a.cmp(b),
            _ => {
                if lt(self, o) {
                    Ordering::Less
                } else if self == o {
                    Ordering::Equal
                } else {
                    Ordering::Greater
                }
            }
        }
    }
}
impl Hash for BigInt {
    fn hash<H: Hasher>(&self, st: &mut H) {
        if engine::symx_active() {
            0u8.hash(st)
        } else if let Repr::C(n) = &self.0 {
            n.hash(st)
        }
    }
}
impl Default for BigInt {
    fn default() -> BigInt {
        c(BI::zero())
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.outward(), f)
    }
}
macro_rules! fmts { ($($t:ident),*) => { $(
    impl fmt::$t for BigInt {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::$t::fmt(&self.outward(), f) }
    }
)* } }
fmts!(Display, Binary, Octal, LowerHex, UpperHex);

impl FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(t: &str) -> Result<BigInt, ParseBigIntError> {
        BI::from_str(t).map(BigInt::inward_text)
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(t: &str, radix: u32) -> Result<BigInt, ParseBigIntError> {
        BI::from_str_radix(t, radix).map(BigInt::inward_text)
    }
}
impl Zero for BigInt {
    fn zero() -> BigInt {
        c(BI::zero())
    }
    fn is_zero(&self) -> bool {
        match &self.0 {
            Repr::C(n) => n.is_zero(),
            _ => *self == BigInt::zero(),
        }
    }
}
impl One for BigInt {
    fn one() -> BigInt {
        c(BI::one())
    }
    fn is_one(&self) -> bool {
        *self == BigInt::one()
    }
}
impl Signed for BigInt {
    fn abs(&self) -> BigInt {
        if self.is_negative() {
            -self
        } else {
            self.clone()
        }
    }
    fn abs_sub(&self, o: &BigInt) -> BigInt {
        if self <= o {
            BigInt::zero()
        } else {
            self - o
        }
    }
    fn signum(&self) -> BigInt {
        match self.sign() {
            Sign::Plus => BigInt::from(1),
            Sign::Minus => BigInt::from(-1),
            Sign::NoSign => BigInt::from(0),
        }
    }
    fn is_positive(&self) -> bool {
        BigInt::zero() < *self
    }
    fn is_negative(&self) -> bool {
        *self < BigInt::zero()
    }
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        self.concretized().to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.concretized().to_u64()
    }
    fn to_i128(&self) -> Option<i128> {
        self.concretized().to_i128()
    }
    fn to_u128(&self) -> Option<u128> {
        self.concretized().to_u128()
    }
    fn to_f32(&self) -> Option<f32> {
        self.concretized().to_f32()
    }
    fn to_f64(&self) -> Option<f64> {
        self.concretized().to_f64()
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_i128(n: i128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_u128(n: u128) -> Option<BigInt> {
        Some(BigInt::from(n))
    }
    fn from_f64(n: f64) -> Option<BigInt> {
        BI::from_f64(n).map(c)
    }
}
macro_rules! froms { ($($t:ty),*) => { $(
    impl From<$t> for BigInt { fn from(n: $t) -> BigInt { c(BI::from(n)) } }
    impl ToBigInt for $t { fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) } }
)* } }
froms!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl From<BigUint> for BigInt {
    fn from(n: BigUint) -> BigInt {
        c(BI::from(n))
    }
}

impl Integer for BigInt {
    fn div_floor(&self, o: &BigInt) -> BigInt {
        self.div_mod_floor(o).0
    }
    fn mod_floor(&self, o: &BigInt) -> BigInt {
        BigInt::mod_floor(self, o)
    }
    fn gcd(&self, o: &BigInt) -> BigInt {
        BigInt::gcd(self, o)
    }
    fn lcm(&self, o: &BigInt) -> BigInt {
        c(Integer::lcm(&self.concretized(), &o.concretized()))
    }
    fn divides(&self, o: &BigInt) -> bool {
        self.is_multiple_of(o)
    }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        (self % o).is_zero()
    }
    fn is_even(&self) -> bool {
        (self % BigInt::from(2)).is_zero()
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) {
        (self / o, self % o)
    }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (d, r) = self.div_rem(o);
        let adjust = (r.is_positive() && o.is_negative()) || (r.is_negative() && o.is_positive());
        if adjust {
            (d - BigInt::from(1), r + o)
        } else {
            (d, r)
        }
    }
}
