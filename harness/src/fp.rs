//! A tiny prime field with run-time modulus (one monomorphization for all primes), implementing powdr's `FieldElement` trait, so that the *real* generic
//! code of powdr runs over fields that are small enough for TLC to enumerate exhaustively.
use num_traits::{ConstOne, ConstZero, One, Zero};
use powdr_number::{BigUint, FieldElement, KnownField, LargeInt};
use schemars::JsonSchema;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;
use std::ops::*;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Int(pub u64);
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, $o:tt) => {
        impl $t for Int {
            type Output = Int;
            fn $f(self, o: Int) -> Int {
                Int(self.0 $o o.0)
            }
        }
        impl $ta for Int {
            fn $fa(&mut self, o: Int) {
                *self = *self $o o;
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, +);
op!(Sub, sub, SubAssign, sub_assign, -);
op!(BitAnd, bitand, BitAndAssign, bitand_assign, &);
op!(BitOr, bitor, BitOrAssign, bitor_assign, |);
impl BitXor for Int {
    type Output = Int;
    fn bitxor(self, o: Int) -> Int {
        Int(self.0 ^ o.0)
    }
}
impl Shl<usize> for Int {
    type Output = Int;
    fn shl(self, o: usize) -> Int {
        Int(self.0 << o)
    }
}
impl Shr<usize> for Int {
    type Output = Int;
    fn shr(self, o: usize) -> Int {
        Int(self.0 >> o)
    }
}
impl Not for Int {
    type Output = Int;
    fn not(self) -> Int {
        Int(!self.0)
    }
}
impl From<u64> for Int {
    fn from(v: u64) -> Self {
        Int(v)
    }
}
impl From<u32> for Int {
    fn from(v: u32) -> Self {
        Int(v as u64)
    }
}
impl Zero for Int {
    fn zero() -> Self {
        Int(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl ConstZero for Int {
    const ZERO: Self = Int(0);
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::LowerHex for Int {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl LargeInt for Int {
    const MAX: Self = Int(u64::MAX);
    const NUM_BITS: usize = 64;
    fn to_arbitrary_integer(self) -> BigUint {
        self.0.into()
    }
    fn num_bits(&self) -> usize {
        64 - self.0.leading_zeros() as usize
    }
    fn one() -> Self {
        Int(1)
    }
    fn is_one(&self) -> bool {
        self.0 == 1
    }
    fn try_into_u64(&self) -> Option<u64> {
        Some(self.0)
    }
    fn try_into_u32(&self) -> Option<u32> {
        u32::try_from(self.0).ok()
    }
    fn from_hex(s: &str) -> Self {
        Int(u64::from_str_radix(s, 16).unwrap())
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fp(pub u64);

static MODULUS: AtomicU64 = AtomicU64::new(11);
/// Sets the modulus of the (process-global) tiny field.
pub fn set_p(p: u64) {
    MODULUS.store(p, Relaxed);
}
#[inline]
pub fn p() -> u64 {
    MODULUS.load(Relaxed)
}

impl Fp {
    pub fn new(v: u64) -> Self {
        Fp(v % p())
    }
    pub fn v(&self) -> u64 {
        self.0
    }
    fn inv(self) -> Self {
        assert!(self.0 != 0, "division by zero");
        let mut r = 1u64;
        let mut b = self.0;
        let mut e = p() - 2;
        while e > 0 {
            if e & 1 == 1 {
                r = r * b % p();
            }
            b = b * b % p();
            e >>= 1;
        }
        Fp(r)
    }
}
impl Add for Fp {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        Fp((self.0 + o.0) % p())
    }
}
impl Sub for Fp {
    type Output = Self;
    fn sub(self, o: Self) -> Self {
        Fp((self.0 + p() - o.0) % p())
    }
}
impl Mul for Fp {
    type Output = Self;
    fn mul(self, o: Self) -> Self {
        Fp(self.0 * o.0 % p())
    }
}
impl Div for Fp {
    type Output = Self;
    fn div(self, o: Self) -> Self {
        self * o.inv()
    }
}
impl Neg for Fp {
    type Output = Self;
    fn neg(self) -> Self {
        Fp((p() - self.0) % p())
    }
}
impl AddAssign for Fp {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o
    }
}
impl SubAssign for Fp {
    fn sub_assign(&mut self, o: Self) {
        *self = *self - o
    }
}
impl MulAssign for Fp {
    fn mul_assign(&mut self, o: Self) {
        *self = *self * o
    }
}
impl Zero for Fp {
    fn zero() -> Self {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Self {
        Fp(1)
    }
}
impl ConstZero for Fp {
    const ZERO: Self = Fp(0);
}
impl ConstOne for Fp {
    const ONE: Self = Fp(1);
}
impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.is_in_lower_half() {
            write!(f, "{}", self.0)
        } else {
            write!(f, "-{}", p() - self.0)
        }
    }
}
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::LowerHex for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.0, f)
    }
}
impl From<Int> for Fp {
    fn from(v: Int) -> Self {
        Fp(v.try_into_u64().unwrap() % p())
    }
}
impl From<BigUint> for Fp {
    fn from(v: BigUint) -> Self {
        Fp(u64::try_from(v).unwrap() % p())
    }
}
impl From<u32> for Fp {
    fn from(v: u32) -> Self {
        Fp(v as u64 % p())
    }
}
impl From<u64> for Fp {
    fn from(v: u64) -> Self {
        Fp(v % p())
    }
}
impl From<i32> for Fp {
    fn from(v: i32) -> Self {
        Fp((v as i64).rem_euclid(p() as i64) as u64)
    }
}
impl From<i64> for Fp {
    fn from(v: i64) -> Self {
        Fp(v.rem_euclid(p() as i64) as u64)
    }
}
impl From<bool> for Fp {
    fn from(v: bool) -> Self {
        Fp(v as u64)
    }
}
impl FromStr for Fp {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let n: u64 = s.parse().map_err(|e| format!("{e}"))?;
        if n >= p() {
            return Err("too large".into());
        }
        Ok(Fp(n))
    }
}
impl Serialize for Fp {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u64(self.0)
    }
}
impl<'de> Deserialize<'de> for Fp {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        Ok(Fp(u64::deserialize(d)? % p()))
    }
}
impl JsonSchema for Fp {
    fn schema_name() -> String {
        "Fp".into()
    }
    fn json_schema(g: &mut schemars::gen::SchemaGenerator) -> schemars::schema::Schema {
        u64::json_schema(g)
    }
}
impl FieldElement for Fp {
    type Integer = Int;
    const BITS: u32 = 8;
    fn to_degree(&self) -> u64 {
        self.0
    }
    fn to_integer(&self) -> Int {
        Int::from(self.0)
    }
    fn modulus() -> Int {
        Int::from(p())
    }
    fn pow(self, e: Int) -> Self {
        let mut r = Fp(1);
        for _ in 0..e.try_into_u64().unwrap() {
            r *= self;
        }
        r
    }
    fn to_bytes_le(&self) -> Vec<u8> {
        self.0.to_le_bytes().to_vec()
    }
    fn from_bytes_le(b: &[u8]) -> Self {
        let mut a = [0u8; 8];
        a[..b.len()].copy_from_slice(b);
        Fp(u64::from_le_bytes(a) % p())
    }
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, String> {
        let n = u64::from_str_radix(s, radix).map_err(|e| e.to_string())?;
        if n < p() {
            Ok(Fp(n))
        } else {
            Err("too large".into())
        }
    }
    fn checked_from(v: BigUint) -> Option<Self> {
        let v = u64::try_from(v).ok()?;
        (v < p()).then_some(Fp(v))
    }
    fn is_in_lower_half(&self) -> bool {
        self.0 <= (p() - 1) / 2
    }
    fn known_field() -> Option<KnownField> {
        None
    }
    fn has_direct_repr() -> bool {
        true
    }
}
