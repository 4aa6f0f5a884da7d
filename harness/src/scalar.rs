//! Element types the library is run on: f32, f64, and two operation-counting wrappers around them.
//!
//! The library is generic over `ndarray::NdFloat`, so a float type that counts its arithmetic
//! operations turns "does not terminate" into a deterministic, clock-free observation: the count
//! exceeds a budget.
use linfa_linalg::lobpcg::MagnitudeCorrection;
use ndarray::{NdFloat, ScalarOperand};
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::fmt;
use std::iter::Sum;
use std::num::FpCategory;
use std::ops::*;

thread_local! {
    static USED: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub const FUEL_MSG: &str = "FUEL-EXHAUSTED";

#[inline(always)]
fn tick() {
    USED.with(|u| {
        let v = u.get() + 1;
        u.set(v);
        if v & 0xfff == 0 {
            check(v);
        }
    })
}
#[cold]
#[inline(never)]
fn check(v: u64) {
    LIMIT.with(|l| {
        if v > l.get() {
            l.set(u64::MAX); // do not panic again while unwinding
            panic!("{} after {} floating-point operations", FUEL_MSG, v);
        }
    })
}
/// Reset the operation counter and set a budget.
pub fn set_fuel(limit: u64) {
    USED.with(|u| u.set(0));
    LIMIT.with(|l| l.set(limit));
}
pub fn fuel_used() -> u64 {
    USED.with(|u| u.get())
}

pub trait Sc: NdFloat + Sum + MagnitudeCorrection + Default {
    const NAME: &'static str;
    const EPS: f64;
    /// smallest positive normal
    const TINY: f64;
    /// smallest positive subnormal
    const QUANTUM: f64;
    const MAXEXP: i32;
    const MINEXP: i32;
    const COUNTING: bool;
    const IS32: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn bits(self) -> u64;
}

macro_rules! impl_plain {
    ($t:ident, $name:expr, $is32:expr, $q:expr, $maxe:expr, $mine:expr) => {
        impl Sc for $t {
            const NAME: &'static str = $name;
            const EPS: f64 = $t::EPSILON as f64;
            const TINY: f64 = $t::MIN_POSITIVE as f64;
            const QUANTUM: f64 = $q;
            const MAXEXP: i32 = $maxe;
            const MINEXP: i32 = $mine;
            const COUNTING: bool = false;
            const IS32: bool = $is32;
            #[inline]
            fn of(x: f64) -> Self {
                x as $t
            }
            #[inline]
            fn f(self) -> f64 {
                self as f64
            }
            #[inline]
            fn bits(self) -> u64 {
                self.to_bits() as u64
            }
        }
    };
}
impl_plain!(f64, "f64", false, 4.9406564584124654e-324, 1023, -1022);
impl_plain!(f32, "f32", true, 1.401298464324817e-45, 127, -126);

macro_rules! counting {
    ($c:ident, $t:ident, $name:expr) => {
        #[derive(Clone, Copy, PartialEq, PartialOrd, Default)]
        #[repr(transparent)]
        pub struct $c(pub $t);
        impl fmt::Debug for $c {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Debug::fmt(&self.0, f)
            }
        }
        impl fmt::Display for $c {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::Display::fmt(&self.0, f)
            }
        }
        impl fmt::LowerExp for $c {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::LowerExp::fmt(&self.0, f)
            }
        }
        impl fmt::UpperExp for $c {
            fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
                fmt::UpperExp::fmt(&self.0, f)
            }
        }
        counting!(@op $c, Add, add, AddAssign, add_assign);
        counting!(@op $c, Sub, sub, SubAssign, sub_assign);
        counting!(@op $c, Mul, mul, MulAssign, mul_assign);
        counting!(@op $c, Div, div, DivAssign, div_assign);
        counting!(@op $c, Rem, rem, RemAssign, rem_assign);
        impl Neg for $c {
            type Output = $c;
            #[inline]
            fn neg(self) -> $c {
                $c(-self.0)
            }
        }
        impl Zero for $c {
            fn zero() -> Self {
                $c(0.0)
            }
            #[inline]
            fn is_zero(&self) -> bool {
                tick();
                self.0 == 0.0
            }
        }
        impl One for $c {
            fn one() -> Self {
                $c(1.0)
            }
        }
        impl Sum for $c {
            fn sum<I: Iterator<Item = $c>>(it: I) -> $c {
                it.fold($c(0.0), |a, b| a + b)
            }
        }
        impl Num for $c {
            type FromStrRadixErr = <$t as Num>::FromStrRadixErr;
            fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
                <$t as Num>::from_str_radix(s, r).map($c)
            }
        }
        impl ToPrimitive for $c {
            fn to_i64(&self) -> Option<i64> {
                self.0.to_i64()
            }
            fn to_u64(&self) -> Option<u64> {
                self.0.to_u64()
            }
            fn to_f32(&self) -> Option<f32> {
                self.0.to_f32()
            }
            fn to_f64(&self) -> Option<f64> {
                self.0.to_f64()
            }
        }
        impl NumCast for $c {
            fn from<N: ToPrimitive>(n: N) -> Option<Self> {
                <$t as NumCast>::from(n).map($c)
            }
        }
        impl ScalarOperand for $c {}
        impl NdFloat for $c {}
        impl MagnitudeCorrection for $c {
            fn correction() -> Self {
                $c(<$t as MagnitudeCorrection>::correction())
            }
        }
        impl Float for $c {
            fn nan() -> Self {
                $c($t::NAN)
            }
            fn infinity() -> Self {
                $c($t::INFINITY)
            }
            fn neg_infinity() -> Self {
                $c($t::NEG_INFINITY)
            }
            fn neg_zero() -> Self {
                $c(-0.0)
            }
            fn min_value() -> Self {
                $c($t::MIN)
            }
            fn min_positive_value() -> Self {
                $c($t::MIN_POSITIVE)
            }
            fn epsilon() -> Self {
                $c($t::EPSILON)
            }
            fn max_value() -> Self {
                $c($t::MAX)
            }
            fn is_nan(self) -> bool {
                self.0.is_nan()
            }
            fn is_infinite(self) -> bool {
                self.0.is_infinite()
            }
            fn is_finite(self) -> bool {
                self.0.is_finite()
            }
            fn is_normal(self) -> bool {
                self.0.is_normal()
            }
            fn classify(self) -> FpCategory {
                self.0.classify()
            }
            fn is_sign_positive(self) -> bool {
                self.0.is_sign_positive()
            }
            fn is_sign_negative(self) -> bool {
                self.0.is_sign_negative()
            }
            counting!(@un $c, $t, floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 to_degrees to_radians cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
            counting!(@bin $c, $t, powf log max min hypot atan2 copysign);
            fn abs_sub(self, o: Self) -> Self {
                $c((self.0 - o.0).max(0.0))
            }
            fn mul_add(self, a: Self, b: Self) -> Self {
                tick();
                $c(self.0.mul_add(a.0, b.0))
            }
            fn powi(self, n: i32) -> Self {
                tick();
                $c(self.0.powi(n))
            }
            fn sin_cos(self) -> (Self, Self) {
                let (a, b) = self.0.sin_cos();
                ($c(a), $c(b))
            }
            fn integer_decode(self) -> (u64, i16, i8) {
                Float::integer_decode(self.0)
            }
        }
        impl Sc for $c {
            const NAME: &'static str = $name;
            const EPS: f64 = <$t as Sc>::EPS;
            const TINY: f64 = <$t as Sc>::TINY;
            const QUANTUM: f64 = <$t as Sc>::QUANTUM;
            const MAXEXP: i32 = <$t as Sc>::MAXEXP;
            const MINEXP: i32 = <$t as Sc>::MINEXP;
            const COUNTING: bool = true;
            const IS32: bool = <$t as Sc>::IS32;
            #[inline]
            fn of(x: f64) -> Self {
                $c(x as $t)
            }
            #[inline]
            fn f(self) -> f64 {
                self.0 as f64
            }
            #[inline]
            fn bits(self) -> u64 {
                self.0.to_bits() as u64
            }
        }
    };
    (@op $c:ident, $tr:ident, $m:ident, $tra:ident, $ma:ident) => {
        impl $tr for $c {
            type Output = $c;
            #[inline]
            fn $m(self, o: $c) -> $c {
                tick();
                $c($tr::$m(self.0, o.0))
            }
        }
        impl $tra for $c {
            #[inline]
            fn $ma(&mut self, o: $c) {
                tick();
                $tra::$ma(&mut self.0, o.0)
            }
        }
    };
    (@un $c:ident, $t:ident, $($m:ident)*) => { $(
        #[inline]
        fn $m(self) -> Self {
            tick();
            $c($t::$m(self.0))
        }
    )* };
    (@bin $c:ident, $t:ident, $($m:ident)*) => { $(
        #[inline]
        fn $m(self, o: Self) -> Self {
            tick();
            $c($t::$m(self.0, o.0))
        }
    )* };
}
counting!(C64, f64, "f64/counting");
counting!(C32, f32, "f32/counting");
