//! `Sc`: an f64 whose additions are scheduling points between reading and writing, so that unsynchronised
//! read-modify-write sequences lose updates under some schedule of the controlled scheduler.
use num_traits::{FromPrimitive, Num, One, Signed, Zero};
use simba::scalar::{ComplexField, Field, RealField, SubsetOf, SupersetOf};
use simba::simd::SimdValue;
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Default)]
pub struct Sc(pub f64);

impl std::fmt::Display for Sc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

impl Add for Sc {
    type Output = Sc;
    fn add(self, o: Sc) -> Sc {
        // the operands have been read; the caller writes the result later
        mcsched::yield_point();
        Sc(self.0 + o.0)
    }
}
impl AddAssign for Sc {
    fn add_assign(&mut self, o: Sc) {
        let v = unsafe { std::ptr::read_volatile(self) }.0;
        mcsched::yield_point();
        unsafe { std::ptr::write_volatile(self, Sc(v + o.0)) };
    }
}
impl Neg for Sc {
    type Output = Sc;
    fn neg(self) -> Sc {
        Sc(-self.0)
    }
}
impl Sub for Sc {
    type Output = Sc;
    fn sub(self, o: Sc) -> Sc {
        Sc(self.0 - o.0)
    }
}
impl SubAssign for Sc {
    fn sub_assign(&mut self, o: Sc) {
        self.0 -= o.0
    }
}
impl Mul for Sc {
    type Output = Sc;
    fn mul(self, o: Sc) -> Sc {
        Sc(self.0 * o.0)
    }
}
impl MulAssign for Sc {
    fn mul_assign(&mut self, o: Sc) {
        self.0 *= o.0
    }
}
impl Div for Sc {
    type Output = Sc;
    fn div(self, o: Sc) -> Sc {
        Sc(self.0 / o.0)
    }
}
impl DivAssign for Sc {
    fn div_assign(&mut self, o: Sc) {
        self.0 /= o.0
    }
}
impl Rem for Sc {
    type Output = Sc;
    fn rem(self, o: Sc) -> Sc {
        Sc(self.0 % o.0)
    }
}
impl RemAssign for Sc {
    fn rem_assign(&mut self, o: Sc) {
        self.0 %= o.0
    }
}
impl Zero for Sc {
    fn zero() -> Sc {
        Sc(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Sc {
    fn one() -> Sc {
        Sc(1.0)
    }
}
impl Num for Sc {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Sc)
    }
}
impl Signed for Sc {
    fn abs(&self) -> Sc {
        Sc(self.0.abs())
    }
    fn abs_sub(&self, o: &Sc) -> Sc {
        Sc((self.0 - o.0).max(0.0))
    }
    fn signum(&self) -> Sc {
        Sc(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0.0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0.0
    }
}
impl FromPrimitive for Sc {
    fn from_i64(n: i64) -> Option<Self> {
        Some(Sc(n as f64))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(Sc(n as f64))
    }
    fn from_f64(n: f64) -> Option<Self> {
        Some(Sc(n))
    }
}
impl SubsetOf<Sc> for Sc {
    fn to_superset(&self) -> Sc {
        *self
    }
    fn from_superset_unchecked(e: &Sc) -> Sc {
        *e
    }
    fn is_in_subset(_: &Sc) -> bool {
        true
    }
}
impl SupersetOf<f64> for Sc {
    fn is_in_subset(&self) -> bool {
        true
    }
    fn to_subset_unchecked(&self) -> f64 {
        self.0
    }
    fn from_subset(e: &f64) -> Sc {
        Sc(*e)
    }
}
impl SimdValue for Sc {
    type Element = Sc;
    type SimdBool = bool;
    fn lanes() -> usize {
        1
    }
    fn splat(v: Sc) -> Sc {
        v
    }
    fn extract(&self, _: usize) -> Sc {
        *self
    }
    unsafe fn extract_unchecked(&self, _: usize) -> Sc {
        *self
    }
    fn replace(&mut self, _: usize, v: Sc) {
        *self = v
    }
    unsafe fn replace_unchecked(&mut self, _: usize, v: Sc) {
        *self = v
    }
    fn select(self, c: bool, o: Sc) -> Sc {
        if c {
            self
        } else {
            o
        }
    }
}
impl Field for Sc {}
impl approx::AbsDiffEq for Sc {
    type Epsilon = Sc;
    fn default_epsilon() -> Sc {
        Sc(f64::EPSILON)
    }
    fn abs_diff_eq(&self, o: &Sc, e: Sc) -> bool {
        (self.0 - o.0).abs() <= e.0
    }
}
impl approx::RelativeEq for Sc {
    fn default_max_relative() -> Sc {
        Sc(f64::EPSILON)
    }
    fn relative_eq(&self, o: &Sc, e: Sc, r: Sc) -> bool {
        approx::RelativeEq::relative_eq(&self.0, &o.0, e.0, r.0)
    }
}
impl approx::UlpsEq for Sc {
    fn default_max_ulps() -> u32 {
        4
    }
    fn ulps_eq(&self, o: &Sc, e: Sc, m: u32) -> bool {
        approx::UlpsEq::ulps_eq(&self.0, &o.0, e.0, m)
    }
}
impl ComplexField for Sc {
    type RealField = Sc;
    fn is_finite(&self) -> bool {
        self.0.is_finite()
    }
    fn try_sqrt(self) -> Option<Sc> {
        ComplexField::try_sqrt(self.0).map(Sc)
    }
    fn from_real(re: Sc) -> Sc {
        re
    }
    fn sin_cos(self) -> (Sc, Sc) {
        let (a, b) = self.0.sin_cos();
        (Sc(a), Sc(b))
    }
    fn powi(self, n: i32) -> Sc {
        Sc(self.0.powi(n))
    }
    fn mul_add(self, a: Sc, b: Sc) -> Sc {
        Sc(ComplexField::mul_add(self.0, a.0, b.0))
    }
    fn real(self) -> Sc {
        Sc(ComplexField::real(self.0))
    }
    fn imaginary(self) -> Sc {
        Sc(ComplexField::imaginary(self.0))
    }
    fn modulus(self) -> Sc {
        Sc(ComplexField::modulus(self.0))
    }
    fn modulus_squared(self) -> Sc {
        Sc(ComplexField::modulus_squared(self.0))
    }
    fn argument(self) -> Sc {
        Sc(ComplexField::argument(self.0))
    }
    fn norm1(self) -> Sc {
        Sc(ComplexField::norm1(self.0))
    }
    fn floor(self) -> Sc {
        Sc(ComplexField::floor(self.0))
    }
    fn ceil(self) -> Sc {
        Sc(ComplexField::ceil(self.0))
    }
    fn round(self) -> Sc {
        Sc(ComplexField::round(self.0))
    }
    fn trunc(self) -> Sc {
        Sc(ComplexField::trunc(self.0))
    }
    fn fract(self) -> Sc {
        Sc(ComplexField::fract(self.0))
    }
    fn abs(self) -> Sc {
        Sc(ComplexField::abs(self.0))
    }
    fn recip(self) -> Sc {
        Sc(ComplexField::recip(self.0))
    }
    fn conjugate(self) -> Sc {
        Sc(ComplexField::conjugate(self.0))
    }
    fn sin(self) -> Sc {
        Sc(ComplexField::sin(self.0))
    }
    fn cos(self) -> Sc {
        Sc(ComplexField::cos(self.0))
    }
    fn tan(self) -> Sc {
        Sc(ComplexField::tan(self.0))
    }
    fn asin(self) -> Sc {
        Sc(ComplexField::asin(self.0))
    }
    fn acos(self) -> Sc {
        Sc(ComplexField::acos(self.0))
    }
    fn atan(self) -> Sc {
        Sc(ComplexField::atan(self.0))
    }
    fn sinh(self) -> Sc {
        Sc(ComplexField::sinh(self.0))
    }
    fn cosh(self) -> Sc {
        Sc(ComplexField::cosh(self.0))
    }
    fn tanh(self) -> Sc {
        Sc(ComplexField::tanh(self.0))
    }
    fn asinh(self) -> Sc {
        Sc(ComplexField::asinh(self.0))
    }
    fn acosh(self) -> Sc {
        Sc(ComplexField::acosh(self.0))
    }
    fn atanh(self) -> Sc {
        Sc(ComplexField::atanh(self.0))
    }
    fn log2(self) -> Sc {
        Sc(ComplexField::log2(self.0))
    }
    fn log10(self) -> Sc {
        Sc(ComplexField::log10(self.0))
    }
    fn ln(self) -> Sc {
        Sc(ComplexField::ln(self.0))
    }
    fn ln_1p(self) -> Sc {
        Sc(ComplexField::ln_1p(self.0))
    }
    fn sqrt(self) -> Sc {
        Sc(ComplexField::sqrt(self.0))
    }
    fn exp(self) -> Sc {
        Sc(ComplexField::exp(self.0))
    }
    fn exp2(self) -> Sc {
        Sc(ComplexField::exp2(self.0))
    }
    fn exp_m1(self) -> Sc {
        Sc(ComplexField::exp_m1(self.0))
    }
    fn cbrt(self) -> Sc {
        Sc(ComplexField::cbrt(self.0))
    }
    fn scale(self, o: Sc) -> Sc {
        Sc(ComplexField::scale(self.0, o.0))
    }
    fn unscale(self, o: Sc) -> Sc {
        Sc(ComplexField::unscale(self.0, o.0))
    }
    fn hypot(self, o: Sc) -> Sc {
        Sc(ComplexField::hypot(self.0, o.0))
    }
    fn log(self, o: Sc) -> Sc {
        Sc(ComplexField::log(self.0, o.0))
    }
    fn powf(self, o: Sc) -> Sc {
        Sc(ComplexField::powf(self.0, o.0))
    }
    fn powc(self, o: Sc) -> Sc {
        Sc(ComplexField::powc(self.0, o.0))
    }
}
impl RealField for Sc {
    fn is_sign_positive(&self) -> bool {
        self.0.is_sign_positive()
    }
    fn is_sign_negative(&self) -> bool {
        self.0.is_sign_negative()
    }
    fn clamp(self, a: Sc, b: Sc) -> Sc {
        Sc(RealField::clamp(self.0, a.0, b.0))
    }
    fn min_value() -> Option<Sc> {
        Some(Sc(f64::MIN))
    }
    fn max_value() -> Option<Sc> {
        Some(Sc(f64::MAX))
    }
    fn copysign(self, o: Sc) -> Sc {
        Sc(RealField::copysign(self.0, o.0))
    }
    fn max(self, o: Sc) -> Sc {
        Sc(RealField::max(self.0, o.0))
    }
    fn min(self, o: Sc) -> Sc {
        Sc(RealField::min(self.0, o.0))
    }
    fn atan2(self, o: Sc) -> Sc {
        Sc(RealField::atan2(self.0, o.0))
    }
    fn pi() -> Sc {
        Sc(<f64 as RealField>::pi())
    }
    fn two_pi() -> Sc {
        Sc(<f64 as RealField>::two_pi())
    }
    fn frac_pi_2() -> Sc {
        Sc(<f64 as RealField>::frac_pi_2())
    }
    fn frac_pi_3() -> Sc {
        Sc(<f64 as RealField>::frac_pi_3())
    }
    fn frac_pi_4() -> Sc {
        Sc(<f64 as RealField>::frac_pi_4())
    }
    fn frac_pi_6() -> Sc {
        Sc(<f64 as RealField>::frac_pi_6())
    }
    fn frac_pi_8() -> Sc {
        Sc(<f64 as RealField>::frac_pi_8())
    }
    fn frac_1_pi() -> Sc {
        Sc(<f64 as RealField>::frac_1_pi())
    }
    fn frac_2_pi() -> Sc {
        Sc(<f64 as RealField>::frac_2_pi())
    }
    fn frac_2_sqrt_pi() -> Sc {
        Sc(<f64 as RealField>::frac_2_sqrt_pi())
    }
    fn e() -> Sc {
        Sc(<f64 as RealField>::e())
    }
    fn log2_e() -> Sc {
        Sc(<f64 as RealField>::log2_e())
    }
    fn log10_e() -> Sc {
        Sc(<f64 as RealField>::log10_e())
    }
    fn ln_2() -> Sc {
        Sc(<f64 as RealField>::ln_2())
    }
    fn ln_10() -> Sc {
        Sc(<f64 as RealField>::ln_10())
    }
}
