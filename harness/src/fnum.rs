//! Doubles whose arithmetic is uninterpreted: signs, comparisons and the selection of operands are exact,
//! the value of an operation is any function of its operands. What holds for these holds for doubles.
#![cfg(kani)]
use std::ops::*;

#[derive(Clone, Copy, Debug)]
pub struct F(pub f64);

extern "C" {
    fn uf_add(a: u64, b: u64) -> u64;
    fn uf_mul(a: u64, b: u64) -> u64;
    fn uf_div(a: u64, b: u64) -> u64;
    fn uf_rem(a: u64, b: u64) -> u64;
    fn uf_powf(a: u64, b: u64) -> u64;
    fn uf_hypot(a: u64, b: u64) -> u64;
    fn uf_exp(a: u64) -> u64;
    fn uf_ln(a: u64) -> u64;
    fn uf_log10(a: u64) -> u64;
    fn uf_log2(a: u64) -> u64;
    fn uf_sqrt(a: u64) -> u64;
    fn uf_exp2(a: u64) -> u64;
    fn uf_floor(a: u64) -> u64;
    fn uf_ceil(a: u64) -> u64;
    fn uf_round(a: u64) -> u64;
    fn uf_trunc(a: u64) -> u64;
    fn uf_sin(a: u64) -> u64;
    fn uf_cos(a: u64) -> u64;
    fn uf_tan(a: u64) -> u64;
    fn uf_exp_m1(a: u64) -> u64;
    fn uf_ln_1p(a: u64) -> u64;
}
const SIGN: u64 = 1 << 63;
impl F {
    pub const INFINITY: F = F(f64::INFINITY);
    pub const NEG_INFINITY: F = F(f64::NEG_INFINITY);
    pub const NAN: F = F(f64::NAN);
    pub const EPSILON: F = F(f64::EPSILON);
    pub const MAX: F = F(f64::MAX);
    pub const MIN: F = F(f64::MIN);
    pub const MIN_POSITIVE: F = F(f64::MIN_POSITIVE);
    pub const fn lit(x: f64) -> F {
        F(x)
    }
    pub fn any() -> F {
        F(f64::from_bits(kani::any()))
    }
    /// One pattern for all NaNs, which no operation tells apart.
    fn key(self) -> u64 {
        let b = self.0.to_bits();
        if b & !SIGN > 0x7ff0_0000_0000_0000 { 0x7ff8_0000_0000_0000 } else { b }
    }
    fn raw(b: u64) -> F {
        F(f64::from_bits(b))
    }
    /// Same number (or both NaN).
    pub fn same(self, o: F) -> bool {
        let (a, b) = (self.key(), o.key());
        a == b || (a | b) & !SIGN == 0
    }
    pub fn is_nan(self) -> bool {
        self.key() & !SIGN > 0x7ff0_0000_0000_0000
    }
    pub fn is_infinite(self) -> bool {
        self.key() & !SIGN == 0x7ff0_0000_0000_0000
    }
    pub fn is_finite(self) -> bool {
        self.key() & !SIGN < 0x7ff0_0000_0000_0000
    }
    pub fn is_sign_negative(self) -> bool {
        self.0.to_bits() & SIGN != 0
    }
    pub fn is_sign_positive(self) -> bool {
        !self.is_sign_negative()
    }
    pub fn abs(self) -> F {
        F::raw(self.0.to_bits() & !SIGN)
    }
    pub fn signum(self) -> F {
        if self.is_nan() { self } else if self.is_sign_negative() { F(-1.0) } else { F(1.0) }
    }
    pub fn max(self, o: F) -> F {
        if self.is_nan() { o } else if o.is_nan() { self } else if self.0 > o.0 { self } else { o }
    }
    pub fn min(self, o: F) -> F {
        if self.is_nan() { o } else if o.is_nan() { self } else if self.0 < o.0 { self } else { o }
    }
    pub fn clamp(self, lo: F, hi: F) -> F {
        assert!(lo.0 <= hi.0);
        if self.0 < lo.0 { lo } else if self.0 > hi.0 { hi } else { self }
    }
    pub fn powf(self, e: F) -> F {
        F::raw(unsafe { uf_powf(self.key(), e.key()) })
    }
    pub fn hypot(self, o: F) -> F {
        F::raw(unsafe { uf_hypot(self.key(), o.key()) })
    }
    pub fn recip(self) -> F {
        F(1.0) / self
    }
    pub fn total_cmp(&self, o: &F) -> std::cmp::Ordering {
        self.0.total_cmp(&o.0)
    }
}
macro_rules! unary { ($($f:ident $u:ident),*) => { impl F { $(pub fn $f(self) -> F {
    F::raw(unsafe { $u(self.key()) })
})* } } }
unary!(exp uf_exp, ln uf_ln, log10 uf_log10, log2 uf_log2, sqrt uf_sqrt, exp2 uf_exp2, floor uf_floor, ceil uf_ceil,
    round uf_round, trunc uf_trunc, sin uf_sin, cos uf_cos, tan uf_tan, exp_m1 uf_exp_m1, ln_1p uf_ln_1p);
impl PartialEq for F {
    fn eq(&self, o: &F) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for F {
    fn partial_cmp(&self, o: &F) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
    fn lt(&self, o: &F) -> bool {
        self.0 < o.0
    }
    fn le(&self, o: &F) -> bool {
        self.0 <= o.0
    }
    fn gt(&self, o: &F) -> bool {
        self.0 > o.0
    }
    fn ge(&self, o: &F) -> bool {
        self.0 >= o.0
    }
}
impl Neg for F {
    type Output = F;
    fn neg(self) -> F {
        F::raw(self.0.to_bits() ^ SIGN)
    }
}
impl Add for F {
    type Output = F;
    fn add(self, o: F) -> F {
        if self.is_nan() || o.is_nan() {
            return F::NAN;
        }
        let (a, b) = (self.key(), o.key());
        F::raw(unsafe { if a <= b { uf_add(a, b) } else { uf_add(b, a) } })
    }
}
impl Sub for F {
    type Output = F;
    fn sub(self, o: F) -> F {
        self + -o
    }
}
/// Signs and magnitudes of products and quotients are independent.
fn signed(r: u64, a: u64, b: u64) -> F {
    F::raw((r & !SIGN) | ((a ^ b) & SIGN))
}
impl Mul for F {
    type Output = F;
    fn mul(self, o: F) -> F {
        if self.is_nan() || o.is_nan() {
            return F::NAN;
        }
        let (a, b) = (self.key(), o.key());
        let (x, y) = (a & !SIGN, b & !SIGN);
        signed(unsafe { if x <= y { uf_mul(x, y) } else { uf_mul(y, x) } }, a, b)
    }
}
impl Div for F {
    type Output = F;
    fn div(self, o: F) -> F {
        if self.is_nan() || o.is_nan() {
            return F::NAN;
        }
        let (a, b) = (self.key(), o.key());
        signed(unsafe { uf_div(a & !SIGN, b & !SIGN) }, a, b)
    }
}
impl Rem for F {
    type Output = F;
    fn rem(self, o: F) -> F {
        F::raw(unsafe { uf_rem(self.key(), o.key()) })
    }
}
macro_rules! assign { ($($t:ident $f:ident $op:tt),*) => { $(impl $t for F {
    fn $f(&mut self, o: F) {
        *self = *self $op o
    }
})* } }
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /);
