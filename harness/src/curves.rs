//! The built-in parametric curves: what they are documented to compute, and how they are evaluated.
use crate::sym::*;

#[cfg(kani)]
pub mod code {
    include!(env!("LCMS2_CURVES"));
}
#[cfg(kani)]
pub use crate::fnum::F as N;
#[cfg(kani)]
use code::{ParametricCurves, ParametricCurvesCollection};
#[cfg(not(kani))]
use lcms2::plugins::ParametricCurvesCollection;
#[cfg(not(kani))]
pub type N = f64;

/// Type and number of parameters of the built-in curves.
pub const CURVES: [(i32, usize); 10] = [(1, 1), (2, 3), (3, 4), (4, 5), (5, 7), (6, 4), (7, 5), (8, 5), (108, 1), (109, 1)];

#[cfg(kani)]
pub fn num() -> N {
    N::any()
}
#[cfg(not(kani))]
pub fn num() -> N {
    any()
}
pub const fn k(x: f64) -> N {
    #[cfg(kani)]
    return N::lit(x);
    #[cfg(not(kani))]
    return x;
}
#[cfg(kani)]
pub fn same(a: N, b: N) -> bool {
    a.same(b)
}
/// The same number, up to the rounding of another order of the same operations.
#[cfg(not(kani))]
pub fn same(a: N, b: N) -> bool {
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= 1e-9 * a.abs().min(b.abs())
}
/// Evaluates through a collection of curves, as users do.
pub fn eval(ty: i32, params: &[N], r: N) -> N {
    let t: ParametricCurvesCollection = vec![Default::default()];
    let v = (t[0].evaluator)(ty, params, r);
    std::mem::forget(t);
    v
}
/// Any parameters, and any argument.
pub fn input(ty: i32) -> ([N; 10], N) {
    let mut p = [k(0.0); 10];
    for x in p.iter_mut().take(7) {
        *x = num();
    }
    let r = num();
    #[cfg(not(kani))]
    let r = near(ty, &p, r);
    (p, r)
}
/// Natively the search also tries the arguments at which a formula changes.
#[cfg(not(kani))]
fn near(ty: i32, p: &[f64; 10], r: f64) -> f64 {
    let [a, b, c, d, e, f, g, ..] = *p;
    let x = match any::<u8>() % 16 {
        1 => -c / b,
        2 => e,
        3 => d,
        4 => d * e + g,
        5 => (b * e + c).powf(a),
        6 => f,
        7 => c,
        8 => 0.0,
        9 => 1.0,
        10 => a,
        11 => (0.0f64).max(-c / b),
        12 => 0.5,
        _ => r,
    };
    let _ = ty;
    match any::<u8>() % 8 {
        1 => x + 1e-3,
        2 => x - 1e-3,
        3 => -x,
        _ => x,
    }
}
/// Smaller is negligible.
fn tiny(x: N) -> bool {
    x.abs() < k(0.0001)
}
fn inv(x: N) -> N {
    k(1.0) / x
}

/// The documented formulas.
pub fn forward(ty: i32, p: &[N], x: N) -> N {
    let zero = k(0.0);
    match ty {
        // Y = X^g; a negative X is passed on by the identity only
        1 => {
            let g = p[0];
            if x < zero { if tiny(g - k(1.0)) { x } else { zero } } else { x.powf(g) }
        }
        // CIE 122-1966: Y = (aX + b)^g for X >= -b/a, else 0
        2 => {
            let (g, a, b) = (p[0], p[1], p[2]);
            if tiny(a) {
                return zero;
            }
            let base = a * x + b;
            if x >= -b / a && base > zero { base.powf(g) } else { zero }
        }
        // IEC 61966-3: Y = (aX + b)^g + c for X >= max(-b/a, 0), else c
        3 => {
            let (g, a, b, c) = (p[0], p[1], p[2], p[3]);
            if tiny(a) {
                return zero;
            }
            if x >= (-b / a).max(zero) {
                let base = a * x + b;
                if base > zero { base.powf(g) + c } else { zero }
            } else {
                c
            }
        }
        // IEC 61966-2.1: Y = (aX + b)^g for X >= d, else cX
        4 => {
            let (g, a, b, c, d) = (p[0], p[1], p[2], p[3], p[4]);
            if x >= d {
                let base = a * x + b;
                if base > zero { base.powf(g) } else { zero }
            } else {
                c * x
            }
        }
        // Y = (aX + b)^g + e for X >= d, else cX + f
        5 => {
            let (g, a, b, c, d, e, f) = (p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
            if x >= d {
                let base = a * x + b;
                if base > zero { base.powf(g) + e } else { e }
            } else {
                c * x + f
            }
        }
        // Y = (aX + b)^g + c
        6 => {
            let (g, a, b, c) = (p[0], p[1], p[2], p[3]);
            let base = a * x + b;
            if base < zero { c } else { base.powf(g) + c }
        }
        // Y = a log10(b X^g + c) + d
        7 => {
            let (g, a, b, c, d) = (p[0], p[1], p[2], p[3], p[4]);
            let e = b * x.powf(g) + c;
            if e <= zero { d } else { a * e.log10() + d }
        }
        // Y = a b^(cX + d) + e
        8 => {
            let (a, b, c, d, e) = (p[0], p[1], p[2], p[3], p[4]);
            a * b.powf(c * x + d) + e
        }
        // S-shaped: Y = (1 - (1 - X)^(1/g))^(1/g)
        108 => {
            let g = p[0];
            if tiny(g) { zero } else { (k(1.0) - (k(1.0) - x).powf(inv(g))).powf(inv(g)) }
        }
        // sigmoid through (0, 0) and (1, 1)
        109 => {
            let s = p[0];
            stretch(s) * logistic(s, k(2.0) * x - k(1.0)) + k(0.5)
        }
        _ => zero,
    }
}
fn logistic(s: N, t: N) -> N {
    k(1.0) / (k(1.0) + (-s * t).exp()) - k(0.5)
}
fn stretch(s: N) -> N {
    k(0.5) / logistic(s, k(1.0))
}
/// Their documented inverses.
pub fn reversed(ty: i32, p: &[N], y: N) -> N {
    let zero = k(0.0);
    match ty {
        1 => {
            let g = p[0];
            if y < zero {
                if tiny(g - k(1.0)) { y } else { zero }
            } else if tiny(g) {
                k(1e22)
            } else {
                y.powf(inv(g))
            }
        }
        // X = (Y^(1/g) - b) / a, not below 0
        2 => {
            let (g, a, b) = (p[0], p[1], p[2]);
            if tiny(g) || tiny(a) || y < zero {
                return zero;
            }
            let x = (y.powf(inv(g)) - b) / a;
            if x < zero { zero } else { x }
        }
        // X = ((Y - c)^(1/g) - b) / a for Y >= c, else -b/a
        3 => {
            let (g, a, b, c) = (p[0], p[1], p[2], p[3]);
            if tiny(a) {
                zero
            } else if y >= c {
                let e = y - c;
                if e > zero { (e.powf(inv(g)) - b) / a } else { zero }
            } else {
                -b / a
            }
        }
        // X = (Y^(1/g) - b) / a for Y >= (ad + b)^g, else Y/c
        4 => {
            let (g, a, b, c, d) = (p[0], p[1], p[2], p[3], p[4]);
            let e = a * d + b;
            let limit = if e < zero { zero } else { e.powf(g) };
            if y >= limit {
                if tiny(g) || tiny(a) { zero } else { (y.powf(inv(g)) - b) / a }
            } else if tiny(c) {
                zero
            } else {
                y / c
            }
        }
        // X = ((Y - e)^(1/g) - b) / a for Y >= cd + f, else (Y - f)/c
        5 => {
            let (g, a, b, c, d, e, f) = (p[0], p[1], p[2], p[3], p[4], p[5], p[6]);
            if y >= c * d + f {
                let base = y - e;
                if base < zero || tiny(g) || tiny(a) { zero } else { (base.powf(inv(g)) - b) / a }
            } else if tiny(c) {
                zero
            } else {
                (y - f) / c
            }
        }
        // X = ((Y - c)^(1/g) - b) / a
        6 => {
            let (g, a, b, c) = (p[0], p[1], p[2], p[3]);
            let base = y - c;
            if tiny(a) || base < zero { zero } else { (base.powf(inv(g)) - b) / a }
        }
        // X = ((10^((Y - d)/a) - c) / b)^(1/g)
        7 => {
            let (g, a, b, c, d) = (p[0], p[1], p[2], p[3], p[4]);
            if tiny(g) || tiny(a) || tiny(b) {
                return zero;
            }
            ((k(10.0).powf((y - d) / a) - c) / b).powf(inv(g))
        }
        // X = (log((Y - e)/a) / log(b) - d) / c
        8 => {
            let (a, b, c, d, e) = (p[0], p[1], p[2], p[3], p[4]);
            let base = y - e;
            if base < zero || tiny(a) || tiny(c) { zero } else { ((base / a).log10() / b.log10() - d) / c }
        }
        // X = 1 - (1 - Y^g)^g
        108 => {
            let g = p[0];
            k(1.0) - (k(1.0) - y.powf(g)).powf(g)
        }
        // the inverse of the sigmoid
        109 => {
            let s = p[0];
            let t = (y - k(0.5)) / stretch(s);
            let x = -(inv(t + k(0.5)) - k(1.0)).ln() / s;
            (x + k(1.0)) / k(2.0)
        }
        _ => zero,
    }
}
