//! Textbook formulas, written independently of the code under test.
use std::f64::consts::PI;
use symrt::*;

pub fn ln2pi() -> f64 {
    (2.0 * PI).ln()
}
pub fn normal(m: f64, s: f64, x: f64) -> f64 {
    -((x - m) * (x - m)) / (2.0 * s * s) - s.ln() - 0.5 * ln2pi()
}
pub fn exponential(r: f64, x: f64) -> f64 {
    if x < 0.0 { f64::NEG_INFINITY } else { r.ln() - r * x }
}
pub fn gamma(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0.0 { f64::NEG_INFINITY } else { a * b.ln() + (a - 1.0) * x.ln() - b * x - lgamma(a) }
}
pub fn chisq(k: f64, x: f64) -> f64 {
    if x <= 0.0 {
        f64::NEG_INFINITY
    } else {
        (k / 2.0 - 1.0) * x.ln() - x / 2.0 - (k / 2.0) * (2.0f64).ln() - lgamma(k / 2.0)
    }
}
pub fn beta(a: f64, b: f64, x: f64) -> f64 {
    if x <= 0.0 || x >= 1.0 {
        f64::NEG_INFINITY
    } else {
        (a - 1.0) * x.ln() + (b - 1.0) * (1.0 - x).ln() - (lgamma(a) + lgamma(b) - lgamma(a + b))
    }
}
pub fn cauchy(l: f64, s: f64, x: f64) -> f64 {
    let z = (x - l) / s;
    -(PI * s * (1.0 + z * z)).ln()
}
pub fn student(nu: f64, x: f64) -> f64 {
    lgamma((nu + 1.0) / 2.0) - lgamma(nu / 2.0) - 0.5 * (nu * PI).ln() - (nu + 1.0) / 2.0 * (1.0 + x * x / nu).ln()
}
pub fn xln(k: f64, y: f64) -> f64 {
    // 0 ln 0 = 0
    if k == 0.0 { 0.0 } else { k * y.ln() }
}
pub fn lnfact(k: u64) -> f64 {
    let mut s = 0.0;
    for i in 2..=k {
        s += (i as f64).ln();
    }
    s
}
pub fn lnchoose(n: f64, k: f64) -> f64 {
    lgamma(n + 1.0) - lgamma(k + 1.0) - lgamma(n - k + 1.0)
}
