//! C03: a point is in the support exactly when its log-density is not minus infinity.
use measures_combinators::measures::derived::*;
use measures_core::{HasLogDensity, Measure};
use measures_distributions::*;
use symrt::*;

fn agree<X: Clone, D: Measure<X> + HasLogDensity<X, f64>>(label: &str, d: &D, x: X) {
    let v = d.log_density_wrt_root(&x);
    let inside = d.in_support(x);
    if inside {
        claim_finite(&format!("{label}: inside, finite"), v);
    } else {
        claim_eq(&format!("{label}: outside, minus infinity"), v, f64::NEG_INFINITY);
    }
}
fn real_line() {
    let (m, s, x) = (sym("m"), sym_pos("s"), sym("x"));
    agree("normal", &Normal::new(m, s), x);
    agree("cauchy", &Cauchy::new(m, s), x);
    agree("student", &StudentT::new(s), x);
}
fn half_line() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym("x"));
    agree("exponential", &Exponential::new(a), x);
    agree("gamma", &Gamma::new(a, b), x);
    agree("chi-squared", &ChiSquared::new(a), x);
    claim("exponential supports zero", Exponential::new(a).in_support(0.0));
    claim("exponential excludes negatives", !(x < 0.0) || !Exponential::new(a).in_support(x));
    claim("gamma support", Gamma::new(a, b).in_support(x) == (x > 0.0));
    claim("chi-squared support", ChiSquared::new(a).in_support(x) == (x > 0.0));
}
fn interval() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym("x"));
    agree("beta", &Beta::new(a, b), x);
    claim("beta support", Beta::new(a, b).in_support(x) == (x > 0.0 && x < 1.0));
}
fn counts() {
    let p = sym_unit("p");
    let k = sym_u64("k", 0, 1_000_000);
    let n = sym_u64("n", 0, 1_000_000);
    agree("geometric", &Geometric::new(p), k);
    agree("binomial", &Binomial::new(n, p), k);
    claim("binomial support", Measure::<u64>::in_support(&Binomial::new(n, p), k) == (k <= n));
    claim("geometric support", Measure::<u64>::in_support(&Geometric::new(p), k) == (k >= 1));
    agree("binomial coefficients", &BinomialCoefficientMeasure::<f64>::new(n), k);
    claim("binomial coefficient support", BinomialCoefficientMeasure::<f64>::new(n).in_support(k) == (k <= n));
}
fn counts2() {
    let p = sym_unit("p");
    let r = sym_u64("r", 1, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    agree("negative binomial", &NegativeBinomial::new(r, p), k);
    agree("negative binomial coefficients", &NegativeBinomialCoefficientMeasure::<f64>::new(r), k);
    agree("factorial", &FactorialMeasure::<f64>::new(), k);
}
fn poisson() {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, 12);
    agree("poisson", &Poisson::new(l), k);
}
fn poisson_large() {
    let l = sym_pos("l");
    agree("poisson", &Poisson::new(l), [20u64, 21, 64, 100, 128, 170, 171, 172, 200, 256, 1000, 2000][pick("k", 12)]);
}
fn bits() {
    let p = sym_unit("p");
    for x in 0..=255u8 {
        agree(&format!("bernoulli {x}"), &Bernoulli::new(p), x);
        claim(&format!("bernoulli support {x}"), Bernoulli::new(p).in_support(x) == (x <= 1));
    }
}
fn categories() {
    let p = sym_unit("p");
    let q = sym_unit("q");
    assume(p + q < 1.0 - 1e-6);
    let d = Categorical::new(vec![p, q, 1.0 - p - q]);
    for k in 0..6usize {
        agree(&format!("categorical {k}"), &d, k);
        claim(&format!("categorical support {k}"), d.in_support(k) == (k < 3));
    }
}
/// outcomes of probability zero are outside the support
fn certain() {
    let p = [0.0, 1.0][pick("p", 2)];
    let n = sym_u64("n", 0, 1_000_000);
    let k = sym_u64("k", 0, 2_000_000);
    agree("binomial", &Binomial::new(n, p), k);
    agree("geometric", &Geometric::new(1.0), k);
    claim("geometric support", Measure::<u64>::in_support(&Geometric::new(1.0), k) == (k == 1));
    for x in 0..3u8 {
        agree(&format!("bernoulli {x}"), &Bernoulli::new(p), x);
        claim(&format!("bernoulli support {x}"), Bernoulli::new(p).in_support(x) == (x as f64 == p));
    }
    let q = sym_in("q", 0.0, 1.0);
    let i = pick("category", 3);
    let mut w = vec![q, 1.0 - q];
    w.insert(i, 0.0);
    let d = Categorical::new(w);
    for x in 0..5usize {
        agree(&format!("categorical {x}"), &d, x);
    }
    claim("categorical", !d.in_support(i));
}
fn dirac() {
    let (p, x) = (sym("p"), sym("x"));
    claim("only the point", Dirac::new(p).in_support(x) == (x == p));
    let (a, b) = (sym_u64("a", 0, 1000), sym_u64("b", 0, 1000));
    claim("only the integer", Dirac::new(a).in_support(b) == (a == b));
}
/// the expression of support for a weighted or integral measure is its base's
fn derived() {
    let (r, w, x) = (sym_pos("r"), sym("w"), sym("x"));
    agree("weighted", &WeightedMeasure::<_, f64, f64>::new(Exponential::new(r), w), x);
    agree("integral", &IntegralMeasure::new(Exponential::new(r), move |y: &f64| w - *y), x);
}
/// magnitudes far from one
fn wide() {
    let (m, s, t, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("t", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    agree("normal", &Normal::new(m, s), x);
    agree("cauchy", &Cauchy::new(m, s), x);
    agree("student", &StudentT::new(s), x);
    agree("exponential", &Exponential::new(s), x);
    agree("gamma", &Gamma::new(s, t), x);
    agree("chi-squared", &ChiSquared::new(s), x);
    agree("beta", &Beta::new(s, t), x);
    claim("exponential support", Exponential::new(s).in_support(x) == (x >= 0.0));
    claim("gamma support", Gamma::new(s, t).in_support(x) == (x > 0.0));
    claim("beta support", Beta::new(s, t).in_support(x) == (x > 0.0 && x < 1.0));
}

pub const S: &[Scenario] = &[
    ("C03.real_line", real_line),
    ("C03.half_line", half_line),
    ("C03.interval", interval),
    ("C03.counts", counts),
    ("C03.counts2", counts2),
    ("C03.poisson", poisson),
    ("C03.poisson_large", poisson_large),
    ("C03.bits", bits),
    ("C03.categories", categories),
    ("C03.certain", certain),
    ("C03.dirac", dirac),
    ("C03.derived", derived),
    ("C03.wide", wide),
];
