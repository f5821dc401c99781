//! C04: constructors accept exactly the valid parameters (every double, NaN and infinities included).
use measures_distributions::*;
use symrt::*;

fn exactly(label: &str, ok: bool, valid: bool) {
    if valid {
        claim(&format!("{label}: valid parameters accepted"), ok);
    } else {
        claim(&format!("{label}: invalid parameters rejected"), !ok);
    }
}
fn positive() {
    let (m, s) = (sym_any("m"), sym_any("s"));
    exactly("normal", catching(|| Normal::new(m, s)).is_some(), s > 0.0);
    exactly("cauchy", catching(|| Cauchy::new(m, s)).is_some(), s > 0.0);
    exactly("student", catching(|| StudentT::new(s)).is_some(), s > 0.0);
    exactly("exponential", catching(|| Exponential::new(s)).is_some(), s > 0.0);
    exactly("chi-squared", catching(|| ChiSquared::new(s)).is_some(), s > 0.0);
    exactly("poisson", catching(|| Poisson::new(s)).is_some(), s > 0.0);
}
fn two_positive() {
    let (a, b) = (sym_any("a"), sym_any("b"));
    exactly("gamma", catching(|| Gamma::new(a, b)).is_some(), a > 0.0 && b > 0.0);
    exactly("beta", catching(|| Beta::new(a, b)).is_some(), a > 0.0 && b > 0.0);
}
fn probability() {
    let p = sym_any("p");
    exactly("bernoulli", catching(|| Bernoulli::new(p)).is_some(), p >= 0.0 && p <= 1.0);
    exactly("binomial", catching(|| Binomial::new(5, p)).is_some(), p >= 0.0 && p <= 1.0);
    exactly("geometric", catching(|| Geometric::new(p)).is_some(), p > 0.0 && p <= 1.0);
    exactly("negative binomial", catching(|| NegativeBinomial::new(3, p)).is_some(), p > 0.0 && p < 1.0);
}
fn failures() {
    let r = sym_u64("r", 0, u32::MAX as u64);
    exactly("negative binomial r", catching(|| NegativeBinomial::new(r, 0.5)).is_some(), r > 0);
}
fn stored() {
    let (a, b) = (sym_any("a"), sym_any("b"));
    if let Some(d) = catching(|| Normal::new(a, b)) {
        claim_bits("normal mean stored", d.mean, a);
        claim_bits("normal deviation stored", d.std_dev, b);
    }
    if let Some(d) = catching(|| Gamma::new(a, b)) {
        claim_bits("gamma shape stored", d.shape, a);
        claim_bits("gamma rate stored", d.rate, b);
    }
    if let Some(d) = catching(|| Beta::new(a, b)) {
        claim_bits("alpha stored", d.alpha, a);
        claim_bits("beta stored", d.beta, b);
    }
}
/// rejected: a negative or NaN entry, or a sum away from one; accepted: non-negative entries
/// that sum to one within 1e-10
fn categorical_two() {
    let (p, q) = (sym_any("p"), sym_any("q"));
    let sum: f64 = [p, q].iter().sum();
    exactly("categorical", catching(|| Categorical::new(vec![p, q])).is_some(), p >= 0.0 && q >= 0.0 && (sum - 1.0).abs() < 1e-10);
}
fn categorical_empty() {
    claim("no categories rejected", catching(|| Categorical::<f64>::new(vec![])).is_none());
    claim("no uniform categories rejected", catching(|| Categorical::<f64>::uniform(0)).is_none());
}

pub const S: &[Scenario] = &[
    ("C04.positive", positive),
    ("C04.two_positive", two_positive),
    ("C04.probability", probability),
    ("C04.failures", failures),
    ("C04.stored", stored),
    ("C04.categorical_two", categorical_two),
    ("C04.categorical_empty", categorical_empty),
];
