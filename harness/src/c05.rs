//! C05: the calculus of relative densities.
use measures_combinators::measures::derived::*;
use measures_core::{CountingMeasure, HasLogDensity, LebesgueMeasure, LogDensityBuilder};
use measures_distributions::*;
use symrt::*;

fn root<X: Clone, D: HasLogDensity<X, f64>>(d: &D, x: &X) -> f64 {
    d.log_density_wrt_root(x)
}

macro_rules! pair {
    ($label:expr, $a:expr, $b:expr, $x:expr) => {{
        let (a, b, x) = (&$a, &$b, $x);
        let l: &str = $label;
        let ab: f64 = a.log_density().wrt(b.clone()).at(&x);
        let ba: f64 = b.log_density().wrt(a.clone()).at(&x);
        let (ra, rb) = (root(a, &x), root(b, &x));
        claim_eq(&format!("{l}: difference of root densities"), ab, ra - rb);
        claim_eq(&format!("{l}: the other way round"), ba, rb - ra);
        (ab, ba)
    }};
}
fn normals() {
    let (m, s, n, t, x) = (sym("m"), sym_pos("s"), sym("n"), sym_pos("t"), sym("x"));
    let (ab, ba) = pair!("normals", Normal::new(m, s), Normal::new(n, t), x);
    claim_eq("antisymmetric", ab, -ba);
    let (z, w) = ((x - m) / s, (x - n) / t);
    claim_eq("value", ab, (t / s).ln() - 0.5 * (z * z - w * w));
    let c: f64 = Normal::new(m, s).log_density().wrt(Normal::new(m, s)).at(&x);
    claim_eq("relative to itself", c, 0.0);
}
fn normals_chain() {
    let (m, s, n, t, k, u, x) = (sym("m"), sym_pos("s"), sym("n"), sym_pos("t"), sym("k"), sym_pos("u"), sym("x"));
    let (a, b, c) = (Normal::new(m, s), Normal::new(n, t), Normal::new(k, u));
    let ab: f64 = a.log_density().wrt(b.clone()).at(&x);
    let bc: f64 = b.log_density().wrt(c.clone()).at(&x);
    let ac: f64 = a.log_density().wrt(c.clone()).at(&x);
    claim_eq("chain rule", ab + bc, ac);
}
fn mixed_families() {
    let (m, s, l, g, nu, x) = (sym("m"), sym_pos("s"), sym("l"), sym_pos("g"), sym_pos("nu"), sym("x"));
    pair!("normal, cauchy", Normal::new(m, s), Cauchy::new(l, g), x);
    pair!("cauchy, student", Cauchy::new(l, g), StudentT::new(nu), x);
    pair!("student, normal", StudentT::new(nu), Normal::new(m, s), x);
}
fn supports() {
    let (r, a, b, x) = (sym_pos("r"), sym_pos("a"), sym_pos("b"), sym("x"));
    let (e, g, be) = (Exponential::new(r), Gamma::new(a, b), Beta::new(a, b));
    let ge: f64 = g.log_density().wrt(e.clone()).at(&x);
    let bg: f64 = be.log_density().wrt(g.clone()).at(&x);
    let gb: f64 = g.log_density().wrt(be.clone()).at(&x);
    if x > 0.0 {
        claim_eq("gamma wrt exponential", ge, root(&g, &x) - root(&e, &x));
        if x >= 1.0 {
            claim_eq("outside the first support", bg, f64::NEG_INFINITY);
            claim_eq("outside the second support", gb, f64::INFINITY);
        } else {
            claim_eq("beta wrt gamma", bg, root(&be, &x) - root(&g, &x));
            claim_eq("beta wrt itself", { let v: f64 = be.log_density().wrt(be.clone()).at(&x); v }, 0.0);
        }
    } else if x == 0.0 {
        claim_eq("boundary", ge, f64::NEG_INFINITY);
    }
}
/// root measures on either side
fn lebesgue() {
    let (m, s, x) = (sym("m"), sym_pos("s"), sym("x"));
    let n = Normal::new(m, s);
    let l = LebesgueMeasure::<f64>::new();
    pair!("normal, lebesgue", n, l, x);
    let c = Cauchy::new(m, s);
    pair!("cauchy, lebesgue", c, l, x);
    claim_eq("lebesgue wrt itself", { let v: f64 = l.log_density().wrt(l.clone()).at(&x); v }, 0.0);
    claim_eq("lebesgue root density", root(&l, &x), 0.0);
}
fn counting() {
    let (p, l) = (sym_unit("p"), sym_pos("l"));
    let k = sym_u64("k", 1, 8);
    let g = Geometric::new(p);
    let po = Poisson::new(l);
    let c = CountingMeasure::<u64>::new();
    pair!("geometric, counting", g, c, k);
    pair!("poisson, counting", po, c, k);
    pair!("geometric, poisson", g, po, k);
    claim_eq("counting root density", root(&c, &k), 0.0);
}
fn discrete() {
    let (p, q) = (sym_unit("p"), sym_unit("q"));
    let n = sym_u64("n", 1, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    assume(k <= n);
    let (a, b) = (Binomial::new(n, p), Binomial::new(n, q));
    let (ab, _) = pair!("binomials", a, b, k);
    let (kf, nf) = (k as f64, n as f64);
    claim_eq("value", ab, kf * (p.ln() - q.ln()) + (nf - kf) * ((1.0 - p).ln() - (1.0 - q).ln()));
    for x in 0..2u8 {
        pair!(&format!("bernoullis at {x}"), Bernoulli::new(p), Bernoulli::new(q), x);
    }
}
/// bases that are themselves built from other measures
fn coefficient_bases() {
    let p = sym_unit("p");
    let n = sym_u64("n", 1, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    assume(k <= n);
    pair!("binomial, coefficients", Binomial::new(n, p), BinomialCoefficientMeasure::<f64>::new(n), k);
    pair!("negative binomial, coefficients", NegativeBinomial::new(n, p), NegativeBinomialCoefficientMeasure::<f64>::new(n), k);
}
fn factorial_bases() {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, 6);
    pair!("poisson, factorial", Poisson::new(l), FactorialMeasure::<f64>::new(), k);
    pair!("factorial, counting", FactorialMeasure::<f64>::new(), CountingMeasure::<u64>::new(), k);
}
/// parameters and points of any magnitude
fn wide() {
    let (m, s, n, t, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("n", -1e100, 1e100), sym_in("t", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    pair!("normals", Normal::new(m, s), Normal::new(n, t), x);
    pair!("cauchy, normal", Cauchy::new(m, s), Normal::new(n, t), x);
    pair!("student, cauchy", StudentT::new(s), Cauchy::new(n, t), x);
}
fn wide_positive() {
    let (a, b, c, x) = (sym_in("a", 1e-50, 1e9), sym_in("b", 1e-50, 1e9), sym_in("c", 1e-50, 1e9), sym_in("x", 1e-300, 1e100));
    pair!("exponentials", Exponential::new(a), Exponential::new(b), x);
    pair!("gamma, exponential", Gamma::new(a, b), Exponential::new(c), x);
    pair!("chi-squared, gamma", ChiSquared::new(c), Gamma::new(a, b), x);
    let y = sym_in("y", 1e-300, 1.0 - 1e-9);
    pair!("beta, gamma", Beta::new(a, b), Gamma::new(c, a), y);
    pair!("normal, beta", Normal::new(a, b), Beta::new(b, c), y);
}
fn wide_counts() {
    let (p, q) = (sym_in("p", 1e-300, 1.0 - 1e-9), sym_in("q", 1e-300, 1.0 - 1e-9));
    let n = sym_u64("n", 1, 1_000_000_000);
    let k = sym_u64("k", 0, 1_000_000_000);
    assume(k <= n);
    pair!("binomials of one size", Binomial::new(n, p), Binomial::new(n, q), k);
    pair!("binomials of two sizes", Binomial::new(n, p), Binomial::new(n + 3, q), k);
    pair!("negative binomials of two sizes", NegativeBinomial::new(n, p), NegativeBinomial::new(n + 3, q), k);
    pair!("geometric, negative binomial", Geometric::new(p), NegativeBinomial::new(n, q), k + 1);
    for x in 0..2u8 {
        pair!(&format!("bernoullis at {x}"), Bernoulli::new(p), Bernoulli::new(q), x);
    }
}
fn weighted_bases() {
    let (m, s, w, x) = (sym("m"), sym_pos("s"), sym("w"), sym("x"));
    let n = Normal::new(m, s);
    let wn = WeightedMeasure::<_, f64, f64>::new(n.clone(), w);
    let (ab, _) = pair!("weighted, base", wn, n, x);
    claim_eq("the weight", ab, w);
}

pub const S: &[Scenario] = &[
    ("C05.normals", normals),
    ("C05.normals_chain", normals_chain),
    ("C05.wide", wide),
    ("C05.wide_positive", wide_positive),
    ("C05.wide_counts", wide_counts),
    ("C05.mixed_families", mixed_families),
    ("C05.supports", supports),
    ("C05.lebesgue", lebesgue),
    ("C05.counting", counting),
    ("C05.discrete", discrete),
    ("C05.coefficient_bases", coefficient_bases),
    ("C05.factorial_bases", factorial_bases),
    ("C05.weighted_bases", weighted_bases),
];
