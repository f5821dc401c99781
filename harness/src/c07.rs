//! C07 exponential-family form, C08 natural parameters, C09 independent samples, C12 moments.
use crate::spec;
use measures_combinators::measures::derived::factorial::log_factorial;
use measures_core::{DotProduct, HasLogDensity, Measure};
use measures_distributions::*;
use measures_exponential_family::*;
use symrt::*;

fn form<X, D, const N: usize>(label: &str, d: &D, x: X)
where
    X: Clone,
    D: ExponentialFamily<X, f64, NaturalParam = [f64; N], SufficientStat = [f64; N]> + HasLogDensity<X, f64>,
    D::BaseMeasure: HasLogDensity<X, f64>,
    [f64; N]: DotProduct<[f64; N], Output = f64>,
{
    let want = d.log_density_wrt_root(&x);
    claim_eq(&format!("{label}: exponential-family form"), d.exp_fam_log_density(&x), want);
    claim_eq(&format!("{label}: helper"), compute_exp_fam_log_density(d, &x), want);
    let (eta, a) = d.natural_and_log_partition();
    let eta2 = d.to_natural();
    let t = d.sufficient_statistic(&x);
    let mut s = 0.0;
    for i in 0..N {
        s += eta[i] * t[i];
        claim_eq(&format!("{label}: natural parameter {i} agrees"), eta[i], eta2[i]);
    }
    claim_eq(&format!("{label}: log partition agrees"), a, d.log_partition());
    claim_eq(&format!("{label}: inner product form"), s - a + d.base_measure().log_density_wrt_root(&x), want);
}
fn normal() {
    let (m, s, x) = (sym("m"), sym_pos("s"), sym("x"));
    form("normal", &Normal::new(m, s), x);
}
fn stdnormal() {
    let x = sym("x");
    let d = StdNormal::<f64>::new();
    claim_eq("standard normal", d.exp_fam_log_density(&x), spec::normal(0.0, 1.0, x));
    claim_eq("standard normal, default", StdNormal::<f64>::default().exp_fam_log_density(&x), spec::normal(0.0, 1.0, x));
    claim("everywhere", d.in_support(x));
}
fn exponential() {
    let (r, x) = (sym_pos("r"), sym_in("x", 0.0, 1e6));
    form("exponential", &Exponential::new(r), x);
}
fn gamma() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym_in("x", 1e-9, 1e6));
    form("gamma", &Gamma::new(a, b), x);
}
fn chisq() {
    let (k, x) = (sym_pos("k"), sym_in("x", 1e-9, 1e6));
    form("chi-squared", &ChiSquared::new(k), x);
}
fn beta() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym_unit("x"));
    form("beta", &Beta::new(a, b), x);
}
fn bernoulli() {
    let p = sym_unit("p");
    for x in 0..2u8 {
        form(&format!("bernoulli {x}"), &Bernoulli::new(p), x);
    }
}
fn binomial() {
    let p = sym_unit("p");
    let n = sym_u64("n", 0, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    assume(k <= n);
    form("binomial", &Binomial::new(n, p), k);
}
fn geometric() {
    let p = sym_unit("p");
    let k = sym_u64("k", 1, 1_000_000);
    form("geometric", &Geometric::new(p), k);
}
fn negative_binomial() {
    let p = sym_unit("p");
    let r = sym_u64("r", 1, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    let d = NegativeBinomial::new(r, p);
    let v: f64 = d.exp_fam_log_density(&k);
    claim_eq("exponential-family form", v, d.log_density_wrt_root(&k));
}
/// what holds of it: the form is consistent, right at zero, and off by no more than the recorded deviation
fn negative_binomial_form() {
    let p = sym_unit("p");
    let r = sym_u64("r", 1, 60);
    let k = sym_u64("k", 0, 60);
    let d = NegativeBinomial::new(r, p);
    let v: f64 = d.exp_fam_log_density(&k);
    claim_eq("helper", compute_exp_fam_log_density(&d, &k), v);
    let ([eta], a) = d.natural_and_log_partition();
    let [t] = d.sufficient_statistic(&k);
    let [eta2] = d.to_natural();
    let b: f64 = d.base_measure().log_density_wrt_root(&k);
    claim_eq("inner product form", eta * t - a + b, v);
    claim_eq("natural parameter agrees", eta, eta2);
    claim_eq("log partition agrees", a, d.log_partition());
    let z: f64 = d.exp_fam_log_density(&0);
    claim_eq("at zero", z, d.log_density_wrt_root(&0));
    let off = v - d.log_density_wrt_root(&k);
    claim_eq_tol("right, or the recorded deviation", off * (off + (k as f64) * (1.0 - p).ln()), 0.0, 1e-5);
}
fn poisson_n(hi: u64) {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, hi);
    form("poisson", &Poisson::new(l), k);
}
fn poisson() {
    poisson_n(24)
}
/// parameters and points of any magnitude
fn wide() {
    let (m, s, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    form("normal", &Normal::new(m, s), x);
    let (a, b, y) = (sym_in("a", 1e-50, 1e50), sym_in("b", 1e-50, 1e50), sym_in("y", 1e-300, 1e100));
    form("exponential", &Exponential::new(a), y);
    form("gamma", &Gamma::new(a, b), y);
    form("chi-squared", &ChiSquared::new(a), y);
    form("beta", &Beta::new(a, b), sym_in("z", 1e-300, 1.0 - 1e-9));
}
fn wide_counts() {
    let p = sym_in("p", 1e-100, 1.0 - 1e-9);
    let n = sym_u64("n", 0, 1_000_000_000);
    let k = sym_u64("k", 0, 1_000_000_000);
    assume(k <= n);
    form("binomial", &Binomial::new(n, p), k);
    form("geometric", &Geometric::new(p), k + 1);
    for x in 0..2u8 {
        form(&format!("bernoulli {x}"), &Bernoulli::new(p), x);
    }
    form("poisson", &Poisson::new(sym_in("l", 1e-300, 1e100)), 4);
}
/// counts where implementations change their method
fn poisson_large() {
    let l = sym_pos("l");
    let k = [20u64, 21, 22, 30, 32, 33, 50, 64, 65, 100, 128, 129, 170, 171, 172, 200, 256, 257, 500, 1000, 1024][pick("k", 21)];
    form("poisson", &Poisson::new(l), k);
}
fn poisson_long() {
    poisson_n(60)
}
/// any count: the exponential-family form uses ln k! of the base measure
fn poisson_any() {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, 1_000_000);
    let d = Poisson::new(l);
    claim_eq("any count", d.exp_fam_log_density(&k), (k as f64) * l.ln() - l - log_factorial::<f64>(k));
}
fn categorical() {
    let (p, q) = (sym_unit("p"), sym_unit("q"));
    assume(p + q < 1.0 - 1e-6);
    let d = Categorical::new(vec![p, q, 1.0 - p - q]);
    for k in 0..5usize {
        let (a, b): (f64, f64) = (d.exp_fam_log_density(&k), d.log_density_wrt_root(&k));
        claim_eq(&format!("categorical at {k}"), a, b);
    }
    let d = Categorical::new(vec![p, 1.0 - p]);
    for k in 0..4usize {
        let (a, b): (f64, f64) = (d.exp_fam_log_density(&k), d.log_density_wrt_root(&k));
        claim_eq(&format!("two categories at {k}"), a, b);
    }
}

// ---- C08
fn same2(l: &str, a: [f64; 2], b: [f64; 2]) {
    claim_eq(&format!("{l}: first natural parameter"), a[0], b[0]);
    claim_eq(&format!("{l}: second natural parameter"), a[1], b[1]);
}
fn rt_normal() {
    let (m, s) = (sym("m"), sym_pos("s"));
    let d = Normal::new(m, s);
    let e = Normal::from_natural(d.to_natural());
    claim_eq("mean", e.mean, m);
    claim_eq("deviation", e.std_dev, s);
    same2("normal", e.to_natural(), d.to_natural());
    let eta = d.to_natural();
    claim_eq("eta1", eta[0], m / (s * s));
    claim_eq("eta2", eta[1], -1.0 / (2.0 * s * s));
    claim_eq("log partition", d.log_partition(), m * m / (2.0 * s * s) + s.ln() + 0.5 * spec::ln2pi());
}
fn rt_normal_free() {
    let (a, b) = (sym("a"), sym_in("b", -1e6, -1e-6));
    same2("normal from natural", Normal::from_natural([a, b]).to_natural(), [a, b]);
}
fn rt_positive() {
    let (a, b, c) = (sym_pos("a"), sym_pos("b"), sym_pos("c"));
    let d = Exponential::new(a);
    claim_eq("exponential", Exponential::from_natural(d.to_natural()).rate, a);
    claim_eq("exponential natural", d.to_natural()[0], -a);
    let g = Gamma::new(a, b);
    let h = Gamma::from_natural(g.to_natural());
    claim_eq("gamma shape", h.shape, a);
    claim_eq("gamma rate", h.rate, b);
    let g = Beta::new(a, b);
    let h = Beta::from_natural(g.to_natural());
    claim_eq("beta alpha", h.alpha, a);
    claim_eq("beta beta", h.beta, b);
    claim_eq("chi-squared", ChiSquared::from_natural(ChiSquared::new(c).to_natural()).degrees_of_freedom, c);
    claim_eq("poisson", Poisson::from_natural(Poisson::new(c).to_natural()).rate, c);
    claim_eq("poisson natural", Poisson::new(c).to_natural()[0], c.ln());
    claim_eq("poisson log partition", Poisson::new(c).log_partition(), c);
}
fn rt_probability() {
    let p = sym_unit("p");
    claim_eq("bernoulli", Bernoulli::from_natural(Bernoulli::new(p).to_natural()).prob, p);
    claim_eq("bernoulli natural", Bernoulli::new(p).to_natural()[0], p.ln() - (1.0 - p).ln());
    claim_eq("bernoulli log partition", Bernoulli::new(p).log_partition(), -(1.0 - p).ln());
    claim_eq("geometric", Geometric::from_natural(Geometric::new(p).to_natural()).prob, p);
    let n = sym_u64("n", 0, 1000);
    claim_eq("binomial natural", Binomial::new(n, p).to_natural()[0], p.ln() - (1.0 - p).ln());
    claim_eq("log odds", Binomial::new(n, p).log_odds(), p.ln() - (1.0 - p).ln());
    claim_eq("binomial log partition", Binomial::new(n, p).log_partition(), -(n as f64) * (1.0 - p).ln());
}
fn rt_eta() {
    let e = sym_in("eta", -600.0, 600.0);
    let d = catching(|| Poisson::from_natural([e]));
    if let Some(d) = d {
        claim_eq("poisson eta", d.to_natural()[0], e);
    } else {
        claim("poisson accepts every natural parameter", false);
    }
}
fn rt_eta_unit() {
    // (near one a probability keeps no more than its distance from one)
    let e = sym_in("eta", -600.0, 30.0);
    claim_eq("bernoulli eta", Bernoulli::from_natural([e]).to_natural()[0], e);
    let g = sym_in("g", -30.0, -1e-3);
    claim_eq("geometric eta", Geometric::from_natural([g]).to_natural()[0], g);
}
fn rt_categorical() {
    let (p, q) = (sym_unit("p"), sym_unit("q"));
    assume(p + q < 1.0 - 1e-6);
    let r = 1.0 - p - q;
    let d = Categorical::new(vec![p, q, r]);
    let eta = ExponentialFamily::<usize, f64>::to_natural(&d);
    claim("two natural parameters", eta.len() == 2);
    claim_eq("eta 0", eta[0], p.ln() - r.ln());
    claim_eq("eta 1", eta[1], q.ln() - r.ln());
    let e = <Categorical<f64> as ExponentialFamily<usize, f64>>::from_natural(eta);
    claim("three categories", e.probs.len() == 3);
    claim_eq("p", e.probs[0], p);
    claim_eq("q", e.probs[1], q);
    claim_eq("r", e.probs[2], r);
}
fn rt_categorical_eta() {
    let (a, b) = (sym_in("a", -250.0, 250.0), sym_in("b", -250.0, 250.0));
    let d = <Categorical<f64> as ExponentialFamily<usize, f64>>::from_natural(vec![a, b]);
    let eta = ExponentialFamily::<usize, f64>::to_natural(&d);
    claim_eq("eta 0", eta[0], a);
    claim_eq("eta 1", eta[1], b);
}

// ---- C09
fn iid_case<X, D>(label: &str, d: D, xs: &[X])
where
    X: Clone,
    D: ExponentialFamily<X, f64> + HasLogDensity<X, f64>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = f64>,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, f64> + Measure<X>,
{
    for n in 0..=xs.len() {
        iid_at(label, d.clone(), &xs[..n]);
    }
}
fn iid_at<X, D>(label: &str, d: D, v: &[X])
where
    X: Clone,
    D: ExponentialFamily<X, f64> + HasLogDensity<X, f64>,
    D::NaturalParam: DotProduct<D::SufficientStat, Output = f64>,
    D::SufficientStat: SumSufficientStats<D::SufficientStat>,
    D::BaseMeasure: HasLogDensity<X, f64> + Measure<X>,
{
    let n = v.len();
    let mut want = 0.0;
    for x in v {
        want += d.log_density_wrt_root(x);
    }
    let iid = d.clone().iid();
    let l = format!("{label}, {n} samples");
    claim_eq(&format!("{l}: iid"), iid.iid_log_density::<X, f64>(v), want);
    claim_eq(&format!("{l}: fallback"), iid.iid_log_density_fallback::<X, f64>(v), want);
    claim_eq(&format!("{l}: helper"), compute_iid_exp_fam_log_density(&d, v), want);
    let r: f64 = HasLogDensity::<Vec<X>, f64>::log_density_wrt_root(&iid, &v.to_vec());
    claim_eq(&format!("{l}: as a measure"), r, want);
}
/// larger samples: one scenario path per size
const MANY: [usize; 9] = [5, 7, 8, 9, 16, 17, 33, 65, 129];
fn many() -> usize {
    MANY[pick("size", MANY.len())]
}
fn some(n: usize, lo: f64, hi: f64) -> Vec<f64> {
    (0..n).map(|i| sym_in(&format!("x{i}"), lo, hi)).collect()
}
fn many_normal() {
    let n = many();
    iid_at("normal", Normal::new(sym("m"), sym_pos("s")), &some(n, -1e3, 1e3));
}
fn many_exponential() {
    let n = many();
    iid_at("exponential", Exponential::new(sym_pos("r")), &some(n, 0.0, 1e3));
}
fn many_gamma() {
    let n = many();
    iid_at("gamma", Gamma::new(sym_pos("a"), sym_pos("b")), &some(n, 1e-3, 1e3));
}
fn many_beta() {
    let n = many();
    iid_at("beta", Beta::new(sym_pos("a"), sym_pos("b")), &some(n, 1e-3, 0.999));
}
fn many_bernoulli() {
    let n = many();
    let p = sym_unit("p");
    for pattern in 0..4u64 {
        let v: Vec<u8> = (0..n as u64).map(|i| ((0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i + pattern + 1) >> 40) & 1) as u8 & (pattern > 0) as u8).collect();
        iid_at(&format!("bernoulli, pattern {pattern}"), Bernoulli::new(p), &v);
    }
}
fn many_counts() {
    let n = many();
    let v: Vec<u64> = (0..n as u64).map(|i| (0x9E37_79B9_7F4A_7C15u64.wrapping_mul(i + 1) >> 40) % 23).collect();
    iid_at("poisson", Poisson::new(sym_pos("l")), &v.iter().map(|k| if *k == 22 { 300 } else { *k }).collect::<Vec<_>>());
    iid_at("geometric", Geometric::new(sym_unit("p")), &v.iter().map(|k| k + 1).collect::<Vec<_>>());
    iid_at("binomial", Binomial::new(22 + n as u64, sym_unit("p")), &v);
}
fn xs3(lo: f64, hi: f64) -> Vec<f64> {
    (0..3).map(|i| sym_in(&format!("x{i}"), lo, hi)).collect()
}
fn iid_normal() {
    iid_case("normal", Normal::new(sym("m"), sym_pos("s")), &xs3(-1e6, 1e6));
}
fn iid_exponential() {
    iid_case("exponential", Exponential::new(sym_pos("r")), &xs3(0.0, 1e6));
}
fn iid_gamma() {
    iid_case("gamma", Gamma::new(sym_pos("a"), sym_pos("b")), &xs3(1e-9, 1e6));
}
fn iid_beta() {
    iid_case("beta", Beta::new(sym_pos("a"), sym_pos("b")), &xs3(1e-6, 0.999));
}
fn iid_chisq() {
    iid_case("chi-squared", ChiSquared::new(sym_pos("k")), &xs3(1e-9, 1e6));
}
fn iid_bernoulli() {
    let p = sym_unit("p");
    for c in 0..8u8 {
        iid_case(&format!("bernoulli {c}"), Bernoulli::new(p), &[c & 1, (c >> 1) & 1, (c >> 2) & 1]);
    }
}
fn ks(lo: u64, hi: u64, n: usize) -> Vec<u64> {
    (0..n).map(|i| sym_u64(&format!("k{i}"), lo, hi)).collect()
}
fn iid_geometric() {
    iid_case("geometric", Geometric::new(sym_unit("p")), &ks(1, 1_000_000, 3));
}
fn iid_poisson() {
    iid_case("poisson", Poisson::new(sym_pos("l")), &ks(0, 7, 2));
}
fn iid_binomial() {
    let n = sym_u64("n", 0, 1_000_000);
    let k = ks(0, 1_000_000, 2);
    for x in &k {
        assume(*x <= n);
    }
    iid_case("binomial", Binomial::new(n, sym_unit("p")), &k);
}
fn iid_support() {
    let (x, y) = (sym("x"), sym("y"));
    let d = Exponential::new(sym_pos("r"));
    let iid = d.clone().iid();
    claim("support is the product of supports", Measure::<Vec<f64>>::in_support(&iid, vec![x, y]) == (d.in_support(x) && d.in_support(y)));
    claim("the empty sample is in the support", Measure::<Vec<f64>>::in_support(&iid, vec![]));
}
/// two halves of a sample
fn iid_split() {
    let d = Normal::new(sym("m"), sym_pos("s"));
    let x: Vec<f64> = (0..4).map(|i| sym(&format!("x{i}"))).collect();
    let iid = d.iid();
    let f = |v: &[f64]| iid.iid_log_density::<f64, f64>(v);
    claim_eq("additive over a split", f(&x), f(&x[..1]) + f(&x[1..]));
    claim_eq("order does not matter", f(&x), f(&[x[3], x[1], x[0], x[2]]));
}
fn iid_natural() {
    let (m, s) = (sym("m"), sym_pos("s"));
    let d = Normal::new(m, s);
    let iid = d.clone().iid();
    let xs: Vec<f64> = (0..3).map(|i| sym(&format!("x{i}"))).collect();
    let t: [f64; 2] = ExponentialFamily::<Vec<f64>, f64>::sufficient_statistic(&iid, &xs);
    claim_eq("statistics add up", t[0], xs[0] + xs[1] + xs[2]);
    claim_eq("squares add up", t[1], xs[0] * xs[0] + xs[1] * xs[1] + xs[2] * xs[2]);
    let (e, f) = (ExponentialFamily::<Vec<f64>, f64>::to_natural(&iid), d.to_natural());
    same2("unchanged", e, f);
    let v = ExponentialFamily::<Vec<f64>, f64>::exp_fam_log_density(&iid, &xs);
    let mut w = 0.0;
    for x in &xs {
        let q: f64 = d.log_density_wrt_root(x);
        w += q;
    }
    claim_eq("family form", v, w);
}
fn iid_long() {
    let d = Normal::new(sym("m"), sym_pos("s"));
    let x: Vec<f64> = (0..9).map(|i| sym(&format!("x{i}"))).collect();
    iid_case("normal", d, &x);
}

// ---- C12
fn moments() {
    let (a, b) = (sym_pos("a"), sym_pos("b"));
    claim_eq("normal variance", Normal::new(a, b).variance(), b * b);
    claim_eq("normal params", Normal::new(a, b).params().0, a);
    claim_eq("normal params 2", Normal::new(a, b).params().1, b);
    claim_eq("exponential mean", Exponential::new(a).mean(), 1.0 / a);
    claim_eq("exponential variance", Exponential::new(a).variance(), 1.0 / (a * a));
    claim_eq("gamma mean", Gamma::new(a, b).mean(), a / b);
    claim_eq("gamma variance", Gamma::new(a, b).variance(), a / (b * b));
    claim_eq("gamma scale", Gamma::new(a, b).scale(), 1.0 / b);
    claim_eq("gamma from scale", Gamma::from_shape_scale(a, b).rate, 1.0 / b);
    claim_eq("beta mean", Beta::new(a, b).mean(), a / (a + b));
    claim_eq("beta variance", Beta::new(a, b).variance(), a * b / ((a + b) * (a + b) * (a + b + 1.0)));
    claim_eq("chi-squared mean", ChiSquared::new(a).mean(), a);
    claim_eq("chi-squared variance", ChiSquared::new(a).variance(), 2.0 * a);
    claim_eq("chi-squared as gamma mean", ChiSquared::new(a).shape() / ChiSquared::new(a).rate(), a);
    claim_eq("cauchy params", Cauchy::new(a, b).params().0, a);
    claim_eq("cauchy params 2", Cauchy::new(a, b).params().1, b);
    claim_eq("student params", StudentT::new(a).params(), a);
}
fn discrete_moments() {
    let p = sym_unit("p");
    let n = sym_u64("n", 1, 1_000_000);
    let nf = n as f64;
    let q = 1.0 - p;
    claim_eq("bernoulli mean", Bernoulli::new(p).mean(), p);
    claim_eq("bernoulli variance", Bernoulli::new(p).variance(), p * q);
    claim_eq("bernoulli log odds", Bernoulli::new(p).log_odds(), p.ln() - q.ln());
    claim_eq("binomial mean", Binomial::new(n, p).mean(), nf * p);
    claim_eq("binomial variance", Binomial::new(n, p).variance(), nf * p * q);
    claim_eq("geometric mean", Geometric::new(p).mean(), 1.0 / p);
    claim_eq("geometric variance", Geometric::new(p).variance(), q / (p * p));
    claim_eq("geometric failure", Geometric::new(p).failure_prob(), q);
    claim_eq("negative binomial mean", NegativeBinomial::new(n, p).mean(), nf * p / q);
    claim_eq("negative binomial variance", NegativeBinomial::new(n, p).variance(), nf * p / (q * q));
    claim_eq("negative binomial failure", NegativeBinomial::new(n, p).failure_prob(), q);
    claim_eq("negative binomial log odds", NegativeBinomial::new(n, p).log_odds(), p.ln() - q.ln());
}
/// moments against the probabilities themselves
fn moments_from_mass() {
    let p = sym_unit("p");
    for n in 1..=4u64 {
        let d = Binomial::new(n, p);
        let (mut m, mut v) = (0.0, 0.0);
        for k in 0..=n {
            let l: f64 = d.log_density_wrt_root(&k);
            m += (k as f64) * l.exp();
            v += ((k * k) as f64) * l.exp();
        }
        claim_eq(&format!("binomial {n}: mean of the probabilities"), m, d.mean());
        claim_eq(&format!("binomial {n}: variance of the probabilities"), v - m * m, d.variance());
    }
}
fn categorical_moments() {
    let (p, q) = (sym_unit("p"), sym_unit("q"));
    assume(p + q < 1.0 - 1e-6);
    let r = 1.0 - p - q;
    let d = Categorical::new(vec![p, q, r]);
    let m = q + 2.0 * r;
    claim_eq("categorical mean", d.mean(), m);
    claim_eq("categorical variance", d.variance(), q + 4.0 * r - m * m);
    claim("categories", d.num_categories() == 3);
}
/// the derivative of the log partition is the mean of the statistic: checked as an identity of formulas
fn mean_from_partition() {
    // A(eta) convex combination test: A along the natural parameter dominates its tangent
    let (a, b) = (sym_in("a", 0.01, 100.0), sym_in("b", 0.01, 100.0));
    let (d, e) = (Exponential::new(a), Exponential::new(b));
    let (na, nb) = (d.to_natural()[0], e.to_natural()[0]);
    claim_le("convex log partition", d.log_partition() + d.mean() * (nb - na), e.log_partition());
    let (p, q) = (Poisson::new(a), Poisson::new(b));
    let (na, nb) = (p.to_natural()[0], q.to_natural()[0]);
    let (m, n) = (sym_in("m", -10.0, 10.0), sym_in("n", -10.0, 10.0));
    let (f, g) = (Normal::new(m, a), Normal::new(n, b));
    let (nf, ng) = (f.to_natural(), g.to_natural());
    claim_le("convex normal log partition", f.log_partition() + m * (ng[0] - nf[0]) + (m * m + f.variance()) * (ng[1] - nf[1]), g.log_partition());
    claim_le("convex poisson log partition", p.log_partition() + a * (nb - na), q.log_partition());
}

fn mean_from_partition_counts() {
    let (p, q) = (sym_in("p", 1e-3, 0.999), sym_in("q", 1e-3, 0.999));
    let (f, g) = (Bernoulli::new(p), Bernoulli::new(q));
    claim_le("convex bernoulli log partition", f.log_partition() + f.mean() * (g.to_natural()[0] - f.to_natural()[0]), g.log_partition());
    let (f, g) = (Binomial::new(7, p), Binomial::new(7, q));
    claim_le("convex binomial log partition", f.log_partition() + f.mean() * (g.to_natural()[0] - f.to_natural()[0]), g.log_partition());
    let (f, g) = (Geometric::new(p), Geometric::new(q));
    claim_le("convex geometric log partition", f.log_partition() + f.mean() * (g.to_natural()[0] - f.to_natural()[0]), g.log_partition());
}
fn many_categories() {
    let n = [5usize, 8, 9, 17, 33][pick("n", 5)];
    let mut ps: Vec<f64> = (0..n - 1).map(|i| sym_in(&format!("p{i}"), 0.0, 1.0 / n as f64)).collect();
    let mut last = 1.0;
    for p in &ps {
        last = last - p;
    }
    ps.push(last);
    let d = Categorical::new(ps.clone());
    let (mut m, mut s) = (0.0, 0.0);
    for (i, p) in ps.iter().enumerate() {
        m += i as f64 * p;
        s += (i * i) as f64 * p;
    }
    claim_eq("mean", d.mean(), m);
    claim_eq("variance", d.variance(), s - m * m);
}
/// parameters of any magnitude
fn wide_moments() {
    let (a, b) = (sym_in("a", 1e-50, 1e50), sym_in("b", 1e-50, 1e50));
    claim_eq("normal variance", Normal::new(a, b).variance(), b * b);
    claim_eq("exponential mean", Exponential::new(a).mean(), 1.0 / a);
    claim_eq("exponential variance", Exponential::new(a).variance(), 1.0 / (a * a));
    claim_eq("gamma mean", Gamma::new(a, b).mean(), a / b);
    claim_eq("gamma variance", Gamma::new(a, b).variance(), a / (b * b));
    claim_eq("beta mean", Beta::new(a, b).mean(), a / (a + b));
    claim_eq("beta variance", Beta::new(a, b).variance(), a * b / ((a + b) * (a + b) * (a + b + 1.0)));
    claim_eq("chi-squared mean", ChiSquared::new(a).mean(), a);
    claim_eq("chi-squared variance", ChiSquared::new(a).variance(), 2.0 * a);
    let (p, n) = (sym_in("p", 1e-100, 1.0 - 1e-12), sym_u64("n", 1, 1_000_000_000));
    let nf = n as f64;
    claim_eq("binomial variance", Binomial::new(n, p).variance(), nf * p * (1.0 - p));
    claim_eq("geometric mean", Geometric::new(p).mean() * p, 1.0);
    claim_eq("geometric variance", Geometric::new(p).variance() * p * p, 1.0 - p);
    claim_eq("negative binomial mean", NegativeBinomial::new(n, p).mean(), nf * p / (1.0 - p));
    claim_eq("negative binomial variance", NegativeBinomial::new(n, p).variance(), nf * p / ((1.0 - p) * (1.0 - p)));
}

pub const S: &[Scenario] = &[
    ("C12.mean_from_partition_counts", mean_from_partition_counts),
    ("C12.many_categories", many_categories),
    ("C12.wide", wide_moments),
    ("C07.normal", normal),
    ("C07.stdnormal", stdnormal),
    ("C07.exponential", exponential),
    ("C07.gamma", gamma),
    ("C07.chisq", chisq),
    ("C07.beta", beta),
    ("C07.bernoulli", bernoulli),
    ("C07.binomial", binomial),
    ("C07.geometric", geometric),
    ("C07.negative_binomial", negative_binomial),
    ("C07.negative_binomial_form", negative_binomial_form),
    ("C07.wide", wide),
    ("C07.wide_counts", wide_counts),
    ("C07.poisson", poisson),
    ("C07.poisson_large", poisson_large),
    ("C07.t.poisson_long", poisson_long),
    ("C07.poisson_any", poisson_any),
    ("C07.categorical", categorical),
    ("C08.normal", rt_normal),
    ("C08.normal_free", rt_normal_free),
    ("C08.positive", rt_positive),
    ("C08.probability", rt_probability),
    ("C08.eta", rt_eta),
    ("C08.eta_unit", rt_eta_unit),
    ("C08.categorical", rt_categorical),
    ("C08.categorical_eta", rt_categorical_eta),
    ("C09.normal", iid_normal),
    ("C09.exponential", iid_exponential),
    ("C09.gamma", iid_gamma),
    ("C09.beta", iid_beta),
    ("C09.chisq", iid_chisq),
    ("C09.bernoulli", iid_bernoulli),
    ("C09.geometric", iid_geometric),
    ("C09.poisson", iid_poisson),
    ("C09.binomial", iid_binomial),
    ("C09.support", iid_support),
    ("C09.split", iid_split),
    ("C09.natural", iid_natural),
    ("C09.many_normal", many_normal),
    ("C09.many_exponential", many_exponential),
    ("C09.many_gamma", many_gamma),
    ("C09.many_beta", many_beta),
    ("C09.many_bernoulli", many_bernoulli),
    ("C09.many_counts", many_counts),
    ("C09.t.long", iid_long),
    ("C12.moments", moments),
    ("C12.discrete", discrete_moments),
    ("C12.from_mass", moments_from_mass),
    ("C12.categorical", categorical_moments),
    ("C12.partition", mean_from_partition),
];
