//! Histories: the same operation at one input, then at inputs that differ in one place each, then at the first
//! input again.  Every answer is that of the operation alone, whatever was asked before.
use crate::c20::{read, Style};
use crate::exprs::{add, k, map, meaning, mul, pow, sub, un, v, EXP, LN, NEG};
use crate::c13::On;
use crate::spec;
use measures_bayesian::bayesian::expressions as ex;
use measures_combinators::measures::combinators::product::ProductMeasure;
use measures_combinators::measures::combinators::pushforward::{transforms, PushforwardMeasure};
use measures_combinators::measures::combinators::superposition::MixtureMeasure;
use measures_combinators::measures::derived::factorial::{log_factorial, FactorialMeasure};
use measures_combinators::measures::derived::*;
use measures_core::*;
use measures_distributions::*;
use measures_exponential_family::final_tagless::{patterns as efp, ExpFamEval, ExponentialFamilyExpr};
use measures_exponential_family::*;
use mathjit::final_tagless::{polynomial, DirectEval};
use symbolic_math::{display, GeneralJITCompiler};
use symrt::*;

type Range = (f64, f64);
const REAL: Range = (-100.0, 100.0);
const POS: Range = (1e-2, 100.0);
const UNIT: Range = (1e-3, 0.999);
/// `f` gives what the operation says and what it should say
fn history(label: &str, ranges: &[Range], f: &dyn Fn(&[f64]) -> (f64, f64)) {
    let input = |n: &str| -> Vec<f64> { ranges.iter().enumerate().map(|(i, r)| sym_in(&format!("{label}_{n}{i}").replace([' ', ',', '-'], "_"), r.0, r.1)).collect() };
    let (a, b) = (input("a"), input("b"));
    let ask = |when: &str, p: &[f64]| {
        let (got, want) = f(p);
        claim_eq(&format!("{label}: {when}"), got, want)
    };
    ask("first", &a);
    for i in 0..ranges.len() {
        let mut c = a.clone();
        c[i] = b[i];
        ask(&format!("input {i} changed"), &c)
    }
    ask("all changed", &b);
    ask("the first again", &a);
}
/// the same for counts: some are asked in this order, together with a real input
const COUNTS: [u64; 12] = [3, 3, 4, 25, 3, 26, 25, 300, 4, 301, 300, 3];
fn counts(label: &str, range: Range, f: &dyn Fn(f64, u64) -> (f64, f64)) {
    let n = label.replace([' ', ',', '-'], "_");
    let p = [sym_in(&format!("{n}_p"), range.0, range.1), sym_in(&format!("{n}_q"), range.0, range.1)];
    for (i, k) in COUNTS.iter().enumerate() {
        let (got, want) = f(p[i % 2], *k);
        claim_eq(&format!("{label}: {i}, {k}"), got, want);
    }
}
fn root<X: Clone, D: HasLogDensity<X, f64>>(d: D, x: X) -> f64 {
    d.log_density_wrt_root(&x)
}
fn c01() {
    history("normal", &[REAL, POS, REAL], &|p| (root(Normal::new(p[0], p[1]), p[2]), spec::normal(p[0], p[1], p[2])));
    history("cauchy", &[REAL, POS, REAL], &|p| (root(Cauchy::new(p[0], p[1]), p[2]), spec::cauchy(p[0], p[1], p[2])));
    history("student", &[POS, REAL], &|p| (root(StudentT::new(p[0]), p[1]), spec::student(p[0], p[1])));
    history("exponential", &[POS, POS], &|p| (root(Exponential::new(p[0]), p[1]), spec::exponential(p[0], p[1])));
    history("gamma", &[POS, POS, POS], &|p| (root(Gamma::new(p[0], p[1]), p[2]), spec::gamma(p[0], p[1], p[2])));
    history("beta", &[POS, POS, UNIT], &|p| (root(Beta::new(p[0], p[1]), p[2]), spec::beta(p[0], p[1], p[2])));
    history("chi-squared", &[POS, POS], &|p| (root(ChiSquared::new(p[0]), p[1]), spec::chisq(p[0], p[1])));
}
fn poisson(l: f64, k: u64) -> f64 {
    k as f64 * l.ln() - l - lgamma(k as f64 + 1.0)
}
fn binomial(n: u64, p: f64, k: u64) -> f64 {
    spec::lnchoose(n as f64, k as f64) + k as f64 * p.ln() + (n - k) as f64 * (1.0 - p).ln()
}
fn negative_binomial(r: u64, p: f64, k: u64) -> f64 {
    let (r, k) = (r as f64, k as f64);
    lgamma(r + k) - lgamma(k + 1.0) - lgamma(r) + k * p.ln() + r * (1.0 - p).ln()
}
fn c02() {
    counts("poisson", POS, &|l, k| (root(Poisson::new(l), k), poisson(l, k)));
    counts("geometric", UNIT, &|p, k| (root(Geometric::new(p), k), p.ln() + (k - 1) as f64 * (1.0 - p).ln()));
    counts("binomial", UNIT, &|p, k| (root(Binomial::new(400, p), k), binomial(400, p, k)));
    counts("binomial, trials", UNIT, &|p, n| (root(Binomial::new(n, p), 3), binomial(n, p, 3)));
    counts("negative binomial", UNIT, &|p, k| (root(NegativeBinomial::new(7, p), k), negative_binomial(7, p, k)));
    counts("negative binomial, size", UNIT, &|p, r| (root(NegativeBinomial::new(r, p), 5), negative_binomial(r, p, 5)));
    history("bernoulli", &[UNIT], &|p| (root(Bernoulli::new(p[0]), 1u8), p[0].ln()));
    history("categorical", &[(0.01, 0.45), (0.01, 0.45)], &|p| {
        (root(Categorical::new(vec![p[0], p[1], 1.0 - p[0] - p[1]]), 1usize), p[1].ln())
    });
}
/// two families asked in turn
fn c05() {
    history("normal and cauchy", &[REAL, POS, REAL, POS, REAL], &|p| {
        let v: f64 = Normal::new(p[0], p[1]).log_density().wrt(Cauchy::new(p[2], p[3])).at(&p[4]);
        (v, spec::normal(p[0], p[1], p[4]) - spec::cauchy(p[2], p[3], p[4]))
    });
    history("two normals", &[REAL, POS, REAL, POS, REAL], &|p| {
        let v: f64 = Normal::new(p[0], p[1]).log_density().wrt(Normal::new(p[2], p[3])).at(&p[4]);
        (v, spec::normal(p[0], p[1], p[4]) - spec::normal(p[2], p[3], p[4]))
    });
}
fn c07() {
    history("normal", &[REAL, POS, REAL], &|p| (Normal::new(p[0], p[1]).exp_fam_log_density(&p[2]), spec::normal(p[0], p[1], p[2])));
    history("exponential", &[POS, POS], &|p| (Exponential::new(p[0]).exp_fam_log_density(&p[1]), spec::exponential(p[0], p[1])));
    history("gamma", &[POS, POS, POS], &|p| (Gamma::new(p[0], p[1]).exp_fam_log_density(&p[2]), spec::gamma(p[0], p[1], p[2])));
    history("beta", &[POS, POS, UNIT], &|p| (Beta::new(p[0], p[1]).exp_fam_log_density(&p[2]), spec::beta(p[0], p[1], p[2])));
    history("chi-squared", &[POS, POS], &|p| (ChiSquared::new(p[0]).exp_fam_log_density(&p[1]), spec::chisq(p[0], p[1])));
    counts("poisson", POS, &|l, k| (Poisson::new(l).exp_fam_log_density(&k), poisson(l, k)));
    counts("binomial", UNIT, &|p, n| (Binomial::new(n, p).exp_fam_log_density(&2), binomial(n, p, 2)));
}
fn c08() {
    history("normal, mean", &[REAL, POS], &|p| (Normal::<f64>::from_natural(Normal::new(p[0], p[1]).to_natural()).params().0, p[0]));
    history("normal, deviation", &[REAL, POS], &|p| (Normal::<f64>::from_natural(Normal::new(p[0], p[1]).to_natural()).params().1, p[1]));
    history("gamma, rate", &[POS, POS], &|p| (Gamma::<f64>::from_natural(Gamma::new(p[0], p[1]).to_natural()).rate, p[1]));
    history("beta, alpha", &[POS, POS], &|p| (Beta::<f64>::from_natural(Beta::new(p[0], p[1]).to_natural()).alpha, p[0]));
    history("poisson", &[POS], &|p| (Poisson::<f64>::from_natural(Poisson::new(p[0]).to_natural()).rate, p[0]));
}
fn c09() {
    history("normal", &[REAL, POS, REAL, REAL, REAL], &|p| {
        let d = Normal::new(p[0], p[1]).iid();
        let v: f64 = d.iid_log_density::<f64, f64>(&p[2..]);
        (v, spec::normal(p[0], p[1], p[2]) + spec::normal(p[0], p[1], p[3]) + spec::normal(p[0], p[1], p[4]))
    });
    // one joint measure, several samples, of different sizes
    let (m, s) = (sym_in("m", -100.0, 100.0), sym_in("s", 1e-2, 100.0));
    let d = Normal::new(m, s).iid();
    let xs: Vec<f64> = (0..4).map(|i| sym_in(&format!("x{i}"), -100.0, 100.0)).collect();
    for (i, part) in [&xs[..2], &xs[..3], &xs[1..3], &xs[..0], &xs[2..], &xs[..], &xs[..2]].into_iter().enumerate() {
        let want = part.iter().fold(0.0, |a, x| a + spec::normal(m, s, *x));
        claim_eq(&format!("sample {i}"), d.iid_log_density::<f64, f64>(part), want);
        let r: f64 = HasLogDensity::<Vec<f64>, f64>::log_density_wrt_root(&d, &part.to_vec());
        claim_eq(&format!("sample {i}, as a measure"), r, want);
    }
}
fn c10() {
    history("normal", &[REAL, POS, REAL, REAL], &|p| (Normal::new(p[0], p[1]).log_density_iid(&p[2..]), spec::normal(p[0], p[1], p[2]) + spec::normal(p[0], p[1], p[3])));
    history("cauchy", &[REAL, POS, REAL, REAL], &|p| (Cauchy::new(p[0], p[1]).log_density_iid(&p[2..]), spec::cauchy(p[0], p[1], p[2]) + spec::cauchy(p[0], p[1], p[3])));
    history("student", &[POS, REAL, REAL], &|p| (StudentT::new(p[0]).log_density_iid(&p[1..]), spec::student(p[0], p[1]) + spec::student(p[0], p[2])));
}
fn c11() {
    let ks: Vec<u64> = [3, 25, 3, 300, 25, 21, 20, 300, 301, 1_000_000, 20, 3, 2, 0, 21].to_vec();
    for (i, k) in ks.iter().enumerate() {
        let f: f64 = log_factorial(*k);
        claim_eq(&format!("factorial {i}"), f, lgamma(*k as f64 + 1.0));
        let m: f64 = FactorialMeasure::<f64>::new().log_density_wrt_root(k);
        claim_eq(&format!("measure {i}"), m, -lgamma(*k as f64 + 1.0));
    }
    for (i, (n, k)) in [(10, 3), (11, 3), (10, 4), (10, 3), (300, 3), (300, 297), (300, 4), (11, 8), (10, 7), (3, 3), (10, 3)].into_iter().enumerate() {
        let b: f64 = BinomialCoefficientMeasure::<f64>::new(n).log_density_wrt_root(&k);
        claim_eq(&format!("binomial coefficient {i}"), b, spec::lnchoose(n as f64, k as f64));
        let b: f64 = NegativeBinomialCoefficientMeasure::<f64>::new(n).log_density_wrt_root(&k);
        claim_eq(&format!("negative binomial coefficient {i}"), b, spec::lnchoose((n + k - 1) as f64, k as f64));
    }
}
fn c12() {
    history("gamma, mean", &[POS, POS], &|p| (Gamma::new(p[0], p[1]).mean(), p[0] / p[1]));
    history("gamma, variance", &[POS, POS], &|p| (Gamma::new(p[0], p[1]).variance(), p[0] / (p[1] * p[1])));
    history("beta, mean", &[POS, POS], &|p| (Beta::new(p[0], p[1]).mean(), p[0] / (p[0] + p[1])));
    history("beta, variance", &[POS, POS], &|p| {
        let s = p[0] + p[1];
        (Beta::new(p[0], p[1]).variance(), p[0] * p[1] / (s * s * (s + 1.0)))
    });
    history("categorical, mean", &[(0.01, 0.45), (0.01, 0.45)], &|p| {
        (Categorical::new(vec![p[0], p[1], 1.0 - p[0] - p[1]]).mean(), p[1] + 2.0 * (1.0 - p[0] - p[1]))
    });
    history("gamma, log partition", &[POS, POS], &|p| (Gamma::new(p[0], p[1]).log_partition(), lgamma(p[0]) - p[0] * p[1].ln()));
}
fn c13() {
    history("normal and cauchy", &[REAL, POS, REAL, REAL], &|p| {
        let d = ProductMeasure::new(Normal::new(p[0], p[1]), Cauchy::new(p[0], 2.0));
        let v: f64 = d.log_density_wrt_root(&(p[2], p[3]));
        (v, spec::normal(p[0], p[1], p[2]) + spec::cauchy(p[0], 2.0, p[3]))
    });
    // one product, several points
    let (m, s, x, y) = (sym_in("m", -9.0, 9.0), sym_in("s", 0.1, 9.0), sym_in("x", -9.0, 9.0), sym_in("y", -9.0, 9.0));
    let d = ProductMeasure::new(Normal::new(m, s), Normal::new(m, s));
    for (i, (a, b)) in [(x, y), (y, x), (x, x), (y, y), (x, y)].into_iter().enumerate() {
        let v: f64 = d.log_density_wrt_root(&(a, b));
        claim_eq(&format!("point {i}"), v, spec::normal(m, s, a) + spec::normal(m, s, b));
    }
}
fn c14() {
    let (w, m, n, x, y) = (sym_in("w", 0.1, 0.9), sym_in("m", -5.0, 5.0), sym_in("n", -5.0, 5.0), sym_in("x", -5.0, 5.0), sym_in("y", -5.0, 5.0));
    let d = |w: f64, m: f64| MixtureMeasure::new(vec![Normal::new(m, 1.0), Normal::new(0.0, 2.0)], vec![w, 1.0 - w]);
    let want = |w: f64, m: f64, x: f64| (w * spec::normal(m, 1.0, x).exp() + (1.0 - w) * spec::normal(0.0, 2.0, x).exp()).ln();
    let change = pick("change", 4);
    let other = [(0.25, m, x), (w, n, x), (w, m, y), (w, m, y)][change];
    let first = d(w, m);
    for (i, (p, q, x)) in [(w, m, x), other, (w, m, x)].into_iter().enumerate() {
        let v: f64 = if change == 3 { first.log_density_wrt_root(&x) } else { d(p, q).log_density_wrt_root(&x) };
        claim_eq_tol(&format!("mixture {i}"), v, want(p, q, x), 1e-6);
    }
}
/// one of the inputs changes and changes back
fn back(label: &str, ranges: &[Range], f: &dyn Fn(&[f64]) -> (f64, f64)) {
    let a: Vec<f64> = ranges.iter().enumerate().map(|(i, r)| sym_in(&format!("{label}_a{i}"), r.0, r.1)).collect();
    let i = pick(&format!("{label}_change"), ranges.len());
    let mut b = a.clone();
    b[i] = sym_in(&format!("{label}_b"), ranges[i].0, ranges[i].1);
    for (j, p) in [&a, &b, &a].into_iter().enumerate() {
        let (got, want) = f(p);
        claim_eq(&format!("{label}: {j}"), got, want)
    }
}
fn c15() {
    back("linear", &[REAL, POS, REAL, POS, REAL], &|p| {
        let (f, i, j) = transforms::linear_transform::<f64>(p[3], p[2]);
        let v: f64 = PushforwardMeasure::new(On(Normal::new(p[0], p[1])), f, i, j).log_density_wrt_root(&p[4]);
        (v, spec::normal(p[0] * p[3] + p[2], p[1] * p[3], p[4]))
    });
}
fn c15_exp() {
    back("exponential", &[(-5.0, 5.0), POS, POS], &|p| {
        let (f, i, j) = transforms::exp_transform::<f64>();
        let v: f64 = PushforwardMeasure::new(On(Normal::new(p[0], p[1])), f, i, j).log_density_wrt_root(&p[2]);
        (v, spec::normal(p[0], p[1], p[2].ln()) - p[2].ln())
    });
}
fn c16() {
    history("weighted", &[REAL, POS, REAL, REAL], &|p| {
        let v: f64 = WeightedMeasure::<_, f64, f64>::new(Normal::new(p[0], p[1]), p[2]).log_density_wrt_root(&p[3]);
        (v, p[2] + spec::normal(p[0], p[1], p[3]))
    });
    history("point", &[REAL], &|p| (Dirac::new(p[0]).in_support(p[0]) as u8 as f64 - Dirac::new(p[0]).in_support(p[0] + 1.0) as u8 as f64, 1.0));
}
fn c17() {
    let vars = |p: &[f64]| map(&[("x", p[1]), ("y", p[2])]);
    let e = |c: f64| add(mul(v("x"), mul(v("x"), k(c))), sub(mul(v("y"), k(3.0)), k(c)));
    let want = |p: &[f64]| p[1] * p[1] * p[0] + p[2] * 3.0 - p[0];
    history("evaluate", &[REAL, REAL, REAL], &|p| (e(p[0]).evaluate(&vars(p)).unwrap_or(f64::NAN), want(p)));
    let one = |c: f64| add(mul(v("x"), k(c)), k(2.0));
    let w1 = |p: &[f64]| p[1] * p[0] + 2.0;
    history("single variable", &[REAL, REAL], &|p| (one(p[0]).evaluate_single_var("x", p[1]).unwrap_or(f64::NAN), w1(p)));
    history("linear", &[REAL, REAL], &|p| (one(p[0]).evaluate_linear("x", p[1]).unwrap_or(f64::NAN), w1(p)));
    history("smart", &[REAL, REAL], &|p| (one(p[0]).evaluate_smart("x", p[1]).unwrap_or(f64::NAN), w1(p)));
    history("polynomial", &[REAL, REAL], &|p| (one(p[0]).evaluate_polynomial("x", p[1]).unwrap_or(f64::NAN), w1(p)));
    history("batch", &[REAL, REAL, REAL], &|p| {
        let r = one(p[0]).evaluate_batch_optimized("x", &p[1..]).unwrap_or_default();
        (r.iter().fold(0.0, |a, b| a + b), (p[1] + p[2]) * p[0] + 4.0)
    });
}
fn c18() {
    let env = |p: &[f64]| [("x", p[1]), ("y", p[2])];
    let e = |c: f64| add(mul(k(1.0), mul(v("x"), k(c))), un(LN, un(EXP, mul(v("y"), add(k(c), k(1.0))))));
    history("simplify", &[REAL, (-3.0, 3.0), (-3.0, 3.0)], &|p| {
        (meaning(&e(p[0]).simplify(), &env(p)).unwrap_or(f64::NAN), p[1] * p[0] + p[2] * (p[0] + 1.0))
    });
}
fn c20() {
    let env = |p: &[f64]| [("x", p[1]), ("y", p[2])];
    let e = |c: f64| sub(mul(v("x"), k(c)), sub(un(NEG, v("y")), k(c)));
    let want = |p: &[f64]| p[1] * p[0] - (-p[2] - p[0]);
    faithful_texts();
    let val = |t: &str, s: Style, p: &[f64]| read(t, s).and_then(|r| meaning(&r, &env(p))).unwrap_or(f64::NAN);
    history("plain", &[(0.5, 0.9), REAL, REAL], &|p| (val(&format!("{}", e(p[0])), Style::Plain, p), want(p)));
    history("equation", &[(0.5, 0.9), REAL, REAL], &|p| (val(&display::equation("y", &e(p[0])).trim_start_matches("y = "), Style::Plain, p), want(p)));
}
fn c22() {
    history("polynomial", &[REAL, REAL, REAL, (-3.0, 3.0)], &|p| {
        (polynomial::horner::<DirectEval, f64>(&p[..3], p[3]), p[0] + p[1] * p[3] + p[2] * p[3] * p[3])
    });
    history("derivative", &[REAL, REAL, REAL, (-3.0, 3.0)], &|p| {
        (polynomial::horner_derivative::<DirectEval, f64>(&p[..3], p[3]), p[1] + 2.0 * p[2] * p[3])
    });
    history("roots", &[(-3.0, 3.0), (-3.0, 3.0), (-3.0, 3.0)], &|p| {
        (polynomial::from_roots::<DirectEval, f64>(&p[..2], p[2]), (p[2] - p[0]) * (p[2] - p[1]))
    });
}
/// code compiled earlier keeps its meaning, code compiled later has its own
fn c24() {
    let s = |n: &[&str]| n.iter().map(|n| n.to_string()).collect::<Vec<_>>();
    let (a, b, x, y) = (sym_in("a", -50.0, 50.0), sym_in("b", -50.0, 50.0), sym_in("x", -50.0, 50.0), sym_in("y", -50.0, 50.0));
    let e = |c: f64| add(mul(v("x"), k(c)), sub(v("t"), pow(v("x"), k(2.0))));
    let c = |x: f64| GeneralJITCompiler::new().ok().and_then(|j| j.compile_expression(&e(x), &s(&["x"]), &s(&["t"]), &map(&[])).ok());
    let want = |c: f64, x: f64, t: f64| x * c + (t - x * x);
    let (f, g, h) = (c(a), c(b), c(a));
    claim("all compile", f.is_some() && g.is_some() && h.is_some());
    let (Some(f), Some(g), Some(h)) = (f, g, h) else { return };
    for (i, (x, y)) in [(x, y), (y, x), (x, x), (x, y)].into_iter().enumerate() {
        claim_eq(&format!("first code {i}"), f.call_data_param(x, y), want(a, x, y));
        claim_eq(&format!("second code {i}"), g.call_data_param(x, y), want(b, x, y));
        claim_eq(&format!("first code compiled again {i}"), h.call_data_param(x, y), want(a, x, y));
    }
    // the same expression under another signature, and another expression of the same variables
    let f = |e: &symbolic_math::Expr, d: &[&str], p: &[&str]| GeneralJITCompiler::new().ok().and_then(|j| j.compile_expression(e, &s(d), &s(p), &map(&[])).ok());
    let (p, q, r) = (f(&sub(v("x"), v("t")), &["x"], &["t"]), f(&sub(v("x"), v("t")), &["t"], &["x"]), f(&sub(v("t"), v("x")), &["x"], &["t"]));
    let (Some(p), Some(q), Some(r)) = (p, q, r) else { return claim("signatures compile", false) };
    claim_eq("one signature", p.call_data_param(x, y), x - y);
    claim_eq("the other signature", q.call_data_param(x, y), y - x);
    claim_eq("the other expression", r.call_data_param(x, y), y - x);
}
fn c26() {
    let n = |x: f64, m: f64, s: f64| -((x - m) * (x - m)) / (s * s) / 2.0 - s.ln() - 0.5 * (2.0 * std::f64::consts::PI).ln();
    history("posterior", &[REAL, POS, REAL, POS, REAL], &|p| {
        let e = ex::posterior_log_density(ex::normal_likelihood("x", "mu", "sigma"), ex::normal_prior("mu", p[0], p[1]));
        (e.evaluate(&map(&[("x", p[2]), ("sigma", p[3]), ("mu", p[4])])).unwrap_or(f64::NAN), n(p[2], p[4], p[3]) + n(p[4], p[0], p[1]))
    });
    let names = [["x", "mu", "sigma"], ["y", "mu", "sigma"], ["x", "m", "sigma"], ["x", "mu", "s"], ["x", "mu", "sigma"]];
    let (x, m, s) = (sym_in("x", -9.0, 9.0), sym_in("m", -9.0, 9.0), sym_in("s", 0.1, 9.0));
    for (i, q) in names.iter().enumerate() {
        let e = ex::normal_likelihood(q[0], q[1], q[2]);
        claim_eq(&format!("likelihood {i}"), e.evaluate(&map(&[(q[0], x), (q[1], m), (q[2], s)])).unwrap_or(f64::NAN), n(x, m, s));
    }
}
fn c27() {
    type D = measures_distributions::DistributionEval;
    use measures_distributions::patterns as pt;
    history("normal", &[REAL, REAL, POS], &|p| (pt::normal_log_density::<D>(p[0], p[1], p[2]), spec::normal(p[1], p[2], p[0])));
    history("exponential", &[POS, POS], &|p| (pt::exponential_log_density::<D>(p[0], p[1]), spec::exponential(p[1], p[0])));
    history("cauchy", &[REAL, REAL, POS], &|p| (pt::cauchy_log_density::<D>(p[0], p[1], p[2]), spec::cauchy(p[1], p[2], p[0])));
}
fn c28() {
    history("formula", &[REAL, REAL, REAL, REAL, REAL], &|p| {
        (<ExpFamEval as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&[p[0], p[1]], &[p[2], p[3]], p[4], 0.5), p[0] * p[2] + p[1] * p[3] - p[4] + 0.5)
    });
    history("normal", &[REAL, REAL, POS], &|p| (efp::normal_log_density::<ExpFamEval>(p[0], p[1], p[2]), spec::normal(p[1], p[2], p[0])));
}
pub const S: &[Scenario] = &[
    ("C01.history", c01),
    ("C02.history", c02),
    ("C05.history", c05),
    ("C07.history", c07),
    ("C08.history", c08),
    ("C09.history", c09),
    ("C10.history", c10),
    ("C11.history", c11),
    ("C12.history", c12),
    ("C13.history", c13),
    ("C14.history", c14),
    ("C15.history", c15),
    ("C15.history_exp", c15_exp),
    ("C16.history", c16),
    ("C17.history", c17),
    ("C18.history", c18),
    ("C20.history", c20),
    ("C22.history", c22),
    ("C24.history", c24),
    ("C26.history", c26),
    ("C27.history", c27),
    ("C28.history", c28),
];
