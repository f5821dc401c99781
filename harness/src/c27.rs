//! C27 density formulas written against the interpreter interface.
use crate::c20::{read, tree, Style};
use crate::exprs::*;
use crate::spec;
use measures_core::*;
use measures_distributions::patterns;
use measures_distributions::{DistributionEval, DistributionExpr, DistributionMathExpr};
use measures_distributions::{Cauchy, Exponential, Gamma, Normal};
use symbolic_math::final_tagless::{DirectEval, JITEval, MathExpr, PrettyPrint};
use symbolic_math::Expr;
use symrt::*;

const LN_2PI: f64 = 1.8378770664093454836;
const LN_PI: f64 = 1.1447298858494001741;
fn normal(x: f64, m: f64, s: f64) -> f64 {
    let d = x - m;
    -(d * d) / (s * s) / 2.0 - s.ln() - LN_2PI / 2.0
}
fn cauchy(x: f64, m: f64, g: f64) -> f64 {
    let d = x - m;
    g.ln() - (g * g + d * d).ln() - LN_PI
}
fn real(n: &str) -> f64 {
    sym_in(n, -100.0, 100.0)
}
fn scale(n: &str) -> f64 {
    sym_in(n, 1e-3, 1e3)
}
fn at(e: &Expr, env: &[(&str, f64)]) -> f64 {
    e.evaluate(&map(env)).unwrap_or(f64::NAN)
}
fn printed(label: &str, t: &str, env: &[(&str, f64)], want: f64) {
    match read(t, Style::Plain) {
        Some(e) => claim_eq_tol(label, meaning(&e, env).unwrap_or(f64::NAN), want, 1e-6),
        None => claim(&format!("{label}: a formula"), false),
    }
}
/// one pattern in every interpreter: `f` is applied to the variables of `env`
macro_rules! pattern {
    ($f:ident, $env:expr, $want:expr, $($n:expr),*) => {{
        let (env, want) = ($env, $want);
        let val = |n: &str| env.iter().find(|p| p.0 == n).unwrap().1;
        claim_eq("distribution interpreter", patterns::$f::<DistributionEval>($(DistributionEval::var($n, val($n))),*), want);
        claim_eq("distribution interpreter, constants", patterns::$f::<DistributionEval>($(DistributionEval::constant(val($n))),*), want);
        claim_eq("direct interpreter", patterns::$f::<DirectEval>($(DirectEval::var($n, val($n))),*), want);
        let t = patterns::$f::<JITEval>($(JITEval::var($n)),*);
        claim_eq("compiling interpreter", at(&tree(&t), &env), want);
        let t = patterns::$f::<JITEval>($(JITEval::constant(val($n))),*);
        claim_eq("compiling interpreter, constants", at(&tree(&t), &[]), want);
        printed("printed", &patterns::$f::<PrettyPrint>($(PrettyPrint::var($n)),*), &env, want);
    }};
}
fn p_normal() {
    let (x, m, s) = (real("x"), real("mu"), scale("sigma"));
    let want = normal(x, m, s);
    pattern!(normal_log_density, [("x", x), ("mu", m), ("sigma", s)], want, "x", "mu", "sigma");
    claim_eq("distribution object", Normal::new(m, s).log_density().at(&x), want);
    claim_eq("direct function", DistributionEval::normal_log_density(x, m, s), want);
}
fn p_standard_normal() {
    let x = real("x");
    let want = normal(x, 0.0, 1.0);
    pattern!(standard_normal_log_density, [("x", x)], want, "x");
    claim_eq("distribution object", Normal::new(0.0, 1.0).log_density().at(&x), want);
    claim_eq("of the general pattern", patterns::normal_log_density::<DirectEval>(x, 0.0, 1.0), want);
}
fn p_exponential() {
    let (x, r) = (sym_in("x", 0.0, 100.0), scale("rate"));
    let want = r.ln() - r * x;
    pattern!(exponential_log_density, [("x", x), ("rate", r)], want, "x", "rate");
    claim_eq("distribution object", Exponential::new(r).log_density().at(&x), want);
    let y = real("y");
    claim_eq("direct function, anywhere", DistributionEval::exponential_log_density(y, r), Exponential::new(r).log_density().at(&y));
}
fn p_cauchy() {
    let (x, m, g) = (real("x"), real("m"), scale("g"));
    let want = cauchy(x, m, g);
    pattern!(cauchy_log_density, [("x", x), ("m", m), ("g", g)], want, "x", "m", "g");
    claim_eq("distribution object", Cauchy::new(m, g).log_density().at(&x), want);
}
fn p_gamma() {
    let (x, a, r) = (real("x"), sym_in("a", 1e-3, 1e3), scale("r"));
    let want = if x > 0.0 { a * r.ln() - lgamma(a) + (a - 1.0) * x.ln() - r * x } else { f64::NEG_INFINITY };
    claim_eq("direct function", DistributionEval::gamma_log_density(x, a, r), want);
    if x > 0.0 {
        claim_eq("distribution object", Gamma::new(a, r).log_density().at(&x), want);
    }
}
fn log_gamma() {
    let x = sym_in("x", 1e-3, 1e6);
    claim_eq("log-gamma", DistributionEval::log_gamma(x), lgamma(x));
}
/// the operations of the interpreter itself
fn operations() {
    type D = DistributionEval;
    let (x, y) = (sym_in("x", -5.0, 5.0), sym_in("y", -5.0, 5.0));
    let p = sym_in("p", 0.1, 5.0);
    claim_eq("constant", D::constant(x), x);
    claim_eq("variable", D::var("a", x), x);
    claim_eq("sum", D::add::<f64, f64, f64>(x, y), x + y);
    claim_eq("difference", D::sub::<f64, f64, f64>(x, y), x - y);
    claim_eq("product", D::mul::<f64, f64, f64>(x, y), x * y);
    claim_eq("quotient", D::div::<f64, f64, f64>(x, p), x / p);
    claim_eq("power", D::pow(p, x), (x * p.ln()).exp());
    claim_eq("negation", D::neg(x), -x);
    claim_eq("logarithm", D::ln(p), p.ln());
    claim_eq("exponential", D::exp(x), x.exp());
    claim_eq("root", D::sqrt(p) * D::sqrt(p), p);
    claim_le("root sign", 0.0, D::sqrt(p));
    claim_eq("sine", D::sin(x), x.sin());
    claim_eq("cosine", D::cos(x), x.cos());
}
/// what is not provided says so instead of returning a number
fn not_provided() {
    let x = sym_in("x", 0.1, 5.0);
    let no = |l: &str, f: &dyn Fn()| claim(l, catching(|| f()).is_none());
    no("log-density", &|| {
        <DirectEval as DistributionExpr>::log_density::<f64>(x, &[x]);
    });
    no("distribution function", &|| {
        <DirectEval as DistributionExpr>::cdf::<f64>(x, &[x]);
    });
    no("survival function", &|| {
        <DirectEval as DistributionExpr>::survival::<f64>(x, &[x]);
    });
    no("entropy", &|| {
        <DirectEval as DistributionExpr>::entropy::<f64>(&[x]);
    });
    no("gamma function", &|| {
        <DirectEval as DistributionMathExpr>::gamma_function::<f64>(x);
    });
    no("gamma pattern", &|| {
        patterns::gamma_log_density::<DirectEval>(x, x, x);
    });
    no("variable without a value", &|| {
        <DistributionEval as MathExpr>::var::<f64>("x");
    });
}
/// the templates of the interpreter interface agree with the patterns
fn templates() {
    let (x, m, s) = (real("x"), real("m"), scale("s"));
    let t = patterns::normal_log_density::<JITEval>(JITEval::var("x"), JITEval::constant(m), JITEval::constant(s));
    claim_eq("normal, parameters fixed", at(&tree(&t), &[("x", x)]), normal(x, m, s));
    claim_eq("normal, simplified", at(&tree(&t).simplify(), &[("x", x)]), normal(x, m, s));
    let z = (x - m) / s;
    claim_eq("standardised", patterns::standard_normal_log_density::<DirectEval>(z) - s.ln(), normal(x, m, s));
}
/// patterns composed with each other: the sum over two observations
fn composed<E: MathExpr>(a: E::Repr<f64>, b: E::Repr<f64>, m: E::Repr<f64>, s: E::Repr<f64>) -> E::Repr<f64>
where
    E::Repr<f64>: Clone,
{
    let l = patterns::normal_log_density::<E>(a, m.clone(), s.clone());
    let r = patterns::normal_log_density::<E>(b, m, s.clone());
    E::add::<f64, f64, f64>(E::add::<f64, f64, f64>(l, r), patterns::exponential_log_density::<E>(s, E::constant(2.0)))
}
fn compositions() {
    let (a, b, m, s) = (real("a"), real("b"), real("m"), scale("s"));
    let want = normal(a, m, s) + normal(b, m, s) + std::f64::consts::LN_2 - 2.0 * s;
    claim_eq("direct", composed::<DirectEval>(a, b, m, s), want);
    claim_eq("distribution", composed::<DistributionEval>(a, b, m, s), want);
    let t = composed::<JITEval>(JITEval::var("a"), JITEval::var("b"), JITEval::var("m"), JITEval::var("s"));
    let env = [("a", a), ("b", b), ("m", m), ("s", s)];
    claim_eq("tree", at(&tree(&t), &env), want);
    let p = composed::<PrettyPrint>(PrettyPrint::var("a"), PrettyPrint::var("b"), PrettyPrint::var("m"), PrettyPrint::var("s"));
    printed("printed", &p, &env, want);
}
pub const S: &[Scenario] = &[
    ("C27.normal", p_normal),
    ("C27.standard_normal", p_standard_normal),
    ("C27.exponential", p_exponential),
    ("C27.cauchy", p_cauchy),
    ("C27.gamma", p_gamma),
    ("C27.log_gamma", log_gamma),
    ("C27.operations", operations),
    ("C27.not_provided", not_provided),
    ("C27.templates", templates),
    ("C27.compositions", compositions),
];
