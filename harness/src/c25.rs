//! C25 compiled, specialised and inlined forms of a density.
use crate::exprs::{add, k, map, mul, sub, un, v, LN};
use crate::spec;
use measures_core::*;
use measures_distributions::*;
use measures_exponential_family::exponential_family::jit::{
    generate_zero_overhead_exp_fam, generate_zero_overhead_exp_fam_wrt, StaticInlineJITCompiler, ZeroOverheadOptimizer,
};
use measures_exponential_family::{AutoJITExt, AutoJITOptimizer, AutoJITPattern, AutoJITRegistry, JITError, JITOptimizer};
use std::any::{Any, TypeId};
use symbolic_math::expr::SymbolicLogDensity;
use symbolic_math::CustomSymbolicLogDensity;
use symrt::*;

/// the specialised closure of `$d` at the points of `$xs` (several calls of one closure, in both orders)
macro_rules! special {
    ($l:expr, $d:expr, $t:ty, $xs:expr) => {{
        let d = $d;
        let xs: Vec<$t> = $xs;
        let f = ZeroOverheadOptimizer::<$t, f64>::zero_overhead_optimize(d.clone());
        let g = generate_zero_overhead_exp_fam::<_, $t, f64>(d.clone());
        for (i, x) in xs.iter().enumerate() {
            let want: f64 = HasLogDensity::<$t, f64>::log_density_wrt_root(&d, x);
            claim_eq(&format!("{} {i}: specialised", $l), f(x), want);
            claim_eq(&format!("{} {i}: function", $l), g(x), want);
        }
        claim_eq(&format!("{}: first point again", $l), f(&xs[0]), HasLogDensity::<$t, f64>::log_density_wrt_root(&d, &xs[0]));
    }};
}
/// the closure relative to another measure
macro_rules! relative {
    ($l:expr, $d:expr, $b:expr, $t:ty, $xs:expr) => {{
        let (d, b) = ($d, $b);
        let xs: Vec<$t> = $xs;
        let f = ZeroOverheadOptimizer::<$t, f64>::zero_overhead_optimize_wrt(d.clone(), b.clone());
        let g = generate_zero_overhead_exp_fam_wrt::<_, _, $t, f64>(d.clone(), b.clone());
        for (i, x) in xs.iter().enumerate() {
            let p: f64 = HasLogDensity::<$t, f64>::log_density_wrt_root(&d, x);
            let q: f64 = HasLogDensity::<$t, f64>::log_density_wrt_root(&b, x);
            claim_eq(&format!("{} {i}: relative", $l), f(x), p - q);
            claim_eq(&format!("{} {i}: relative function", $l), g(x), p - q);
            let direct: f64 = d.log_density().wrt(b.clone()).at(x);
            claim_eq(&format!("{} {i}: relative, against the builder", $l), f(x), direct);
        }
    }};
}
fn scale(n: &str) -> f64 {
    sym_in(n, 1e-3, 1e3)
}
fn pt(n: &str) -> f64 {
    sym_in(n, 1e-6, 1e6)
}
fn normal() {
    let (m, s) = (sym("m"), scale("s"));
    special!("normal", Normal::new(m, s), f64, vec![sym("x"), sym("y")]);
    let x = sym("z");
    claim_eq("standard", generate_zero_overhead_exp_fam::<_, f64, f64>(StdNormal::<f64>::new())(&x), spec::normal(0.0, 1.0, x));
}
fn exponential() {
    let r = scale("r");
    special!("exponential", Exponential::new(r), f64, vec![sym_in("x", 0.0, 1e6), pt("y")]);
}
fn gamma() {
    let (a, b) = (scale("a"), scale("b"));
    special!("gamma", Gamma::new(a, b), f64, vec![pt("x"), pt("y")]);
}
fn beta() {
    let (a, b) = (scale("a"), scale("b"));
    special!("beta", Beta::new(a, b), f64, vec![sym_unit("x"), sym_unit("y")]);
}
fn chisq() {
    special!("chi-squared", ChiSquared::new(scale("k")), f64, vec![pt("x"), pt("y")]);
}
fn bernoulli() {
    special!("bernoulli", Bernoulli::new(sym_unit("p")), u8, vec![0, 1]);
}
fn binomial() {
    let (n, a, b) = (sym_u64("n", 0, 1000), sym_u64("a", 0, 1000), sym_u64("b", 0, 1000));
    assume(a <= n);
    assume(b <= n);
    special!("binomial", Binomial::new(n, sym_unit("p")), u64, vec![a, b]);
}
fn geometric() {
    special!("geometric", Geometric::new(sym_unit("p")), u64, vec![sym_u64("a", 1, 1000), sym_u64("b", 1, 1000)]);
}
fn poisson() {
    special!("poisson", Poisson::new(scale("l")), u64, vec![[0u64, 1, 2, 3, 4, 20, 21, 64, 170, 171, 500][pick("a", 11)], 3]);
}
fn wrt_normal() {
    let (m, s, n, t) = (sym("m"), scale("s"), sym("n"), scale("t"));
    relative!("normal", Normal::new(m, s), Normal::new(n, t), f64, vec![sym("x"), sym("y")]);
    let x = sym("x");
    claim_eq("with itself", Normal::new(m, s).zero_overhead_optimize_wrt(Normal::new(m, s))(&x), 0.0);
    let ab: f64 = Normal::new(m, s).zero_overhead_optimize_wrt(Normal::new(n, t))(&x);
    let ba: f64 = Normal::new(n, t).zero_overhead_optimize_wrt(Normal::new(m, s))(&x);
    claim_eq("the other way round", ab, -ba);
}
fn wrt_positive() {
    let (a, b, r) = (scale("a"), scale("b"), scale("r"));
    relative!("exponential and gamma", Exponential::new(r), Gamma::new(a, b), f64, vec![pt("x")]);
    relative!("gamma and exponential", Gamma::new(a, b), Exponential::new(r), f64, vec![pt("x")]);
    relative!("gamma and chi-squared", Gamma::new(a, b), ChiSquared::new(r), f64, vec![pt("x")]);
}
fn wrt_counts() {
    let (p, q) = (sym_unit("p"), sym_unit("q"));
    relative!("bernoulli", Bernoulli::new(p), Bernoulli::new(q), u8, vec![0, 1]);
    relative!("geometric", Geometric::new(p), Geometric::new(q), u64, vec![sym_u64("k", 1, 1000)]);
    relative!("poisson", Poisson::new(scale("l")), Poisson::new(scale("r")), u64, vec![pick("k", 4) as u64]);
}
fn inline_normal() {
    let (m, s, x, y) = (sym("m"), scale("s"), sym("x"), sym("y"));
    let f = StaticInlineJITCompiler::compile_normal(m, s);
    claim_eq("inline normal", f.call(x), spec::normal(m, s, x));
    claim_eq("inline normal, second point", f.call(y), Normal::new(m, s).log_density().at(&y));
    claim_eq("inline normal, first point again", f.call(x), Normal::new(m, s).log_density().at(&x));
    claim_le("the mode is highest", f.call(x), f.call(m));
}
fn inline_exponential() {
    let (r, x) = (scale("r"), sym_in("x", -1e6, 1e6));
    let f = StaticInlineJITCompiler::compile_exponential(r);
    claim_eq("inline exponential", f.call(x), spec::exponential(r, x));
    claim_eq("inline exponential, distribution", f.call(x), Exponential::new(r).log_density().at(&x));
    claim_eq("inline exponential at zero", f.call(0.0), r.ln());
}
/// a request that cannot be served is refused, never answered with a wrong function
fn refused() {
    let (a, b) = (scale("a"), scale("b"));
    let (g, e, c, be) = (Gamma::new(a, b), Exponential::new(a), ChiSquared::new(a), Beta::new(a, b));
    claim("gamma", JITOptimizer::<f64, f64>::compile_jit(&g).is_err());
    claim("exponential", JITOptimizer::<f64, f64>::compile_jit(&e).is_err());
    claim("chi-squared", JITOptimizer::<f64, f64>::compile_jit(&c).is_err());
    claim("beta", JITOptimizer::<f64, f64>::compile_jit(&be).is_err());
    claim("automatic", AutoJITExt::auto_jit(&g).is_err() && AutoJITExt::auto_symbolic(&e).is_err());
    claim("unregistered", AutoJITOptimizer::new().generate_symbolic(&Normal::new(a, b)).is_err());
    claim("empty registry", AutoJITRegistry::new().get_pattern(TypeId::of::<Normal<f64>>()).is_none());
}
struct ExpPattern(f64);
impl AutoJITPattern for ExpPattern {
    fn generate_symbolic(&self, d: &dyn Any) -> Result<SymbolicLogDensity, JITError> {
        let e = d.downcast_ref::<Exponential<f64>>().ok_or_else(|| JITError::UnsupportedExpression("type".into()))?;
        let expr = sub(mul(k(self.0), un(LN, v("rate"))), mul(v("rate"), v("x")));
        Ok(SymbolicLogDensity::new(expr, map(&[("rate", e.rate)])))
    }
}
fn registry() {
    let (r, x) = (scale("r"), sym_in("x", 0.0, 1e3));
    let mut g = AutoJITRegistry::default();
    g.register_pattern(TypeId::of::<Exponential<f64>>(), Box::new(ExpPattern(2.0)));
    g.register_pattern(TypeId::of::<Normal<f64>>(), Box::new(ExpPattern(3.0)));
    g.register_pattern(TypeId::of::<Exponential<f64>>(), Box::new(ExpPattern(1.0)));
    let p = g.get_pattern(TypeId::of::<Exponential<f64>>());
    claim("registered", p.is_some());
    let e = Exponential::new(r);
    match p.map(|p| p.generate_symbolic(&e)) {
        Some(Ok(s)) => claim_eq("the last pattern registered for the type", s.evaluate_single("x", x).unwrap_or(f64::NAN), e.log_density().at(&x)),
        _ => claim("a symbolic density", false),
    }
    claim("another type", g.get_pattern(TypeId::of::<Gamma<f64>>()).is_none());
    claim("wrong type refused", g.get_pattern(TypeId::of::<Normal<f64>>()).map_or(false, |p| p.generate_symbolic(&Normal::new(0.0, r)).is_err()));
}
/// an expression with parameters
fn custom() {
    let (a, b, x, y, c) = (sym("a"), sym("b"), sym("x"), sym("y"), sym("c"));
    let e = || add(mul(v("a"), v("x")), sub(v("b"), mul(k(2.0), mul(v("x"), v("y")))));
    let want = a * x + (b - 2.0 * (x * y));
    let s = CustomSymbolicLogDensity::new(e(), map(&[("a", a), ("b", b)]));
    let ev = |s: &CustomSymbolicLogDensity, env: &[(&str, f64)]| s.evaluate(&map(env)).unwrap_or(f64::NAN);
    claim_eq("parameters and variables", ev(&s, &[("x", x), ("y", y)]), want);
    claim_eq("given value before parameter", ev(&s, &[("x", x), ("y", y), ("a", c)]), c * x + (b - 2.0 * (x * y)));
    claim("unset variable", s.evaluate(&map(&[("x", x)])).is_err() && s.evaluate_single("y", y).is_err());
    let t = CustomSymbolicLogDensity::new(e(), map(&[("a", a), ("b", b), ("y", y)]));
    claim_eq("single variable", t.evaluate_single("x", x).unwrap_or(f64::NAN), want);
    claim_eq("single variable that is a parameter", t.evaluate_single("y", c).is_err() as u8 as f64, 1.0);
    claim("variables", s.variables.iter().map(|s| s.as_str()).collect::<Vec<_>>() == ["a", "b", "x", "y"]);
    let z = add(mul(k(1.0), s.expression.clone()), mul(k(0.0), v("x")));
    let u = CustomSymbolicLogDensity::new(z, map(&[("a", a), ("b", b)])).simplify();
    claim_eq("simplified", ev(&u, &[("x", x), ("y", y)]), want);
    claim_eq("simplified keeps parameters", ev(&u, &[("x", x), ("y", y), ("b", c)]), a * x + (c - 2.0 * (x * y)));
}
pub const S: &[Scenario] = &[
    ("C25.normal", normal),
    ("C25.exponential", exponential),
    ("C25.gamma", gamma),
    ("C25.beta", beta),
    ("C25.chisq", chisq),
    ("C25.bernoulli", bernoulli),
    ("C25.binomial", binomial),
    ("C25.geometric", geometric),
    ("C25.poisson", poisson),
    ("C25.wrt_normal", wrt_normal),
    ("C25.wrt_positive", wrt_positive),
    ("C25.wrt_counts", wrt_counts),
    ("C25.inline_normal", inline_normal),
    ("C25.inline_exponential", inline_exponential),
    ("C25.refused", refused),
    ("C25.registry", registry),
    ("C25.custom", custom),
];
