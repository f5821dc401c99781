//! C13 products, C14 mixtures, C15 pushforwards, C16 weighted, integral and point measures.
use crate::spec;
use measures_combinators::measures::combinators::product::{ProductMeasure, ProductMeasureExt};
use measures_combinators::measures::combinators::pushforward::{transforms, PushforwardExt, PushforwardMeasure};
use measures_combinators::measures::combinators::superposition::{MixtureExt, MixtureMeasure};
use measures_combinators::measures::derived::factorial::FactorialMeasure;
use measures_combinators::measures::derived::*;
use measures_core::*;
use measures_distributions::*;
use symrt::*;

// ---------------------------------------------------------------- C13
fn product_continuous() {
    let (m, s, l, g, x, y) = (sym("m"), sym_pos("s"), sym("l"), sym_pos("g"), sym("x"), sym("y"));
    let p = ProductMeasure::new(Normal::new(m, s), Cauchy::new(l, g));
    let v: f64 = p.log_density_wrt_root(&(x, y));
    claim_eq("normal and cauchy", v, spec::normal(m, s, x) + spec::cauchy(l, g, y));
    let v: f64 = p.log_density().at(&(x, y));
    claim_eq("builder", v, spec::normal(m, s, x) + spec::cauchy(l, g, y));
    let q = <Normal<f64> as ProductMeasureExt<f64>>::product::<_, f64>(Normal::new(m, s), Normal::new(l, g));
    let v: f64 = q.log_density_wrt_root(&(x, y));
    claim_eq("method", v, spec::normal(m, s, x) + spec::normal(l, g, y));
    claim("everywhere", p.in_support((x, y)));
}
fn product_supports() {
    let (r, a, b, x, y) = (sym_pos("r"), sym_pos("a"), sym_pos("b"), sym("x"), sym("y"));
    let p = ProductMeasure::new(Exponential::new(r), Beta::new(a, b));
    let v: f64 = p.log_density_wrt_root(&(x, y));
    claim_eq("density", v, spec::exponential(r, x) + spec::beta(a, b, y));
    claim("support is the product", p.in_support((x, y)) == (Exponential::new(r).in_support(x) && Beta::new(a, b).in_support(y)));
    claim("support and density", p.in_support((x, y)) == (v > f64::NEG_INFINITY));
}
fn product_mixed() {
    let (m, s, l, x, k) = (sym("m"), sym_pos("s"), sym_pos("l"), sym("x"), sym_u64("k", 0, 8));
    let p = ProductMeasure::new(Normal::new(m, s), Poisson::new(l));
    let v: f64 = p.log_density_wrt_root(&(x, k));
    claim_eq("normal and poisson", v, spec::normal(m, s, x) + (k as f64) * l.ln() - l - spec::lnfact(k));
    let q = ProductMeasure::new(Poisson::new(l), Normal::new(m, s));
    let w: f64 = q.log_density_wrt_root(&(k, x));
    claim_eq("in the other order", w, v);
}
fn product_discrete() {
    let (p, n, i, j) = (sym_unit("p"), sym_u64("n", 1, 1000), sym_u64("i", 0, 1000), sym_u64("j", 0, 1000));
    let m = ProductMeasure::new(Binomial::new(n, p), Geometric::new(p));
    let v: f64 = m.log_density_wrt_root(&(i, j));
    let (a, b): (f64, f64) = (Binomial::new(n, p).log_density_wrt_root(&i), Geometric::new(p).log_density_wrt_root(&j));
    claim_eq("binomial and geometric", v, a + b);
    claim("support", m.in_support((i, j)) == (i <= n && j >= 1));
}
fn product_nested() {
    let (m, s, r, x, y, z) = (sym("m"), sym_pos("s"), sym_pos("r"), sym("x"), sym("y"), sym("z"));
    let (a, b, c) = (Normal::new(m, s), Exponential::new(r), Cauchy::new(m, s));
    let left = ProductMeasure::new(ProductMeasure::new(a.clone(), b.clone()), c.clone());
    let right = ProductMeasure::new(a.clone(), ProductMeasure::new(b.clone(), c.clone()));
    let u: f64 = left.log_density_wrt_root(&((x, y), z));
    let v: f64 = right.log_density_wrt_root(&(x, (y, z)));
    let want = spec::normal(m, s, x) + spec::exponential(r, y) + spec::cauchy(m, s, z);
    claim_eq("left nested", u, want);
    claim_eq("right nested", v, want);
    claim("support", left.in_support(((x, y), z)) == (y >= 0.0) && right.in_support((x, (y, z))) == (y >= 0.0));
}
/// parameters and points of any magnitude
fn product_wide() {
    let (m, s, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    let (a, b, y) = (sym_in("a", 1e-50, 1e50), sym_in("b", 1e-50, 1e50), sym_in("y", -1e100, 1e100));
    let v: f64 = ProductMeasure::new(Normal::new(m, s), Gamma::new(a, b)).log_density_wrt_root(&(x, y));
    claim_eq("normal and gamma", v, spec::normal(m, s, x) + spec::gamma(a, b, y));
    let v: f64 = ProductMeasure::new(Exponential::new(a), Cauchy::new(m, s)).log_density_wrt_root(&(y, x));
    claim_eq("exponential and cauchy", v, spec::exponential(a, y) + spec::cauchy(m, s, x));
}
fn product_relative() {
    let (m, s, n, t, x, y) = (sym("m"), sym_pos("s"), sym("n"), sym_pos("t"), sym("x"), sym("y"));
    let p = ProductMeasure::new(Normal::new(m, s), Normal::new(n, t));
    let q = ProductMeasure::new(Normal::new(n, t), Normal::new(m, s));
    let v: f64 = p.log_density().wrt(q).at(&(x, y));
    claim_eq("relative density", v, spec::normal(m, s, x) + spec::normal(n, t, y) - spec::normal(n, t, x) - spec::normal(m, s, y));
    let r = p.root_measure();
    let z: f64 = r.log_density_wrt_root(&(x, y));
    claim_eq("root", z, 0.0);
}

// ---------------------------------------------------------------- C14
fn mix_formula(n: usize) {
    let x = sym_in("x", -10.0, 10.0);
    let ms: Vec<f64> = (0..n).map(|i| sym_in(&format!("m{i}"), -10.0, 10.0)).collect();
    let s = sym_in("s", 1.0, 10.0);
    let mut ws: Vec<f64> = (0..n - 1).map(|i| sym_in(&format!("w{i}"), 0.01, 0.9)).collect();
    let mut last = 1.0;
    for w in &ws {
        last = last - w;
    }
    assume(last >= 0.01);
    ws.push(last);
    let mix = MixtureMeasure::new(ms.iter().map(|m| Normal::new(*m, s)).collect::<Vec<_>>(), ws.clone());
    claim("all components", mix.num_components() == n);
    let v: f64 = mix.log_density_wrt_root(&x);
    let mut want = 0.0;
    for i in 0..n {
        want += ws[i] * spec::normal(ms[i], s, x).exp();
    }
    claim_eq_tol("density is the weighted sum", v, want.ln(), 1e-6);
    claim("everywhere", mix.in_support(x));
}
fn mix_two() {
    mix_formula(2)
}
fn mix_three() {
    mix_formula(3)
}
fn mix_four() {
    mix_formula(4)
}
/// many components, of three kinds that alternate
fn mix_many() {
    let n = [5usize, 8, 9, 17, 33][pick("n", 5)];
    let x = sym_in("x", -5.0, 5.0);
    let ms = [sym_in("m0", -5.0, 5.0), sym_in("m1", -5.0, 5.0), sym_in("m2", -5.0, 5.0)];
    let s = sym_in("s", 1.0, 5.0);
    let order = pick("order", 2);
    let kind = |i: usize| match order {
        0 => i % 3,
        _ => if i == 0 { 2 } else { (i >= n - 2) as usize },
    };
    let count = |c: usize| (0..n).filter(|i| kind(*i) == c).count() as f64;
    let (a, b) = (sym_in("a", 0.1, 0.9), sym_in("b", 0.1, 0.9));
    let ws = [a * (1.0 - b) / count(0), a * b / count(1), (1.0 - a) / count(2)];
    let mix = MixtureMeasure::new((0..n).map(|i| Normal::new(ms[kind(i)], s)).collect::<Vec<_>>(), (0..n).map(|i| ws[kind(i)]).collect());
    claim("all components", mix.num_components() == n);
    let v: f64 = mix.log_density_wrt_root(&x);
    let mut want = 0.0;
    for c in 0..3 {
        want += count(c) * ws[c] * spec::normal(ms[c], s, x).exp();
    }
    claim_eq_tol(&format!("{n} components"), v, want.ln(), 1e-6);
}
/// one component of a very small weight, which matters where the other is smaller still
fn mix_small_weight() {
    let c = [1e-3, 1e-9, 1e-13, 1e-30][pick("scale", 4)];
    let w = c * sym_in("w", 0.1, 1.0);
    let (m, n, s, t, x) = (sym("m"), sym("n"), sym_pos("s"), sym_pos("t"), sym("x"));
    let first = pick("first", 2) == 0;
    let ws = if first { vec![w, 1.0 - w] } else { vec![1.0 - w, w] };
    let v: f64 = MixtureMeasure::new(vec![Normal::new(m, s), Normal::new(n, t)], ws.clone()).log_density_wrt_root(&x);
    claim_le("at least the first component", ws[0].ln() + spec::normal(m, s, x), v);
    claim_le("at least the second component", ws[1].ln() + spec::normal(n, t, x), v);
}
fn mix_small_itself() {
    let c = [1e-3, 1e-9, 1e-13, 1e-30][pick("scale", 4)];
    let w = c * sym_in("w", 0.1, 1.0);
    let (s, x) = (sym_pos("s"), sym_in("x", 0.0, 1e6));
    let ws = if pick("first", 2) == 0 { vec![w, 1.0 - w] } else { vec![1.0 - w, w] };
    let e: f64 = MixtureMeasure::new(vec![Exponential::new(s), Exponential::new(s)], ws).log_density_wrt_root(&x);
    claim_eq_tol("a law with itself", e, spec::exponential(s, x), 1e-6);
}
fn mix_one() {
    let (m, s, x) = (sym("m"), sym_pos("s"), sym("x"));
    let mix = MixtureMeasure::new(vec![Normal::new(m, s)], vec![1.0]);
    let v: f64 = mix.log_density_wrt_root(&x);
    claim_eq("a single component", v, spec::normal(m, s, x));
}
/// far in the tails, where the densities themselves underflow
fn mix_stable() {
    let (m, s, n, t, x) = (sym("m"), sym_pos("s"), sym("n"), sym_pos("t"), sym("x"));
    let w = sym_unit("w");
    let v: f64 = MixtureMeasure::new(vec![Normal::new(m, s), Normal::new(n, t)], vec![w, 1.0 - w]).log_density_wrt_root(&x);
    let (a, b) = (w.ln() + spec::normal(m, s, x), (1.0 - w).ln() + spec::normal(n, t, x));
    claim_finite("finite everywhere", v);
    claim_le("at least the first component", a, v);
    claim_le("at least the second component", b, v);
    if a >= b {
        claim_le("at most the larger plus ln 2", v, a + 2.0f64.ln());
    } else {
        claim_le("at most the larger plus ln 2", v, b + 2.0f64.ln());
    }
}
/// components with a support of their own
fn mix_supports() {
    let (r, q, x) = (sym_in("r", 0.01, 10.0), sym_in("q", 0.01, 10.0), sym_in("x", -10.0, 10.0));
    let w = sym_in("w", 0.01, 0.99);
    let mix = MixtureMeasure::new(vec![Exponential::new(r), Exponential::new(q)], vec![w, 1.0 - w]);
    let v: f64 = mix.log_density_wrt_root(&x);
    if x < 0.0 {
        claim_eq("outside both", v, f64::NEG_INFINITY);
        claim("not in the support", !mix.in_support(x));
    } else {
        claim_eq_tol("weighted sum", v, (w * r * (-r * x).exp() + (1.0 - w) * q * (-q * x).exp()).ln(), 1e-6);
        claim("in the support", mix.in_support(x));
    }
}
fn mix_counts() {
    let (l, r, k) = (sym_in("l", 0.01, 20.0), sym_in("r", 0.01, 20.0), sym_u64("k", 0, 6));
    let mix = MixtureMeasure::new(vec![Poisson::new(l), Poisson::new(r)], vec![0.25, 0.75]);
    let v: f64 = mix.log_density_wrt_root(&k);
    let f = |l: f64| ((k as f64) * l.ln() - l - spec::lnfact(k)).exp();
    claim_eq_tol("weighted sum", v, (0.25 * f(l) + 0.75 * f(r)).ln(), 1e-6);
}
/// a component of weight zero does not matter, wherever its support is
fn mix_zero_weight() {
    let (m, s, r, x) = (sym("m"), sym_pos("s"), sym_pos("r"), sym("x"));
    let v: f64 = MixtureMeasure::new(vec![Normal::new(m, s), Normal::new(-m, s)], vec![1.0, 0.0]).log_density_wrt_root(&x);
    claim_eq("second component", v, spec::normal(m, s, x));
    let v: f64 = MixtureMeasure::new(vec![Normal::new(-m, s), Normal::new(m, s)], vec![0.0, 1.0]).log_density_wrt_root(&x);
    claim_eq("first component", v, spec::normal(m, s, x));
    let mix = MixtureMeasure::new(vec![Exponential::new(r), Exponential::new(r)], vec![0.0, 1.0]);
    claim("support", mix.in_support(x) == (x >= 0.0));
}
/// point components: the support is that of the components of positive weight
fn mix_points() {
    let (a, b, x) = (sym_u64("a", 0, 1000), sym_u64("b", 0, 1000), sym_u64("x", 0, 1000));
    let both = MixtureMeasure::new(vec![Dirac::new(a), Dirac::new(b)], vec![0.5, 0.5]);
    claim("either point", both.in_support(x) == (x == a || x == b));
    let one = MixtureMeasure::new(vec![Dirac::new(a), Dirac::new(b)], vec![0.0, 1.0]);
    claim("only the point with weight", one.in_support(x) == (x == b));
}
fn mix_ext() {
    let (m, s, n, t, x) = (sym_in("m", -5.0, 5.0), sym_in("s", 0.5, 5.0), sym_in("n", -5.0, 5.0), sym_in("t", 0.5, 5.0), sym_in("x", -5.0, 5.0));
    let (u, w) = (sym_in("u", 1e-4, 1e4), sym_in("w", 1e-4, 1e4));
    let mix = MixtureExt::<f64>::mixture(Normal::new(m, s), Normal::new(n, t), u, w);
    claim_eq("first weight", mix.weights[0], u / (u + w));
    claim_eq("second weight", mix.weights[1], w / (u + w));
    claim_eq("weights sum to one", mix.weights[0] + mix.weights[1], 1.0);
    let v: f64 = mix.log_density_wrt_root(&x);
    let (f, g) = (spec::normal(m, s, x).exp(), spec::normal(n, t, x).exp());
    claim_eq_tol("density", v, ((u * f + w * g) / (u + w)).ln(), 1e-6);
    let uni = MixtureExt::<f64>::uniform_mixture(Normal::new(m, s), Normal::new(n, t));
    let v: f64 = uni.log_density_wrt_root(&x);
    claim_eq_tol("uniform density", v, ((f + g) / 2.0).ln(), 1e-6);
}
fn mix_uniform() {
    let x = sym_in("x", -5.0, 5.0);
    let n = [1usize, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33][pick("n", 12)];
    let mix: MixtureMeasure<Normal<f64>, f64> = MixtureMeasure::uniform((0..n).map(|_| Normal::new(0.0, 1.0)).collect());
    for w in &mix.weights {
        claim_eq(&format!("{n} equal weights"), *w, 1.0 / n as f64);
    }
    let v: f64 = mix.log_density_wrt_root(&x);
    claim_eq(&format!("{n} equal components"), v, spec::normal(0.0, 1.0, x));
}
fn mix_constructor() {
    let (a, b, c) = (sym_in("a", -2.0, 2.0), sym_in("b", -2.0, 2.0), sym_in("c", -2.0, 2.0));
    let d = || Normal::new(0.0, 1.0);
    let s = a + b + c;
    assume((s - 1.0).abs() < 1e-11 || (s - 1.0).abs() > 1e-9);
    let made = catching(|| MixtureMeasure::new(vec![d(), d(), d()], vec![a, b, c])).is_some();
    let ok = a >= 0.0 && b >= 0.0 && c >= 0.0 && (s - 1.0).abs() < 1e-10;
    claim("accepted exactly when the weights are non-negative and sum to one", made == ok);
    claim("too few weights", catching(|| MixtureMeasure::new(vec![d(), d()], vec![1.0])).is_none());
    claim("too many weights", catching(|| MixtureMeasure::new(vec![d()], vec![0.5, 0.5])).is_none());
}
fn mix_order() {
    let (m, s, n, t, x) = (sym_in("m", -5.0, 5.0), sym_in("s", 0.5, 5.0), sym_in("n", -5.0, 5.0), sym_in("t", 0.5, 5.0), sym_in("x", -5.0, 5.0));
    let w = sym_in("w", 0.01, 0.99);
    let v: f64 = MixtureMeasure::new(vec![Normal::new(m, s), Normal::new(n, t)], vec![w, 1.0 - w]).log_density_wrt_root(&x);
    let u: f64 = MixtureMeasure::new(vec![Normal::new(n, t), Normal::new(m, s)], vec![1.0 - w, w]).log_density_wrt_root(&x);
    claim_eq_tol("components can be swapped", v, u, 1e-6);
    let same: f64 = MixtureMeasure::new(vec![Normal::new(m, s), Normal::new(m, s)], vec![w, 1.0 - w]).log_density_wrt_root(&x);
    claim_eq_tol("a mixture of one law with itself", same, spec::normal(m, s, x), 1e-6);
}

// ---------------------------------------------------------------- C15
/// a distribution over the root measure that pushforwards are defined for
#[derive(Clone)]
pub struct On<M>(pub M);
impl<M> MeasureMarker for On<M> {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl<M: Measure<f64>> Measure<f64> for On<M> {
    type RootMeasure = measures_combinators::measures::primitive::lebesgue::LebesgueMeasure<f64>;
    fn in_support(&self, x: f64) -> bool {
        self.0.in_support(x)
    }
    fn root_measure(&self) -> Self::RootMeasure {
        measures_combinators::measures::primitive::lebesgue::LebesgueMeasure::new()
    }
}
impl<M: HasLogDensity<f64, f64>> HasLogDensity<f64, f64> for On<M> {
    fn log_density_wrt_root(&self, x: &f64) -> f64 {
        self.0.log_density_wrt_root(x)
    }
}
macro_rules! push {
    ($base:expr, $tr:expr) => {{
        let (f, i, j) = $tr;
        PushforwardMeasure::new($base, f, i, j)
    }};
}
fn push_exp() {
    let (m, s, y) = (sym("m"), sym_pos("s"), sym("y"));
    let p = push!(On(Normal::new(m, s)), transforms::exp_transform::<f64>());
    let v: f64 = p.log_density_wrt_root(&y);
    if y > 0.0 {
        claim_eq("log-normal", v, spec::normal(m, s, y.ln()) - y.ln());
        claim("in the support", p.in_support(y));
    } else {
        claim_eq("nothing outside the range", v, f64::NEG_INFINITY);
    }
    if y < 0.0 {
        claim("not in the support", !p.in_support(y));
    }
}
fn push_exp_exponential() {
    // exp of an exponential variable is Pareto on [1, inf)
    let (r, y) = (sym_pos("r"), sym_in("y", 1e-3, 1e6));
    let p = push!(On(Exponential::new(r)), transforms::exp_transform::<f64>());
    let v: f64 = p.log_density_wrt_root(&y);
    if y >= 1.0 {
        claim_eq("pareto", v, r.ln() - (r + 1.0) * y.ln());
    } else {
        claim_eq("below one", v, f64::NEG_INFINITY);
    }
    claim("support", p.in_support(y) == (y >= 1.0));
}
fn push_log() {
    let (a, b, y) = (sym_in("a", 0.1, 100.0), sym_in("b", 0.1, 100.0), sym_in("y", -20.0, 20.0));
    let p = push!(On(Gamma::new(a, b)), transforms::log_transform::<f64>());
    let v: f64 = p.log_density_wrt_root(&y);
    claim_eq("log-gamma", v, spec::gamma(a, b, y.exp()) + y);
    claim("everywhere", p.in_support(y));
}
fn push_linear() {
    let (m, s, a, b, y) = (sym("m"), sym_pos("s"), sym("a"), sym("b"), sym("y"));
    assume(a.abs() >= 1e-3);
    let p = push!(On(Normal::new(m, s)), transforms::linear_transform(a, b));
    let v: f64 = p.log_density_wrt_root(&y);
    claim_eq("affine image of a normal", v, spec::normal(a * m + b, a.abs() * s, y));
    let p = push!(On(Cauchy::new(m, s)), transforms::linear_transform(a, b));
    let v: f64 = p.log_density_wrt_root(&y);
    claim_eq("affine image of a cauchy", v, spec::cauchy(a * m + b, a.abs() * s, y));
}
fn push_linear_support() {
    let (r, a, b, y) = (sym_pos("r"), sym_in("a", -100.0, 100.0), sym_in("b", -100.0, 100.0), sym_in("y", -1000.0, 1000.0));
    assume(a.abs() >= 1e-3);
    let p = push!(On(Exponential::new(r)), transforms::linear_transform(a, b));
    let v: f64 = p.log_density_wrt_root(&y);
    let x = (y - b) / a;
    claim_eq("affine image of an exponential", v, if x >= 0.0 { r.ln() - r * x - a.abs().ln() } else { f64::NEG_INFINITY });
    claim("support", p.in_support(y) == (x >= 0.0));
}
fn push_logit() {
    let (a, b, y) = (sym_pos("a"), sym_pos("b"), sym_in("y", -600.0, 25.0));
    let p = push!(On(Beta::new(a, b)), transforms::logit_transform::<f64>());
    let v: f64 = p.log_density_wrt_root(&y);
    let lse = (1.0 + y.exp()).ln();
    let lb = lgamma(a) + lgamma(b) - lgamma(a + b);
    claim_eq_tol("logit of a beta variable", v, a * (y - lse) - b * lse - lb, 1e-6);
    claim("everywhere", p.in_support(y));
    let u = push!(On(Beta::new(1.0, 1.0)), transforms::logit_transform::<f64>());
    let v: f64 = u.log_density_wrt_root(&y);
    claim_eq_tol("logit of a uniform variable is logistic", v, y - 2.0 * lse, 1e-6);
}
/// forward and inverse maps are inverse to one another, and the Jacobian is that of the inverse
fn transforms_inverse() {
    let (x, u, a, b) = (sym_in("x", -600.0, 20.0), sym_in("u", 1e-12, 0.999), sym("a"), sym("b"));
    let z = sym_pos("z");
    assume(a.abs() >= 1e-3);
    let (f, i, _) = transforms::log_transform::<f64>();
    claim_eq("log", i(&f(&z)), z);
    claim_eq("log, back", f(&i(&x)), x);
    let (f, i, _) = transforms::exp_transform::<f64>();
    claim_eq("exp", i(&f(&x)), x);
    claim_eq("exp, back", f(&i(&z)), z);
    let (f, i, _) = transforms::linear_transform(a, b);
    claim_eq_tol("linear", i(&f(&x)), x, 1e-5);
    claim_eq_tol("linear, back", f(&i(&x)), x, 1e-5);
    let (f, i, _) = transforms::logit_transform::<f64>();
    claim_eq("logit", i(&f(&u)), u);
    claim_eq_tol("logit, back", f(&i(&x)), x, 1e-6);
}
fn jacobians() {
    let (y, z, a, b) = (sym_in("y", -600.0, 20.0), sym_pos("z"), sym("a"), sym("b"));
    assume(a.abs() >= 1e-3);
    let (_, i, j) = transforms::log_transform::<f64>();
    claim_eq("log: derivative of exp", j(&y).exp(), i(&y));
    let (_, _, j) = transforms::exp_transform::<f64>();
    claim_eq("exp: derivative of ln", j(&z).exp() * z, 1.0);
    let (_, i, j) = transforms::linear_transform(a, b);
    claim_eq_tol("linear: slope", j(&y).exp() * a.abs(), 1.0, 1e-6);
    claim_eq_tol("linear: difference quotient", (i(&(y + 1.0)) - i(&y)) * a, 1.0, 1e-4);
    let (_, i, j) = transforms::logit_transform::<f64>();
    let p = i(&y);
    claim_eq_tol("logit: p(1-p)", j(&y).exp(), p * (1.0 - p), 1e-6);
}
fn push_twice() {
    let (m, s, a, b, y) = (sym("m"), sym_pos("s"), sym_in("a", 0.01, 100.0), sym_in("b", -100.0, 100.0), sym_pos("y"));
    let inner = push!(On(Normal::new(m, s)), transforms::linear_transform(a, b));
    let outer = push!(inner, transforms::exp_transform::<f64>());
    let v: f64 = outer.log_density_wrt_root(&y);
    claim_eq("exp of an affine image", v, spec::normal(a * m + b, a * s, y.ln()) - y.ln());
    let (f, i, j) = transforms::exp_transform::<f64>();
    let ext = On(Normal::new(m, s)).pushforward(f, i, j);
    let w: f64 = ext.log_density_wrt_root(&y);
    claim_eq("method", w, spec::normal(m, s, y.ln()) - y.ln());
}
fn push_custom() {
    // x = y^3 is given by its inverse and Jacobian only
    let (m, s, y) = (sym("m"), sym_pos("s"), sym_in("y", 0.01, 50.0));
    let p = PushforwardMeasure::new(On(Normal::new(m, s)), |x: &f64| x.cbrt(), |y: &f64| y * y * y, |y: &f64| (3.0 * y * y).ln());
    let v: f64 = p.log_density_wrt_root(&y);
    claim_eq("cube root of a normal", v, spec::normal(m, s, y * y * y) + (3.0 * y * y).ln());
    let q: f64 = p.log_density().at(&y);
    claim_eq("builder", q, v);
}

// ---------------------------------------------------------------- C16
fn weighted() {
    let (m, s, w, x, r) = (sym("m"), sym_pos("s"), sym("w"), sym("x"), sym_pos("r"));
    let d = WeightedMeasure::<_, f64, f64>::new(Normal::new(m, s), w);
    let v: f64 = d.log_density_wrt_root(&x);
    claim_eq("weight adds", v, w + spec::normal(m, s, x));
    let rel: f64 = d.log_density().wrt(Normal::new(m, s)).at(&x);
    claim_eq("relative to its base", rel, w);
    let e = WeightedMeasure::<_, f64, f64>::new(Exponential::new(r), w);
    let v: f64 = e.log_density_wrt_root(&x);
    claim_eq("with a support", v, w + spec::exponential(r, x));
    claim("support unchanged", e.in_support(x) == (x >= 0.0));
    let t = sym("t");
    let twice = WeightedMeasure::<_, f64, f64>::new(d, t);
    let v: f64 = twice.log_density_wrt_root(&x);
    claim_eq("weights add up", v, t + w + spec::normal(m, s, x));
    let none = WeightedMeasure::<_, f64, f64>::new(Normal::new(m, s), 0.0);
    let v: f64 = none.log_density_wrt_root(&x);
    claim_eq("log weight zero changes nothing", v, spec::normal(m, s, x));
}
/// parameters and points of any magnitude
fn weighted_wide() {
    let (m, s, x, w) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("x", -1e100, 1e100), sym_in("w", -1e100, 1e100));
    let v: f64 = WeightedMeasure::<_, f64, f64>::new(Normal::new(m, s), w).log_density_wrt_root(&x);
    claim_eq("weight adds", v, w + spec::normal(m, s, x));
    let v: f64 = WeightedMeasure::<_, f64, f64>::new(LebesgueMeasure::<f64>::new(), w).log_density_wrt_root(&x);
    claim_eq("weighted lebesgue", v, w);
    let v: f64 = IntegralMeasure::<_, _, f64>::new(Cauchy::new(m, s), move |x: &f64| w - *x).log_density_wrt_root(&x);
    claim_eq("integral", v, w - x + spec::cauchy(m, s, x));
}
fn weighted_counts() {
    let (w, l, k) = (sym("w"), sym_pos("l"), sym_u64("k", 0, 10));
    let d = WeightedMeasure::<_, f64, u64>::new(CountingMeasure::<u64>::new(), w);
    let v: f64 = d.log_density_wrt_root(&k);
    claim_eq("weighted counting measure", v, w);
    let p: f64 = Poisson::new(l).log_density().wrt(d).at(&k);
    claim_eq("poisson relative to it", p, (k as f64) * l.ln() - l - spec::lnfact(k) - w);
    let f = WeightedMeasure::<_, f64, u64>::new(FactorialMeasure::<f64>::new(), w);
    let v: f64 = f.log_density_wrt_root(&k);
    claim_eq("weighted factorial measure", v, w - spec::lnfact(k));
}
fn integral() {
    let (a, b, m, s, x) = (sym("a"), sym("b"), sym("m"), sym_pos("s"), sym("x"));
    let d = IntegralMeasure::<_, _, f64>::new(LebesgueMeasure::<f64>::new(), move |x: &f64| a * *x + b);
    let v: f64 = d.log_density_wrt_root(&x);
    claim_eq("given density", v, a * x + b);
    let e = IntegralMeasure::<_, _, f64>::new(Normal::new(m, s), move |x: &f64| a * *x + b);
    let v: f64 = e.log_density_wrt_root(&x);
    claim_eq("chain rule", v, a * x + b + spec::normal(m, s, x));
    let rel: f64 = e.log_density().wrt(Normal::new(m, s)).at(&x);
    claim_eq("relative to its base", rel, a * x + b);
    let f = IntegralMeasure::<_, _, f64>::new(e, move |x: &f64| b * *x);
    let v: f64 = f.log_density_wrt_root(&x);
    claim_eq("nested", v, b * x + a * x + b + spec::normal(m, s, x));
}
fn integral_support() {
    let (r, a, x) = (sym_pos("r"), sym("a"), sym("x"));
    let e = IntegralMeasure::<_, _, f64>::new(Exponential::new(r), move |_: &f64| a);
    let v: f64 = e.log_density_wrt_root(&x);
    claim_eq("support of the base", v, if x >= 0.0 { a + r.ln() - r * x } else { f64::NEG_INFINITY });
    claim("support unchanged", e.in_support(x) == (x >= 0.0));
}
/// a weighted measure is an integral measure with a constant density
fn weighted_is_integral() {
    let (w, m, s, x) = (sym("w"), sym("m"), sym_pos("s"), sym("x"));
    let a: f64 = WeightedMeasure::<_, f64, f64>::new(Normal::new(m, s), w).log_density_wrt_root(&x);
    let b: f64 = IntegralMeasure::<_, _, f64>::new(Normal::new(m, s), move |_: &f64| w).log_density_wrt_root(&x);
    claim_eq("same density", a, b);
}
fn dirac() {
    let (p, x) = (sym_any("p"), sym_any("x"));
    claim("at its point only", Dirac::new(p).in_support(x) == (p == x));
}
fn dirac_counts() {
    let (p, x) = (sym_u64("p", 0, u64::MAX), sym_u64("x", 0, u64::MAX));
    claim("at its point only", Dirac::new(p).in_support(x) == (p == x));
    claim("at its point", Dirac::new(p).in_support(p));
}

pub const S: &[Scenario] = &[
    ("C13.continuous", product_continuous),
    ("C13.supports", product_supports),
    ("C13.mixed", product_mixed),
    ("C13.discrete", product_discrete),
    ("C13.nested", product_nested),
    ("C13.relative", product_relative),
    ("C13.wide", product_wide),
    ("C14.one", mix_one),
    ("C14.two", mix_two),
    ("C14.three", mix_three),
    ("C14.t.four", mix_four),
    ("C14.many", mix_many),
    ("C14.small_weight", mix_small_weight),
    ("C14.small_itself", mix_small_itself),
    ("C14.stable", mix_stable),
    ("C14.supports", mix_supports),
    ("C14.counts", mix_counts),
    ("C14.zero_weight", mix_zero_weight),
    ("C14.points", mix_points),
    ("C14.ext", mix_ext),
    ("C14.uniform", mix_uniform),
    ("C14.constructor", mix_constructor),
    ("C14.order", mix_order),
    ("C15.exp", push_exp),
    ("C15.exp_exponential", push_exp_exponential),
    ("C15.log", push_log),
    ("C15.linear", push_linear),
    ("C15.linear_support", push_linear_support),
    ("C15.logit", push_logit),
    ("C15.inverse", transforms_inverse),
    ("C15.jacobians", jacobians),
    ("C15.twice", push_twice),
    ("C15.custom", push_custom),
    ("C16.weighted", weighted),
    ("C16.weighted_counts", weighted_counts),
    ("C16.wide", weighted_wide),
    ("C16.integral", integral),
    ("C16.integral_support", integral_support),
    ("C16.weighted_is_integral", weighted_is_integral),
    ("C16.dirac", dirac),
    ("C16.dirac_counts", dirac_counts),
];
