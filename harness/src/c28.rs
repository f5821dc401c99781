//! C28 exponential-family formulas written against the interpreter interface.
use crate::c20::{read, tree, Style};
use crate::exprs::*;
use crate::spec;
use measures_core::*;
use measures_distributions::{Cauchy, Exponential, Gamma, Normal};
use measures_exponential_family::final_tagless::{patterns, ExpFamEval, ExponentialFamilyExpr};
use measures_exponential_family::ExponentialFamily;
use symbolic_math::final_tagless::{DirectEval, JITEval, MathExpr, PrettyPrint};
use symbolic_math::Expr;
use symrt::*;

fn real(n: &str) -> f64 {
    sym_in(n, -100.0, 100.0)
}
fn scale(n: &str) -> f64 {
    sym_in(n, 1e-3, 1e3)
}
fn reals(n: &str, k: usize) -> Vec<f64> {
    (0..k).map(|i| real(&format!("{n}{i}"))).collect()
}
fn at(e: &Expr, env: &[(&str, f64)]) -> f64 {
    e.evaluate(&map(env)).unwrap_or(f64::NAN)
}
fn printed(label: &str, t: &str, env: &[(&str, f64)], want: f64) {
    match read(t, Style::Plain) {
        Some(e) => claim_eq_tol(label, meaning(&e, env).unwrap_or(f64::NAN), want, 1e-6),
        None => claim(&format!("{label}: a formula"), false),
    }
}
fn names(n: &str, k: usize) -> Vec<String> {
    (0..k).map(|i| format!("{n}{i}")).collect()
}
/// a program over lists and scalars, run in every interpreter
fn everywhere(label: &str, lists: &[(&str, &[f64])], want: f64, run: [&dyn Fn() -> f64; 2], jit: &dyn Fn(&dyn Fn(&str) -> symbolic_math::final_tagless::JITRepr) -> Expr, text: &dyn Fn(&dyn Fn(&str) -> String) -> String) {
    claim_eq(&format!("{label}, direct"), run[0](), want);
    claim_eq(&format!("{label}, specialised"), run[1](), want);
    let own: Vec<(String, f64)> = lists.iter().flat_map(|(n, v)| v.iter().enumerate().map(move |(i, x)| (format!("{n}{i}"), *x))).collect();
    let env: Vec<(&str, f64)> = own.iter().map(|(n, x)| (n.as_str(), *x)).collect();
    claim_eq(&format!("{label}, tree"), at(&jit(&|n| JITEval::var(n)), &env), want);
    printed(&format!("{label}, printed"), &text(&|n| PrettyPrint::var(n)), &env, want);
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len() {
        s = s + a[i] * b[i];
    }
    s
}
/// lengths up to past any plausible unrolling
const LENGTHS: [usize; 12] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 33];
fn length() -> usize {
    LENGTHS[pick("k", LENGTHS.len())]
}
fn dots() {
    let k = length();
    let (a, b) = (reals("a", k), reals("b", k));
    let list = |n: &str, f: &dyn Fn(&str) -> symbolic_math::final_tagless::JITRepr| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    let texts = |n: &str, f: &dyn Fn(&str) -> String| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    everywhere("dot product", &[("a", &a), ("b", &b)], dot(&a, &b),
        [&|| <DirectEval as ExponentialFamilyExpr>::dot_product::<f64>(&a, &b), &|| <ExpFamEval as ExponentialFamilyExpr>::dot_product::<f64>(&a, &b)],
        &|f| tree(&<JITEval as ExponentialFamilyExpr>::dot_product::<f64>(&list("a", f), &list("b", f))),
        &|f| <PrettyPrint as ExponentialFamilyExpr>::dot_product::<f64>(&texts("a", f), &texts("b", f)));
    claim_eq("arrays", ExpFamEval::dot_product_array(&a, &b), dot(&a, &b));
}
fn dots_edge() {
    let (a, b) = (reals("a", 3), reals("b", 3));
    let e: [f64; 0] = [];
    claim_eq("empty", <DirectEval as ExponentialFamilyExpr>::dot_product::<f64>(&e, &e), 0.0);
    claim_eq("empty arrays", ExpFamEval::dot_product_array(&e, &e), 0.0);
    claim_eq("empty tree", at(&tree(&<JITEval as ExponentialFamilyExpr>::dot_product::<f64>(&[], &[])), &[]), 0.0);
    claim("different lengths", catching(|| <DirectEval as ExponentialFamilyExpr>::dot_product::<f64>(&a, &b[..2])).is_none());
    claim("different lengths, other side", catching(|| <DirectEval as ExponentialFamilyExpr>::dot_product::<f64>(&a[..1], &b)).is_none());
    claim("different lengths, empty", catching(|| <DirectEval as ExponentialFamilyExpr>::dot_product::<f64>(&e, &b)).is_none());
}
fn stat_sums() {
    let (n, k) = ([1, 2, 3, 4, 5, 8, 9, 17, 33][pick("n", 9)], [1, 2, 3, 5, 9][pick("k", 5)]);
    let t: Vec<Vec<f64>> = (0..n).map(|i| reals(&format!("t{i}_"), k)).collect();
    let d = <DirectEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&t);
    let s = <ExpFamEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&t);
    let r = ExpFamEval::sum_stats_array(&t.iter().map(|v| v.as_slice()).collect::<Vec<_>>());
    // the entries are constants of the program in short lists, variables in long ones
    let short = n * k <= 9;
    let own: Vec<(String, f64)> = (0..n).flat_map(|r| (0..k).map(move |c| (r, c))).map(|(r, c)| (format!("t{r}_{c}"), t[r][c])).collect();
    let env: Vec<(&str, f64)> = if short { vec![] } else { own.iter().map(|(n, x)| (n.as_str(), *x)).collect() };
    let j: Vec<Vec<_>> = (0..n).map(|r| (0..k).map(|c| if short { JITEval::constant(t[r][c]) } else { JITEval::var(&format!("t{r}_{c}")) }).collect()).collect();
    let j = <JITEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&j);
    claim("sizes", d.len() == k && s.len() == k && r.len() == k && j.len() == k);
    for c in 0..k {
        let mut want = 0.0;
        for row in &t {
            want = want + row[c];
        }
        claim_eq(&format!("sum {c}"), d[c], want);
        claim_eq(&format!("sum {c}, specialised"), s[c], want);
        claim_eq(&format!("sum {c}, arrays"), r[c], want);
        claim_eq(&format!("sum {c}, tree"), at(&tree(&j[c]), &env), want);
    }
    let none: Vec<Vec<f64>> = vec![];
    claim("no samples", <DirectEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&none).is_empty());
    claim("no samples, arrays", ExpFamEval::sum_stats_array(&[]).is_empty());
}
fn formula() {
    let k = length();
    let (a, b) = (reals("a", k), reals("b", k));
    let (p, h) = (real("p"), real("h"));
    let want = dot(&a, &b) - p + h;
    let list = |n: &str, f: &dyn Fn(&str) -> symbolic_math::final_tagless::JITRepr| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    let texts = |n: &str, f: &dyn Fn(&str) -> String| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    everywhere("one point", &[("a", &a), ("b", &b), ("p", &[p]), ("h", &[h])], want,
        [&|| <DirectEval as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&a, &b, p, h), &|| <ExpFamEval as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&a, &b, p, h)],
        &|f| tree(&<JITEval as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&list("a", f), &list("b", f), f("p0"), f("h0"))),
        &|f| <PrettyPrint as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&texts("a", f), &texts("b", f), f("p0"), f("h0")));
}
fn iid_formula() {
    let k = length();
    let (a, b) = (reals("a", k), reals("b", k));
    let (p, h, n) = (real("p"), real("h"), sym_u64("n", 0, 1000) as f64);
    let want = dot(&a, &b) - n * p + h;
    let list = |n: &str, f: &dyn Fn(&str) -> symbolic_math::final_tagless::JITRepr| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    let texts = |n: &str, f: &dyn Fn(&str) -> String| names(n, k).iter().map(|n| f(n)).collect::<Vec<_>>();
    everywhere("many points", &[("a", &a), ("b", &b), ("p", &[p]), ("h", &[h]), ("n", &[n])], want,
        [&|| <DirectEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&a, &b, p, n, h), &|| <ExpFamEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&a, &b, p, n, h)],
        &|f| tree(&<JITEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&list("a", f), &list("b", f), f("p0"), f("n0"), f("h0"))),
        &|f| <PrettyPrint as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&texts("a", f), &texts("b", f), f("p0"), f("n0"), f("h0")));
}
/// one and many points of the families themselves
fn families() {
    let (m, s) = (real("m"), scale("s"));
    let xs = reals("x", 1 + pick("n", 3));
    let d = Normal::new(m, s);
    let (eta, lp) = d.natural_and_log_partition();
    let lb = |x: f64| <Normal<f64> as ExponentialFamily<f64, f64>>::base_measure(&d).log_density().at(&x);
    let stats: Vec<Vec<f64>> = xs.iter().map(|x| d.sufficient_statistic(x).to_vec()).collect();
    claim_eq("normal, one point", <DirectEval as ExponentialFamilyExpr>::exp_fam_log_density::<f64>(&eta, &stats[0], lp, lb(xs[0])), d.log_density().at(&xs[0]));
    let mut want = 0.0;
    let mut h = 0.0;
    for x in &xs {
        want = want + d.log_density().at(x);
        h = h + lb(*x);
    }
    let sum = <DirectEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&stats);
    claim_eq("normal, many points", <DirectEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&eta, &sum, lp, xs.len() as f64, h), want);
}
fn families_positive() {
    let r = scale("r");
    let n = 1 + pick("n", 3);
    let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), 1e-3, 100.0)).collect();
    let d = Exponential::new(r);
    let (eta, lp) = d.natural_and_log_partition();
    let stats: Vec<Vec<f64>> = xs.iter().map(|x| d.sufficient_statistic(x).to_vec()).collect();
    let mut want = 0.0;
    for x in &xs {
        want = want + d.log_density().at(x);
    }
    let sum = <DirectEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&stats);
    claim_eq("exponential, many points", <DirectEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&eta, &sum, lp, n as f64, 0.0), want);
    let a = sym_in("a", 0.1, 100.0);
    let g = Gamma::new(a, r);
    let (eta, lp) = g.natural_and_log_partition();
    let stats: Vec<Vec<f64>> = xs.iter().map(|x| g.sufficient_statistic(x).to_vec()).collect();
    let mut want = 0.0;
    for x in &xs {
        want = want + g.log_density().at(x);
    }
    let sum = <DirectEval as ExponentialFamilyExpr>::sum_sufficient_stats::<f64>(&stats);
    claim_eq("gamma, many points", <DirectEval as ExponentialFamilyExpr>::iid_exp_fam_log_density::<f64>(&eta, &sum, lp, n as f64, 0.0), want);
}
fn helpers() {
    let x = sym_in("x", -300.0, 300.0);
    let l = 1.0 / (1.0 + (-x).exp());
    claim_eq("logistic", <DirectEval as ExponentialFamilyExpr>::logistic::<f64>(x), l);
    claim_eq("logistic, specialised", <ExpFamEval as ExponentialFamilyExpr>::logistic::<f64>(x), l);
    claim_eq("logistic, tree", at(&tree(&<JITEval as ExponentialFamilyExpr>::logistic::<f64>(JITEval::var("x"))), &[("x", x)]), l);
    printed("logistic, printed", &<PrettyPrint as ExponentialFamilyExpr>::logistic::<f64>(PrettyPrint::var("x")), &[("x", x)], l);
    let s = (1.0 + x.exp()).ln();
    claim_eq("softplus", <DirectEval as ExponentialFamilyExpr>::softplus::<f64>(x), s);
    claim_eq("softplus, tree", at(&tree(&<JITEval as ExponentialFamilyExpr>::softplus::<f64>(JITEval::var("x"))), &[("x", x)]), s);
    printed("softplus, printed", &<PrettyPrint as ExponentialFamilyExpr>::softplus::<f64>(PrettyPrint::var("x")), &[("x", x)], s);
    let y = sym_in("y", -30.0, 30.0);
    let (p, q) = (<DirectEval as ExponentialFamilyExpr>::logistic::<f64>(y), <DirectEval as ExponentialFamilyExpr>::logistic::<f64>(-y));
    claim_eq("logistic of both signs", p + q, 1.0);
    claim_eq("softplus and logistic", <DirectEval as ExponentialFamilyExpr>::softplus::<f64>(y), -q.ln());
}
fn log_sum_exp() {
    let k = [1, 2, 3, 4, 5, 6, 8, 9][pick("k", 8)];
    let x: Vec<f64> = (0..k).map(|i| sym_in(&format!("x{i}"), -30.0, 30.0)).collect();
    let mut s = 0.0;
    for v in &x {
        s = s + v.exp();
    }
    let want = s.ln();
    let list = |f: &dyn Fn(&str) -> symbolic_math::final_tagless::JITRepr| names("x", k).iter().map(|n| f(n)).collect::<Vec<_>>();
    let texts = |f: &dyn Fn(&str) -> String| names("x", k).iter().map(|n| f(n)).collect::<Vec<_>>();
    everywhere("log-sum-exp", &[("x", &x)], want,
        [&|| <DirectEval as ExponentialFamilyExpr>::log_sum_exp::<f64>(&x), &|| <ExpFamEval as ExponentialFamilyExpr>::log_sum_exp::<f64>(&x)],
        &|f| tree(&<JITEval as ExponentialFamilyExpr>::log_sum_exp::<f64>(&list(f))),
        &|f| <PrettyPrint as ExponentialFamilyExpr>::log_sum_exp::<f64>(&texts(f)));
    claim("of nothing", <DirectEval as ExponentialFamilyExpr>::log_sum_exp::<f64>(&[]) == f64::NEG_INFINITY);
    let big = sym_in("big", -5000.0, 5000.0);
    claim_eq("of one value", <DirectEval as ExponentialFamilyExpr>::log_sum_exp::<f64>(&[big]), big);
}
const LN_2PI: f64 = 1.8378770664093454836;
fn normal(x: f64, m: f64, s: f64) -> f64 {
    let d = x - m;
    -(d * d) / (s * s) / 2.0 - s.ln() - LN_2PI / 2.0
}
macro_rules! pattern {
    ($f:ident, $label:expr, $env:expr, $want:expr, $($n:expr),*) => {{
        let (env, want) = ($env, $want);
        let val = |n: &str| env.iter().find(|p| p.0 == n).unwrap().1;
        let l = |w: &str| format!("{}{}", $label, w);
        claim_eq(&l(", specialised"), patterns::$f::<ExpFamEval>($(ExpFamEval::var($n, val($n))),*), want);
        claim_eq(&l(", direct"), patterns::$f::<DirectEval>($(DirectEval::var($n, val($n))),*), want);
        claim_eq(&l(", tree"), at(&tree(&patterns::$f::<JITEval>($(JITEval::var($n)),*)), &env), want);
        claim_eq(&l(", tree of constants"), at(&tree(&patterns::$f::<JITEval>($(JITEval::constant(val($n))),*)), &[]), want);
        printed(&l(", printed"), &patterns::$f::<PrettyPrint>($(PrettyPrint::var($n)),*), &env, want);
    }};
}
fn p_normal() {
    let (x, m, s) = (real("x"), real("m"), scale("s"));
    let want = normal(x, m, s);
    pattern!(normal_log_density, "normal", [("x", x), ("m", m), ("s", s)], want, "x", "m", "s");
    claim_eq("distribution object", Normal::new(m, s).log_density().at(&x), want);
    pattern!(standard_normal_log_density, "standard normal", [("x", x)], normal(x, 0.0, 1.0), "x");
}
fn p_exponential() {
    let (x, r) = (sym_in("x", 0.0, 100.0), scale("r"));
    let want = r.ln() - r * x;
    pattern!(exponential_log_density, "exponential", [("x", x), ("r", r)], want, "x", "r");
    claim_eq("distribution object", Exponential::new(r).log_density().at(&x), want);
}
/// the counts for which the pattern has the right factorial
fn p_poisson() {
    let (x, r) = (1.0 + pick("x", 2) as f64, scale("r"));
    pattern!(poisson_log_density, "Poisson", [("x", x), ("r", r)], x * r.ln() - r - x.ln(), "x", "r");
    // what varies with the rate is right for every count
    let (k, q) = (sym_u64("k", 1, 1000) as f64, scale("q"));
    let f = |r: f64| patterns::poisson_log_density::<DirectEval>(k, r);
    claim_eq("two rates", f(r) - f(q), k * (r.ln() - q.ln()) - (r - q));
}
fn p_poisson_counts() {
    let (k, r) = (3 + pick("k", 4) as u64, scale("r"));
    let want = k as f64 * r.ln() - r - spec::lnfact(k);
    claim_eq("Poisson density", patterns::poisson_log_density::<DirectEval>(k as f64, r), want);
}
fn operations() {
    type D = ExpFamEval;
    let (x, y) = (sym_in("x", -5.0, 5.0), sym_in("y", -5.0, 5.0));
    let p = sym_in("p", 0.1, 5.0);
    claim_eq("constant", D::constant(x), x);
    claim_eq("variable", D::var("a", x), x);
    claim_eq("sum", D::add::<f64, f64, f64>(x, y), x + y);
    claim_eq("difference", D::sub::<f64, f64, f64>(x, y), x - y);
    claim_eq("product", D::mul::<f64, f64, f64>(x, y), x * y);
    claim_eq("quotient", D::div::<f64, f64, f64>(x, p), x / p);
    claim_eq("power", D::pow(p, x), (x * p.ln()).exp());
    claim_eq("negation", D::neg(x), -x);
    claim_eq("logarithm", D::ln(p), p.ln());
    claim_eq("exponential", D::exp(x), x.exp());
    claim_eq("root", D::sqrt(p) * D::sqrt(p), p);
    claim_le("root sign", 0.0, D::sqrt(p));
    claim_eq("sine", D::sin(x), x.sin());
    claim_eq("cosine", D::cos(x), x.cos());
}
pub const S: &[Scenario] = &[
    ("C28.dots", dots),
    ("C28.dots_edge", dots_edge),
    ("C28.stat_sums", stat_sums),
    ("C28.formula", formula),
    ("C28.iid_formula", iid_formula),
    ("C28.families", families),
    ("C28.families_positive", families_positive),
    ("C28.helpers", helpers),
    ("C28.log_sum_exp", log_sum_exp),
    ("C28.normal", p_normal),
    ("C28.exponential", p_exponential),
    ("C28.poisson", p_poisson),
    ("C28.poisson_counts", p_poisson_counts),
    ("C28.operations", operations),
];
