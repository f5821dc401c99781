//! C26 Bayesian expressions.
use crate::exprs::*;
use measures_bayesian::bayesian as by;
use measures_bayesian::bayesian::expressions as ex;
use std::collections::HashMap;
use symbolic_math::Expr;
use symrt::*;

fn half_ln_2pi() -> f64 {
    0.5 * (2.0 * std::f64::consts::PI).ln()
}
/// log-density of a normal variable, from the definition
fn normal(x: f64, m: f64, s: f64) -> f64 {
    let d = x - m;
    -(d * d) / (s * s) / 2.0 - s.ln() - half_ln_2pi()
}
fn at(e: &Expr, env: &[(&str, f64)]) -> f64 {
    e.evaluate(&map(env)).unwrap_or(f64::NAN)
}
fn real(n: &str) -> f64 {
    sym_in(n, -100.0, 100.0)
}
fn scale(n: &str) -> f64 {
    sym_in(n, 1e-3, 1e3)
}
fn likelihood() {
    let (x, m, s) = (real("x"), real("m"), scale("s"));
    // names in any order, also one name used twice
    let names = [["x", "mu", "sigma"], ["mu", "x", "sigma"], ["sigma", "b", "a"]][pick("names", 3)];
    let env = [(names[0], x), (names[1], m), (names[2], s)];
    for (l, e) in [("likelihood", ex::normal_likelihood(names[0], names[1], names[2])), ("alias", by::likelihood(names[0], names[1], names[2]))] {
        claim_eq(l, at(&e, &env), normal(x, m, s));
        let mut v: Vec<String> = e.variables();
        v.sort();
        let mut w: Vec<String> = names.iter().map(|n| n.to_string()).collect();
        w.sort();
        claim(&format!("{l}: variables"), v == w);
        claim_eq(&format!("{l}: simplified"), at(&e.clone().simplify(), &env), normal(x, m, s));
    }
    let e = ex::normal_likelihood("x", "t", "t");
    claim_eq("one variable in two places", at(&e, &[("x", x), ("t", s)]), normal(x, s, s));
}
fn prior() {
    let (p, m, s) = (real("p"), real("m"), scale("s"));
    for (l, e) in [("prior", ex::normal_prior("p", m, s)), ("alias", by::prior("p", m, s))] {
        claim_eq(l, at(&e, &[("p", p)]), normal(p, m, s));
        claim(&format!("{l}: variables"), e.variables() == ["p"]);
        claim_eq(&format!("{l}: simplified"), at(&e.clone().simplify(), &[("p", p)]), normal(p, m, s));
    }
    claim_eq("variable", at(&by::variable("p"), &[("p", p)]), p);
}
fn posterior() {
    let (x, mu, s, m0, s0) = (real("x"), real("mu"), scale("s"), real("m0"), scale("s0"));
    let env = [("x", x), ("mu", mu), ("sigma", s)];
    let (l, p) = (ex::normal_likelihood("x", "mu", "sigma"), ex::normal_prior("mu", m0, s0));
    let want = normal(x, mu, s) + normal(mu, m0, s0);
    claim_eq("posterior", at(&ex::posterior_log_density(l.clone(), p.clone()), &env), want);
    claim_eq("alias", at(&by::posterior(l.clone(), p.clone()), &env), want);
    claim_eq("simplified", at(&ex::posterior_log_density(l.clone(), p.clone()).simplify(), &env), want);
    // two observations and two priors
    let x2 = real("x2");
    let s1 = scale("s1");
    let all = ex::posterior_log_density(
        ex::posterior_log_density(l, ex::normal_likelihood("x2", "mu", "sigma")),
        ex::posterior_log_density(p, ex::normal_prior("sigma", 0.0, s1)),
    );
    let env = [("x", x), ("mu", mu), ("sigma", s), ("x2", x2)];
    claim_eq("two observations, two priors", at(&all, &env), want + normal(x2, mu, s) + normal(s, 0.0, s1));
}
/// the posterior of any two expressions is their sum
fn posterior_of(i: usize) {
    let parts: [fn() -> Expr; 6] = [
        || v("x"),
        || un(NEG, v("y")),
        || k(0.0),
        || mul(v("x"), v("y")),
        || un(LN, v("y")),
        || sub(k(1.5), v("x")),
    ];
    let (a, b) = (parts[i](), parts[pick("b", 6)]());
    let env = [("x", real("x")), ("y", sym_in("y", 0.1, 100.0))];
    let want = meaning(&a, &env).unwrap_or(f64::NAN) + meaning(&b, &env).unwrap_or(f64::NAN);
    let e = ex::posterior_log_density(a, b);
    claim_eq("sum of the parts", at(&e, &env), want);
    claim_eq("sum of the parts, simplified", at(&e.clone().simplify(), &env), want);
}
fn sums() {
    posterior_of(pick("a", 6))
}
fn hierarchical() {
    let (x, mu, s, t, m0, s0) = (real("x"), real("mu"), scale("s"), scale("t"), real("m0"), scale("s0"));
    let e = ex::hierarchical_normal("x", "mu", "sigma", "tau", m0, s0);
    let env = [("x", x), ("mu", mu), ("sigma", s), ("tau", t)];
    // x ~ N(mu, sigma), mu ~ N(m0, tau), tau ~ N(0, s0)
    let want = normal(x, mu, s) + normal(mu, m0, t) + normal(t, 0.0, s0);
    claim_eq("hierarchical model", at(&e, &env), want);
    let mut v: Vec<String> = e.variables();
    v.sort();
    claim("variables", v == ["mu", "sigma", "tau", "x"]);
    claim_eq("simplified", at(&e.simplify(), &env), want);
}
fn hierarchical_other_names() {
    let (x, mu, s, t, m0, s0) = (real("x"), real("mu"), scale("s"), scale("t"), real("m0"), scale("s0"));
    let e = ex::hierarchical_normal("tau", "sigma", "mu", "x", m0, s0);
    let env = [("tau", x), ("sigma", mu), ("mu", s), ("x", t)];
    claim_eq("hierarchical model", at(&e, &env), normal(x, mu, s) + normal(mu, m0, t) + normal(t, 0.0, s0));
}
/// mixture of n normal components; the densities do not underflow
fn mixture_of(n: usize, zero: usize) {
    let x = sym_in("x", -5.0, 5.0);
    let w: Vec<f64> = (0..n).map(|i| if i == zero { 0.0 } else { sym_in(&format!("w{i}"), 0.01, 1.0) }).collect();
    let m: Vec<f64> = (0..n).map(|i| sym_in(&format!("m{i}"), -5.0, 5.0)).collect();
    let s: Vec<f64> = (0..n).map(|i| sym_in(&format!("s{i}"), 0.5, 10.0)).collect();
    let mut p = 0.0;
    for i in 0..n {
        p = p + w[i] * normal(x, m[i], s[i]).exp();
    }
    let e = ex::mixture_likelihood("x", &w, &m, &s);
    claim_eq("mixture", at(&e, &[("x", x)]), p.ln());
    let parts: Vec<(f64, Expr)> = (0..n).map(|i| (w[i], ex::normal_prior("x", m[i], s[i]))).collect();
    claim_eq("mixture of expressions", at(&ex::mixture_likelihood_old(&parts), &[("x", x)]), p.ln());
}
fn mixture() {
    mixture_of(1 + pick("n", 3), 99)
}
fn mixture_zero() {
    let n = 2 + pick("n", 2);
    mixture_of(n, pick("z", n))
}
fn t_mixture() {
    mixture_of(4 + pick("n", 2), 99)
}
/// weights of any size
fn mixture_weights() {
    let x = sym_in("x", -5.0, 5.0);
    let n = 2 + pick("n", 2);
    let z = pick("z", n);
    let r = sym_in("r", 1.0, 5e5);
    // from 1e-6 to 0.5, from 1e-12 to 5e-7, and so on
    let small = [1e-6, 1e-12, 1e-18, 1e-30][pick("scale", 4)] * r;
    let w: Vec<f64> = (0..n).map(|i| if i == z { small } else { sym_in(&format!("w{i}"), 0.01, 1.0) }).collect();
    let m: Vec<f64> = (0..n).map(|i| sym_in(&format!("m{i}"), -5.0, 5.0)).collect();
    let s: Vec<f64> = (0..n).map(|i| sym_in(&format!("s{i}"), 0.5, 10.0)).collect();
    let mut p = 0.0;
    for i in 0..n {
        p = p + w[i] * normal(x, m[i], s[i]).exp();
    }
    let e = ex::mixture_likelihood("x", &w, &m, &s);
    claim_eq("mixture", at(&e, &[("x", x)]), p.ln());
}
/// every component has a small weight
fn mixture_small_weights() {
    let x = sym_in("x", -5.0, 5.0);
    let n = 1 + pick("n", 3);
    let c = [1e-9, 1e-15, 1e-40][pick("scale", 3)];
    let w: Vec<f64> = (0..n).map(|i| c * sym_in(&format!("w{i}"), 0.01, 1.0)).collect();
    let m: Vec<f64> = (0..n).map(|i| sym_in(&format!("m{i}"), -5.0, 5.0)).collect();
    let s: Vec<f64> = (0..n).map(|i| sym_in(&format!("s{i}"), 0.5, 10.0)).collect();
    let mut p = 0.0;
    for i in 0..n {
        p = p + w[i] * normal(x, m[i], s[i]).exp();
    }
    claim_eq("mixture", at(&ex::mixture_likelihood("x", &w, &m, &s), &[("x", x)]), p.ln());
    let parts: Vec<(f64, Expr)> = (0..n).map(|i| (w[i], ex::normal_prior("x", m[i], s[i]))).collect();
    claim_eq("mixture of expressions", at(&ex::mixture_likelihood_old(&parts), &[("x", x)]), p.ln());
}
/// many components, of three kinds that alternate
fn mixture_many() {
    let n = [5usize, 7, 8, 9, 16, 17, 33][pick("n", 7)];
    let x = sym_in("x", -5.0, 5.0);
    let order = pick("order", 3);
    let kind = |i: usize| match order {
        0 => i % 3,
        1 => (i >= n / 2) as usize + (i == n - 1) as usize,
        _ => if i == 0 { 2 } else { (i >= n - 2) as usize },
    };
    let (w, m, s) = (["w0", "w1", "w2"].map(|n| sym_in(n, 0.01, 1.0)), ["m0", "m1", "m2"].map(|n| sym_in(n, -5.0, 5.0)), ["s0", "s1", "s2"].map(|n| sym_in(n, 0.5, 10.0)));
    let list = |v: &[f64; 3]| (0..n).map(|i| v[kind(i)]).collect::<Vec<f64>>();
    let mut p = 0.0;
    for i in 0..n {
        p = p + w[kind(i)] * normal(x, m[kind(i)], s[kind(i)]).exp();
    }
    let e = ex::mixture_likelihood("x", &list(&w), &list(&m), &list(&s));
    claim_eq("mixture", at(&e, &[("x", x)]), p.ln());
    let parts: Vec<(f64, Expr)> = (0..n).map(|i| (w[kind(i)], ex::normal_prior("x", m[kind(i)], s[kind(i)]))).collect();
    claim_eq("mixture of expressions", at(&ex::mixture_likelihood_old(&parts), &[("x", x)]), p.ln());
}
fn mixture_edge() {
    let x = real("x");
    claim("no components", at(&ex::mixture_likelihood("x", &[], &[], &[]), &[("x", x)]) == f64::NEG_INFINITY);
    claim("no expressions", at(&ex::mixture_likelihood_old(&[]), &[("x", x)]) == f64::NEG_INFINITY);
    let (w, m, s) = (scale("w"), real("m"), scale("s"));
    claim("means of another number", catching(|| ex::mixture_likelihood("x", &[w, w], &[m], &[s, s])).is_none());
    claim("scales of another number", catching(|| ex::mixture_likelihood("x", &[w], &[m], &[s, s])).is_none());
    claim("scales of another number, two means", catching(|| ex::mixture_likelihood("x", &[w, w], &[m, m], &[s])).is_none());
    // components that are not normal
    let c = real("c");
    let p = [(w, k(c / 100.0)), (w, mul(v("x"), k(0.01)))];
    claim_eq("mixture of other expressions", at(&ex::mixture_likelihood_old(&p), &[("x", x)]), (w * (c / 100.0).exp() + w * (x * 0.01).exp()).ln());
}
/// evaluated through the other evaluators
fn evaluators() {
    let (x, m, s, m0, s0) = (real("x"), real("m"), scale("s"), real("m0"), scale("s0"));
    let e = ex::posterior_log_density(ex::normal_likelihood("x", "mu", "sigma"), ex::normal_prior("mu", m0, s0));
    let env: HashMap<String, f64> = map(&[("x", x), ("mu", m), ("sigma", s)]);
    let want = normal(x, m, s) + normal(m, m0, s0);
    claim_eq("cached", e.evaluate_cached(&env).unwrap_or(f64::NAN), want);
    claim_eq("cached again", e.evaluate_cached(&env).unwrap_or(f64::NAN), want);
    let p = ex::normal_prior("p", m0, s0);
    claim_eq("single variable", p.evaluate_single_var("p", m).unwrap_or(f64::NAN), normal(m, m0, s0));
    claim_eq("smart", p.evaluate_smart("p", m).unwrap_or(f64::NAN), normal(m, m0, s0));
    match p.evaluate_batch("p", &[m, x]) {
        Ok(r) => {
            claim("batch size", r.len() == 2);
            claim_eq("batch 0", r[0], normal(m, m0, s0));
            claim_eq("batch 1", r[1], normal(x, m0, s0));
        }
        Err(_) => claim("batch size", false),
    }
}
pub const S: &[Scenario] = &[
    ("C26.likelihood", likelihood),
    ("C26.prior", prior),
    ("C26.posterior", posterior),
    ("C26.sums", sums),
    ("C26.hierarchical", hierarchical),
    ("C26.hierarchical_other_names", hierarchical_other_names),
    ("C26.mixture", mixture),
    ("C26.mixture_zero", mixture_zero),
    ("C26.mixture_weights", mixture_weights),
    ("C26.mixture_small_weights", mixture_small_weights),
    ("C26.mixture_many", mixture_many),
    ("C26.mixture_edge", mixture_edge),
    ("C26.evaluators", evaluators),
    ("C26.t.mixture", t_mixture),
];
