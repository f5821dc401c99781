//! C19 symbolic log-densities and the builders of expressions.
use crate::exprs::*;
use crate::spec;
use std::collections::HashMap;
use symbolic_math::{builders as b2, expr, expr::builders as b1, Expr, SymbolicLogDensity};
use symrt::*;

fn at(e: &Expr, env: &[(&str, f64)]) -> f64 {
    e.evaluate(&map(env)).unwrap_or(f64::NAN)
}
fn want(e: &Expr, env: &[(&str, f64)]) -> f64 {
    meaning(e, env).unwrap_or(f64::NAN)
}

/// expressions in x, y, mu, s, each constructor with a parameter below it
fn shape(i: usize) -> Expr {
    let (x, y, m, s) = (|| v("x"), || v("y"), || v("mu"), || v("s"));
    match i {
        0 => un(NEG, div(pow(sub(x(), m()), k(2.0)), mul(k(2.0), pow(s(), k(2.0))))),
        1 => add(un(LN, s()), mul(m(), x())),
        2 => sub(un(EXP, mul(m(), k(0.5))), un(SQRT, s())),
        3 => mul(un(SIN, mul(m(), x())), un(COS, add(m(), y()))),
        4 => pow(s(), m()),
        5 => div(m(), s()),
        6 => sub(m(), div(x(), s())),
        7 => un(NEG, m()),
        8 => un(LN, add(un(EXP, m()), un(EXP, x()))),
        9 => pow(add(m(), k(4.0)), x()),
        10 => x(),
        11 => m(),
        12 => k(1.5),
        _ => mul(sub(x(), y()), sub(m(), s())),
    }
}
const SHAPES: usize = 14;

/// parameters and arguments; an argument of the same name wins
fn densities() {
    let e = shape(pick("shape", SHAPES));
    let (x, y, m, s) = (sym_in("x", 0.1, 3.0), sym_in("y", -3.0, 3.0), sym_in("mu", -3.0, 3.0), sym_in("s", 0.1, 3.0));
    let (m2, s2) = (sym_in("mu2", -3.0, 3.0), sym_in("s2", 0.1, 3.0));
    let all = [("x", x), ("y", y), ("mu", m), ("s", s)];
    // which are parameters
    let fixed = pick("fixed", 4);
    let pars: Vec<(&str, f64)> = [(1, ("mu", m)), (2, ("s", s))].into_iter().filter(|p| fixed & p.0 != 0).map(|p| p.1).collect();
    let rest: Vec<(&str, f64)> = all.iter().filter(|p| !pars.iter().any(|q| q.0 == p.0)).cloned().collect();
    let d = SymbolicLogDensity::new(e.clone(), map(&pars));
    let mut n = vec![];
    names(&e, &mut n);
    n.sort();
    n.dedup();
    claim("variables", d.variables == n);
    let w = want(&e, &all);
    claim_eq("evaluated at the remaining variables", d.evaluate(&map(&rest)).unwrap_or(f64::NAN), w);
    claim_eq("evaluated at all variables", d.evaluate(&map(&all)).unwrap_or(f64::NAN), w);
    let over = [("x", x), ("y", y), ("mu", m2), ("s", s2)];
    claim_eq("an argument replaces a parameter", d.evaluate(&map(&over)).unwrap_or(f64::NAN), want(&e, &over));
    // specialised
    let sub = d.clone().substitute_parameters();
    claim_eq("specialised", at(&sub.expression, &rest), w);
    claim_eq("specialised, evaluated", sub.evaluate(&map(&rest)).unwrap_or(f64::NAN), w);
    claim("no parameter is left", sub.expression.variables().iter().all(|v| !pars.iter().any(|p| p.0 == v)));
    claim("other variables are left", n.iter().all(|v| pars.iter().any(|p| p.0 == v) || sub.expression.variables().contains(v)));
    claim_eq("specialised twice", at(&sub.clone().substitute_parameters().expression, &rest), w);
    claim_eq("specialised values stay", at(&sub.expression, &over), {
        let mixed: Vec<(&str, f64)> = over.iter().map(|p| *pars.iter().find(|q| q.0 == p.0).unwrap_or(p)).collect();
        want(&e, &mixed)
    });
    claim_eq("simplified", d.clone().simplify().evaluate(&map(&rest)).unwrap_or(f64::NAN), w);
    claim_eq("simplified, then specialised", at(&d.clone().simplify().substitute_parameters().expression, &rest), w);
    claim_eq("specialised, then simplified", at(&sub.simplify().expression, &rest), w);
}
/// fixing parameters one by one, in either order
fn orders() {
    let e = shape(pick("shape", SHAPES));
    let (x, y, m, s) = (sym_in("x", 0.1, 3.0), sym_in("y", -3.0, 3.0), sym_in("mu", -3.0, 3.0), sym_in("s", 0.1, 3.0));
    let one = |e: Expr, n: &str, v: f64| SymbolicLogDensity::new(e, map(&[(n, v)])).substitute_parameters().expression;
    let w = want(&e, &[("x", x), ("y", y), ("mu", m), ("s", s)]);
    let env = [("x", x), ("y", y)];
    claim_eq("mean first", at(&one(one(e.clone(), "mu", m), "s", s), &env), w);
    claim_eq("scale first", at(&one(one(e.clone(), "s", s), "mu", m), &env), w);
    claim_eq("all at once", at(&one(one(one(one(e, "x", x), "s", s), "y", y), "mu", m), &[]), w);
}
/// one variable
fn single() {
    let (x, z) = (sym_in("x", 0.1, 3.0), sym_in("z", 0.1, 3.0));
    let (m, s) = (sym_in("mu", -3.0, 3.0), sym_in("s", 0.1, 3.0));
    let e = shape(pick("shape", SHAPES));
    let uses_y = e.variables().contains(&"y".to_string());
    let d = SymbolicLogDensity::new(e.clone(), map(&[("mu", m), ("s", s), ("x", z)]));
    let r = d.evaluate_single("x", x);
    claim("a missing variable is an error", r.is_err() == uses_y);
    if let Ok(r) = r {
        claim_eq("evaluated at one variable", r, want(&e, &[("mu", m), ("s", s), ("x", x)]));
    }
    if let Ok(r) = d.evaluate(&HashMap::new()) {
        claim_eq("evaluated at the parameters", r, want(&e, &[("mu", m), ("s", s), ("x", z)]));
    }
    let r = d.evaluate_single("mu", x);
    if let Ok(r) = r {
        claim_eq("an argument replaces a parameter", r, want(&e, &[("mu", x), ("s", s), ("x", z)]));
    }
}
/// the builders used for densities
fn terms() {
    let (x, m, s, c) = (sym("x"), sym("m"), sym_pos("s"), sym("c"));
    let d = (x - m) / s;
    let env = [("t", x), ("u", m)];
    claim_eq("quadratic term", at(&b1::quadratic_term("t", m, s), &env), -0.5 * d * d);
    claim_eq("linear term", at(&b1::linear_term("t", c), &env), c * x);
    claim_eq("normalising constant", at(&b1::log_normal_constant(s), &[]), -0.5 * (2.0 * std::f64::consts::PI).ln() - s.ln());
    let sum = b1::quadratic_term("t", m, s) + b1::log_normal_constant(s);
    claim_eq("normal log density from its terms", at(&sum, &env), spec::normal(m, s, x));
}
fn templates() {
    let (x, m, s) = (sym("x"), sym("m"), sym_pos("s"));
    let env = [("t", x), ("mu", m), ("sd", s)];
    let d = (x - m) / s;
    claim_eq("normal with constants", at(&b2::normal_log_pdf("t", m, s), &env), spec::normal(m, s, x));
    claim_eq("normal with variables", at(&b2::normal_log_pdf("t", "mu", "sd"), &env), spec::normal(m, s, x));
    claim_eq("normal with expressions", at(&b2::normal_log_pdf(v("t") + k(1.0), v("mu") * k(2.0), k(0.5) * v("sd")), &env), spec::normal(2.0 * m, 0.5 * s, x + 1.0));
    assume(d < 20.0);
    assume(-20.0 < d);
    claim_eq("gaussian kernel with constants", at(&b2::gaussian_kernel("t", m, s), &env), (-0.5 * d * d).exp());
    claim_eq("gaussian kernel with variables", at(&b2::gaussian_kernel("t", "mu", "sd"), &env), (-0.5 * d * d).exp());
}
fn activations() {
    let (x, c) = (sym_in("x", -300.0, 300.0), sym_in("c", -2.0, 2.0));
    let env = [("t", x)];
    claim_eq("logistic", at(&b2::logistic("t"), &env), 1.0 / (1.0 + (-x).exp()));
    claim_eq("logistic of an expression", at(&b2::logistic(v("t") * c), &env), 1.0 / (1.0 + (-(x * c)).exp()));
    claim_eq("logistic of a constant", at(&b2::logistic(c), &env), 1.0 / (1.0 + (-c).exp()));
    claim_eq("softplus", at(&b2::softplus("t"), &env), (1.0 + x.exp()).ln());
    claim_eq("softplus of an expression", at(&b2::softplus(v("t") - c), &env), (1.0 + (x - c).exp()).ln());
}
fn polynomials() {
    let x = sym_in("x", -3.0, 3.0);
    let n = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 17][pick("coefficients", 12)];
    let free = if n > 5 { pick("free", n) } else { 99 };
    let c: Vec<f64> = (0..n).map(|i| if n <= 5 || i == free { sym_in(&format!("a{i}"), -3.0, 3.0) } else { [2.0, -0.5, 1.0, -3.0, 0.25, 0.0][i % 6] }).collect();
    let mut w = 0.0;
    for a in c.iter().rev() {
        w = w * x + a;
    }
    claim_eq("polynomial", at(&b2::polynomial("t", &c), &[("t", x)]), w);
    let mut w = 0.0;
    for a in c.iter().rev() {
        w = w * (x + 1.0) + a;
    }
    claim_eq("polynomial of an expression", at(&b2::polynomial(v("t") + 1.0, &c), &[("t", x)]), w);
}
/// operators, conversions and methods
fn operators() {
    let (x, y, c) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0), sym_in("c", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let (p, q) = (|| v("x"), || v("y"));
    let t = |l: &str, e: Expr, w: f64| claim_eq(l, at(&e, &env), w);
    t("sum", p() + q(), x + y);
    t("difference", p() - q(), x - y);
    t("product", p() * q(), x * y);
    t("quotient", p() / q(), x / y);
    t("negation", -p(), -x);
    t("sum with a number", p() + c, x + c);
    t("number and sum", c + p(), c + x);
    t("difference with a number", p() - c, x - c);
    t("number and difference", c - p(), c - x);
    t("product with a number", p() * c, x * c);
    t("number and product", c * p(), c * x);
    t("quotient by a number", p() / c, x / c);
    t("number and quotient", c / p(), c / x);
    t("power", p().powf(q()), x.powf(y));
    t("power of a number", p().powf(c), x.powf(c));
    t("power of a name", p().powf("y"), x.powf(y));
    t("whole power", p().powf(2), x * x);
    t("logarithm", p().natural_log(), x.ln());
    t("exponential", p().exponential(), x.exp());
    t("square root", p().square_root(), x.sqrt());
    t("sine", p().sin(), x.sin());
    t("cosine", p().cos(), x.cos());
    t("square", (p() - q()).square(), (x - y) * (x - y));
    t("cube", (p() - q()).cube(), (x - y) * (x - y) * (x - y));
    t("absolute value", (p() - q()).abs(), (x - y).abs());
    t("from a number", Expr::from(c), c);
    t("from a whole number", Expr::from(-7), -7.0);
    t("from a name", Expr::from("y"), y);
    t("from an owned name", Expr::from("x".to_string()), x);
    t("constant", Expr::constant(c), c);
    t("variable", Expr::variable("x"), x);
    t("sum function", Expr::add(p(), q()), x + y);
    t("difference function", Expr::sub(p(), q()), x - y);
    t("product function", Expr::mul(p(), q()), x * y);
    t("quotient function", Expr::div(p(), q()), x / y);
    t("power function", Expr::pow(p(), q()), x.powf(y));
    t("logarithm function", Expr::ln(p()), x.ln());
    t("exponential function", Expr::exp(p()), x.exp());
    t("root function", Expr::sqrt(p()), x.sqrt());
    t("negation function", Expr::neg(p()), -x);
}
fn macros() {
    let (x, y, c) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0), sym_in("c", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let t = |l: &str, e: Expr, w: f64| claim_eq(l, at(&e, &env), w);
    t("macro: variable", expr!(x), x);
    t("macro: constant", expr!(2.5), 2.5);
    t("macro: whole constant", expr!(3), 3.0);
    t("macro: sum", expr!(x + y), x + y);
    t("macro: difference", expr!(x - y), x - y);
    t("macro: product", expr!(x * y), x * y);
    t("macro: quotient", expr!(x / y), x / y);
    t("macro: power", expr!(x ^ y), x.powf(y));
    t("macro: logarithm", expr!(ln(x)), x.ln());
    t("macro: exponential", expr!(exp(x)), x.exp());
    t("macro: square root", expr!(sqrt(x)), x.sqrt());
    t("macro: sine", expr!(sin(y)), y.sin());
    t("macro: cosine", expr!(cos(y)), y.cos());
    t("macro: negation", expr!(-x), -x);
    t("macro: parentheses", expr!((y)), y);
    t("variable macro", symbolic_math::var!("y"), y);
    t("constant macro", symbolic_math::const_expr!(c), c);
}

pub const S: &[Scenario] = &[
    ("C19.densities", densities),
    ("C19.orders", orders),
    ("C19.single", single),
    ("C19.terms", terms),
    ("C19.templates", templates),
    ("C19.activations", activations),
    ("C19.polynomials", polynomials),
    ("C19.operators", operators),
    ("C19.macros", macros),
];
