//! C22 polynomials and functions of mathjit.
use crate::c20::{read, Style};
use crate::exprs::*;
use mathjit::final_tagless::{polynomial, DirectEval, MathExpr, PrettyPrint, StatisticalExpr};
use symbolic_math::Expr;
use symrt::*;

fn coeffs(name: &str, n: usize) -> Vec<f64> {
    (0..n).map(|i| sym_in(&format!("{name}{i}"), -3.0, 3.0)).collect()
}
/// sum of a_i x^i, term by term
fn sum_of_powers(a: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for (i, c) in a.iter().enumerate() {
        let mut p = 1.0;
        for _ in 0..i {
            p = p * x;
        }
        s = s + c * p;
    }
    s
}
fn derivative(a: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for (i, c) in a.iter().enumerate().skip(1) {
        let mut p = i as f64;
        for _ in 1..i {
            p = p * x;
        }
        s = s + c * p;
    }
    s
}
fn text(label: &str, t: &str, x: f64, want: f64) {
    match read(t, Style::Plain) {
        Some(e) => claim_eq(label, meaning(&e, &[("x", x)]).unwrap_or(f64::NAN), want),
        None => claim(&format!("{label}: a formula"), false),
    }
}
fn polys(n: usize) {
    let x = sym_in("x", -3.0, 3.0);
    let a = coeffs("a", n);
    let want = sum_of_powers(&a, x);
    claim_eq("polynomial", polynomial::horner::<DirectEval, f64>(&a, x), want);
    claim_eq("polynomial of expressions", polynomial::horner_expr::<DirectEval, f64>(&a, x), want);
    claim_eq("derivative", polynomial::horner_derivative::<DirectEval, f64>(&a, x), derivative(&a, x));
    let mut p = 1.0;
    for r in &a {
        p = p * (x - r);
    }
    claim_eq("polynomial from its roots", polynomial::from_roots::<DirectEval, f64>(&a, x), p);
    for (i, r) in a.iter().enumerate() {
        claim_eq(&format!("zero at root {i}"), polynomial::from_roots::<DirectEval, f64>(&a, *r), 0.0);
    }
}
fn polys_small() {
    polys(pick("n", 7))
}
fn polys_large() {
    polys(7 + pick("n", 6))
}
/// high degrees
fn polys_high() {
    let n = [7usize, 8, 9, 10, 12, 13, 16, 17, 21, 33][pick("n", 10)];
    let x = sym_in("x", -2.0, 2.0);
    let a = coeffs("a", n);
    let want = sum_of_powers(&a, x);
    claim_eq("polynomial", polynomial::horner::<DirectEval, f64>(&a, x), want);
    claim_eq("polynomial of expressions", polynomial::horner_expr::<DirectEval, f64>(&a, x), want);
    claim_eq("derivative", polynomial::horner_derivative::<DirectEval, f64>(&a, x), derivative(&a, x));
    let t = polynomial::horner::<PrettyPrint, f64>(&a, PrettyPrint::var("x"));
    text("text of a polynomial", &t, x, want);
    text("text of a derivative", &polynomial::horner_derivative::<PrettyPrint, f64>(&a, PrettyPrint::var("x")), x, derivative(&a, x));
}
fn roots_many() {
    let n = [6usize, 7, 8, 9, 16, 17, 33][pick("n", 7)];
    let x = sym_in("x", -2.0, 2.0);
    let r = sym_in("r", -2.0, 2.0);
    // roots one of which is free, at any place among the others
    let place = [0, 1, n / 2, n - 2, n - 1][pick("place", 5)];
    let a: Vec<f64> = (0..n).map(|i| if i == place { r } else { ((i * 7) % 5) as f64 * 0.5 - 1.25 }).collect();
    let mut p = 1.0;
    for v in &a {
        p = p * (x - v);
    }
    claim_eq("polynomial from its roots", polynomial::from_roots::<DirectEval, f64>(&a, x), p);
    text("text of a polynomial from its roots", &polynomial::from_roots::<PrettyPrint, f64>(&a, PrettyPrint::var("x")), x, p);
}
/// the text of a polynomial
fn texts() {
    let x = sym_in("x", -3.0, 3.0);
    let n = pick("n", 6);
    let a = coeffs("a", n);
    let v = || PrettyPrint::var("x");
    text("text of a polynomial", &polynomial::horner::<PrettyPrint, f64>(&a, v()), x, sum_of_powers(&a, x));
    let e: Vec<String> = a.iter().map(|c| <PrettyPrint as MathExpr>::constant(*c)).collect();
    text("text of a polynomial of expressions", &polynomial::horner_expr::<PrettyPrint, f64>(&e, v()), x, sum_of_powers(&a, x));
    text("text of a derivative", &polynomial::horner_derivative::<PrettyPrint, f64>(&a, v()), x, derivative(&a, x));
    let mut p = 1.0;
    for r in &a {
        p = p * (x - r);
    }
    text("text of a polynomial from its roots", &polynomial::from_roots::<PrettyPrint, f64>(&a, v()), x, p);
}
fn lift<E: MathExpr>(e: &Expr, var: &dyn Fn(&str) -> E::Repr<f64>) -> E::Repr<f64> {
    let l = |e: &Expr| lift::<E>(e, var);
    match e {
        Expr::Const(c) => E::constant(*c),
        Expr::Var(n) => var(n),
        Expr::Add(a, b) => E::add::<f64, f64, f64>(l(a), l(b)),
        Expr::Sub(a, b) => E::sub::<f64, f64, f64>(l(a), l(b)),
        Expr::Mul(a, b) => E::mul::<f64, f64, f64>(l(a), l(b)),
        Expr::Div(a, b) => E::div::<f64, f64, f64>(l(a), l(b)),
        Expr::Pow(a, b) => E::pow::<f64>(l(a), l(b)),
        Expr::Ln(a) => E::ln::<f64>(l(a)),
        Expr::Exp(a) => E::exp::<f64>(l(a)),
        Expr::Sqrt(a) => E::sqrt::<f64>(l(a)),
        Expr::Sin(a) => E::sin::<f64>(l(a)),
        Expr::Cos(a) => E::cos::<f64>(l(a)),
        Expr::Neg(a) => E::neg::<f64>(l(a)),
    }
}
fn interpreted(e: &Expr) {
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let Some(want) = value(e, &env) else { return };
    let var = |n: &str| DirectEval::var::<f64>(n, if n == "x" { x } else { y });
    claim_eq("direct evaluation", lift::<DirectEval>(e, &var), want);
    match read(&lift::<PrettyPrint>(e, &|n| PrettyPrint::var(n)), Style::Plain) {
        Some(r) => claim_eq("pretty printer", meaning(&r, &env).unwrap_or(f64::NAN), want),
        None => claim("pretty printer: a formula", false),
    }
}
fn i_two(op: usize) {
    faithful_texts();
    interpreted(&two(op))
}
fn i_add() {
    i_two(0)
}
fn i_sub() {
    i_two(1)
}
fn i_mul() {
    i_two(2)
}
fn i_div() {
    i_two(3)
}
fn i_pow() {
    i_two(4)
}
fn i_one() {
    faithful_texts();
    interpreted(&one())
}
fn i_nested() {
    let (f, g) = (pick("outer", 5), pick("inner", 5));
    let bits = |n: &str| [k(2.0), v("x"), un(NEG, v("y")), un(LN, v("x")), k(-1.5)][pick(n, 5)].clone();
    let (i, j, l) = (bits("i"), bits("j"), bits("l"));
    let side = pick("side", 2);
    interpreted(&if side == 0 { bin(f, bin(g, i, j), l) } else { bin(f, l, bin(g, i, j)) })
}
fn statistical() {
    let (x, y) = (sym_in("x", -300.0, 300.0), sym_in("y", -3.0, 3.0));
    let sg = |t: f64| 1.0 / (1.0 + (-t).exp());
    let sp = |t: f64| (1.0 + t.exp()).ln();
    fn prog<E: StatisticalExpr>(i: usize, x: E::Repr<f64>, y: E::Repr<f64>) -> E::Repr<f64> {
        match i {
            0 => E::logistic::<f64>(x),
            1 => E::softplus::<f64>(x),
            2 => E::sigmoid::<f64>(x),
            3 => E::logistic::<f64>(E::add::<f64, f64, f64>(x, y)),
            _ => E::mul::<f64, f64, f64>(E::sigmoid::<f64>(x), E::softplus::<f64>(y)),
        }
    }
    let i = pick("program", 5);
    let want = [sg(x), sp(x), sg(x), sg(x + y), sg(x) * sp(y)][i];
    claim_eq("direct evaluation", prog::<DirectEval>(i, x, y), want);
    match read(&prog::<PrettyPrint>(i, PrettyPrint::var("x"), PrettyPrint::var("y")), Style::Plain) {
        Some(e) => claim_eq("pretty printer", meaning(&e, &[("x", x), ("y", y)]).unwrap_or(f64::NAN), want),
        None => claim("pretty printer: a formula", false),
    }
}
fn wrapper() {
    let c = sym_in("c", -3.0, 3.0);
    type W = mathjit::expr::Expr<DirectEval, f64>;
    claim_eq("wrapped constant", W::constant(c).into_repr(), c);
    claim_eq("wrapped value", *W::new(c).as_repr(), c);
    claim_eq("an unbound wrapped variable is the default", W::var("x").into_repr(), 0.0);
    type P = mathjit::expr::Expr<PrettyPrint, f64>;
    text("wrapped text", P::var("x").as_repr(), c, c);
    text("wrapped text of a constant", &P::constant(2.5).into_repr(), c, 2.5);
    claim_eq("an unbound variable is the default", <DirectEval as MathExpr>::var::<f64>("x"), 0.0);
    claim_eq("a bound variable", DirectEval::var("x", c), c);
}

pub const S: &[Scenario] = &[
    ("C22.polynomials", polys_small),
    ("C22.t.large_polynomials", polys_large),
    ("C22.high_degrees", polys_high),
    ("C22.many_roots", roots_many),
    ("C22.texts", texts),
    ("C22.add", i_add),
    ("C22.sub", i_sub),
    ("C22.mul", i_mul),
    ("C22.div", i_div),
    ("C22.pow", i_pow),
    ("C22.unary", i_one),
    ("C22.nested", i_nested),
    ("C22.statistical", statistical),
    ("C22.wrapper", wrapper),
];
