//! C23 the equality-saturation optimiser. Constants pass through text into the engine, so they are concrete here;
//! the variables are symbolic.
use crate::c18::tame;
use crate::exprs::*;
use symbolic_math::optimization::{EgglogOptimize, EgglogOptimizer};
use symbolic_math::Expr;
use symrt::*;

fn inputs() -> [(&'static str, f64); 2] {
    let y = sym_in("y", -3.0, 3.0);
    let x = match pick("range", 3) {
        0 => sym_in("x", 0.05, 3.0),
        1 => -sym_in("x", 0.05, 3.0),
        _ => 0.0,
    };
    [("x", x), ("y", y)]
}
fn names(e: &Expr) -> Vec<String> {
    let mut v: Vec<String> = e.variables();
    v.sort();
    v
}
fn same(label: &str, e: &Expr, o: Option<&Expr>, env: &[(&str, f64)]) {
    claim(&format!("{label}: an answer"), o.is_some());
    let Some(o) = o else { return };
    let have = names(e);
    claim(&format!("{label}: no new variable"), names(o).iter().all(|n| have.contains(n)));
    let Some(want) = value(e, env) else { return };
    if tame(e, env) {
        claim_eq(label, meaning(o, env).unwrap_or(f64::NAN), want);
    }
}
fn optimised(e: Expr) {
    let o = e.optimize_with_egglog().ok();
    let env = inputs();
    same("optimised", &e, o.as_ref(), &env);
}
fn one() {
    let (i, op) = (pick("i", PARTS), pick("op", 7));
    let p = part(i, 0.25, -1.375);
    optimised(if op == 6 { p } else { un(op, p) });
}
fn unary_twice() {
    let (i, op, op2) = (pick("i", 10), pick("op", 6), pick("op2", 6));
    optimised(un(op2, un(op, part(2 * i + 1, 0.25, -1.375))));
}
fn two(op: usize, sides: usize) {
    let (i, j) = (pick("i", PARTS), pick("j", PARTS));
    // the other operand first in every second combination
    if (i + j) % 2 != sides {
        return;
    }
    optimised(bin(op, part(i, 0.25, -1.375), part(j, 2.75, 0.125)));
}
macro_rules! pairs {
    ($($n:ident $op:expr, $s:expr;)*) => { $(fn $n() { two($op, $s) })* };
}
pairs! { add0 0, 0; add1 0, 1; sub0 1, 0; sub1 1, 1; mul0 2, 0; mul1 2, 1; div0 3, 0; div1 3, 1; pow0 4, 0; pow1 4, 1; }
fn nested() {
    let (i, j, op, op2, side) = (pick("i", 5), pick("j", 4), pick("op", 4), pick("op2", 4), pick("side", 2));
    let inner = bin(op2, v("x"), bit([2, 3, 4, 9][j], 3.5));
    let o = bit([1, 2, 3, 4, 7][i], -0.75);
    optimised(if side == 0 { bin(op, o, inner) } else { bin(op, inner, o) });
}
/// a function of an operation on small operands
fn operand(i: usize, c: f64) -> Expr {
    match i {
        0 => v("x"),
        1 => v("y"),
        2 => un(NEG, v("x")),
        3 => un(NEG, v("y")),
        4 => k(c),
        _ => pow(v("x"), k(2.0)),
    }
}
fn function_of(op2: usize) {
    let (op, i, j) = (pick("function", 6), pick("i", 6), pick("j", 6));
    optimised(un(op, bin(op2, operand(i, 0.375), operand(j, -1.25))));
}
fn function_of_sum() {
    function_of(0)
}
fn function_of_difference() {
    function_of(1)
}
fn function_of_product() {
    function_of(2)
}
fn function_of_quotient() {
    function_of(3)
}
fn function_of_power() {
    function_of(4)
}
/// an operation on functions of small operands
fn of_functions() {
    let (op, f, g, i, j) = (pick("op", 5), pick("f", 6), pick("g", 6), pick("i", 4), pick("j", 3));
    optimised(bin(op, un(f, operand([0, 1, 2, 5][i], 0.0)), un(g, operand([0, 1, 4][j], 1.375))));
}
/// the left-hand sides of the rules and their neighbours
const RULES: usize = 44;
fn rule(i: usize) -> Expr {
    let (x, y) = (|| v("x"), || v("y"));
    let (a, b) = (|| un(EXP, v("x")), || add(v("y"), k(0.125)));
    let sq = |e| pow(e, k(2.0));
    match i {
        0 => add(mul(a(), x()), mul(b(), x())),
        1 => add(mul(x(), a()), mul(x(), b())),
        2 => sub(mul(a(), x()), mul(b(), x())),
        3 => add(un(LN, x()), un(LN, y())),
        4 => sub(un(LN, x()), un(LN, y())),
        5 => mul(k(1.75), un(LN, x())),
        6 => mul(k(-0.5), un(LN, x())),
        7 => mul(a(), un(EXP, y())),
        8 => div(a(), un(EXP, y())),
        9 => pow(a(), k(2.5)),
        10 => pow(a(), k(-1.0)),
        11 => add(sq(un(SIN, x())), sq(un(COS, x()))),
        12 => add(mul(un(SIN, x()), un(SIN, x())), mul(un(COS, x()), un(COS, x()))),
        13 => add(sq(un(SIN, x())), sq(un(COS, y()))),
        14 => add(sq(un(COS, x())), sq(un(COS, x()))),
        15 => mul(pow(x(), k(1.5)), pow(x(), k(0.75))),
        16 => div(pow(x(), k(1.5)), pow(x(), k(0.75))),
        17 => div(pow(x(), k(2.0)), pow(x(), k(3.0))),
        18 => pow(pow(x(), k(1.5)), k(2.5)),
        19 => pow(pow(x(), k(2.0)), k(3.0)),
        20 => add(k(1.25), k(2.375)),
        21 => sub(k(1.25), k(2.375)),
        22 => mul(k(1.25), k(-2.5)),
        23 => div(k(1.25), k(-2.5)),
        24 => add(x(), x()),
        25 => add(mul(k(1.25), x()), mul(k(2.5), x())),
        26 => add(mul(k(1.25), x()), x()),
        27 => add(x(), mul(k(-1.25), x())),
        28 => div(x(), x()),
        29 => mul(div(x(), b()), div(y(), a())),
        30 => div(div(x(), y()), b()),
        31 => mul(add(x(), y()), sub(x(), y())),
        32 => mul(add(x(), k(0.25)), sub(x(), k(0.25))),
        33 => un(LN, pow(x(), k(1.75))),
        34 => un(EXP, mul(k(1.75), un(LN, x()))),
        35 => un(LN, un(SQRT, x())),
        36 => un(SIN, un(NEG, x())),
        37 => un(COS, un(NEG, x())),
        38 => sub(x(), un(NEG, y())),
        39 => add(x(), un(NEG, x())),
        40 => div(x(), div(y(), b())),
        41 => sub(sub(x(), y()), b()),
        42 => pow(k(1.0), x()),
        _ => sub(un(NEG, x()), un(NEG, y())),
    }
}
fn rules() {
    optimised(rule(pick("rule", RULES)));
}
fn rules_inside() {
    let (r, how) = (pick("rule", RULES), pick("how", 6));
    let e = rule(r);
    optimised(match how {
        0 => sub(k(0.375), e),
        1 => mul(e, v("y")),
        2 => un(NEG, e),
        3 => div(k(1.5), e),
        4 => add(e, mul(k(0.375), v("x"))),
        // the sine of sin^2 + cos^2 is not decided
        _ if r == 11 || r == 12 => mul(k(0.625), e),
        _ => un(SIN, e),
    });
}
const CONSTANTS: [f64; 22] = [
    0.0, 1.0, -1.0, 0.5, 0.25, 0.05, 0.04, -0.04, 1.96, -3.75, 0.1, 1e-7, 1e-300, 5e-324, 123456.789, 1e15, 1e16, 1e21, -1e300, f64::MAX,
    std::f64::consts::PI, 0.30000000000000004,
];
fn constants() {
    let c = CONSTANTS[pick("c", CONSTANTS.len())];
    let o = k(c).optimize_with_egglog().ok();
    claim("a constant stays", o == Some(k(c)));
    let x = sym_in("x", -3.0, 3.0);
    let env = [("x", x)];
    for (l, e) in [("sum", add(v("x"), k(c))), ("product", mul(k(c), v("x"))), ("difference", sub(v("x"), k(c)))] {
        let o = e.optimize_with_egglog().ok();
        let want = value(&e, &env).unwrap();
        claim_eq_tol(&format!("{l} with a constant"), o.and_then(|o| meaning(&o, &env)).unwrap_or(f64::NAN), want, 1e-12);
    }
}
/// one optimiser for several expressions: none changes the answer for another
fn history() {
    let first = match pick("first", 12) {
        0 => div(k(0.0), k(0.0)),
        1 => mul(v("x"), k(0.0)),
        2 => pow(k(0.0), k(0.0)),
        3 => div(v("x"), v("x")),
        4 => sub(v("x"), v("x")),
        5 => un(LN, k(0.0)),
        6 => un(SQRT, k(-1.0)),
        7 => add(v("x"), k(1.0)),
        8 => div(v("y"), k(0.0)),
        9 => un(LN, un(NEG, un(EXP, v("x")))),
        10 => div(k(1.0), k(-0.0)),
        _ => div(sub(v("x"), v("x")), sub(v("y"), v("y"))),
    };
    let second = match pick("second", 8) {
        0 => v("x"),
        1 => add(v("x"), k(1.0)),
        2 => mul(v("x"), v("y")),
        3 => k(2.5),
        4 => sub(v("y"), v("x")),
        5 => un(EXP, v("x")),
        6 => add(k(0.0), k(1.0)),
        _ => pow(v("x"), k(3.0)),
    };
    let Ok(mut o) = EgglogOptimizer::new() else {
        claim("an optimiser", false);
        return;
    };
    let env = inputs();
    let p = o.optimize(&first).ok();
    same("the first", &first, p.as_ref(), &env);
    let q = o.optimize(&second).ok();
    same("the second", &second, q.as_ref(), &env);
    let p = o.optimize(&first).ok();
    same("the first again", &first, p.as_ref(), &env);
}
fn densities() {
    let (x, m, s) = (sym_in("x", -50.0, 50.0), sym_in("mu", -50.0, 50.0), sym_in("sigma", 0.05, 50.0));
    let env = [("x", x), ("mu", m), ("sigma", s), ("lambda", s)];
    let z = || div(sub(v("x"), v("mu")), v("sigma"));
    let e = match pick("density", 6) {
        0 => sub(sub(mul(k(-0.5), pow(z(), k(2.0))), un(LN, v("sigma"))), k(0.9189385332046727)),
        1 => measures_bayesian::bayesian::normal_likelihood("x", "mu", "sigma"),
        2 => measures_bayesian::bayesian::normal_prior("mu", 1.25, 2.375),
        3 => sub(un(LN, v("lambda")), mul(v("lambda"), v("x"))),
        4 => un(NEG, add(un(LN, mul(k(std::f64::consts::PI), v("sigma"))), un(LN, add(k(1.0), mul(z(), z()))))),
        _ => measures_bayesian::bayesian::posterior_log_density(
            measures_bayesian::bayesian::normal_likelihood("x", "mu", "sigma"),
            measures_bayesian::bayesian::normal_prior("mu", 0.05, 1.96),
        ),
    };
    let o = e.optimize_with_egglog().ok();
    same("density", &e, o.as_ref(), &env);
}
/// squares of negative values under a logarithm, a root and a power
fn negative(label: &str, e: Expr) {
    let o = e.optimize_with_egglog().ok();
    let x = -sym_in("x", 0.05, 3.0);
    let env = [("x", x)];
    claim_eq(label, o.and_then(|o| meaning(&o, &env)).unwrap_or(f64::NAN), meaning(&e, &env).unwrap_or(f64::NAN));
}
fn log_of_square() {
    negative("ln(x^2) at a negative x", un(LN, pow(v("x"), k(2.0))))
}
fn root_of_square() {
    negative("sqrt(x^2) at a negative x", un(SQRT, pow(v("x"), k(2.0))))
}
fn power_of_square() {
    negative("(x^2)^0.5 at a negative x", pow(pow(v("x"), k(2.0)), k(0.5)))
}
pub const S: &[Scenario] = &[
    ("C23.one", one),
    ("C23.unary_twice", unary_twice),
    ("C23.add_even", add0),
    ("C23.add_odd", add1),
    ("C23.sub_even", sub0),
    ("C23.sub_odd", sub1),
    ("C23.mul_even", mul0),
    ("C23.mul_odd", mul1),
    ("C23.div_even", div0),
    ("C23.div_odd", div1),
    ("C23.pow_even", pow0),
    ("C23.pow_odd", pow1),
    ("C23.nested", nested),
    ("C23.function_of_sum", function_of_sum),
    ("C23.function_of_difference", function_of_difference),
    ("C23.function_of_product", function_of_product),
    ("C23.function_of_quotient", function_of_quotient),
    ("C23.function_of_power", function_of_power),
    ("C23.of_functions", of_functions),
    ("C23.rules", rules),
    ("C23.rules_inside", rules_inside),
    ("C23.constants", constants),
    ("C23.history", history),
    ("C23.densities", densities),
    ("C23.log_of_square", log_of_square),
    ("C23.root_of_square", root_of_square),
    ("C23.power_of_square", power_of_square),
];
