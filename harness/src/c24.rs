//! C24 compiled code.
use crate::c20::tree;
use crate::exprs::*;
use crate::spec;
use measures_bayesian::BayesianJITOptimizer;
use measures_core::*;
use measures_distributions::patterns;
use measures_exponential_family::CustomJITOptimizer;
use measures_distributions::{Cauchy, Exponential, Normal};
use std::collections::HashMap;
use symbolic_math::final_tagless::{JITEval, JITRepr, MathExpr};
use symbolic_math::{CustomSymbolicLogDensity, Expr, GeneralJITCompiler, GeneralJITFunction, JITSignature};
use symrt::*;

fn s(names: &[&str]) -> Vec<String> {
    names.iter().map(|n| n.to_string()).collect()
}
fn compile(e: &Expr, data: &[&str], params: &[&str], consts: &[(&str, f64)]) -> Option<GeneralJITFunction> {
    GeneralJITCompiler::new().ok()?.compile_expression(e, &s(data), &s(params), &map(consts)).ok()
}
fn repr(e: &Expr) -> JITRepr {
    let b = |e: &Expr| Box::new(repr(e));
    match e {
        Expr::Const(c) => JITRepr::Constant(*c),
        Expr::Var(n) => JITRepr::Variable(n.clone()),
        Expr::Add(l, r) => JITRepr::Add(b(l), b(r)),
        Expr::Sub(l, r) => JITRepr::Sub(b(l), b(r)),
        Expr::Mul(l, r) => JITRepr::Mul(b(l), b(r)),
        Expr::Div(l, r) => JITRepr::Div(b(l), b(r)),
        Expr::Pow(l, r) => JITRepr::Pow(b(l), b(r)),
        Expr::Ln(e) => JITRepr::Ln(b(e)),
        Expr::Exp(e) => JITRepr::Exp(b(e)),
        Expr::Sqrt(e) => JITRepr::Sqrt(b(e)),
        Expr::Sin(e) => JITRepr::Sin(b(e)),
        Expr::Cos(e) => JITRepr::Cos(b(e)),
        Expr::Neg(e) => JITRepr::Neg(b(e)),
    }
}
fn compile_repr(e: &Expr, data: &[&str], params: &[&str], consts: &[(&str, f64)]) -> Option<GeneralJITFunction> {
    JITEval::compile_with_constants(repr(e), &s(data), &s(params), &map(consts)).ok()
}
/// The code of each elementary function on its own: where it appears inside other code it is that function,
/// whose accuracy is decided by the `accuracy` scenarios.
pub fn elementary() {
    template("ln", || one(LN));
    template("exp", || one(EXP));
    template("sin", || one(SIN));
    template("cos", || one(COS));
}
fn one(op: usize) {
    compile(&un(op, v("x")), &["x"], &[], &[]).expect("an elementary function compiles");
}
fn real(n: &str) -> f64 {
    sym_in(n, -50.0, 50.0)
}
/// both code generators on an expression of x, y
fn both(label: &str, e: &Expr, env: &[(&str, f64)]) {
    elementary();
    let (x, y) = (env[0].1, env[1].1);
    let want = value(e, env);
    let (f, g) = (compile(e, &["x"], &["y"], &[]), compile_repr(e, &["x"], &["y"], &[]));
    claim(&format!("{label}: compiles"), f.is_some() && g.is_some());
    let (Some(f), Some(g)) = (f, g) else { return };
    if let Some(w) = want {
        claim_eq(&format!("{label}: compiled"), f.call_data_param(x, y), w);
        claim_eq(&format!("{label}: compiled, interpreter form"), g.call_data_param(x, y), w);
        claim_eq(&format!("{label}: arguments in an array"), f.call_batch(&[x], &[y]), w);
    }
}
fn unary_of_part() {
    let (i, op) = (pick("i", PARTS), pick("op", 7));
    let p = part(i, sym("c"), 2.5);
    let e = if op == 6 { p } else { un(op, p) };
    both("expression", &e, &[("x", real("x")), ("y", real("y"))]);
}
fn two_parts() {
    let (i, j, op) = (pick("i", PARTS), pick("j", PARTS), pick("op", 4));
    let e = bin(op, part(i, sym("c"), -1.5), part(j, 0.5, 3.0));
    both("two operands", &e, &[("x", real("x")), ("y", real("y"))]);
}
fn three_bits() {
    let (i, j, op, op2, side) = (pick("i", 6), pick("j", 5), pick("op", 4), pick("op2", 4), pick("side", 2));
    let inner = bin(op2, v("x"), bit(j + 4, 3.0));
    let o = bit(i + 2, sym("c"));
    let e = if side == 0 { bin(op, o, inner) } else { bin(op, inner, o) };
    both("nested", &e, &[("x", real("x")), ("y", real("y"))]);
}
const EXPONENTS: [f64; 24] = [
    0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0, 9.0, 10.0, 15.0, 16.0, -1.0, -2.0, -3.0, -4.0, -5.0, -7.0, 0.5, -0.5, 1.5, 2.5, -0.0,
];
fn powers() {
    elementary();
    let q = EXPONENTS[pick("q", EXPONENTS.len())];
    let x = sym_in("x", -9.0, 9.0);
    if q < 0.0 {
        assume(x < -1e-2 || x > 1e-2);
    }
    if q.fract() != 0.0 {
        assume_lt(1e-3, x);
    }
    let e = pow(v("x"), k(q));
    let want = if q.fract() == 0.0 { x.powi(q as i32) } else { x.powf(q) };
    for (l, f) in [("power", compile(&e, &["x"], &[], &[])), ("power, interpreter form", compile_repr(&e, &["x"], &[], &[]))] {
        claim(&format!("{l} compiles"), f.is_some());
        if let Some(f) = f {
            claim_eq(l, f.call_single(x), want);
        }
    }
}
/// an exponent that is not literal: positive bases
fn general_power() {
    elementary();
    let (x, y, c) = (sym_in("x", 1e-3, 1e3), sym_in("y", -5.0, 5.0), sym_in("c", -5.0, 5.0));
    let env = [("x", x), ("y", y)];
    let e = pow(v("x"), v("y"));
    let f = compile(&e, &["x"], &["y"], &[]).unwrap();
    claim_eq("variable exponent", f.call_data_param(x, y), x.powf(y));
    let f = compile(&pow(v("x"), v("c")), &["x"], &[], &[("c", c)]).unwrap();
    claim_eq("exponent from a constant", f.call_single(x), x.powf(c));
    let f = compile_repr(&pow(add(v("x"), k(1.0)), mul(v("y"), k(2.0))), &["x"], &["y"], &[]).unwrap();
    claim_eq("compound", f.call_batch(&[env[0].1], &[env[1].1]), (x + 1.0).powf(y * 2.0));
}
fn elementary_edges() {
    elementary();
    let f = |op: usize| compile(&un(op, v("x")), &["x"], &[], &[]).unwrap();
    let x = sym_in("x", -1e3, 1e3);
    let l = f(LN).call_single(x);
    if x > 0.0 {
        claim_eq("ln", l, x.ln());
    } else if x == 0.0 {
        claim("ln 0 is minus infinity", l == f64::NEG_INFINITY);
    } else {
        claim("ln of a negative number is not a number", l != l);
    }
    let q = f(SQRT).call_single(x);
    if x >= 0.0 {
        claim_eq("sqrt", q, x.sqrt());
    } else {
        claim("sqrt of a negative number is not a number", q != q);
    }
    claim_eq("neg", f(NEG).call_single(x), -x);
    let y = sym_in("y", -700.0, 700.0);
    claim_eq("exp", f(EXP).call_single(y), y.exp());
}
/// the arguments of a function of n data values and m parameters arrive in order
fn signatures() {
    elementary();
    let (n, m) = (pick("n", 5), pick("m", 5));
    if n + m == 0 || n + m > 8 {
        return;
    }
    let names = ["z0", "b1", "y2", "a3", "x4", "c5", "w6", "d7"];
    let vals: Vec<f64> = (0..n + m).map(|i| real(&format!("a{i}"))).collect();
    let (mut e, mut want) = (k(0.0), 0.0);
    for i in 0..n + m {
        let w = [1.0, 10.0, -3.0, 7.0, 0.5, -11.0, 13.0, 0.25][i];
        e = add(e, mul(k(w), v(names[i])));
        want += w * vals[i];
    }
    if n + m > 1 {
        e = add(e, div(v(names[0]), add(k(3000.0), v(names[n + m - 1]))));
        want += vals[0] / (3000.0 + vals[n + m - 1]);
    }
    let (d, p) = (&names[..n], &names[n..n + m]);
    for (l, f) in [("compiled", compile(&e, d, p, &[])), ("interpreter form", compile_repr(&e, d, p, &[]))] {
        claim(&format!("{l}: compiles"), f.is_some());
        let Some(f) = f else { return };
        claim_eq(&format!("{l}: batch call"), f.call_batch(&vals[..n], &vals[n..]), want);
        if n == 1 && m == 0 {
            claim_eq(&format!("{l}: single call"), f.call_single(vals[0]), want);
        }
        if n == 1 && m == 1 {
            claim_eq(&format!("{l}: data and parameter"), f.call_data_param(vals[0], vals[1]), want);
        }
        if n == 1 && m > 1 {
            claim_eq(&format!("{l}: data and parameters"), f.call_data_params(vals[0], &vals[1..]), want);
        }
        let shape = match &f.signature {
            JITSignature::SingleInput => (1, 0),
            JITSignature::DataAndParameter => (1, 1),
            JITSignature::DataAndParameters(k) => (1, *k),
            JITSignature::MultipleDataAndParameters { data_dims, param_dims } => (*data_dims, *param_dims),
            _ => (99, 99),
        };
        claim(&format!("{l}: signature"), shape == (n, m));
        claim(&format!("{l}: wrong number of data values refused"), catching(|| f.call_batch(&vec![0.0; n + 1], &vals[n..])).is_none());
        claim(&format!("{l}: wrong number of parameters refused"), catching(|| f.call_batch(&vals[..n], &vec![0.0; m + 1])).is_none());
        if n != 1 || m != 0 {
            claim(&format!("{l}: single call refused"), catching(|| f.call_single(1.0)).is_none());
        }
        if n != 1 || m != 1 {
            claim(&format!("{l}: pair call refused"), catching(|| f.call_data_param(1.0, 2.0)).is_none());
        }
        if n != 1 || m < 2 {
            claim(&format!("{l}: vector call refused"), catching(|| f.call_data_params(1.0, &vec![1.0; m])).is_none());
        } else {
            claim(&format!("{l}: wrong length refused"), catching(|| f.call_data_params(1.0, &vec![1.0; m + 1])).is_none());
        }
    }
}
fn constants() {
    elementary();
    let (a, b, x, y) = (sym("a"), sym("b"), real("x"), real("y"));
    let e = add(mul(v("a"), v("x")), sub(v("b"), v("y")));
    let want = a * x + (b - y);
    for (l, c) in [("compiled", compile as fn(&Expr, &[&str], &[&str], &[(&str, f64)]) -> Option<GeneralJITFunction>), ("interpreter form", compile_repr)] {
        let f = c(&e, &["x"], &["y"], &[("a", a), ("b", b), ("unused", 5.0)]);
        claim(&format!("{l}: compiles"), f.is_some());
        if let Some(f) = f {
            claim_eq(&format!("{l}: embedded constants"), f.call_data_param(x, y), want);
        }
        if let Some(f) = c(&e, &["x"], &["y", "a"], &[("a", 77.0), ("b", b)]) {
            claim_eq(&format!("{l}: an argument before a constant of its name"), f.call_data_params(x, &[y, a]), want);
        }
        claim(&format!("{l}: an unset variable refused"), c(&e, &["x"], &["y"], &[("a", a)]).is_none());
        claim(&format!("{l}: unset in a power refused"), c(&pow(v("x"), v("q")), &["x"], &[], &[]).is_none());
        if let Some(f) = c(&v("y"), &["x"], &["y"], &[]) {
            claim_eq(&format!("{l}: projection"), f.call_data_param(x, y), y);
        }
        if let Some(f) = c(&k(a), &["x"], &[], &[]) {
            claim_eq(&format!("{l}: a constant"), f.call_single(x), a);
        }
    }
}
fn custom() {
    elementary();
    let (a, m, x) = (sym("a"), sym("m"), real("x"));
    let e = sub(mul(v("a"), pow(v("x"), k(2.0))), mul(v("m"), un(EXP, un(NEG, pow(v("x"), k(2.0))))));
    let c = CustomSymbolicLogDensity::new(e, map(&[("a", a), ("m", m)]));
    let f = GeneralJITCompiler::new().ok().and_then(|j| j.compile_custom_expression(&c).ok());
    claim("compiles", f.is_some());
    if let Some(f) = f {
        claim_eq("custom expression", f.call_single(x), a * (x * x) - m * (-(x * x)).exp());
        claim_eq("as it evaluates", f.call_single(x), c.evaluate_single("x", x).unwrap_or(f64::NAN));
    }
    let two = CustomSymbolicLogDensity::new(add(v("x"), v("y")), HashMap::new());
    claim("two inputs refused", GeneralJITCompiler::new().ok().map_or(false, |j| j.compile_custom_expression(&two).is_err()));
}
fn interpreters() {
    elementary();
    let (x, y, z) = (real("x"), real("y"), real("z"));
    let var = |n: &str| JITEval::var(n);
    let e = || {
        let q = JITEval::pow::<f64>(var("x"), JITEval::constant(2.0));
        JITEval::sub::<f64, f64, f64>(JITEval::mul::<f64, f64, f64>(q, var("b")), JITEval::neg::<f64>(JITEval::sin::<f64>(var("q"))))
    };
    let want = x * x * y - -z.sin();
    claim("the tree", tree(&e()).evaluate(&map(&[("x", 2.0), ("b", 3.0), ("q", 0.0)])) == Ok(12.0));
    let f = JITEval::compile(e()).unwrap();
    claim_eq("automatic signature: alphabetical", f.call_batch(&[y, z, x], &[]), want);
    let f = JITEval::compile_with_signature(e(), &s(&["q", "x"]), &s(&["b"])).unwrap();
    claim_eq("given signature", f.call_batch(&[z, x], &[y]), want);
    let f = JITEval::compile_data_params(e(), "x", &s(&["q", "b"])).unwrap();
    claim_eq("data and parameters", f.call_data_params(x, &[z, y]), want);
    let f = JITEval::compile_data_param(JITEval::div::<f64, f64, f64>(var("t"), JITEval::constant(4.0)), "x", "t").unwrap();
    claim_eq("data and parameter", f.call_data_param(x, y), y / 4.0);
    let f = JITEval::compile_single_var(JITEval::cos::<f64>(var("x")), "x").unwrap();
    claim_eq("single variable", f.call_single(x), x.cos());
    claim_eq("twice", f.call_single(y), y.cos());
    let f = JITEval::compile_with_constants(e(), &s(&["x"]), &[], &map(&[("b", y), ("q", z)])).unwrap();
    claim_eq("constants", f.call_single(x), want);
    let mut vars: Vec<String> = e().collect_variables().into_iter().collect();
    vars.sort();
    claim("variables", vars == ["b", "q", "x"]);
    claim("constants counted", e().count_constants() == 1);
}
fn posterior() {
    elementary();
    let (x1, x2, m, sg) = (real("x1"), real("x2"), real("m"), sym_in("s", 1e-2, 1e2));
    let lik = add(
        measures_bayesian::bayesian::normal_likelihood("x1", "mu", "sigma"),
        measures_bayesian::bayesian::normal_likelihood("x2", "mu", "sigma"),
    );
    let prior = measures_bayesian::bayesian::normal_prior("mu", 1.0, 2.0);
    let post = measures_bayesian::bayesian::posterior_log_density(lik.clone(), prior.clone());
    let (d, p) = (s(&["x1", "x2"]), s(&["mu", "sigma"]));
    let mut o = BayesianJITOptimizer::new();
    claim("nothing compiled yet", o.evaluate_posterior(&[x1], &[m]).is_none() && o.evaluate_likelihood(&[x1], &[m]).is_none() && o.evaluate_prior(&[m]).is_none());
    let none = HashMap::new();
    claim("likelihood compiles", o.compile_likelihood_jit(&lik, &d, &p, &none).is_ok());
    claim("prior compiles", o.compile_prior_jit(&prior, &s(&["mu"]), &none).is_ok());
    claim("posterior compiles", o.compile_posterior_jit(&post, &d, &p, &none).is_ok());
    let wl = spec::normal(m, sg, x1) + spec::normal(m, sg, x2);
    let wp = spec::normal(1.0, 2.0, m);
    let get = |o: Option<f64>| o.unwrap_or(f64::NAN);
    claim_eq("likelihood", get(o.evaluate_likelihood(&[x1, x2], &[m, sg])), wl);
    claim_eq("prior", get(o.evaluate_prior(&[m])), wp);
    claim_eq("posterior", get(o.evaluate_posterior(&[x1, x2], &[m, sg])), wl + wp);
    // one data value
    let mut o = BayesianJITOptimizer::default();
    let lik = measures_bayesian::bayesian::normal_likelihood("x1", "mu", "sigma");
    claim("compiles again", o.compile_likelihood_jit(&lik, &s(&["x1"]), &s(&["mu"]), &map(&[("sigma", sg)])).is_ok());
    claim_eq("one data value", get(o.evaluate_likelihood(&[x2], &[m])), spec::normal(m, sg, x2));
}
fn densities() {
    elementary();
    let (x, m, sg) = (real("x"), real("m"), sym_in("s", 1e-2, 1e2));
    let var = |n: &str| JITEval::var(n);
    let p = s(&["m", "s"]);
    let f = JITEval::compile_data_params(patterns::normal_log_density::<JITEval>(var("x"), var("m"), var("s")), "x", &p).unwrap();
    claim_eq("normal", f.call_data_params(x, &[m, sg]), Normal::new(m, sg).log_density().at(&x));
    let f = JITEval::compile_data_params(patterns::cauchy_log_density::<JITEval>(var("x"), var("m"), var("s")), "x", &p).unwrap();
    claim_eq("cauchy", f.call_data_params(x, &[m, sg]), Cauchy::new(m, sg).log_density().at(&x));
    let y = sym_in("y", 0.0, 50.0);
    let f = JITEval::compile_data_param(patterns::exponential_log_density::<JITEval>(var("x"), var("r")), "x", "r").unwrap();
    claim_eq("exponential", f.call_data_param(y, sg), Exponential::new(sg).log_density().at(&y));
    let f = compile(&measures_bayesian::bayesian::normal_likelihood("x", "m", "s"), &["x"], &["m", "s"], &[]).unwrap();
    claim_eq("normal likelihood", f.call_data_params(x, &[m, sg]), Normal::new(m, sg).log_density().at(&x));
}
/// The code of one elementary function, handed as it is to engine/plug_clif.py, which decides its error over all
/// arguments; natively the same error is measured.
fn accuracy(op: usize, lo: f64, hi: f64, exact: impl Fn(f64) -> f64, relative: bool) {
    raw_code();
    let x = sym_in("x", lo, hi);
    let f = compile(&un(op, v("x")), &["x"], &[], &[]).unwrap();
    let y = f.call_single(x);
    if !symbolic() {
        let special = match op {
            LN => vec![(0.0, f64::NEG_INFINITY), (-0.0, f64::NEG_INFINITY), (f64::INFINITY, f64::INFINITY), (f64::NEG_INFINITY, f64::NAN), (-1.0, f64::NAN), (-5e-324, f64::NAN), (1.0, 0.0)],
            EXP => vec![(1000.0, f64::INFINITY), (f64::INFINITY, f64::INFINITY), (-1000.0, 0.0), (f64::NEG_INFINITY, 0.0), (0.0, 1.0), (-0.0, 1.0)],
            SIN => vec![(0.0, 0.0), (-0.0, 0.0), (f64::INFINITY, f64::NAN), (f64::NEG_INFINITY, f64::NAN)],
            _ => vec![(0.0, 1.0), (-0.0, 1.0), (f64::INFINITY, f64::NAN), (f64::NEG_INFINITY, f64::NAN)],
        };
        let ok = special.iter().chain(&[(f64::NAN, f64::NAN)]).all(|(x, want)| {
            let y = f.call_single(*x);
            y == *want || (y.is_nan() && want.is_nan()) || (want.is_finite() && (y - want).abs() <= 1e-11)
        });
        claim("special arguments", ok);
    }
    if relative {
        claim_eq_tol("within the stated error", y / exact(x), 1.0, 5e-12);
    } else {
        claim_eq_tol("within the stated error", y - exact(x), 0.0, 1e-11);
    }
}
fn accuracy_ln() {
    accuracy(LN, 5e-324, f64::MAX, |x| x.ln(), false);
}
fn accuracy_exp() {
    accuracy(EXP, -708.0, 709.0, |x| x.exp(), true);
}
fn accuracy_sin() {
    accuracy(SIN, -1e4, 1e4, |x| x.sin(), false);
}
fn accuracy_cos() {
    accuracy(COS, -1e4, 1e4, |x| x.cos(), false);
}
/// a type of the user's with a symbolic density of its own
struct Mine {
    a: f64,
    b: f64,
}
impl CustomJITOptimizer<f64, f64> for Mine {
    fn custom_symbolic_log_density(&self) -> CustomSymbolicLogDensity {
        let d = sub(v("x"), v("a"));
        CustomSymbolicLogDensity::new(sub(mul(d.clone(), d), mul(v("b"), v("x"))), map(&[("a", self.a), ("b", self.b)]))
    }
}
fn custom_compiled() {
    let (a, b, x) = (sym("a"), sym("b"), sym("x"));
    elementary();
    let m = Mine { a, b };
    let want = (x - a) * (x - a) - b * x;
    claim_eq("symbolic", m.custom_symbolic_log_density().evaluate_single("x", x).unwrap_or(f64::NAN), want);
    match m.compile_custom_jit() {
        Ok(f) => claim_eq("compiled", f.call_single(x), want),
        Err(_) => claim("compiled", false),
    }
}
pub const S: &[Scenario] = &[
    ("C24.accuracy_ln", accuracy_ln),
    ("C24.accuracy_exp", accuracy_exp),
    ("C24.accuracy_sin", accuracy_sin),
    ("C24.accuracy_cos", accuracy_cos),
    ("C24.unary_of_part", unary_of_part),
    ("C24.two_parts", two_parts),
    ("C24.three_bits", three_bits),
    ("C24.powers", powers),
    ("C24.general_power", general_power),
    ("C24.elementary_edges", elementary_edges),
    ("C24.signatures", signatures),
    ("C24.constants", constants),
    ("C24.custom", custom),
    ("C24.custom_compiled", custom_compiled),
    ("C24.interpreters", interpreters),
    ("C24.posterior", posterior),
    ("C24.densities", densities),
];
