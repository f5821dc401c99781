//! C17 evaluators.
use crate::exprs::*;
use std::collections::HashMap;
use symbolic_math::{clear_caches, EvalError, Expr};
use symrt::*;

fn agree(label: &str, got: Result<f64, EvalError>, want: Option<f64>, zeros: bool) {
    match (got, want) {
        (Ok(g), Some(w)) => claim_eq(label, g, w),
        (Ok(_), None) => claim(&format!("{label} has no value"), zeros),
        (Err(_), None) => {}
        (Err(_), Some(_)) => claim(&format!("{label} has a value"), false),
    }
}
fn evaluators(e: &Expr) {
    let (x, y) = (sym_in("x", -3.0, 3.0), sym_in("y", -3.0, 3.0));
    let env = [("x", x), ("y", y)];
    let want = meaning(e, &env);
    let zeros = zero_product(e);
    agree("evaluate", e.evaluate(&map(&env)), want, zeros);
    let mut n = vec![];
    names(e, &mut n);
    n.sort();
    n.dedup();
    claim("variables", e.variables() == n);
    claim("complexity", e.complexity() == operations(e));
    if !n.contains(&"y".to_string()) {
        agree("single variable", e.evaluate_single_var("x", x), want, zeros);
        agree("smart", e.evaluate_smart("x", x), want, zeros);
    } else {
        let without = meaning(e, &[("x", x)]);
        claim("a missing variable is an error for the single variable evaluator", e.evaluate_single_var("x", x).is_err());
        claim("a missing variable is an error for the smart evaluator", e.evaluate_smart("x", x).is_err());
        agree("evaluate without a variable", e.evaluate(&map(&[("x", x)])), without, zeros);
    }
    if let Some(g) = e.evaluate_polynomial("x", x) {
        claim_eq("polynomial", g, want.unwrap_or(f64::NAN));
    }
    if let Some(g) = e.evaluate_linear("x", x) {
        claim_eq("linear", g, want.unwrap_or(f64::NAN));
    }
    if let Some((a, b)) = e.extract_linear_coefficients("x") {
        claim_eq("linear coefficients", a * x + b, want.unwrap_or(f64::NAN));
    }
}
fn e_add() {
    evaluators(&two(0))
}
fn e_sub() {
    evaluators(&two(1))
}
fn e_mul() {
    evaluators(&two(2))
}
fn e_div() {
    evaluators(&two(3))
}
fn e_pow() {
    evaluators(&two(4))
}
fn e_un() {
    evaluators(&one())
}
/// sums, differences and products of monomials: the shapes the linear and polynomial paths recognise
fn linear_shapes_add() {
    linear_shapes(0)
}
fn linear_shapes_sub() {
    linear_shapes(1)
}
fn linear_shapes(f: usize) {
    let (a, c, d) = (sym_in("a", -3.0, 3.0), sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let t = |n: &str, c: f64| match pick(n, 8) {
        0 => k(c),
        1 => v("x"),
        2 => mul(k(c), v("x")),
        3 => mul(v("x"), k(c)),
        4 => pow(v("x"), k(2.0)),
        5 => pow(v("x"), k(c)),
        6 => mul(k(c), k(c)),
        _ => mul(v("x"), v("x")),
    };
    let (p, q, r) = (t("p", a), t("q", c), t("r", d));
    let g = pick("inner", 2);
    let e = if pick("side", 2) == 0 { bin(f, bin(g, p, q), r) } else { bin(f, p, bin(g, q, r)) };
    evaluators(&e)
}
/// terms in one variable and in the other, of every shape the shortcuts look for
fn terms() {
    let (a, c) = (sym_in("a", -3.0, 3.0), sym_in("c", -3.0, 3.0));
    let t = |n: &str, c: f64| {
        let w = v(["x", "y"][pick(&format!("{n}var"), 2)]);
        let w2 = v("x");
        match pick(n, 13) {
            0 => w,
            1 => mul(k(c), w),
            2 => mul(w, k(c)),
            3 => pow(w, k(3.0)),
            4 => mul(k(c), pow(w, k(2.0))),
            5 => mul(pow(w, k(3.0)), k(c)),
            6 => mul(w, w2),
            7 => mul(k(c), mul(w, w2)),
            8 => mul(pow(w, k(2.0)), w2),
            9 => un(NEG, pow(w, k(2.0))),
            10 => div(w, k(2.0)),
            11 => add(k(c), pow(w, k(2.0))),
            _ => pow(add(w, k(c)), k(2.0)),
        }
    };
    let p = t("p", a);
    let e = match pick("op", 4) {
        0 => p,
        1 => add(p, t("q", c)),
        2 => sub(p, t("q", c)),
        _ => mul(p, t("q", c)),
    };
    evaluators(&e)
}
fn many(e: &Expr) {
    clear_caches();
    let (x, y, z) = (sym_in("x", -3.0, 3.0), sym_in("y", -3.0, 3.0), sym_in("z", -3.0, 3.0));
    let xs = [x, z, x];
    let mut n = vec![];
    names(e, &mut n);
    let zeros = zero_product(e);
    let wants: Vec<Option<f64>> = xs.iter().map(|&x| meaning(e, &[("x", x)])).collect();
    let all: Option<Vec<f64>> = wants.iter().cloned().collect();
    for (label, got) in [("batch", e.evaluate_batch("x", &xs)), ("optimized batch", e.evaluate_batch_optimized("x", &xs))] {
        match (&got, &all) {
            (Ok(g), Some(w)) => {
                claim(&format!("{label}: one value per point"), g.len() == 3);
                for i in 0..3 {
                    claim_eq(&format!("{label}: value {i}"), g[i], w[i])
                }
            }
            (Ok(_), None) => claim(&format!("{label}: has no value"), zeros),
            (Err(_), Some(_)) => claim(&format!("{label}: has a value"), false),
            _ => {}
        }
    }
    claim("empty batch", e.evaluate_batch("x", &[]).is_ok_and(|v| v.is_empty()) && e.evaluate_batch_optimized("x", &[]).is_ok_and(|v| v.is_empty()));
    let sets: Vec<HashMap<String, f64>> = vec![map(&[("x", x), ("y", y)]), map(&[("y", z), ("x", x)])];
    let want: Option<Vec<f64>> = [y, z].iter().map(|&y| meaning(e, &[("x", x), ("y", y)])).collect();
    match (e.evaluate_batch_vars(&sets), &want) {
        (Ok(g), Some(w)) => {
            claim("variable sets: one value per set", g.len() == 2);
            for i in 0..2 {
                claim_eq(&format!("variable sets: value {i}"), g[i], w[i])
            }
        }
        (Ok(_), None) => claim("variable sets: has no value", zeros),
        (Err(_), Some(_)) => claim("variable sets: has a value", false),
        _ => {}
    }
    let (gx, gy) = ([x, z], [y, z, x]);
    let want: Option<Vec<Vec<f64>>> = gy.iter().map(|&y| gx.iter().map(|&x| meaning(e, &[("x", x), ("y", y)])).collect()).collect();
    match (e.evaluate_grid("x", &gx, "y", &gy), &want) {
        (Ok(g), Some(w)) => {
            claim("grid: shape", g.len() == 3 && g.iter().all(|r| r.len() == 2));
            for i in 0..3 {
                for j in 0..2 {
                    claim_eq(&format!("grid: row {i} column {j}"), g[i][j], w[i][j])
                }
            }
        }
        (Ok(_), None) => claim("grid: has no value", zeros),
        (Err(_), Some(_)) => claim("grid: has a value", false),
        _ => {}
    }
    for (i, env) in [map(&[("x", x), ("y", y)]), map(&[("x", z), ("y", y)]), map(&[("x", x), ("y", y)])].iter().enumerate() {
        let w = meaning(e, &[("x", if i == 1 { z } else { x }), ("y", y)]);
        agree(&format!("cached evaluation {i}"), e.evaluate_cached(env), w, zeros);
    }
}
fn many_parts() {
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    many(&part(pick("part", PARTS), c, d))
}
/// long batches and large grids
fn many_points() {
    clear_caches();
    let c = sym_in("c", -3.0, 3.0);
    let e = [
        mul(k(c), v("x")),
        add(mul(v("x"), v("x")), k(c)),
        sub(pow(v("x"), k(3.0)), mul(k(c), v("x"))),
        un(EXP, add(v("x"), k(c))),
        add(un(SIN, v("x")), un(COS, v("x"))),
        k(c),
    ][pick("expression", 6)]
    .clone();
    let n = [4usize, 5, 7, 8, 9, 16, 17, 33, 65][pick("n", 9)];
    let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), -3.0, 3.0)).collect();
    let want = |x: f64| meaning(&e, &[("x", x)]).unwrap_or(f64::NAN);
    for (label, got) in [("batch", e.evaluate_batch("x", &xs)), ("optimized batch", e.evaluate_batch_optimized("x", &xs))] {
        let g = got.unwrap_or_default();
        claim(&format!("{label}: one value per point"), g.len() == n);
        for i in 0..n.min(g.len()) {
            claim_eq(&format!("{label}: value {i} of {n}"), g[i], want(xs[i]))
        }
    }
    let sets: Vec<HashMap<String, f64>> = xs.iter().map(|x| map(&[("x", *x)])).collect();
    let g = e.evaluate_batch_vars(&sets).unwrap_or_default();
    claim("variable sets: one value per set", g.len() == n);
    for i in 0..n.min(g.len()) {
        claim_eq(&format!("variable sets: value {i} of {n}"), g[i], want(xs[i]))
    }
}
fn large_grid() {
    clear_caches();
    let (n, m) = [(5usize, 9usize), (9, 4), (17, 2), (2, 17), (1, 33), (33, 1)][pick("shape", 6)];
    let e = [sub(mul(v("x"), v("y")), v("x")), add(v("x"), mul(v("y"), v("y"))), v("y"), v("x")][pick("expression", 4)].clone();
    let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), -3.0, 3.0)).collect();
    let ys: Vec<f64> = (0..m).map(|i| sym_in(&format!("y{i}"), -3.0, 3.0)).collect();
    let g = e.evaluate_grid("x", &xs, "y", &ys).unwrap_or_default();
    claim("shape", g.len() == m && g.iter().all(|r| r.len() == n));
    for i in 0..m.min(g.len()) {
        for j in 0..n.min(g[i].len()) {
            claim_eq(&format!("row {i} column {j}"), g[i][j], meaning(&e, &[("x", xs[j]), ("y", ys[i])]).unwrap_or(f64::NAN));
        }
    }
}
/// high degrees, where the polynomial evaluators unroll
fn long_polynomial() {
    let n = [4usize, 5, 7, 8, 9, 12, 17][pick("n", 7)];
    let x = sym_in("x", -2.0, 2.0);
    let place = pick("place", n);
    let mut a: Vec<f64> = (0..n).map(|i| [2.0, -0.5, 1.0, -3.0, 0.25][i % 5]).collect();
    a[place] = sym_in("a", -3.0, 3.0);
    let kind = pick("kind", 3);
    let mut e = k(a[0]);
    let mut want = a[0];
    for i in 1..n {
        let (mut t, mut p) = (v("x"), x);
        for _ in 1..i {
            t = mul(t, v("x"));
            p = p * x;
        }
        if kind == 1 {
            t = pow(v("x"), k(i as f64));
        }
        e = if kind == 2 { add(mul(t, k(a[i])), e) } else { add(e, mul(k(a[i]), t)) };
        want = want + a[i] * p;
    }
    agree("evaluate", e.evaluate(&map(&[("x", x)])), Some(want), false);
    agree("single variable", e.evaluate_single_var("x", x), Some(want), false);
    agree("smart", e.evaluate_smart("x", x), Some(want), false);
    if let Some(g) = e.evaluate_polynomial("x", x) {
        claim_eq("polynomial", g, want);
    }
    let g = e.evaluate_batch("x", &[x]).unwrap_or_default();
    claim("batch", g.len() == 1);
    claim_eq("batch value", g[0], want);
}
/// many variables
fn many_variables() {
    let n = [3usize, 5, 8, 9, 16, 17][pick("n", 6)];
    let xs: Vec<(String, f64)> = (0..n).map(|i| (format!("v{i}"), sym_in(&format!("v{i}"), -3.0, 3.0))).collect();
    let mut e = k(1.0);
    let mut want = 1.0;
    for (i, (name, x)) in xs.iter().enumerate() {
        if i % 3 == 0 {
            e = sub(e, mul(k(i as f64), v(name)));
            want = want - i as f64 * x;
        } else if i % 3 == 1 {
            e = add(v(name), e);
            want = x + want;
        } else {
            e = mul(e, v(name));
            want = want * x;
        }
    }
    let env: HashMap<String, f64> = xs.iter().cloned().collect();
    claim("variables", { let mut n: Vec<String> = xs.iter().map(|x| x.0.clone()).collect(); n.sort(); e.variables() == n });
    claim_eq("evaluate", e.evaluate(&env).unwrap_or(f64::NAN), want);
    claim_eq("cached", e.evaluate_cached(&env).unwrap_or(f64::NAN), want);
    let g = e.evaluate_batch_vars(&[env.clone(), env]).unwrap_or_default();
    claim("sets", g.len() == 2);
    claim_eq("set 1", g[1], want);
}
fn many_sums() {
    let c = sym_in("c", -3.0, 3.0);
    let (o, i, j) = (pick("op", 4), pick("left", BITS), pick("right", BITS));
    many(&bin(o, bit(i, c), bit(j, c)))
}
/// operators and methods build what their names say
fn construction() {
    let (c, x, y) = (sym_in("c", -3.0, 3.0), sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = map(&[("x", x), ("y", y)]);
    let (p, q) = (|| Expr::variable("x"), || Expr::from("y"));
    let ev = |e: Expr| e.evaluate(&env).unwrap_or(f64::NAN);
    claim_eq("add", ev(p() + q()), x + y);
    claim_eq("sub", ev(p() - q()), x - y);
    claim_eq("mul", ev(p() * q()), x * y);
    claim_eq("div", ev(p() / q()), x / y);
    claim_eq("neg", ev(-p()), -x);
    claim_eq("add number", ev(p() + c), x + c);
    claim_eq("number add", ev(c + p()), c + x);
    claim_eq("sub number", ev(p() - c), x - c);
    claim_eq("number sub", ev(c - p()), c - x);
    claim_eq("mul number", ev(p() * c), x * c);
    claim_eq("number mul", ev(c * p()), c * x);
    claim_eq("number div", ev(c / p()), c / x);
    claim_eq("constructor add", ev(Expr::add(p(), q())), x + y);
    claim_eq("constructor sub", ev(Expr::sub(p(), q())), x - y);
    claim_eq("constructor mul", ev(Expr::mul(p(), q())), x * y);
    claim_eq("constructor div", ev(Expr::div(p(), q())), x / y);
    claim_eq("constructor pow", ev(Expr::pow(p(), Expr::constant(c))), x.powf(c));
    claim_eq("constructor ln", ev(Expr::ln(p())), x.ln());
    claim_eq("constructor exp", ev(Expr::exp(p())), x.exp());
    claim_eq("constructor sqrt", ev(Expr::sqrt(p())), x.sqrt());
    claim_eq("constructor neg", ev(Expr::neg(p())), -x);
    claim_eq("powf", ev(p().powf(c)), x.powf(c));
    claim_eq("powf of an expression", ev(p().powf(q())), x.powf(y));
    claim_eq("natural_log", ev(p().natural_log()), x.ln());
    claim_eq("exponential", ev(p().exponential()), x.exp());
    claim_eq("square_root", ev(p().square_root()), x.sqrt());
    claim_eq("sin", ev(p().sin()), x.sin());
    claim_eq("cos", ev(p().cos()), x.cos());
    claim_eq("square", ev(p().square()), x * x);
    claim_eq("cube", ev(p().cube()), x * x * x);
    claim_eq("abs", ev((p() - q()).abs()), (x - y).abs());
    claim_eq("from i32", ev(Expr::from(-7)), -7.0);
    claim_eq("from String", ev(Expr::from(String::from("y"))), y);
    assume(c != 0.0);
    claim_eq("div number", ev(p() / c), x / c);
}
/// three levels
fn deep(ops: &[usize]) {
    let c = sym_in("c", -3.0, 3.0);
    let (i, j, l) = (pick("i", BITS), pick("j", BITS), pick("l", BITS));
    let (f, g) = (ops[pick("f", ops.len())], ops[pick("g", ops.len())]);
    let e = if pick("side", 2) == 0 { bin(f, bin(g, bit(i, c), bit(j, c)), bit(l, c)) } else { bin(f, bit(l, c), bin(g, bit(i, c), bit(j, c))) };
    evaluators(&e)
}
fn deep_ring() {
    deep(&[0, 1, 2])
}
fn deep_field() {
    deep(&[2, 3])
}

pub const S: &[Scenario] = &[
    ("C17.add", e_add),
    ("C17.sub", e_sub),
    ("C17.mul", e_mul),
    ("C17.div", e_div),
    ("C17.pow", e_pow),
    ("C17.unary", e_un),
    ("C17.linear_sums", linear_shapes_add),
    ("C17.linear_differences", linear_shapes_sub),
    ("C17.terms", terms),
    ("C17.many_parts", many_parts),
    ("C17.many_binary", many_sums),
    ("C17.many_points", many_points),
    ("C17.large_grid", large_grid),
    ("C17.long_polynomial", long_polynomial),
    ("C17.many_variables", many_variables),
    ("C17.construction", construction),
    ("C17.t.deep_ring", deep_ring),
    ("C17.t.deep_field", deep_field),
];
