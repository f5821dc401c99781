//! C18 simplification, C30 caches.
use crate::exprs::*;
use symbolic_math::{clear_caches, get_cache_stats, Expr};
use symrt::*;

/// The recorded findings are about squares and powers of negative values under a logarithm, a root or a power:
/// there, every base and repeated factor is positive.
pub fn tame(e: &Expr, env: &[(&str, f64)]) -> bool {
    fn bases(e: &Expr, env: &[(&str, f64)]) -> bool {
        let p = |e: &Expr| value(e, env).is_some_and(|v| v > 0.0);
        match e {
            Expr::Mul(a, b) => (a != b || p(a)) && bases(a, env) && bases(b, env),
            Expr::Pow(a, b) => p(a) && bases(a, env) && bases(b, env),
            Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Div(a, b) => bases(a, env) && bases(b, env),
            Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => bases(a, env),
            _ => true,
        }
    }
    match e {
        Expr::Ln(a) | Expr::Sqrt(a) => bases(a, env) && tame(a, env),
        Expr::Pow(a, b) => bases(a, env) && tame(a, env) && tame(b, env),
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Div(a, b) | Expr::Mul(a, b) => tame(a, env) && tame(b, env),
        Expr::Exp(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => tame(a, env),
        _ => true,
    }
}
fn both(e: Expr) {
    clear_caches();
    let y = sym_in("y", -3.0, 3.0);
    let x = match pick("range", 3) {
        0 => sym_in("x", 0.05, 3.0),
        1 => -sym_in("x", 0.05, 3.0),
        _ => 0.0,
    };
    let env = [("x", x), ("y", y)];
    let Some(want) = value(&e, &env) else { return };
    if !tame(&e, &env) {
        return;
    }
    let once = e.clone().simplify();
    claim_eq("simplified", meaning(&once, &env).unwrap_or(f64::NAN), want);
    let twice = once.clone().simplify();
    claim_eq("simplified twice", meaning(&twice, &env).unwrap_or(f64::NAN), want);
    claim_eq("simplified, cached", meaning(&e.clone().simplify_cached(), &env).unwrap_or(f64::NAN), want);
    claim_eq("simplified, from the cache", meaning(&e.simplify_cached(), &env).unwrap_or(f64::NAN), want);
}
fn s_add() {
    both(two(0))
}
fn s_sub() {
    both(two(1))
}
fn s_mul() {
    both(two(2))
}
fn s_div() {
    both(two(3))
}
fn s_pow() {
    both(two(4))
}
fn s_un() {
    both(one())
}
fn nest(f: usize, side: usize) {
    let c = sym_in("c", -3.0, 3.0);
    let bits = |n: &str| [k(0.0), k(c), v("x"), pow(v("x"), k(2.0)), un(NEG, v("y"))][pick(n, 5)].clone();
    let (i, j, l) = (bits("i"), bits("j"), bits("l"));
    let g = pick("inner", 5);
    let e = if side == 0 { bin(f, bin(g, i, j), l) } else { bin(f, l, bin(g, i, j)) };
    both(e)
}
fn n_add_l() {
    nest(0, 0)
}
fn n_add_r() {
    nest(0, 1)
}
fn n_sub_l() {
    nest(1, 0)
}
fn n_sub_r() {
    nest(1, 1)
}
fn n_mul_l() {
    nest(2, 0)
}
fn n_mul_r() {
    nest(2, 1)
}
fn n_div_l() {
    nest(3, 0)
}
fn n_div_r() {
    nest(3, 1)
}
fn n_pow_l() {
    nest(4, 0)
}
fn n_pow_r() {
    nest(4, 1)
}
/// a function of a function of an operation
fn towers() {
    let c = sym_in("c", -3.0, 3.0);
    let (o, p, f) = (pick("outer", 6), pick("middle", 6), pick("op", 5));
    let (l, r) = [(v("x"), v("x")), (v("x"), v("y")), (v("x"), k(c)), (k(c), v("x")), (v("y"), k(2.0)), (k(c), un(LN, v("x"))), (un(LN, v("x")), v("y"))][pick("operands", 7)].clone();
    both(un(o, un(p, bin(f, l, r))))
}
/// a binary operation of two functions
fn arches() {
    let c = sym_in("c", -3.0, 3.0);
    let (f, o, p) = (pick("op", 5), pick("left", 6), pick("right", 6));
    let bits = |n: &str| [k(c), v("x"), v("y")][pick(n, 3)].clone();
    both(bin(f, un(o, bits("l")), un(p, bits("r"))))
}
/// a binary operation of two binary operations
fn pair(f: usize) {
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let (g, h) = (pick("left", 5), pick("right", 5));
    let (a, b) = [(v("x"), k(c)), (k(c), v("x")), (v("x"), v("y")), (un(NEG, v("x")), k(c)), (v("x"), k(2.0))][pick("l", 5)].clone();
    let (i, j) = [(v("x"), k(c)), (k(d), v("x")), (v("y"), v("x")), (v("x"), un(NEG, v("y"))), (v("x"), k(3.0))][pick("r", 5)].clone();
    both(bin(f, bin(g, a, b), bin(h, i, j)))
}
fn pair_add() {
    pair(0)
}
fn pair_sub() {
    pair(1)
}
fn pair_mul() {
    pair(2)
}
fn pair_div() {
    pair(3)
}
fn pair_pow() {
    pair(4)
}
/// long sums, differences and products, leaning left, right or balanced, with constants and repetitions in between
fn long() {
    clear_caches();
    let n = [6usize, 15, 40, 120][pick("parts", 4)];
    let (c, x, y) = (sym_in("c", 0.5, 2.0), sym_in("x", 0.5, 2.0), sym_in("y", 0.5, 2.0));
    let (shape, o) = (pick("shape", 3), pick("op", 4));
    let leaf = |i: usize| match i % 7 {
        0 => (v("x"), x),
        1 => (k(2.0), 2.0),
        2 => (mul(k(c), v("y")), c * y),
        3 => (v("x"), x),
        4 => (k(1.0), 1.0),
        5 => (sub(v("y"), k(0.25)), y - 0.25),
        _ => (k(0.0), 0.0),
    };
    let f = |i: usize| [[0, 0, 0, 0], [1, 1, 1, 1], [0, 1, 0, 1], [0, 2, 1, 0]][o][i % 4];
    fn fold(l: &[(Expr, f64)], at: usize, f: &dyn Fn(usize) -> usize, shape: usize) -> (Expr, f64) {
        if l.len() == 1 {
            return l[0].clone();
        }
        let m = [l.len() - 1, 1, l.len() / 2][shape];
        let ((a, p), (b, q)) = (fold(&l[..m], at, f, shape), fold(&l[m..], at + m, f, shape));
        let o = f(at + m);
        (bin(o, a, b), [p + q, p - q, p * q][o])
    }
    let l: Vec<_> = (0..n).map(leaf).collect();
    let (e, want) = fold(&l, 0, &f, shape);
    let env = [("x", x), ("y", y)];
    let once = e.clone().simplify();
    let scale = 1.0 + want.abs();
    let near = |l: &str, e: &Expr| claim_eq(l, meaning(e, &env).unwrap_or(f64::NAN) / scale, want / scale);
    near("simplified", &once);
    near("simplified twice", &once.simplify());
    near("simplified, cached", &e.clone().simplify_cached());
    near("simplified, from the cache", &e.simplify_cached());
}
/// towers of one function, and powers of powers
fn tall() {
    clear_caches();
    let n = 1 + pick("height", 9);
    let x = sym_in("x", 0.5, 0.9);
    let (mut e, mut want) = (v("x"), x);
    let o = pick("what", 7);
    for i in 0..n {
        (e, want) = match o {
            0 => (un(NEG, e), -want),
            1 => (un(SQRT, e), want.sqrt()),
            2 => (un([LN, EXP][(i + 1) % 2], e), if i % 2 == 0 { want.exp() } else { want.ln() }),
            3 => (pow(e, k(if i % 2 == 0 { 2.0 } else { 0.75 })), want.powf(if i % 2 == 0 { 2.0 } else { 0.75 })),
            4 => (un([SIN, COS][i % 2], e), if i % 2 == 0 { want.sin() } else { want.cos() }),
            5 => (sub(k(1.0), e), 1.0 - want),
            _ => (div(k(1.0), e), 1.0 / want),
        };
    }
    let once = e.clone().simplify();
    claim_eq("simplified", meaning(&once, &[("x", x)]).unwrap_or(f64::NAN), want);
    claim_eq("simplified twice", meaning(&once.simplify(), &[("x", x)]).unwrap_or(f64::NAN), want);
    claim_eq("simplified, cached", meaning(&e.simplify_cached(), &[("x", x)]).unwrap_or(f64::NAN), want);
}
// the recorded findings, one exact shape each
fn root_of_square() {
    let x = sym_in("x", -3.0, -0.1);
    let e = un(SQRT, pow(v("x"), k(2.0)));
    claim_eq("sqrt(x^2) at a negative x", meaning(&e.simplify(), &[("x", x)]).unwrap_or(f64::NAN), -x);
}
fn absolute_value() {
    let x = sym_in("x", -3.0, -0.1);
    let e = Expr::variable("x").abs();
    claim_eq("abs before simplification", meaning(&e, &[("x", x)]).unwrap_or(f64::NAN), -x);
    claim_eq("abs at a negative x", meaning(&e.simplify(), &[("x", x)]).unwrap_or(f64::NAN), -x);
}
fn log_of_square() {
    let x = sym_in("x", -3.0, -0.1);
    let e = un(LN, pow(v("x"), k(2.0)));
    claim_eq("ln(x^2) at a negative x", e.simplify().evaluate(&map(&[("x", x)])).unwrap_or(f64::NAN), 2.0 * (-x).ln());
}
fn power_of_square() {
    let x = sym_in("x", -3.0, -0.1);
    let e = pow(pow(v("x"), k(2.0)), k(0.5));
    claim_eq("(x^2)^0.5 at a negative x", meaning(&e.simplify(), &[("x", x)]).unwrap_or(f64::NAN), -x);
}

// ---------------------------------------------------------------- C30
fn small(n: &str, c: f64) -> Expr {
    small_n(pick(n, 4), c)
}
fn small_n(i: usize, c: f64) -> Expr {
    match i {
        0 => add(v("x"), k(c)),
        1 => mul(k(c), v("x")),
        2 => un(NEG, add(v("x"), k(c))),
        _ => un(EXP, mul(k(c), v("x"))),
    }
}
/// two expressions and two points that may or may not coincide; every order of caching
fn evaluations_0() {
    evaluations(0)
}
fn evaluations_1() {
    evaluations(1)
}
fn evaluations_2() {
    evaluations(2)
}
fn evaluations_3() {
    evaluations(3)
}
fn evaluations(p: usize) {
    clear_caches();
    faithful_texts();
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let (x, z) = (sym_in("x", -3.0, 3.0), sym_in("z", -3.0, 3.0));
    let (e, f) = (small_n(p, c), small("f", d));
    let s = |e: &Expr, x: f64| {
        let m = map(&[("x", x)]);
        (e.evaluate_cached(&m).unwrap_or(f64::NAN), meaning(e, &[("x", x)]).unwrap_or(f64::NAN))
    };
    let clear = 3 * pick("clear", 2);
    for (i, (e, x)) in [(&e, x), (&f, z), (&e, z), (&f, x)].into_iter().enumerate() {
        if clear == i + 1 {
            clear_caches()
        }
        let (got, want) = s(e, x);
        claim_eq(&format!("cached evaluation {i}"), got, want);
    }
}
fn several_variables() {
    clear_caches();
    faithful_texts();
    let (x, y) = (sym_in("x", -3.0, 3.0), sym_in("y", -3.0, 3.0));
    let o = pick("op", 4);
    let e = bin(o, v("x"), add(v("y"), k(5.0)));
    let m = |a: f64, b: f64| bin(o, k(a), add(k(b), k(5.0)));
    for (i, (a, b)) in [(x, y), (y, x), (x, x), (x, y)].into_iter().enumerate() {
        let got = e.evaluate_cached(&map(&[("x", a), ("y", b)])).unwrap_or(f64::NAN);
        claim_eq(&format!("cached evaluation {i}"), got, meaning(&m(a, b), &[]).unwrap_or(f64::NAN));
    }
    // the values of other variables do not matter, a missing one does
    let got = e.evaluate_cached(&map(&[("x", x), ("y", y), ("z", x)])).unwrap_or(f64::NAN);
    claim_eq("an unused variable", got, meaning(&m(x, y), &[]).unwrap_or(f64::NAN));
    claim("a missing variable is an error", e.evaluate_cached(&map(&[("x", x)])).is_err());
}
fn simplifications() {
    clear_caches();
    faithful_texts();
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let shapes = |n: &str, c: f64| match pick(n, 6) {
        0 => add(v("x"), k(c)),
        1 => mul(k(c), v("x")),
        2 => add(k(1.0), mul(k(c), k(2.0))),
        3 => sub(add(v("x"), k(c)), v("y")),
        4 => pow(v("x"), mul(k(c), k(1.0))),
        _ => un(LN, un(EXP, mul(v("y"), k(c)))),
    };
    let (e, f) = (shapes("e", c), shapes("f", d));
    let env = [("x", x), ("y", y)];
    let clear = 3 * pick("clear", 2);
    for (i, e) in [&e, &f, &e, &f].into_iter().enumerate() {
        if clear == i + 1 {
            clear_caches()
        }
        let got = meaning(&e.clone().simplify_cached(), &env).unwrap_or(f64::NAN);
        claim_eq(&format!("cached simplification {i}"), got, meaning(e, &env).unwrap_or(f64::NAN));
    }
}
/// expressions that differ in one place do not share an entry
fn keys() {
    clear_caches();
    let (c, x, y) = (sym_in("c", 0.1, 3.0), sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let all: Vec<Expr> = vec![
        add(v("x"), v("y")),
        sub(v("x"), v("y")),
        mul(v("x"), v("y")),
        div(v("x"), v("y")),
        pow(v("x"), v("y")),
        add(v("x"), mul(v("y"), k(c))),
        mul(add(v("x"), v("y")), k(c)),
        sub(v("x"), sub(v("y"), k(c))),
        sub(sub(v("x"), v("y")), k(c)),
        div(v("x"), div(v("y"), k(c))),
        div(div(v("x"), v("y")), k(c)),
        pow(pow(v("x"), v("y")), k(c)),
        pow(v("x"), pow(v("y"), k(c))),
        un(LN, v("x")),
        un(EXP, v("x")),
        un(SQRT, v("x")),
        un(SIN, v("x")),
        un(COS, v("x")),
        un(NEG, v("x")),
        un(NEG, add(v("x"), v("y"))),
        add(un(NEG, v("x")), v("y")),
        pow(un(NEG, v("x")), k(2.0)),
        un(NEG, pow(v("x"), k(2.0))),
        v("x"),
        v("y"),
        v("xy"),
        mul(v("x"), k(2.0)),
        v("x2"),
    ];
    let (i, j) = (pick("first", all.len()), pick("second", all.len()));
    let env = [("x", x), ("y", y), ("xy", c), ("x2", c + 1.0)];
    let m = map(&env);
    for (n, i) in [("first", i), ("second", j), ("first again", i)] {
        let want = meaning(&all[i], &env).unwrap_or(f64::NAN);
        claim_eq(&format!("{n}: cached evaluation"), all[i].evaluate_cached(&m).unwrap_or(f64::NAN), want);
        let s = all[i].clone().simplify_cached();
        claim_eq(&format!("{n}: cached simplification"), meaning(&s, &env).unwrap_or(f64::NAN), want);
    }
}
/// inputs that agree in their leading digits are different inputs
fn close_points() {
    clear_caches();
    faithful_texts();
    let base = [0.75, -2.5, 1e-6, 1048576.0, 1e12][pick("base", 5)];
    let (a, b) = (sym_in("a", 0.0, 1.0), sym_in("b", 0.0, 1.0));
    let gap = base * [1e-4, 1e-7, 1e-10][pick("gap", 3)];
    let e = mul(sub(v("x"), k(base)), k(1.0 / gap));
    for (i, d) in [a, b, a].into_iter().enumerate() {
        let x = base + gap * d;
        let got = e.evaluate_cached(&map(&[("x", x)])).unwrap_or(f64::NAN);
        claim_eq_tol(&format!("evaluation {i}"), got, meaning(&e, &[("x", x)]).unwrap_or(f64::NAN), 1e-4);
    }
}
fn close_constants() {
    clear_caches();
    faithful_texts();
    let base = [0.75, -2.5, 1e-6, 1048576.0, 1e12][pick("base", 5)];
    let (a, b) = (sym_in("a", 0.0, 1.0), sym_in("b", 0.0, 1.0));
    let gap = base * [1e-4, 1e-7, 1e-10][pick("gap", 3)];
    let x = sym_in("x", 0.5, 1.0);
    let env = [("x", x)];
    for (i, d) in [a, b, a].into_iter().enumerate() {
        let e = mul(sub(mul(v("x"), k(base + gap * d)), mul(v("x"), k(base))), k(1.0 / gap));
        let want = meaning(&e, &env).unwrap_or(f64::NAN);
        let got = e.evaluate_cached(&map(&env)).unwrap_or(f64::NAN);
        claim_eq_tol(&format!("evaluation {i}"), got, want, 1e-4);
        let s = e.simplify_cached();
        claim_eq_tol(&format!("simplification {i}"), meaning(&s, &env).unwrap_or(f64::NAN), want, 1e-4);
    }
}
/// many different expressions and points, and the first ones asked again
fn many_expressions() {
    clear_caches();
    let n = [40usize, 130, 300, 1100, 2100][pick("entries", 5)];
    let (c, x) = (sym_in("c", 0.1, 3.0), sym_in("x", 0.1, 3.0));
    let env = [("x", x)];
    let m = map(&env);
    let e = |i: usize| add(mul(v("x"), k(c)), add(k(i as f64), k(1.0)));
    let want = |i: usize| x * c + (i as f64 + 1.0);
    let check = |i: usize, when: &str| {
        claim_eq(&format!("{when}: cached evaluation {i}"), e(i).evaluate_cached(&m).unwrap_or(f64::NAN), want(i));
        let s = e(i).simplify_cached();
        claim_eq(&format!("{when}: cached simplification {i}"), meaning(&s, &env).unwrap_or(f64::NAN), want(i));
    };
    for i in 0..n {
        let (a, s) = (e(i).evaluate_cached(&m), e(i).simplify_cached());
        if i + 3 >= n {
            claim_eq(&format!("a late evaluation {i}"), a.unwrap_or(f64::NAN), want(i));
            claim_eq(&format!("a late simplification {i}"), meaning(&s, &env).unwrap_or(f64::NAN), want(i));
        }
    }
    for i in [0, 1, n / 2, n - 2, n - 1, n, 0] {
        check(i, "again")
    }
    clear_caches();
    for i in [1, n - 1, 0] {
        check(i, "after clearing")
    }
}
fn many_points() {
    clear_caches();
    let n = [40usize, 130, 300, 1100, 2100][pick("entries", 5)];
    let (c, y) = (sym_in("c", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let e = add(mul(v("x"), k(c)), v("y"));
    let at = |i: usize| e.evaluate_cached(&map(&[("x", i as f64), ("y", y)])).unwrap_or(f64::NAN);
    let want = |i: usize| i as f64 * c + y;
    for i in 0..n {
        let a = at(i);
        if i + 3 >= n {
            claim_eq(&format!("a late evaluation {i}"), a, want(i))
        }
    }
    for i in [0, 1, n / 2, n - 2, n - 1, n, 0] {
        claim_eq(&format!("evaluation {i} again"), at(i), want(i))
    }
    clear_caches();
    for i in [1, n - 1, 0] {
        claim_eq(&format!("evaluation {i} after clearing"), at(i), want(i))
    }
}
/// an expression that is a part of another, and long expressions that differ in one place only
fn long_expressions() {
    clear_caches();
    faithful_texts();
    let (c, x, y) = (sym_in("c", 0.1, 3.0), sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let n = [5usize, 20, 60, 150][pick("terms", 4)];
    let env = [("x", x), ("y", y)];
    let m = map(&env);
    let term = |i: usize, other: bool| match (other, i % 2) {
        (true, _) => mul(v("y"), k(c)),
        (false, 0) => mul(v("x"), k(i as f64 + 2.0)),
        (false, _) => add(v("y"), k(c)),
    };
    let e = |at: usize| (0..n).fold(v("x"), |s, i| add(s, term(i, i == at)));
    let want = |at: usize| {
        (0..n).fold(x, |s, i| {
            s + if i == at { y * c } else if i % 2 == 0 { x * (i as f64 + 2.0) } else { y + c }
        })
    };
    for (j, at) in [n, 0, n - 1, n / 2, n, 0].into_iter().enumerate() {
        claim_eq(&format!("evaluation {j}"), e(at).evaluate_cached(&m).unwrap_or(f64::NAN), want(at));
        let s = e(at).simplify_cached();
        claim_eq(&format!("simplification {j}"), meaning(&s, &env).unwrap_or(f64::NAN), want(at));
    }
}
/// the same expression with the values of its variables exchanged, and names that share letters
fn names() {
    clear_caches();
    faithful_texts();
    let (a, b, c) = (sym_in("a", -3.0, 3.0), sym_in("b", -3.0, 3.0), sym_in("c", -3.0, 3.0));
    let sets = [["x", "y", "z"], ["x", "x1", "x11"], ["x_1", "x_", "x"], ["a b", "a", "b"], ["X", "x", "xX"], ["mu", "μ", "m"], ["x, \"y\"", "y", "x"]];
    let ns = sets[pick("names", sets.len())];
    let e = add(mul(v(ns[0]), k(2.0)), add(mul(v(ns[1]), k(3.0)), mul(v(ns[2]), k(5.0))));
    for (i, p) in [[a, b, c], [b, a, c], [c, b, a], [a, b, c]].into_iter().enumerate() {
        let got = e.evaluate_cached(&map(&[(ns[0], p[0]), (ns[1], p[1]), (ns[2], p[2])])).unwrap_or(f64::NAN);
        claim_eq(&format!("cached evaluation {i}"), got, p[0] * 2.0 + (p[1] * 3.0 + p[2] * 5.0));
    }
    for i in 0..3 {
        let f = mul(v(ns[i]), k(7.0));
        let got = f.evaluate_cached(&map(&[(ns[0], a), (ns[1], b), (ns[2], c)])).unwrap_or(f64::NAN);
        claim_eq(&format!("one variable {i}"), got, [a, b, c][i] * 7.0);
        let s = f.simplify_cached();
        claim("variables of the simplification", s.variables() == vec![ns[i].to_string()]);
    }
}
fn errors_are_not_cached() {
    clear_caches();
    let (x, z) = (sym_in("x", -3.0, 3.0), sym_in("z", 0.1, 3.0));
    let e = match pick("e", 3) {
        0 => un(LN, v("x")),
        1 => div(k(1.0), v("x")),
        _ => un(SQRT, v("x")),
    };
    for (i, x) in [x, z, x].into_iter().enumerate() {
        let (g, w) = (e.evaluate_cached(&map(&[("x", x)])), meaning(&e, &[("x", x)]));
        claim(&format!("evaluation {i} has a value exactly if the expression does"), g.is_ok() == w.is_some());
        if let (Ok(g), Some(w)) = (g, w) {
            claim_eq(&format!("evaluation {i}"), g, w)
        }
    }
}
fn statistics() {
    clear_caches();
    let (c, x) = (sym_in("c", 0.1, 3.0), sym_in("x", 0.1, 3.0));
    let e = small("e", c);
    let m = map(&[("x", x)]);
    let n = pick("evaluations", 4);
    for _ in 0..n {
        let _ = e.evaluate_cached(&m);
    }
    let q = pick("simplifications", 4);
    for _ in 0..q {
        let _ = e.clone().simplify_cached();
    }
    let s = get_cache_stats();
    claim("evaluations are counted", s.evaluation_misses == n.min(1) && s.evaluation_hits == n.saturating_sub(1));
    claim("simplifications are counted", s.simplification_misses == q.min(1) && s.simplification_hits == q.saturating_sub(1));
    let r = |h: usize, n: usize| if n == 0 { 0.0 } else { h as f64 / n as f64 };
    claim_eq("hit rate of evaluations", s.evaluation_hit_rate(), r(n.saturating_sub(1), n));
    claim_eq("hit rate of simplifications", s.simplification_hit_rate(), r(q.saturating_sub(1), q));
    clear_caches();
    let s = get_cache_stats();
    claim("clearing resets the counts", s.evaluation_hits + s.evaluation_misses + s.simplification_hits + s.simplification_misses == 0);
}

pub const S: &[Scenario] = &[
    ("C18.add", s_add),
    ("C18.sub", s_sub),
    ("C18.mul", s_mul),
    ("C18.div", s_div),
    ("C18.pow", s_pow),
    ("C18.unary", s_un),
    ("C18.nested_add_left", n_add_l),
    ("C18.nested_add_right", n_add_r),
    ("C18.nested_sub_left", n_sub_l),
    ("C18.nested_sub_right", n_sub_r),
    ("C18.nested_mul_left", n_mul_l),
    ("C18.nested_mul_right", n_mul_r),
    ("C18.nested_div_left", n_div_l),
    ("C18.nested_div_right", n_div_r),
    ("C18.nested_pow_left", n_pow_l),
    ("C18.nested_pow_right", n_pow_r),
    ("C18.towers", towers),
    ("C18.arches", arches),
    ("C18.pair_add", pair_add),
    ("C18.pair_sub", pair_sub),
    ("C18.pair_mul", pair_mul),
    ("C18.pair_div", pair_div),
    ("C18.pair_pow", pair_pow),
    ("C18.long", long),
    ("C18.tall", tall),
    ("C18.root_of_square", root_of_square),
    ("C18.absolute_value", absolute_value),
    ("C18.log_of_square", log_of_square),
    ("C18.power_of_square", power_of_square),
    ("C30.evaluations_sum", evaluations_0),
    ("C30.evaluations_product", evaluations_1),
    ("C30.evaluations_negation", evaluations_2),
    ("C30.evaluations_exponential", evaluations_3),
    ("C30.several_variables", several_variables),
    ("C30.simplifications", simplifications),
    ("C30.keys", keys),
    ("C30.close_points", close_points),
    ("C30.close_constants", close_constants),
    ("C30.many_expressions", many_expressions),
    ("C30.many_points", many_points),
    ("C30.long_expressions", long_expressions),
    ("C30.names", names),
    ("C30.errors", errors_are_not_cached),
    ("C30.statistics", statistics),
];
