//! Families of symbolic expressions and what they mean.
use symbolic_math::Expr;
use symrt::*;

pub fn k(c: f64) -> Expr {
    Expr::Const(c)
}
pub fn v(n: &str) -> Expr {
    Expr::Var(n.to_string())
}
fn b(e: Expr) -> Box<Expr> {
    Box::new(e)
}
pub fn add(l: Expr, r: Expr) -> Expr {
    Expr::Add(b(l), b(r))
}
pub fn sub(l: Expr, r: Expr) -> Expr {
    Expr::Sub(b(l), b(r))
}
pub fn mul(l: Expr, r: Expr) -> Expr {
    Expr::Mul(b(l), b(r))
}
pub fn div(l: Expr, r: Expr) -> Expr {
    Expr::Div(b(l), b(r))
}
pub fn pow(l: Expr, r: Expr) -> Expr {
    Expr::Pow(b(l), b(r))
}
pub fn bin(op: usize, l: Expr, r: Expr) -> Expr {
    [add, sub, mul, div, pow][op](l, r)
}
pub fn un(op: usize, e: Expr) -> Expr {
    let f: [fn(Box<Expr>) -> Expr; 6] = [Expr::Ln, Expr::Exp, Expr::Sqrt, Expr::Sin, Expr::Cos, Expr::Neg];
    f[op](b(e))
}
pub const LN: usize = 0;
pub const EXP: usize = 1;
pub const SQRT: usize = 2;
pub const SIN: usize = 3;
pub const COS: usize = 4;
pub const NEG: usize = 5;

/// Sub-expressions that exercise every constructor and every special case of the code: `c`, `d` are constants.
pub const PARTS: usize = 20;
pub fn part(i: usize, c: f64, d: f64) -> Expr {
    let (x, y) = (v("x"), v("y"));
    match i {
        0 => k(0.0),
        1 => k(1.0),
        2 => k(-1.0),
        3 => k(2.0),
        4 => k(c),
        5 => x,
        6 => y,
        7 => add(x, k(c)),
        8 => sub(x, y),
        9 => mul(k(c), x),
        10 => mul(x, k(d)),
        11 => div(x, y),
        12 => pow(x, k(2.0)),
        13 => pow(x, k(3.0)),
        14 => un(LN, x),
        15 => un(EXP, x),
        16 => un(SQRT, y),
        17 => un(SIN, x),
        18 => un(COS, y),
        _ => un(NEG, x),
    }
}
/// Smaller parts for deeper nests.
pub const BITS: usize = 10;
pub fn bit(i: usize, c: f64) -> Expr {
    match i {
        0 => k(0.0),
        1 => k(1.0),
        2 => k(c),
        3 => v("x"),
        4 => v("y"),
        5 => k(2.0),
        6 => k(-1.0),
        7 => un(NEG, v("x")),
        8 => mul(k(c), v("x")),
        _ => pow(v("x"), k(2.0)),
    }
}

/// The meaning of an expression: a value, or none where an operation has none or a variable is missing.
pub fn meaning(e: &Expr, env: &[(&str, f64)]) -> Option<f64> {
    walk(e, env, false)
}
/// The meaning, where every power is a real number for every reason: a positive base or a literal whole exponent.
pub fn value(e: &Expr, env: &[(&str, f64)]) -> Option<f64> {
    walk(e, env, true)
}
fn whole(e: &Expr) -> bool {
    matches!(e, Expr::Const(q) if [0.0f64, 1.0, 2.0, 3.0, 4.0, -1.0, -2.0].iter().any(|w| w.to_bits() == q.to_bits()))
}
fn walk(e: &Expr, env: &[(&str, f64)], strict: bool) -> Option<f64> {
    let m = |e: &Expr| walk(e, env, strict);
    Some(match e {
        Expr::Const(c) => *c,
        Expr::Var(n) => env.iter().find(|p| p.0 == n)?.1,
        Expr::Add(a, b) => m(a)? + m(b)?,
        Expr::Sub(a, b) => m(a)? - m(b)?,
        Expr::Mul(a, b) => m(a)? * m(b)?,
        Expr::Div(a, b) => {
            let (p, q) = (m(a)?, m(b)?);
            if q == 0.0 {
                return None;
            }
            p / q
        }
        Expr::Pow(a, b) => {
            let (p, q) = (m(a)?, m(b)?);
            // an infinity whose sign would depend on the sign of a zero
            assume(!(q < 0.0 && p == 0.0));
            if strict && !whole(b) && p <= 1e-9 {
                return None;
            }
            p.powf(q)
        }
        Expr::Ln(a) => {
            let p = m(a)?;
            if p <= 0.0 {
                return None;
            }
            p.ln()
        }
        Expr::Exp(a) => {
            let p = m(a)?;
            if strict && !(-600.0..=600.0).contains(&p) {
                return None;
            }
            p.exp()
        }
        Expr::Sqrt(a) => {
            let p = m(a)?;
            if p < 0.0 {
                return None;
            }
            p.sqrt()
        }
        Expr::Sin(a) => m(a)?.sin(),
        Expr::Cos(a) => m(a)?.cos(),
        Expr::Neg(a) => -m(a)?,
    })
}
/// a product with a literal zero, whose other factor need not be looked at
pub fn zero_product(e: &Expr) -> bool {
    match e {
        Expr::Mul(a, b) => matches!(**a, Expr::Const(c) if c == 0.0) || matches!(**b, Expr::Const(c) if c == 0.0) || zero_product(a) || zero_product(b),
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => zero_product(a) || zero_product(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => zero_product(a),
        _ => false,
    }
}
pub fn names(e: &Expr, out: &mut Vec<String>) {
    match e {
        Expr::Var(n) => out.push(n.clone()),
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => {
            names(a, out);
            names(b, out)
        }
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => names(a, out),
        Expr::Const(_) => {}
    }
}
pub fn operations(e: &Expr) -> usize {
    match e {
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => 1 + operations(a) + operations(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => 1 + operations(a),
        _ => 0,
    }
}
pub fn map(env: &[(&str, f64)]) -> std::collections::HashMap<String, f64> {
    env.iter().map(|p| (p.0.to_string(), p.1)).collect()
}
/// any expression of one binary operation over the parts
pub fn two(op: usize) -> Expr {
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let (i, j) = (pick("left", PARTS), pick("right", PARTS));
    bin(op, part(i, c, d), part(j, c, d))
}
/// Arguments on which the rules for functions fire.
pub const ARGS: usize = PARTS + 20;
pub fn arg(i: usize, c: f64, d: f64) -> Expr {
    let (x, y) = (v("x"), v("y"));
    if i < PARTS {
        return part(i, c, d);
    }
    match i - PARTS {
        0 => mul(k(c), un(LN, x)),
        1 => mul(un(LN, x), k(c)),
        2 => mul(x, un(LN, y)),
        3 => mul(un(LN, x), un(LN, y)),
        4 => pow(x, k(c)),
        5 => pow(x, y),
        6 => pow(add(x, y), k(2.0)),
        7 => mul(x.clone(), x),
        8 => add(x.clone(), x),
        9 => sub(x.clone(), x),
        10 => un(EXP, un(LN, x)),
        11 => un(LN, un(EXP, x)),
        12 => un(NEG, un(NEG, x)),
        13 => pow(pow(x, k(c)), k(d)),
        14 => un(LN, pow(x, k(2.0))),
        15 => un(SQRT, pow(x, k(2.0))),
        16 => mul(k(c), k(d)),
        17 => div(k(c), k(d)),
        18 => pow(k(2.0), k(c)),
        _ => un(EXP, mul(k(c), un(LN, x))),
    }
}
pub fn one() -> Expr {
    let (c, d) = (sym_in("c", -3.0, 3.0), sym_in("d", -3.0, 3.0));
    let (o, i) = (pick("op", 6), pick("arg", ARGS));
    un(o, arg(i, c, d))
}
