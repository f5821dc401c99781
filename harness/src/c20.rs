//! C20 printed forms, C21 interpreters of the symbolic layer.
use crate::exprs::*;
use symbolic_math::final_tagless::{DirectEval, JITEval, JITRepr, MathExpr, PrettyPrint, StatisticalExpr};
use symbolic_math::{display, Expr};
use symrt::*;

// ---------------------------------------------------------------- reading text

#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Plain,
    Python,
    Latex,
}
struct Reader<'a> {
    s: &'a str,
    style: Style,
}
/// Reads a formula with ordinary precedence: powers (right to left), then signs, then products, then sums.
pub fn read(s: &str, style: Style) -> Option<Expr> {
    let mut r = Reader { s, style };
    let e = r.sum()?;
    r.skip();
    r.s.is_empty().then_some(e)
}
impl Reader<'_> {
    fn skip(&mut self) {
        self.s = self.s.trim_start();
    }
    fn eat(&mut self, t: &str) -> bool {
        self.skip();
        if self.s.starts_with(t) {
            self.s = &self.s[t.len()..];
            return true;
        }
        false
    }
    fn sum(&mut self) -> Option<Expr> {
        let mut l = self.product()?;
        loop {
            if self.eat("+") {
                l = add(l, self.product()?);
            } else if self.eat("-") {
                l = sub(l, self.product()?);
            } else {
                return Some(l);
            }
        }
    }
    fn product(&mut self) -> Option<Expr> {
        let mut l = self.signed()?;
        loop {
            self.skip();
            if self.style == Style::Latex {
                if self.eat("\\cdot") {
                    l = mul(l, self.signed()?);
                } else if self.s.starts_with(|c: char| c.is_alphabetic()) {
                    // juxtaposition
                    l = mul(l, self.power()?);
                } else {
                    return Some(l);
                }
            } else if !self.s.starts_with("**") && self.eat("*") {
                l = mul(l, self.signed()?);
            } else if self.eat("/") {
                l = div(l, self.signed()?);
            } else {
                return Some(l);
            }
        }
    }
    fn signed(&mut self) -> Option<Expr> {
        if self.eat("-") {
            return Some(un(NEG, self.signed()?));
        }
        self.power()
    }
    fn power(&mut self) -> Option<Expr> {
        let b = self.atom()?;
        let sign = if self.style == Style::Python { "**" } else { "^" };
        if !self.eat(sign) {
            return Some(b);
        }
        if self.style != Style::Latex {
            return Some(pow(b, self.signed()?));
        }
        let e = self.group("{", "}")?;
        // a second exponent is not a formula
        (!self.s.trim_start().starts_with('^')).then(|| pow(b, e))
    }
    fn group(&mut self, open: &str, close: &str) -> Option<Expr> {
        if !self.eat(open) {
            return None;
        }
        let e = self.sum()?;
        self.eat(close).then_some(e)
    }
    fn word(&mut self) -> String {
        let n = self.s.find(|c: char| !(c.is_alphanumeric() || c == '_')).unwrap_or(self.s.len());
        let w = self.s[..n].to_string();
        self.s = &self.s[n..];
        w
    }
    fn atom(&mut self) -> Option<Expr> {
        self.skip();
        let c = self.s.chars().next()?;
        if c == '(' {
            return self.group("(", ")");
        }
        if c == '⟦' {
            let n = self.s.find('⟧')? + '⟧'.len_utf8();
            let t = &self.s[..n];
            self.s = &self.s[n..];
            return Some(k(t.parse().ok()?));
        }
        if c.is_ascii_digit() {
            let n = self.s.find(|c: char| !(c.is_ascii_digit() || c == '.')).unwrap_or(self.s.len());
            let t = &self.s[..n];
            self.s = &self.s[n..];
            return Some(k(t.parse().ok()?));
        }
        let func = |w: &str| match w {
            "ln" => Some(LN),
            "exp" => Some(EXP),
            "sqrt" => Some(SQRT),
            "sin" => Some(SIN),
            "cos" => Some(COS),
            _ => None,
        };
        if self.style == Style::Latex {
            if self.eat("\\") {
                let w = self.word();
                return match w.as_str() {
                    "frac" => {
                        let a = self.group("{", "}")?;
                        Some(div(a, self.group("{", "}")?))
                    }
                    "sqrt" => Some(un(SQRT, self.group("{", "}")?)),
                    _ => {
                        let f = func(&w)?;
                        Some(un(f, self.group("(", ")")?))
                    }
                };
            }
            if c == 'e' && self.s.starts_with("e^") {
                self.s = &self.s[2..];
                let p = un(EXP, self.group("{", "}")?);
                return (!self.s.trim_start().starts_with('^')).then_some(p);
            }
        }
        if !c.is_alphabetic() {
            return None;
        }
        if self.style == Style::Python && self.eat("math.") {
            let w = self.word();
            let f = func(if w == "log" { "ln" } else { &w })?;
            return Some(un(f, self.group("(", ")")?));
        }
        let w = self.word();
        if self.style == Style::Plain && self.s.starts_with('(') {
            let f = func(&w)?;
            return Some(un(f, self.group("(", ")")?));
        }
        Some(v(&w))
    }
}

/// An expression as a program over an interpreter.
pub fn lift<E: MathExpr>(e: &Expr, var: &dyn Fn(&str) -> E::Repr<f64>) -> E::Repr<f64> {
    let l = |e: &Expr| lift::<E>(e, var);
    match e {
        Expr::Const(c) => E::constant(*c),
        Expr::Var(n) => var(n),
        Expr::Add(a, b) => E::add::<f64, f64, f64>(l(a), l(b)),
        Expr::Sub(a, b) => E::sub::<f64, f64, f64>(l(a), l(b)),
        Expr::Mul(a, b) => E::mul::<f64, f64, f64>(l(a), l(b)),
        Expr::Div(a, b) => E::div::<f64, f64, f64>(l(a), l(b)),
        Expr::Pow(a, b) => E::pow::<f64>(l(a), l(b)),
        Expr::Ln(a) => E::ln::<f64>(l(a)),
        Expr::Exp(a) => E::exp::<f64>(l(a)),
        Expr::Sqrt(a) => E::sqrt::<f64>(l(a)),
        Expr::Sin(a) => E::sin::<f64>(l(a)),
        Expr::Cos(a) => E::cos::<f64>(l(a)),
        Expr::Neg(a) => E::neg::<f64>(l(a)),
    }
}

// ---------------------------------------------------------------- C20
fn denotes(label: &str, text: &str, style: Style, env: &[(&str, f64)], want: f64) {
    match read(text, style) {
        Some(r) => claim_eq(label, meaning(&r, env).unwrap_or(f64::NAN), want),
        None => claim(&format!("{label}: a formula"), false),
    }
}
fn printed(e: &Expr) {
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let Some(want) = value(e, &env) else { return };
    denotes("display", &e.to_string(), Style::Plain, &env, want);
    denotes("python", &e.to_python(), Style::Python, &env, want);
    denotes("pretty printer", &lift::<PrettyPrint>(e, &|n| PrettyPrint::var(n)), Style::Plain, &env, want);
}
fn wrapped(e: &Expr) {
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let Some(want) = value(e, &env) else { return };
    denotes("pretty expression", &format!("{}", display::PrettyExpr(e)), Style::Plain, &env, want);
    let t = display::python(e);
    denotes("python function", t.strip_prefix("lambda vars: ").unwrap_or("?"), Style::Python, &env, want);
    let t = display::equation("f", e);
    denotes("equation", t.strip_prefix("f = ").unwrap_or("?"), Style::Plain, &env, want);
    let t = display::latex(e);
    denotes("latex formula", t.strip_prefix("$").and_then(|t| t.strip_suffix("$")).unwrap_or("?"), Style::Latex, &env, want);
}
fn set(e: &Expr) {
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let Some(want) = value(e, &env) else { return };
    denotes("latex", &e.to_latex(), Style::Latex, &env, want);
}
/// constants of every kind the printers distinguish
fn some(n: &str) -> f64 {
    [2.0, -2.0, 0.5, -0.25, 1.0, -1.0, 0.0, 3.0][pick(n, 8)]
}
fn p_two(op: usize) {
    faithful_texts();
    printed(&two(op))
}
fn p_add() {
    p_two(0)
}
fn p_sub() {
    p_two(1)
}
fn p_mul() {
    p_two(2)
}
fn p_div() {
    p_two(3)
}
fn p_pow() {
    p_two(4)
}
fn p_one() {
    faithful_texts();
    printed(&one())
}
fn nested(consts: bool, f: usize, side: usize) -> Expr {
    let c = if consts { [2.0, -2.0, 0.5, -1.0, 1.0][pick("c", 5)] } else { sym_in("c", -3.0, 3.0) };
    let bits = |n: &str| [k(c), v("x"), un(NEG, v("y")), un(LN, v("x"))][pick(n, 4)].clone();
    let (i, j, l) = (bits("i"), bits("j"), bits("l"));
    let g = pick("inner", 6);
    let inner = if g == 5 { un(NEG, bin(pick("innermost", 5), i, j)) } else { bin(g, i, j) };
    if side == 0 { bin(f, inner, l) } else { bin(f, l, inner) }
}
fn p_nested_left() {
    faithful_texts();
    let f = pick("outer", 5);
    printed(&nested(false, f, 0))
}
fn p_nested_right() {
    faithful_texts();
    let f = pick("outer", 5);
    printed(&nested(false, f, 1))
}
fn l_two() {
    let (op, i, j) = (pick("op", 5), pick("left", PARTS), pick("right", PARTS));
    let (c, d) = ([2.0, -2.0, 0.5, -1.0, 1.0][pick("c", 5)], -1.5);
    set(&bin(op, part(i, c, d), part(j, c, d)))
}
fn l_one() {
    let (o, i) = (pick("op", 6), pick("arg", ARGS));
    let c = some("c");
    set(&un(o, arg(i, c, -1.5)))
}
fn l_left(f: usize) {
    set(&nested(true, f, 0))
}
fn l_right(f: usize) {
    set(&nested(true, f, 1))
}
fn l_left_0() {
    l_left(pick("outer", 2))
}
fn l_left_1() {
    l_left(2 + pick("outer", 2))
}
fn l_left_2() {
    l_left(4)
}
fn l_right_0() {
    l_right(pick("outer", 2))
}
fn l_right_1() {
    l_right(2 + pick("outer", 2))
}
fn l_right_2() {
    l_right(4)
}
/// three operations in a row
fn chains() {
    let (f, g, h) = (pick("f", 5), pick("g", 5), pick("h", 5));
    let c = [2.0, -0.5][pick("c", 2)];
    let (p, q, r, s) = (v("x"), k(c), v("y"), un(NEG, v("x")));
    let e = match pick("shape", 5) {
        0 => bin(f, bin(g, bin(h, p, q), r), s),
        1 => bin(f, bin(g, p, bin(h, q, r)), s),
        2 => bin(f, bin(g, p, q), bin(h, r, s)),
        3 => bin(f, p, bin(g, bin(h, q, r), s)),
        _ => bin(f, p, bin(g, q, bin(h, r, s))),
    };
    printed(&e);
    set(&e);
}
/// constants of every size
fn sizes() {
    let c = [1e9, 9999999999.0, 1e10, -1e10, 12345678901.5, 1e21, -1e300, 1e-7, -1e-20, 0.1, 1e15 + 0.5][pick("c", 11)];
    let e = bin(pick("f", 4), k(c), [v("x"), add(v("x"), v("y"))][pick("r", 2)].clone());
    printed(&e);
    set(&e);
}
/// constants whose decimal forms are long, short, huge or tiny
const AWKWARD: [f64; 40] = [
    0.1, 0.2, 0.30000000000000004, 1.0 / 3.0, 2.0 / 3.0, 1e-3, 1e-5, 1e-6, 1e-7, 1.5e-10, 6.62607015e-34, 1e-45, 1e-100, 5e-324, 2.2250738585072014e-308,
    99.99999999999999, 1000000.5, 123456.789012345, 2147483647.0, 2147483648.0, 4294967296.0, 9007199254740991.0, 9007199254740993.0, 4503599627370496.5,
    1e16, 1e17, 9.2233720368547748e18, 9.223372036854776e18, 1.8446744073709552e19, 1e20, 5e30, 6.02214076e23, 1e38, 1e100, 1.7976931348623157e308,
    3.141592653589793, 2.718281828459045, 1.0000000000000002, 0.9999999999999999, 12345.000001,
];
fn awkward() {
    let c = AWKWARD[pick("c", AWKWARD.len())] * [1.0, -1.0][pick("sign", 2)];
    let (x, y) = (sym_in("x", 0.1, 3.0), sym_in("y", 0.1, 3.0));
    let env = [("x", x), ("y", y)];
    let e = [mul(k(c), v("x")), mul(v("x"), k(c)), add(mul(v("x"), v("y")), mul(k(c), v("y"))), div(v("x"), k(c)), k(c)][pick("shape", 5)].clone();
    let want = meaning(&e, &env).unwrap_or(f64::NAN);
    // compared after scaling back, to the last digits
    let same = |l: &str, t: &str, s: Style| match read(t, s) {
        Some(r) => {
            let mut cs = vec![];
            consts(&r, &mut cs);
            claim(&format!("{l}: the constant itself is in the text"), cs.iter().any(|q| (q.abs() / c.abs() - 1.0).abs() < 1e-12));
            let got = meaning(&r, &env).unwrap_or(f64::NAN);
            claim_eq(&format!("{l}: value"), got / c, want / c);
        }
        None => claim(&format!("{l}: a formula"), false),
    };
    if c.abs() > 1e-290 && c.abs() < 1e290 {
        same("display", &e.to_string(), Style::Plain);
        same("python", &e.to_python(), Style::Python);
        same("latex", &e.to_latex(), Style::Latex);
        same("pretty printer", &lift::<PrettyPrint>(&e, &|n| PrettyPrint::var(n)), Style::Plain);
    } else {
        for (l, t, s) in [("display", e.to_string(), Style::Plain), ("python", e.to_python(), Style::Python), ("latex", e.to_latex(), Style::Latex)] {
            let mut cs = vec![];
            if let Some(r) = read(&t, s) {
                consts(&r, &mut cs);
            }
            claim(&format!("{l}: the constant itself is in the text"), cs.iter().any(|q| q.abs() == c.abs()));
        }
    }
}
fn consts(e: &Expr, out: &mut Vec<f64>) {
    match e {
        Expr::Const(c) => out.push(*c),
        Expr::Var(_) => {}
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => {
            consts(a, out);
            consts(b, out)
        }
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => consts(a, out),
    }
}
fn wrappers() {
    let (f, g) = (pick("f", 5), pick("g", 6));
    let c = some("c");
    let bits = |n: &str| [k(c), v("x"), un(NEG, v("y"))][pick(n, 3)].clone();
    wrapped(&bin(f, un(g, bits("l")), bits("r")));
}
/// names as they are
fn words() {
    let (a, b) = (sym_in("a", 0.1, 3.0), sym_in("b", 0.1, 3.0));
    let n = ["mu", "sigma_1", "x2", "theta"][pick("name", 4)];
    let f = pick("f", 5);
    let e = bin(f, v(n), add(v("z"), k(2.0)));
    let env = [(n, a), ("z", b)];
    let want = value(&e, &env).unwrap_or(f64::NAN);
    denotes("display", &e.to_string(), Style::Plain, &env, want);
    denotes("python", &e.to_python(), Style::Python, &env, want);
    denotes("latex", &e.to_latex(), Style::Latex, &env, want);
    denotes("pretty printer", &lift::<PrettyPrint>(&e, &|n| PrettyPrint::var(n)), Style::Plain, &env, want);
}
fn statistical_texts() {
    faithful_texts();
    let (x, c) = (sym_in("x", -30.0, 30.0), sym_in("c", -3.0, 3.0));
    let t = |l: &str, s: String, w: f64| denotes(l, &s, Style::Plain, &[("x", x)], w);
    t("logistic", PrettyPrint::logistic::<f64>(PrettyPrint::var("x")), 1.0 / (1.0 + (-x).exp()));
    t("softplus", PrettyPrint::softplus::<f64>(PrettyPrint::var("x")), (1.0 + x.exp()).ln());
    t("sigmoid", PrettyPrint::sigmoid::<f64>(PrettyPrint::var("x")), 1.0 / (1.0 + (-x).exp()));
    t("logistic of a constant", PrettyPrint::logistic::<f64>(PrettyPrint::constant(c)), 1.0 / (1.0 + (-c).exp()));
}

// ---------------------------------------------------------------- C21
/// the tree the compiling interpreter builds
pub fn tree(e: &JITRepr) -> Expr {
    match e {
        JITRepr::Constant(c) => k(*c),
        JITRepr::Variable(n) => v(n),
        JITRepr::Add(a, b) => add(tree(a), tree(b)),
        JITRepr::Sub(a, b) => sub(tree(a), tree(b)),
        JITRepr::Mul(a, b) => mul(tree(a), tree(b)),
        JITRepr::Div(a, b) => div(tree(a), tree(b)),
        JITRepr::Pow(a, b) => pow(tree(a), tree(b)),
        JITRepr::Neg(a) => un(NEG, tree(a)),
        JITRepr::Ln(a) => un(LN, tree(a)),
        JITRepr::Exp(a) => un(EXP, tree(a)),
        JITRepr::Sqrt(a) => un(SQRT, tree(a)),
        JITRepr::Sin(a) => un(SIN, tree(a)),
        JITRepr::Cos(a) => un(COS, tree(a)),
    }
}
fn constants(e: &Expr) -> usize {
    match e {
        Expr::Const(_) => 1,
        Expr::Var(_) => 0,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => constants(a) + constants(b),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) | Expr::Neg(a) => constants(a),
    }
}
fn cost(e: &Expr) -> usize {
    match e {
        Expr::Const(_) | Expr::Var(_) => 1,
        Expr::Add(a, b) | Expr::Sub(a, b) | Expr::Mul(a, b) | Expr::Div(a, b) | Expr::Pow(a, b) => 1 + cost(a) + cost(b),
        Expr::Neg(a) => 1 + cost(a),
        Expr::Ln(a) | Expr::Exp(a) | Expr::Sqrt(a) | Expr::Sin(a) | Expr::Cos(a) => 3 + cost(a),
    }
}
fn interpreted(e: &Expr) {
    let (x, y) = (sym_in("x", -3.0, 3.0), sym_in("y", -3.0, 3.0));
    let env = [("x", x), ("y", y)];
    let j = lift::<JITEval>(e, &|n| JITEval::var(n));
    let t = tree(&j);
    let mut ns = vec![];
    names(e, &mut ns);
    let mut got: Vec<String> = j.collect_variables().into_iter().collect();
    got.sort();
    ns.sort();
    ns.dedup();
    claim("variables of the compiled program", got == ns);
    claim("constants of the compiled program", j.count_constants() == constants(e));
    claim("cost of the compiled program", j.estimate_complexity() == cost(e));
    let Some(want) = meaning(e, &env) else { return };
    let var = |n: &str| DirectEval::var::<f64>(n, if n == "x" { x } else { y });
    claim_eq("direct evaluation", lift::<DirectEval>(e, &var), want);
    claim_eq("program for the compiler", meaning(&t, &env).unwrap_or(f64::NAN), want);
}
fn i_add() {
    interpreted(&two(0))
}
fn i_sub() {
    interpreted(&two(1))
}
fn i_mul() {
    interpreted(&two(2))
}
fn i_div() {
    interpreted(&two(3))
}
fn i_pow() {
    interpreted(&two(4))
}
fn i_one() {
    interpreted(&one())
}
fn i_nested_left() {
    let f = pick("outer", 5);
    interpreted(&nested(false, f, 0))
}
fn i_nested_right() {
    let f = pick("outer", 5);
    interpreted(&nested(false, f, 1))
}
/// the derived functions, in every interpreter
fn statistical() {
    let (x, y) = (sym_in("x", -300.0, 300.0), sym_in("y", -3.0, 3.0));
    let env = [("x", x), ("y", y)];
    let sg = |t: f64| 1.0 / (1.0 + (-t).exp());
    let sp = |t: f64| (1.0 + t.exp()).ln();
    fn prog<E: StatisticalExpr>(i: usize, x: E::Repr<f64>, y: E::Repr<f64>) -> E::Repr<f64> {
        match i {
            0 => E::logistic::<f64>(x),
            1 => E::softplus::<f64>(x),
            2 => E::sigmoid::<f64>(x),
            3 => E::logistic::<f64>(E::add::<f64, f64, f64>(x, y)),
            4 => E::softplus::<f64>(E::sub::<f64, f64, f64>(x, y)),
            5 => E::mul::<f64, f64, f64>(E::sigmoid::<f64>(x), E::softplus::<f64>(y)),
            _ => E::logistic::<f64>(E::softplus::<f64>(x)),
        }
    }
    let i = pick("program", 7);
    let want = match i {
        0 | 2 => sg(x),
        1 => sp(x),
        3 => sg(x + y),
        4 => sp(x - y),
        5 => sg(x) * sp(y),
        _ => sg(sp(x)),
    };
    claim_eq("direct evaluation", prog::<DirectEval>(i, x, y), want);
    let j = prog::<JITEval>(i, JITEval::var("x"), JITEval::var("y"));
    claim_eq("program for the compiler", meaning(&tree(&j), &env).unwrap_or(f64::NAN), want);
    if let Some(e) = read(&prog::<PrettyPrint>(i, PrettyPrint::var("x"), PrettyPrint::var("y")), Style::Plain) {
        claim_eq("pretty printer", meaning(&e, &env).unwrap_or(f64::NAN), want);
    } else {
        claim("pretty printer: a formula", false);
    }
}
/// variables and constants on their own
fn leaves() {
    let c = sym_in("c", -3.0, 3.0);
    claim_eq("direct constant", <DirectEval as MathExpr>::constant(c), c);
    claim_eq("direct variable", DirectEval::var("x", c), c);
    claim_eq("an unbound direct variable is the default", <DirectEval as MathExpr>::var::<f64>("x"), 0.0);
    claim("whole constants", <DirectEval as MathExpr>::constant(7i64) == 7);
    let j = |e: JITRepr| meaning(&tree(&e), &[("x", c)]).unwrap_or(f64::NAN);
    claim_eq("compiled constant", j(JITEval::constant(c)), c);
    claim_eq("compiled whole constant", j(JITEval::constant(-7i32)), -7.0);
    claim_eq("compiled variable", j(<JITEval as MathExpr>::var::<f64>("x")), c);
    for q in AWKWARD.into_iter().chain(AWKWARD.map(|c| -c)).chain([-0.0, 1e-300, 123456789.12345679]) {
        let r = if let JITRepr::Constant(r) = JITEval::constant(q) { r } else { f64::NAN };
        claim("a constant of the compiled program is exact", r.to_bits() == q.to_bits());
    }
}

pub const S: &[Scenario] = &[
    ("C20.add", p_add),
    ("C20.sub", p_sub),
    ("C20.mul", p_mul),
    ("C20.div", p_div),
    ("C20.pow", p_pow),
    ("C20.unary", p_one),
    ("C20.nested_left", p_nested_left),
    ("C20.nested_right", p_nested_right),
    ("C20.latex", l_two),
    ("C20.latex_unary", l_one),
    ("C20.latex_sum_left", l_left_0),
    ("C20.latex_product_left", l_left_1),
    ("C20.latex_power_left", l_left_2),
    ("C20.latex_power_right", l_right_2),
    ("C20.latex_sum_right", l_right_0),
    ("C20.latex_product_right", l_right_1),
    ("C20.chains", chains),
    ("C20.sizes", sizes),
    ("C20.awkward", awkward),
    ("C20.wrappers", wrappers),
    ("C20.words", words),
    ("C20.statistical", statistical_texts),
    ("C21.add", i_add),
    ("C21.sub", i_sub),
    ("C21.mul", i_mul),
    ("C21.div", i_div),
    ("C21.pow", i_pow),
    ("C21.unary", i_one),
    ("C21.nested_left", i_nested_left),
    ("C21.nested_right", i_nested_right),
    ("C21.statistical", statistical),
    ("C21.leaves", leaves),
];
