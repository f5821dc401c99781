//! Operations on `double`.
use crate::*;

extern "C" {
    fn lgamma(x: f64) -> f64;
    fn tgamma(x: f64) -> f64;
}

fn conc_bin(op: &str, a: f64, b: f64) -> f64 {
    match op {
        "add" => a + b,
        "sub" => a - b,
        "mul" => a * b,
        "div" => a / b,
        "rem" => a % b,
        "pow" => a.powf(b),
        "atan2" => a.atan2(b),
        "hypot" => a.hypot(b),
        "powi" => a.powi(b as i32),
        _ => f64::NAN,
    }
}
fn conc_un(op: &str, a: f64) -> f64 {
    match op {
        "neg" => -a,
        "abs" => a.abs(),
        "sqrt" => a.sqrt(),
        "ln" => a.ln(),
        "exp" => a.exp(),
        "log10" => a.log10(),
        "log2" => a.log2(),
        "exp2" => a.exp2(),
        "ln1p" => a.ln_1p(),
        "expm1" => a.exp_m1(),
        "sin" => a.sin(),
        "cos" => a.cos(),
        "tan" => a.tan(),
        "asin" => a.asin(),
        "acos" => a.acos(),
        "atan" => a.atan(),
        "sinh" => a.sinh(),
        "cosh" => a.cosh(),
        "tanh" => a.tanh(),
        "cbrt" => a.cbrt(),
        "floor" => a.floor(),
        "ceil" => a.ceil(),
        "trunc" => a.trunc(),
        "round" => a.round(),
        "roundeven" => a.round_ties_even(),
        "lgamma" => unsafe { lgamma(a) },
        "tgamma" => unsafe { tgamma(a) },
        _ => f64::NAN,
    }
}

/// exact when the machine result of the operation on plain numbers is the
/// mathematically exact one
fn exact_bin(op: &str, a: f64, b: f64, r: f64) -> bool {
    if !a.is_finite() || !b.is_finite() || !r.is_finite() {
        return true;
    }
    match op {
        "add" => {
            let bb = r - a;
            (a - (r - bb)) + (b - bb) == 0.0
        }
        "sub" => {
            let b = -b;
            let bb = r - a;
            (a - (r - bb)) + (b - bb) == 0.0
        }
        "mul" => a.mul_add(b, -r) == 0.0 && (r != 0.0 || a == 0.0 || b == 0.0),
        "div" => (-r).mul_add(b, a) == 0.0 && (r != 0.0 || a == 0.0),
        "powi" | "pow" => b == 1.0 || b == 0.0 || (b == 2.0 && a.mul_add(a, -r) == 0.0),
        _ => r.fract() == 0.0 && r.abs() < 1e6 && op == "rem",
    }
}

pub fn bin(op: &'static str, a: f64, b: f64) -> f64 {
    with(|rt| {
        if rt.mode == Mode::Native {
            return conc_bin(op, a, b);
        }
        let (ha, hb) = (fh(a), fh(b));
        if ha.is_none() && hb.is_none() {
            let r = conc_bin(op, a, b);
            if exact_bin(op, a, b, r) {
                return r;
            }
        }
        rt.fuel = rt.fuel.saturating_sub(1);
        let (ia, ib) = (rt.fnode(a), rt.fnode(b));
        let (ca, cb) = (rt.nodes[ia as usize].conc, rt.nodes[ib as usize].conc);
        let conc = match (ca, cb) {
            (Some(x), Some(y)) => Some(conc_bin(op, x, y)),
            _ => None,
        };
        if let Some(c) = conc {
            if !c.is_finite() {
                return c;
            }
        }
        mkf(rt.fterm(op, &[ia, ib], conc))
    })
}

pub fn un(op: &'static str, a: f64) -> f64 {
    with(|rt| {
        if rt.mode == Mode::Native {
            return conc_un(op, a);
        }
        let ha = fh(a);
        if ha.is_none() {
            let r = conc_un(op, a);
            let exact = match op {
                "neg" | "abs" | "floor" | "ceil" | "trunc" | "round" | "roundeven" => true,
                "sqrt" => r.is_finite() && r.mul_add(r, -a) == 0.0,
                "ln" | "log2" | "log10" | "acos" => a == 1.0,
                "exp" | "sin" | "cos" | "tan" | "ln1p" | "expm1" | "atan" | "asin" | "sinh"
                | "cosh" | "tanh" | "exp2" => a == 0.0,
                "lgamma" => a == 1.0 || a == 2.0,
                _ => false,
            };
            if exact || !r.is_finite() {
                return r;
            }
        }
        rt.fuel = rt.fuel.saturating_sub(1);
        let ia = rt.fnode(a);
        // a double negation is the identity, bit for bit
        if op == "neg" && rt.nodes[ia as usize].key.op == "neg" {
            return mkf(rt.nodes[ia as usize].key.args[0]);
        }
        if op == "neg" && rt.nodes[ia as usize].key.op == "const" {
            return -f64::from_bits(rt.nodes[ia as usize].key.bits);
        }
        let conc = rt.nodes[ia as usize].conc.map(|x| conc_un(op, x));
        if let Some(c) = conc {
            if !c.is_finite() {
                return c;
            }
        }
        mkf(rt.fterm(op, &[ia], conc))
    })
}

fn clean(rt: &Rt, i: u32) -> bool {
    let n = &rt.nodes[i as usize];
    n.key.op == "sym" || n.key.op == "u2f" || (n.conc.is_some() && !n.conc.unwrap().is_nan())
}

fn bounds(rt: &Rt, i: u32) -> Option<(f64, f64, bool, bool)> {
    let n = &rt.nodes[i as usize];
    if let Some(c) = n.conc {
        return Some((c, c, false, false));
    }
    if n.key.op == "u2f" {
        let (l, h) = rt.irange(n.key.args[0]);
        return Some((l as f64, h as f64, false, false));
    }
    if n.key.op == "sym" {
        return Some(*rt.fbounds.get(&i).unwrap_or(&(
            f64::NEG_INFINITY,
            f64::INFINITY,
            true,
            true,
        )));
    }
    None
}

fn settle(rt: &Rt, pred: &'static str, a: u32, b: u32) -> Option<bool> {
    let (x, y) = (bounds(rt, a)?, bounds(rt, b)?);
    // x in [x.0,x.1], y in [y.0,y.1]
    let x_lt_y = x.1 < y.0 || (x.1 == y.0 && (x.3 || y.2));
    let y_lt_x = y.1 < x.0 || (y.1 == x.0 && (y.3 || x.2));
    let x_le_y = x.1 <= y.0;
    let y_le_x = y.1 <= x.0;
    match pred {
        "lt" => {
            if x_lt_y {
                Some(true)
            } else if y_le_x {
                Some(false)
            } else {
                None
            }
        }
        "le" => {
            if x_le_y {
                Some(true)
            } else if y_lt_x {
                Some(false)
            } else {
                None
            }
        }
        _ => {
            if x_lt_y || y_lt_x {
                Some(false)
            } else if x.0 == x.1 && y.0 == y.1 && x.0 == y.0 {
                Some(true)
            } else {
                None
            }
        }
    }
}

fn learn(rt: &mut Rt, pred: &'static str, a: u32, b: u32, v: bool) {
    // IEEE facts
    if v {
        match pred {
            "lt" => {
                for (p, x, y, r) in [
                    ("le", a, b, true),
                    ("lt", b, a, false),
                    ("le", b, a, false),
                    ("eq", a, b, false),
                    ("eq", b, a, false),
                ] {
                    rt.known.entry((b'f', p, x, y)).or_insert(r);
                }
            }
            "le" => {
                rt.known.entry((b'f', "lt", b, a)).or_insert(false);
            }
            _ => {
                for (p, x, y, r) in [
                    ("le", a, b, true),
                    ("le", b, a, true),
                    ("lt", a, b, false),
                    ("lt", b, a, false),
                    ("eq", b, a, true),
                ] {
                    rt.known.entry((b'f', p, x, y)).or_insert(r);
                }
            }
        }
        // an ordered comparison that succeeded has no NaN operand
        rt.known.entry((b'f', "eq", a, a)).or_insert(true);
        rt.known.entry((b'f', "eq", b, b)).or_insert(true);
    } else {
        match pred {
            "le" => {
                rt.known.entry((b'f', "lt", a, b)).or_insert(false);
                rt.known.entry((b'f', "eq", a, b)).or_insert(false);
                rt.known.entry((b'f', "eq", b, a)).or_insert(false);
            }
            "eq" => {
                rt.known.entry((b'f', "eq", b, a)).or_insert(false);
            }
            _ => {}
        }
        if clean(rt, a) && clean(rt, b) {
            match pred {
                "lt" => {
                    rt.known.entry((b'f', "le", b, a)).or_insert(true);
                }
                "le" => {
                    rt.known.entry((b'f', "lt", b, a)).or_insert(true);
                    rt.known.entry((b'f', "le", b, a)).or_insert(true);
                }
                _ => {}
            }
        }
    }
    // bounds of an input against a constant
    let (ca, cb) = (rt.nodes[a as usize].conc, rt.nodes[b as usize].conc);
    let upd = |rt: &mut Rt, s: u32, lo: Option<(f64, bool)>, hi: Option<(f64, bool)>| {
        if rt.nodes[s as usize].key.op != "sym" {
            return;
        }
        let e = rt
            .fbounds
            .entry(s)
            .or_insert((f64::NEG_INFINITY, f64::INFINITY, true, true));
        if let Some((l, st)) = lo {
            if l > e.0 {
                e.0 = l;
                e.2 = st;
            } else if l == e.0 {
                e.2 |= st;
            }
        }
        if let Some((h, st)) = hi {
            if h < e.1 {
                e.1 = h;
                e.3 = st;
            } else if h == e.1 {
                e.3 |= st;
            }
        }
    };
    if let (None, Some(c)) = (ca, cb) {
        match (pred, v) {
            ("lt", true) => upd(rt, a, None, Some((c, true))),
            ("le", true) => upd(rt, a, None, Some((c, false))),
            ("lt", false) => upd(rt, a, Some((c, false)), None),
            ("le", false) => upd(rt, a, Some((c, true)), None),
            ("eq", true) => upd(rt, a, Some((c, false)), Some((c, false))),
            _ => {}
        }
    } else if let (Some(c), None) = (ca, cb) {
        match (pred, v) {
            ("lt", true) => upd(rt, b, Some((c, true)), None),
            ("le", true) => upd(rt, b, Some((c, false)), None),
            ("lt", false) => upd(rt, b, None, Some((c, false))),
            ("le", false) => upd(rt, b, None, Some((c, true))),
            ("eq", true) => upd(rt, b, Some((c, false)), Some((c, false))),
            _ => {}
        }
    }
}

/// an input excluded from a constant value by disequalities
fn excluded(rt: &Rt, a: u32, b: u32) -> bool {
    rt.known.get(&(b'f', "eq", a, b)) == Some(&false)
}

pub fn base(pred: &'static str, a: f64, b: f64) -> bool {
    let r = with(|rt| -> Result<bool, String> {
        let norm = |x: f64| if x == 0.0 { 0.0 } else { x };
        if fh(a).is_none() && fh(b).is_none() {
            return Ok(match pred {
                "lt" => a < b,
                "le" => a <= b,
                _ => a == b,
            });
        }
        let (ia, ib) = (rt.fnode(norm(a)), rt.fnode(norm(b)));
        let (na, nb) = (rt.nodes[ia as usize].clone(), rt.nodes[ib as usize].clone());
        if let (Some(x), Some(y)) = (na.conc, nb.conc) {
            return Ok(match pred {
                "lt" => x < y,
                "le" => x <= y,
                _ => x == y,
            });
        }
        if na.conc.is_some_and(|x| x.is_nan()) || nb.conc.is_some_and(|x| x.is_nan()) {
            return Ok(false);
        }
        if ia == ib {
            if pred == "lt" {
                return Ok(false);
            }
            if clean(rt, ia) {
                return Ok(true);
            }
            // t <= t and t == t: true unless t is NaN
            let t = rt.decide(b'f', "eq", ia, ia)?;
            return Ok(t);
        }
        if let Some(&v) = rt.known.get(&(b'f', pred, ia, ib)) {
            return Ok(v);
        }
        if let Some(v) = settle(rt, pred, ia, ib) {
            return Ok(v);
        }
        if pred == "le" && excluded(rt, ia, ib) && clean(rt, ia) && clean(rt, ib) {
            // a != b: a <= b is a < b
            if let Some(&v) = rt.known.get(&(b'f', "lt", ia, ib)) {
                return Ok(v);
            }
        }
        let v = rt.decide(b'f', pred, ia, ib)?;
        learn(rt, pred, ia, ib, v);
        if rt.fuel == 0 {
            return Err("operation budget".into());
        }
        Ok(v)
    });
    match r {
        Ok(v) => v,
        Err(e) => abort(&e),
    }
}

fn isnan(x: f64) -> bool {
    if fh(x).is_none() {
        x.is_nan()
    } else {
        !base("eq", x, x)
    }
}

pub fn fcmp(pred: u32, a: f64, b: f64) -> bool {
    // numbering fixed by instrument.py
    match pred {
        0 => base("eq", a, b),
        1 => base("lt", b, a),
        2 => base("le", b, a),
        3 => base("lt", a, b),
        4 => base("le", a, b),
        5 => base("lt", a, b) || base("lt", b, a),
        6 => !(isnan(a) || isnan(b)),
        7 => !(base("lt", a, b) || base("lt", b, a)),
        8 => !base("le", a, b),
        9 => !base("lt", a, b),
        10 => !base("le", b, a),
        11 => !base("lt", b, a),
        12 => !base("eq", a, b),
        13 => isnan(a) || isnan(b),
        _ => unreachable!(),
    }
}

macro_rules! bins { ($($f:ident $op:literal)*) => { $(
    #[no_mangle] pub extern "C-unwind" fn $f(a: f64, b: f64) -> f64 { bin($op, a, b) } )* } }
macro_rules! uns { ($($f:ident $op:literal)*) => { $(
    #[no_mangle] pub extern "C-unwind" fn $f(a: f64) -> f64 { un($op, a) } )* } }
bins! { __sym_fadd "add" __sym_fsub "sub" __sym_fmul "mul" __sym_fdiv "div" __sym_frem "rem"
        __sym_pow "pow" __sym_atan2 "atan2" __sym_hypot "hypot" }
uns! { __sym_fneg "neg" __sym_fabs "abs" __sym_sqrt "sqrt" __sym_log "ln" __sym_exp "exp"
       __sym_log10 "log10" __sym_log2 "log2" __sym_exp2 "exp2" __sym_log1p "ln1p" __sym_expm1 "expm1"
       __sym_sin "sin" __sym_cos "cos" __sym_tan "tan" __sym_asin "asin" __sym_acos "acos"
       __sym_atan "atan" __sym_sinh "sinh" __sym_cosh "cosh" __sym_tanh "tanh" __sym_cbrt "cbrt"
       __sym_floor "floor" __sym_ceil "ceil" __sym_trunc "trunc" __sym_round "round"
       __sym_roundeven "roundeven" __sym_rint "roundeven" __sym_lgamma "lgamma" __sym_tgamma "tgamma" }

#[no_mangle]
pub extern "C-unwind" fn __sym_fcmp(pred: u32, a: f64, b: f64) -> bool {
    fcmp(pred, a, b)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_powi(a: f64, n: i32) -> f64 {
    if fh(a).is_none() {
        return a.powi(n);
    }
    bin("powi", a, n as f64)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_fma(a: f64, b: f64, c: f64) -> f64 {
    if fh(a).is_none() && fh(b).is_none() && fh(c).is_none() {
        return a.mul_add(b, c);
    }
    bin("add", bin("mul", a, b), c)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_maxnum(a: f64, b: f64) -> f64 {
    if fh(a).is_none() && fh(b).is_none() {
        return a.max(b);
    }
    if isnan(a) {
        return b;
    }
    if base("lt", a, b) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_minnum(a: f64, b: f64) -> f64 {
    if fh(a).is_none() && fh(b).is_none() {
        return a.min(b);
    }
    if isnan(a) {
        return b;
    }
    if base("lt", b, a) {
        b
    } else {
        a
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_copysign(a: f64, b: f64) -> f64 {
    if fh(a).is_none() && fh(b).is_none() {
        return a.copysign(b);
    }
    let m = un("abs", a);
    // the sign of a zero is not tracked
    let neg = if fh(b).is_none() { b.is_sign_negative() } else { base("lt", b, 0.0) };
    if neg {
        un("neg", m)
    } else {
        m
    }
}
/// bits of a double: those of its value when it has one, else the handle's
#[no_mangle]
pub extern "C-unwind" fn __sym_bits(a: f64) -> u64 {
    with(|rt| match fh(a) {
        None => a.to_bits(),
        Some(i) => match rt.nodes[i as usize].conc {
            Some(c) => c.to_bits(),
            None => {
                rt.events.push("to_bits of a symbolic number".into());
                a.to_bits()
            }
        },
    })
}
#[no_mangle]
pub extern "C-unwind" fn __sym_fptrunc(a: f64) -> f32 {
    match fh(a) {
        None => a as f32,
        Some(i) => {
            let c = with(|rt| rt.nodes[i as usize].conc);
            match c {
                Some(c) => c as f32,
                None => abort("narrowing of a symbolic number to f32"),
            }
        }
    }
}
pub fn conc_or_abort(a: f64, what: &str) -> f64 {
    match fh(a) {
        None => a,
        Some(i) => match with(|rt| rt.nodes[i as usize].conc) {
            Some(c) => c,
            None => abort(what),
        },
    }
}
/// float -> u64: a plain number converts; a term becomes the integer term of its floor (0 below 1)
#[no_mangle]
pub extern "C-unwind" fn __sym_f2u64(a: f64) -> u64 {
    let Some(i) = fh(a) else { return a as u64 };
    let n = with(|rt| rt.nodes[i as usize].clone());
    if let Some(c) = n.conc {
        return c as u64;
    }
    if n.key.op == "u2f" {
        return mki(n.key.args[0]);
    }
    // 3: less than, 4: at most
    if fcmp(3, a, 1.0) {
        return 0;
    }
    if !fcmp(3, a, 4e18) {
        abort("conversion of a number above 4e18 to an integer")
    }
    let whole = matches!(n.key.op, "floor" | "ceil" | "trunc" | "round" | "roundeven");
    let w = if whole { a } else { un("floor", a) };
    match fh(w) {
        None => w as u64,
        Some(j) => with(|rt| mki(rt.iterm("f2u", &[j], 1, 4_000_000_000_000_000_000))),
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_f2i64(a: f64) -> u64 {
    match fh(a) {
        None => (a as i64) as u64,
        Some(_) => {
            if fcmp(4, a, -1.0) {
                abort("conversion of a negative symbolic number to an integer")
            }
            __sym_f2u64(a)
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_f2i32(a: f64) -> u32 {
    (conc_or_abort(a, "conversion of a symbolic number to a 32-bit integer") as i32) as u32
}
#[no_mangle]
pub extern "C-unwind" fn __sym_f2u32(a: f64) -> u32 {
    conc_or_abort(a, "conversion of a symbolic number to a 32-bit integer") as u32
}
#[no_mangle]
pub extern "C-unwind" fn __sym_conc(a: f64) -> f64 {
    conc_or_abort(a, "a symbolic number reached code that is not encoded")
}

// Rust-ABI replacements of std/libm functions

#[no_mangle]
pub fn __sym_libm_lgamma_r(x: f64) -> (f64, i32) {
    match fh(x) {
        None => {
            let v = unsafe { lgamma(x) };
            let s = if x < 0.0 && (x.floor() as i64) % 2 != 0 { -1 } else { 1 };
            if v == 0.0 || !v.is_finite() || with(|rt| rt.mode == Mode::Native) {
                return (v, s);
            }
            (un("lgamma", x), s)
        }
        // the sign is that of Gamma; only positive arguments are given a sign
        Some(_) => (un("lgamma", x), 1),
    }
}
/// The text of a symbolic number.  With a precision, it denotes the rounded value.  In faithful mode the
/// sign is explicit and numbers that are equal on this path have the same text.
fn print(i: u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    let mut x = mkf(i);
    if let Some(p) = f.precision() {
        let s = 10f64.powi(p as i32);
        x = bin("div", un("roundeven", bin("mul", x, s)), s);
    }
    if with(|rt| rt.faithful) {
        if base("lt", x, 0.0) {
            f.write_str("-")?;
            x = un("neg", x);
        }
        let n = with(|rt| rt.printed.len());
        for k in 0..n {
            let q = mkf(with(|rt| rt.printed[k]));
            if base("eq", q, x) {
                x = q;
                break;
            }
        }
        with(|rt| {
            let j = rt.fnode(x);
            if !rt.printed.contains(&j) {
                rt.printed.push(j)
            }
        });
    }
    match fh(x) {
        None => fmt::Display::fmt(&x, f),
        Some(i) => fmt::Display::fmt(&HandleText(i), f),
    }
}
#[no_mangle]
pub fn __sym_f64_fmt(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match fh(*x) {
        None => fmt::Display::fmt(x, f),
        Some(i) => match with(|rt| rt.nodes[i as usize].conc) {
            Some(c) => fmt::Display::fmt(&c, f),
            None => print(i, f),
        },
    }
}
#[no_mangle]
pub fn __sym_f64_dbg(x: &f64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match fh(*x) {
        None => fmt::Debug::fmt(x, f),
        Some(i) => match with(|rt| rt.nodes[i as usize].conc) {
            Some(c) => fmt::Debug::fmt(&c, f),
            None => print(i, f),
        },
    }
}
pub fn parse_handle(s: &str) -> Option<f64> {
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let t = t.strip_prefix('\u{27e6}')?.strip_suffix('\u{27e7}')?;
    let i: u32 = t.parse().ok()?;
    let x = mkf(i);
    Some(if neg { un("neg", x) } else { x })
}
#[no_mangle]
pub fn __sym_f64_from_str(s: &str) -> Result<f64, std::num::ParseFloatError> {
    match parse_handle(s) {
        Some(x) => Ok(x),
        None => s.parse::<f64>(),
    }
}
