//! Compiled code: the intermediate code Cranelift is given is captured and executed on symbolic values.
//!
//! `instrument.py` redirects calls of the form `fn(f64, ..) -> f64` through a pointer to `__sym_icallN`;
//! a pointer that came from the JIT runs the captured code here, any other one is called.
//! Elementary functions expand to long instruction sequences: the code of `ln(x)`, `exp(x)`, .. compiled on
//! its own is kept as a template, and an instance of it in a larger function is read as that function
//! (that the template computes it is decided separately, plug_clif.py).
use crate::fops::*;
use crate::*;
use std::rc::Rc;
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Arg {
    Val(usize),
    F(u64),
    I(i64),
    Word(String),
}
#[derive(Clone, Debug)]
pub struct Ins {
    pub op: String,
    pub args: Vec<Arg>,
}
#[derive(Debug)]
pub struct Func {
    pub params: usize,
    /// value number -> defining instruction (parameters: none)
    pub defs: HashMap<usize, Ins>,
    pub ret: usize,
    pub text: String,
}

static PENDING: Mutex<Vec<String>> = Mutex::new(vec![]);
struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
struct State {
    funcs: HashMap<usize, Rc<Func>>,
    templates: Vec<(&'static str, Rc<Func>)>,
    last: Option<Rc<Func>>,
    raw: bool,
}
static ST: Shared<Option<State>> = Shared(UnsafeCell::new(None));
fn st() -> &'static mut State {
    let s = unsafe { &mut *ST.0.get() };
    s.get_or_insert_with(|| State { funcs: HashMap::new(), templates: vec![], last: None, raw: false })
}

struct Capture;
impl log::Log for Capture {
    fn enabled(&self, m: &log::Metadata) -> bool {
        m.target().starts_with("cranelift_jit")
    }
    fn log(&self, r: &log::Record) {
        if !self.enabled(r.metadata()) {
            return;
        }
        let t = r.args().to_string();
        if t.starts_with("defining function") && t.contains('{') {
            PENDING.lock().unwrap().push(t);
        }
    }
    fn flush(&self) {}
}
static CAPTURE: Capture = Capture;
pub fn install() {
    let _ = log::set_logger(&CAPTURE);
    log::set_max_level(log::LevelFilter::Info);
}

fn float(t: &str) -> Option<u64> {
    let (neg, u) = match t.strip_prefix('-') {
        Some(u) => (1u64 << 63, u),
        None => (0, t.strip_prefix('+').unwrap_or(t)),
    };
    let hex = |s: &str| u64::from_str_radix(s, 16).ok();
    let b = if u == "Inf" {
        0x7FF0 << 48
    } else if u == "NaN" {
        0x7FF8 << 48
    } else if let Some(p) = u.strip_prefix("NaN:0x") {
        (0x7FF8 << 48) | hex(p)?
    } else if let Some(p) = u.strip_prefix("sNaN:0x") {
        (0x7FF0 << 48) | hex(p)?
    } else if u == "0.0" {
        0
    } else if let Some(p) = u.strip_prefix("0x1.") {
        let (m, e) = p.split_once('p')?;
        (((e.parse::<i64>().ok()? + 1023) as u64) << 52) | hex(m)?
    } else if let Some(p) = u.strip_prefix("0x0.") {
        hex(p.split_once('p')?.0)?
    } else {
        return None;
    };
    Some(b | neg)
}
fn integer(t: &str) -> Option<i64> {
    let (neg, u) = match t.strip_prefix('-') {
        Some(u) => (true, u),
        None => (false, t),
    };
    let u = u.replace('_', "");
    let v = match u.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).ok()? as i64,
        None => u.parse::<i64>().ok()?,
    };
    Some(if neg { v.wrapping_neg() } else { v })
}
fn value(t: &str) -> Option<usize> {
    t.strip_prefix('v').and_then(|n| n.parse().ok())
}

pub fn parse(text: &str) -> Result<Func, String> {
    let mut f = Func { params: 0, defs: HashMap::new(), ret: usize::MAX, text: text.to_string() };
    let mut alias: HashMap<usize, usize> = HashMap::new();
    let mut params = vec![];
    let mut blocks = 0;
    for line in text.lines().skip(1) {
        let l = line.split(';').next().unwrap().trim();
        if l.is_empty() || l == "}" {
            continue;
        }
        if let Some(b) = l.strip_prefix("block") {
            blocks += 1;
            if let (Some(i), Some(j)) = (b.find('('), b.rfind(')')) {
                for p in b[i + 1..j].split(',') {
                    let n = p.trim().split(':').next().unwrap_or("");
                    let ty = p.trim().rsplit(' ').next().unwrap_or("");
                    if ty != "f64" {
                        return Err(format!("parameter of type {ty}"));
                    }
                    params.push(value(n.trim()).ok_or("block parameter")?);
                }
            }
            continue;
        }
        if let Some((a, b)) = l.split_once(" -> ") {
            if let (Some(a), Some(b)) = (value(a.trim()), value(b.trim())) {
                alias.insert(a, b);
                continue;
            }
        }
        if let Some(r) = l.strip_prefix("return ") {
            f.ret = value(r.trim()).ok_or("return")?;
            continue;
        }
        let Some((d, rest)) = l.split_once(" = ") else { return Err(format!("instruction {l}")) };
        let d = value(d.trim()).ok_or_else(|| format!("result {d}"))?;
        let mut w = rest.split_whitespace();
        let op = w.next().unwrap_or("").to_string();
        let base = op.split('.').next().unwrap().to_string();
        let rest: Vec<&str> = rest[op.len()..].split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).collect();
        let mut args = vec![];
        for t in rest {
            args.push(if let Some(v) = value(t) {
                Arg::Val(v)
            } else if base == "f64const" {
                Arg::F(float(t).ok_or_else(|| format!("constant {t}"))?)
            } else if let Some(i) = integer(t) {
                Arg::I(i)
            } else {
                Arg::Word(t.to_string())
            });
        }
        // the result type of a conversion
        f.defs.insert(d, Ins { op, args });
    }
    if blocks != 1 {
        return Err("control flow in compiled code".into());
    }
    let find = |mut v: usize| {
        while let Some(&w) = alias.get(&v) {
            v = w
        }
        v
    };
    for i in f.defs.values_mut() {
        for a in i.args.iter_mut() {
            if let Arg::Val(v) = a {
                *v = find(*v)
            }
        }
    }
    f.ret = find(f.ret);
    f.params = params.len();
    for (i, p) in params.iter().enumerate() {
        if *p != i {
            return Err("parameter numbering".into());
        }
    }
    Ok(f)
}

/// does value `v` of `f` instantiate the template's value `t`; what its parameter then is
fn matches(tp: &Func, t: usize, f: &Func, v: usize, hole: &mut Option<usize>, seen: &mut HashMap<usize, usize>) -> bool {
    if let Some(&w) = seen.get(&t) {
        return w == v || same(f, w, v);
    }
    if t < tp.params {
        match *hole {
            None => {
                *hole = Some(v);
                seen.insert(t, v);
                return true;
            }
            Some(h) => return h == v || same(f, h, v),
        }
    }
    let (Some(a), Some(b)) = (tp.defs.get(&t), f.defs.get(&v)) else { return false };
    if a.op != b.op || a.args.len() != b.args.len() {
        return false;
    }
    for (x, y) in a.args.iter().zip(&b.args) {
        let ok = match (x, y) {
            (Arg::Val(x), Arg::Val(y)) => matches(tp, *x, f, *y, hole, seen),
            (x, y) => x == y,
        };
        if !ok {
            return false;
        }
    }
    seen.insert(t, v);
    true
}
/// the same value, computed twice
fn same(f: &Func, a: usize, b: usize) -> bool {
    if a == b {
        return true;
    }
    match (f.defs.get(&a), f.defs.get(&b)) {
        (Some(x), Some(y)) => {
            x.op == y.op
                && x.args.len() == y.args.len()
                && x.args.iter().zip(&y.args).all(|(p, q)| match (p, q) {
                    (Arg::Val(p), Arg::Val(q)) => same(f, *p, *q),
                    (p, q) => p == q,
                })
        }
        _ => false,
    }
}

#[derive(Clone, Copy)]
enum V {
    F(f64),
    B(bool),
    I(i64),
}
fn eval(f: &Func, v: usize, args: &[f64], memo: &mut HashMap<usize, V>) -> V {
    if let Some(&r) = memo.get(&v) {
        return r;
    }
    if v < f.params {
        return V::F(args[v]);
    }
    let Some(ins) = f.defs.get(&v) else { abort("compiled code: undefined value") };
    if !st().raw {
        for (name, tp) in st().templates.iter() {
            let mut hole = None;
            if matches(tp, tp.ret, f, v, &mut hole, &mut HashMap::new()) {
                let x = match hole {
                    Some(h) => match eval(f, h, args, memo) {
                        V::F(x) => x,
                        _ => abort("compiled code: argument of an elementary function"),
                    },
                    None => continue,
                };
                let r = V::F(match *name {
                    "ln" => __sym_log(x),
                    "exp" => __sym_exp(x),
                    "sin" => __sym_sin(x),
                    "cos" => __sym_cos(x),
                    _ => abort("compiled code: template"),
                });
                memo.insert(v, r);
                return r;
            }
        }
    }
    let mut g = |i: usize| match ins.args.get(i) {
        Some(Arg::Val(w)) => eval(f, *w, args, memo),
        _ => abort("compiled code: operand"),
    };
    macro_rules! fl {
        ($i:expr) => {
            match g($i) {
                V::F(x) => x,
                _ => abort("compiled code: a number was expected"),
            }
        };
    }
    let r = match ins.op.as_str() {
        "f64const" => match ins.args[0] {
            Arg::F(b) => V::F(f64::from_bits(b)),
            _ => abort("compiled code: constant"),
        },
        "iconst.i64" | "iconst.i32" | "iconst.i8" => match ins.args[0] {
            Arg::I(b) => V::I(b),
            _ => abort("compiled code: constant"),
        },
        "fadd" => V::F(__sym_fadd(fl!(0), fl!(1))),
        "fsub" => V::F(__sym_fsub(fl!(0), fl!(1))),
        "fmul" => V::F(__sym_fmul(fl!(0), fl!(1))),
        "fdiv" => V::F(__sym_fdiv(fl!(0), fl!(1))),
        "fma" => V::F(__sym_fadd(__sym_fmul(fl!(0), fl!(1)), fl!(2))),
        "fneg" => V::F(__sym_fneg(fl!(0))),
        "fabs" => V::F(__sym_fabs(fl!(0))),
        "sqrt" => V::F(__sym_sqrt(fl!(0))),
        "floor" => V::F(__sym_floor(fl!(0))),
        "ceil" => V::F(__sym_ceil(fl!(0))),
        "trunc" => V::F(__sym_trunc(fl!(0))),
        "nearest" => V::F(__sym_roundeven(fl!(0))),
        "fmax" | "fmin" => {
            let (a, b) = (fl!(0), fl!(1));
            if __sym_fcmp(6, a, b) {
                // unordered never holds for two numbers
                V::F(if ins.op == "fmax" { __sym_maxnum(a, b) } else { __sym_minnum(a, b) })
            } else {
                V::F(f64::NAN)
            }
        }
        "fcmp" => {
            let p = match &ins.args[0] {
                Arg::Word(w) => w.clone(),
                _ => abort("compiled code: comparison"),
            };
            let (a, b) = (fl!(1), fl!(2));
            let k = match p.as_str() {
                "eq" => 0,
                "gt" => 1,
                "ge" => 2,
                "lt" => 3,
                "le" => 4,
                "one" => 5,
                "ord" => 6,
                "ueq" => 7,
                "ugt" => 8,
                "uge" => 9,
                "ult" => 10,
                "ule" => 11,
                "ne" => 12,
                "uno" => 13,
                _ => abort("compiled code: comparison"),
            };
            V::B(__sym_fcmp(k, a, b))
        }
        "select" => match g(0) {
            V::B(true) => g(1),
            V::B(false) => g(2),
            _ => abort("compiled code: select"),
        },
        "bor" | "band" | "bxor" => match (g(0), g(1)) {
            (V::B(a), V::B(b)) => V::B(match ins.op.as_str() {
                "bor" => a | b,
                "band" => a & b,
                _ => a ^ b,
            }),
            _ => abort("compiled code: bit operation"),
        },
        "fcvt_from_sint.f64" => match g(0) {
            V::I(i) => V::F(i as f64),
            _ => abort("compiled code: conversion"),
        },
        o => abort(&format!("compiled code: {o}")),
    };
    memo.insert(v, r);
    r
}

fn last_pending() -> Option<Rc<Func>> {
    let t = std::mem::take(&mut *PENDING.lock().unwrap()).pop()?;
    match parse(&t) {
        Ok(f) => {
            let f = Rc::new(f);
            st().last = Some(f.clone());
            Some(f)
        }
        Err(e) => abort(&format!("compiled code: {e}")),
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_jit_bind(p: *const u8) {
    if let Some(f) = last_pending() {
        st().funcs.insert(p as usize, f);
    }
}
fn icall(p: *const u8, args: &[f64]) -> Option<f64> {
    if let Some(f) = last_pending() {
        st().funcs.insert(p as usize, f);
    }
    let f = st().funcs.get(&(p as usize))?.clone();
    if f.params != args.len() {
        panic!("a compiled function of {} arguments was called with {}", f.params, args.len());
    }
    if st().raw {
        with(|rt| rt.texts.push(("clif".into(), f.text.clone())));
        return Some(0.0);
    }
    match eval(&f, f.ret, args, &mut HashMap::new()) {
        V::F(x) => Some(x),
        _ => abort("compiled code: result"),
    }
}
macro_rules! icalls {
    ($($n:ident($($a:ident),*);)*) => { $(
        #[no_mangle]
        pub extern "C-unwind" fn $n(p: *const u8, $($a: f64),*) -> f64 {
            if let Some(r) = icall(p, &[$($a),*]) {
                return r;
            }
            let f: extern "C-unwind" fn($(icalls!(@ty $a)),*) -> f64 = unsafe { std::mem::transmute(p) };
            f($($a),*)
        }
    )* };
    (@ty $a:ident) => { f64 };
}
icalls! {
    __sym_icall0();
    __sym_icall1(a);
    __sym_icall2(a, b);
    __sym_icall3(a, b, c);
    __sym_icall4(a, b, c, d);
    __sym_icall5(a, b, c, d, e);
    __sym_icall6(a, b, c, d, e, f);
    __sym_icall7(a, b, c, d, e, f, g);
    __sym_icall8(a, b, c, d, e, f, g, h);
    __sym_icall9(a, b, c, d, e, f, g, h, i);
    __sym_icall10(a, b, c, d, e, f, g, h, i, j);
}

/// Keep the function compiled by `make` as the code of an elementary function.
/// Symbolic mode only, once per process.
pub fn template(name: &'static str, make: impl FnOnce()) {
    if !symbolic() || st().templates.iter().any(|t| t.0 == name) {
        return;
    }
    PENDING.lock().unwrap().clear();
    st().last = None;
    make();
    let f = st().last.take().or_else(last_pending);
    match f {
        Some(f) => st().templates.push((name, f)),
        None => abort("compiled code: nothing was captured"),
    }
}
/// Calls of compiled code are recorded, not executed (the accuracy of elementary functions).
pub fn raw_code() {
    st().raw = true;
}
