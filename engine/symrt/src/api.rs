//! What scenarios use: inputs, assumptions, claims.
use crate::fops::{base, un};
use crate::*;
use std::fmt::Write as _;

pub fn symbolic() -> bool {
    with(|rt| rt.mode == Mode::Symbolic)
}

/// A finite double in [lo, hi].
pub fn sym_in(name: &str, lo: f64, hi: f64) -> f64 {
    if with(|rt| rt.mode == Mode::Native) {
        let v = with(|rt| *rt.inputs.get(name).unwrap_or(&f64::NAN));
        assume(v >= lo && v <= hi);
        return v;
    }
    with(|rt| {
        let i = rt.intern(
            Key { op: "sym", args: vec![], bits: 0, name: name.to_string() },
            None,
            false,
            0,
            0,
        );
        rt.fbounds.insert(i, (lo, hi, false, false));
        let (a, b) = (rt.fconst(lo), rt.fconst(hi));
        rt.trace.push(Cond { kind: b'd', pred: "le", a, b: i, taken: true });
        rt.trace.push(Cond { kind: b'd', pred: "le", a: i, b, taken: true });
        mkf(i)
    })
}
/// Any double at all: NaN, infinities, zeros of both signs, subnormals (decided in floating-point theory).
pub fn sym_any(name: &str) -> f64 {
    with(|rt| {
        if rt.mode == Mode::Native {
            return *rt.inputs.get(name).unwrap_or(&f64::NAN);
        }
        mkf(rt.intern(Key { op: "any", args: vec![], bits: 0, name: name.to_string() }, None, false, 0, 0))
    })
}
pub fn sym(name: &str) -> f64 {
    sym_in(name, -1e6, 1e6)
}
/// A positive double, bounded away from neither end but 1e-6 and 1e6.
pub fn sym_pos(name: &str) -> f64 {
    sym_in(name, 1e-6, 1e6)
}
/// Strictly inside (0,1)
pub fn sym_unit(name: &str) -> f64 {
    sym_in(name, 1e-6, 1.0 - 1e-6)
}
/// An unsigned 64-bit integer in [lo, hi].
pub fn sym_u64(name: &str, lo: u64, hi: u64) -> u64 {
    if with(|rt| rt.mode == Mode::Native) {
        let v = with(|rt| *rt.iinputs.get(name).unwrap_or(&(lo as i128)));
        assume(v >= lo as i128 && v <= hi as i128);
        return v as u64;
    }
    with(|rt| {
        let i = rt.intern(
            Key { op: "isym", args: vec![], bits: 0, name: name.to_string() },
            None,
            true,
            lo as i128,
            hi as i128,
        );
        rt.ibounds.insert(i, (lo as i128, hi as i128));
        let (a, b) = (rt.iconst(lo as i128), rt.iconst(hi as i128));
        rt.trace.push(Cond { kind: b'e', pred: "le", a, b: i, taken: true });
        rt.trace.push(Cond { kind: b'e', pred: "le", a: i, b, taken: true });
        mki(i)
    })
}

#[inline(never)]
pub fn assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(AssumeFalse));
    }
}
/// assumption of an order between two numbers, without a fork
pub fn assume_lt(a: f64, b: f64) {
    assume(base("lt", a, b))
}

fn push(label: &str, kind: &'static str, a: f64, b: f64, tol: f64, truth: bool) {
    with(|rt| {
        if rt.mode == Mode::Native {
            let (ok, detail) = native_check(kind, a, b, tol, truth);
            rt.nresults.push(format!(
                "{{\"label\":{},\"kind\":\"{}\",\"ok\":{},\"a\":\"{:?}\",\"b\":\"{:?}\",\"detail\":{}}}",
                js(label),
                kind,
                ok,
                a,
                b,
                js(&detail)
            ));
            return;
        }
        let (ia, ib) = (rt.fnode(a), rt.fnode(b));
        let at = rt.trace.len();
        rt.claims.push(Claim { label: label.to_string(), kind, a: ia, b: ib, tol, truth, at });
    })
}

fn native_check(kind: &str, a: f64, b: f64, tol: f64, truth: bool) -> (bool, String) {
    match kind {
        "true" => (truth, String::new()),
        "bits" => (a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()), String::new()),
        "eq" => {
            let ok = if a.is_nan() || b.is_nan() {
                a.is_nan() && b.is_nan()
            } else if a.is_infinite() || b.is_infinite() {
                a == b
            } else {
                (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
            };
            (ok, format!("difference {:e}", (a - b).abs()))
        }
        "le" => (a <= b + tol * (1.0 + a.abs().max(b.abs())), String::new()),
        "lt" => (a < b, String::new()),
        "fin" => (a.is_finite(), String::new()),
        _ => (false, "unknown claim".into()),
    }
}

pub const TOL: f64 = 1e-7;

/// Equal values (up to rounding), or the same infinity, or both NaN.
#[inline(never)]
pub fn claim_eq(label: &str, a: f64, b: f64) {
    push(label, "eq", a, b, TOL, true)
}
#[inline(never)]
pub fn claim_eq_tol(label: &str, a: f64, b: f64, tol: f64) {
    push(label, "eq", a, b, tol, true)
}
/// The same bits (any NaN equals any NaN).
#[inline(never)]
pub fn claim_bits(label: &str, a: f64, b: f64) {
    push(label, "bits", a, b, 0.0, true)
}
#[inline(never)]
pub fn claim_le(label: &str, a: f64, b: f64) {
    push(label, "le", a, b, TOL, true)
}
#[inline(never)]
pub fn claim_finite(label: &str, a: f64) {
    push(label, "fin", a, 0.0, 0.0, true)
}
#[inline(never)]
pub fn claim(label: &str, c: bool) {
    push(label, "true", 0.0, 0.0, 0.0, c)
}
/// This point must be reachable.
pub fn cover(label: &str) {
    with(|rt| {
        let at = rt.trace.len();
        rt.covers.push((label.to_string(), at))
    })
}
/// Record a value for translator validation (compared with the native run).
pub fn out(label: &str, v: f64) {
    with(|rt| {
        if rt.mode == Mode::Native {
            rt.nresults.push(format!(
                "{{\"label\":{},\"kind\":\"out\",\"ok\":true,\"a\":\"{:?}\",\"b\":\"\",\"detail\":\"\"}}",
                js(label),
                v
            ));
        } else {
            let i = rt.fnode(v);
            rt.outs.push((label.to_string(), i));
        }
    })
}
/// Record a text (printed forms, compiled IR) for the solver side.
pub fn text(label: &str, t: &str) {
    with(|rt| rt.texts.push((label.to_string(), t.to_string())))
}
/// The specification's own log-gamma term.
pub fn lgamma(x: f64) -> f64 {
    un("lgamma", x)
}
/// From here on, printed numbers are compared and signed as their texts would be.
pub fn faithful_texts() {
    with(|rt| rt.faithful = true)
}
/// One of `0..n`, every one explored.
#[inline(never)]
pub fn pick(name: &str, n: usize) -> usize {
    let k = sym_u64(name, 0, n as u64 - 1);
    if symbolic() {
        let (mut lo, mut hi) = (0u64, n as u64 - 1);
        while lo < hi {
            let mid = (lo + hi) / 2;
            if crate::iops::__sym_icmp(5, k, mid) {
                hi = mid
            } else {
                lo = mid + 1
            }
        }
        return lo as usize;
    }
    k as usize
}
/// A term node index for a number (symbolic mode).
pub fn node_of(x: f64) -> u32 {
    with(|rt| rt.fnode(x))
}

/// Run `f`; a panic of the code under test is an outcome, not an abort.
/// Returns None if it panicked.
pub fn catching<R>(f: impl FnOnce() -> R) -> Option<R> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            if e.is::<AssumeFalse>() || e.is::<Abort>() {
                std::panic::resume_unwind(e)
            }
            None
        }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub type Scenario = (&'static str, fn());

fn outcome(r: std::thread::Result<()>) -> (String, String) {
    match r {
        Ok(()) => ("ok".into(), String::new()),
        Err(e) => {
            if e.is::<AssumeFalse>() {
                ("assume".into(), String::new())
            } else if let Some(a) = e.downcast_ref::<Abort>() {
                ("abort".into(), a.0.clone())
            } else if let Some(s) = e.downcast_ref::<String>() {
                ("panic".into(), s.clone())
            } else if let Some(s) = e.downcast_ref::<&str>() {
                ("panic".into(), s.to_string())
            } else {
                ("panic".into(), "?".into())
            }
        }
    }
}

/// Explore every path of a scenario; one JSON object per line on stdout.
/// One path on a thread of its own: fresh hash seeds, room for the recursion of the code under test.
fn isolated(f: fn()) -> std::thread::Result<()> {
    std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join()
}

pub fn explore(name: &str, f: fn(), max_paths: usize) {
    use std::io::Write;
    let path = std::env::var("VSYM_OUT").expect("VSYM_OUT");
    let mut so = std::io::BufWriter::new(std::fs::File::create(path).expect("VSYM_OUT"));
    with(|rt| {
        *rt = Rt::new(Mode::Symbolic);
    });
    crate::clif::install();
    let mut paths = 0usize;
    let mut complete = true;
    let mut dumped = 0usize;
    loop {
        with(|rt| rt.reset_path());
        let r = isolated(f);
        let (st, msg) = outcome(r);
        paths += 1;
        let line = with(|rt| {
            let mut o = String::new();
            for (i, n) in rt.nodes.iter().enumerate().skip(dumped) {
                let _ = writeln!(
                    o,
                    "{{\"n\":{},\"op\":\"{}\",\"args\":{:?},\"bits\":\"{:016x}\",\"name\":{},\"int\":{},\"conc\":{},\"lo\":\"{}\",\"hi\":\"{}\"}}",
                    i,
                    n.key.op,
                    n.key.args,
                    n.key.bits,
                    js(&n.key.name),
                    n.int,
                    match n.conc { Some(c) if !n.int => format!("\"{:016x}\"", c.to_bits()), _ => "null".into() },
                    n.lo,
                    n.hi
                );
            }
            dumped = rt.nodes.len();
            let _ = write!(o, "{{\"path\":{},\"status\":\"{}\",\"msg\":{},\"conds\":[", paths, st, js(&msg));
            for (k, c) in rt.trace.iter().enumerate() {
                let _ = write!(
                    o,
                    "{}[\"{}\",\"{}\",{},{},{}]",
                    if k > 0 { "," } else { "" },
                    c.kind as char,
                    c.pred,
                    c.a,
                    c.b,
                    c.taken
                );
            }
            o.push_str("],\"claims\":[");
            for (k, c) in rt.claims.iter().enumerate() {
                let _ = write!(
                    o,
                    "{}[{},\"{}\",{},{},\"{:e}\",{},{}]",
                    if k > 0 { "," } else { "" },
                    js(&c.label),
                    c.kind,
                    c.a,
                    c.b,
                    c.tol,
                    c.truth,
                    c.at
                );
            }
            o.push_str("],\"covers\":[");
            for (k, c) in rt.covers.iter().enumerate() {
                let _ = write!(o, "{}[{},{}]", if k > 0 { "," } else { "" }, js(&c.0), c.1);
            }
            o.push_str("],\"outs\":[");
            for (k, c) in rt.outs.iter().enumerate() {
                let _ = write!(o, "{}[{},{}]", if k > 0 { "," } else { "" }, js(&c.0), c.1);
            }
            o.push_str("],\"texts\":[");
            for (k, c) in rt.texts.iter().enumerate() {
                let _ = write!(o, "{}[{},{}]", if k > 0 { "," } else { "" }, js(&c.0), js(&c.1));
            }
            o.push_str("],\"events\":[");
            for (k, c) in rt.events.iter().enumerate() {
                let _ = write!(o, "{}{}", if k > 0 { "," } else { "" }, js(c));
            }
            o.push_str("]}\n");
            o
        });
        let _ = so.write_all(line.as_bytes());
        // next prefix
        let more = with(|rt| {
            rt.prefix.truncate(rt.pos);
            while let Some(l) = rt.prefix.pop() {
                if l {
                    rt.prefix.push(false);
                    return true;
                }
            }
            false
        });
        if !more {
            break;
        }
        if paths >= max_paths {
            complete = false;
            break;
        }
    }
    let _ = writeln!(
        so,
        "{{\"end\":{},\"paths\":{},\"complete\":{},\"forks\":{}}}",
        js(name),
        paths,
        complete,
        with(|rt| rt.forks)
    );
    let _ = so.flush();
}

/// Native runs: one case per stdin line, `name=value` pairs (hex bits for
/// doubles, decimal for integers); one JSON object per case on stdout.
pub fn replay(f: fn()) {
    use std::io::BufRead;
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        with(|rt| {
            *rt = Rt::new(Mode::Native);
            for kv in line.split_whitespace() {
                if let Some((k, v)) = kv.split_once('=') {
                    if let Some(h) = v.strip_prefix("0x") {
                        if let Ok(b) = u64::from_str_radix(h, 16) {
                            rt.inputs.insert(k.to_string(), f64::from_bits(b));
                        }
                    } else if let Ok(n) = v.parse::<i128>() {
                        rt.iinputs.insert(k.to_string(), n);
                    }
                }
            }
        });
        let r = isolated(f);
        let (st, msg) = outcome(r);
        let rs = with(|rt| rt.nresults.join(","));
        println!("@@{{\"status\":\"{}\",\"msg\":{},\"claims\":[{}]}}", st, js(&msg), rs);
    }
}

pub fn main(scenarios: &[Scenario]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let find = |n: &str| scenarios.iter().find(|s| s.0 == n).map(|s| s.1);
    match (a.get(1).map(|s| s.as_str()), a.get(2)) {
        (Some("list"), _) => {
            for s in scenarios {
                println!("{}", s.0);
            }
        }
        (Some("explore"), Some(n)) => {
            let Some(f) = find(n) else {
                eprintln!("no scenario {n}");
                std::process::exit(3)
            };
            let m = a.get(3).and_then(|s| s.parse().ok()).unwrap_or(20000);
            // deep recursion of the code under test needs stack
            let n = n.clone();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || explore(&n, f, m))
                .unwrap()
                .join()
                .unwrap();
        }
        (Some("replay"), Some(n)) => {
            let Some(f) = find(n) else {
                eprintln!("no scenario {n}");
                std::process::exit(3)
            };
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || replay(f))
                .unwrap()
                .join()
                .unwrap();
        }
        _ => {
            eprintln!("usage: list | explore NAME [MAXPATHS] | replay NAME");
            std::process::exit(3)
        }
    }
}
