//! Operations on `i64`, of which only symbolic ones reach the term table.
//! Integer terms are mathematical integers: an operation that could leave
//! [0, 2^64) forks on whether it does (that is the overflow flag, or the wrap).
use crate::*;

const U64: i128 = 1 << 64;

fn node(rt: &mut Rt, x: u64) -> u32 {
    match ih(x) {
        Some(i) => i,
        None => rt.iconst(x as i128),
    }
}

fn irefine(rt: &mut Rt, i: u32, lo: i128, hi: i128) {
    let cur = rt.irange(i);
    rt.ibounds.insert(i, (cur.0.max(lo), cur.1.min(hi)));
    // push a refinement of x+c / x-c down to x
    let n = rt.nodes[i as usize].clone();
    if n.key.op == "iadd" || n.key.op == "isub" {
        let (a, b) = (n.key.args[0], n.key.args[1]);
        let (cl, ch) = rt.irange(b);
        if cl == ch && rt.nodes[a as usize].conc.is_none() {
            if n.key.op == "iadd" {
                irefine(rt, a, lo - cl, hi - cl)
            } else {
                irefine(rt, a, lo + cl, hi + cl)
            }
        }
    }
}

fn ilt(rt: &mut Rt, a: u32, b: u32) -> Result<bool, String> {
    let (x, y) = (rt.irange(a), rt.irange(b));
    if x.1 < y.0 {
        return Ok(true);
    }
    if x.0 >= y.1 {
        return Ok(false);
    }
    if a == b {
        return Ok(false);
    }
    let v = rt.decide(b'i', "lt", a, b)?;
    if v {
        irefine(rt, a, i128::MIN / 4, y.1 - 1);
        irefine(rt, b, x.0 + 1, i128::MAX / 4);
    } else {
        irefine(rt, a, y.0, i128::MAX / 4);
        irefine(rt, b, i128::MIN / 4, x.1);
    }
    Ok(v)
}
fn ieq(rt: &mut Rt, a: u32, b: u32) -> Result<bool, String> {
    if a == b {
        return Ok(true);
    }
    let (x, y) = (rt.irange(a), rt.irange(b));
    if x.1 < y.0 || y.1 < x.0 {
        return Ok(false);
    }
    if x.0 == x.1 && y == x {
        return Ok(true);
    }
    let (a, b) = if a < b { (a, b) } else { (b, a) };
    let (x, y) = (rt.irange(a), rt.irange(b));
    let v = rt.decide(b'i', "eq", a, b)?;
    if v {
        irefine(rt, a, y.0, y.1);
        irefine(rt, b, x.0, x.1);
    } else {
        // a disequality at the end of an interval shrinks it
        if y.0 == y.1 {
            if x.0 == y.0 {
                irefine(rt, a, x.0 + 1, x.1)
            } else if x.1 == y.0 {
                irefine(rt, a, x.0, x.1 - 1)
            }
        }
        if x.0 == x.1 {
            if y.0 == x.0 {
                irefine(rt, b, y.0 + 1, y.1)
            } else if y.1 == x.0 {
                irefine(rt, b, y.0, y.1 - 1)
            }
        }
    }
    Ok(v)
}

/// handles denote unsigned values; signed predicates apply below 2^63 only
fn icmp(pred: u32, a: u64, b: u64) -> Result<bool, String> {
    with(|rt| {
        let (x, y) = (node(rt, a), node(rt, b));
        if pred >= 6 {
            for (n, raw) in [(x, a), (y, b)] {
                let r = rt.irange(n);
                if r.1 >= (1 << 63) {
                    if ih(raw).is_none() {
                        // a negative constant: smaller than any handle
                        let neg_is_a = n == x;
                        return Ok(match pred {
                            6 | 7 => !neg_is_a,
                            _ => neg_is_a,
                        });
                    }
                    return Err("signed comparison of a symbolic integer above 2^63".into());
                }
            }
        }
        match pred {
            0 => ieq(rt, x, y),
            1 => ieq(rt, x, y).map(|v| !v),
            2 | 6 => ilt(rt, y, x),
            3 | 7 => ilt(rt, x, y).map(|v| !v),
            4 | 8 => ilt(rt, x, y),
            _ => ilt(rt, y, x).map(|v| !v),
        }
    })
}

#[no_mangle]
pub extern "C-unwind" fn __sym_icmp(pred: u32, a: u64, b: u64) -> bool {
    if ih(a).is_none() && ih(b).is_none() {
        return match pred {
            0 => a == b,
            1 => a != b,
            2 => a > b,
            3 => a >= b,
            4 => a < b,
            5 => a <= b,
            6 => (a as i64) > (b as i64),
            7 => (a as i64) >= (b as i64),
            8 => (a as i64) < (b as i64),
            _ => (a as i64) <= (b as i64),
        };
    }
    icmp(pred, a, b).unwrap_or_else(|e| abort(&e))
}

/// op: 0 add, 1 sub, 2 mul; result and overflow bit
fn arith(op: u32, a: u64, b: u64) -> Result<(u64, bool), String> {
    with(|rt| {
        let (x, y) = (node(rt, a), node(rt, b));
        let (rx, ry) = (rt.irange(x), rt.irange(y));
        if op == 0 && ry == (0, 0) && ih(b).is_none() {
            return Ok((a, false));
        }
        if op == 0 && rx == (0, 0) && ih(a).is_none() {
            return Ok((b, false));
        }
        if op == 1 && ry == (0, 0) && ih(b).is_none() {
            return Ok((a, false));
        }
        if op == 2 && rx == (1, 1) {
            return Ok((b, false));
        }
        if op == 2 && ry == (1, 1) {
            return Ok((a, false));
        }
        let (name, lo, hi) = match op {
            0 => ("iadd", rx.0 + ry.0, rx.1 + ry.1),
            1 => ("isub", rx.0 - ry.1, rx.1 - ry.0),
            _ => (
                "imul",
                rx.0.checked_mul(ry.0).unwrap_or(i128::MAX / 4),
                rx.1.checked_mul(ry.1).unwrap_or(i128::MAX / 4),
            ),
        };
        // adding a negative constant written as its two's complement
        if op == 0 && ih(b).is_none() && ry.0 >= (1 << 63) {
            let m = U64 - ry.0;
            let c = rt.iconst(m);
            let under = ilt(rt, x, c)?;
            if under {
                return Err("symbolic integer wrapped below zero".into());
            }
            let t = rt.iterm("isub", &[x, c], (rx.0 - m).max(0), rx.1 - m);
            return Ok((mki(t), true));
        }
        if lo >= 0 && hi < U64 {
            let t = rt.iterm(name, &[x, y], lo, hi);
            return Ok((mki(t), false));
        }
        let over = match op {
            1 => ilt(rt, x, y)?,
            0 => {
                let t = rt.iterm("iadd", &[x, y], lo, hi);
                let m = rt.iconst(U64 - 1);
                ilt(rt, m, t)?
            }
            _ => {
                let t = rt.iterm("imul", &[x, y], lo, hi);
                let m = rt.iconst(U64 - 1);
                ilt(rt, m, t)?
            }
        };
        let t = if over {
            let (w, l, h) = if op == 1 { ("iwrapsub", 0, U64 - 1) } else { ("iwrap", 0, U64 - 1) };
            rt.iterm(if op == 1 { w } else if op == 0 { "iwrapadd" } else { "iwrapmul" }, &[x, y], l, h)
        } else {
            rt.iterm(name, &[x, y], lo.max(0), hi.min(U64 - 1))
        };
        Ok((mki(t), over))
    })
}

#[no_mangle]
pub extern "C-unwind" fn __sym_iarith(op: u32, a: u64, b: u64) -> u64 {
    if ih(a).is_none() && ih(b).is_none() {
        return match op {
            0 => a.wrapping_add(b),
            1 => a.wrapping_sub(b),
            _ => a.wrapping_mul(b),
        };
    }
    arith(op, a, b).unwrap_or_else(|e| abort(&e)).0
}
#[repr(C)]
pub struct Ov {
    v: u64,
    o: u64,
}
/// unsigned add/sub/mul with overflow flag
#[no_mangle]
pub extern "C-unwind" fn __sym_iover_v(op: u32, a: u64, b: u64) -> u64 {
    __sym_iarith(op, a, b)
}
#[no_mangle]
pub extern "C-unwind" fn __sym_iover_o(op: u32, a: u64, b: u64) -> bool {
    if ih(a).is_none() && ih(b).is_none() {
        return match op {
            0 => a.overflowing_add(b).1,
            1 => a.overflowing_sub(b).1,
            2 => a.overflowing_mul(b).1,
            3 => (a as i64).overflowing_add(b as i64).1,
            4 => (a as i64).overflowing_sub(b as i64).1,
            _ => (a as i64).overflowing_mul(b as i64).1,
        };
    }
    if op >= 3 {
        abort("signed overflow check on a symbolic integer");
    }
    arith(op, a, b).unwrap_or_else(|e| abort(&e)).1
}
fn only_plain(a: u64, b: u64, what: &str) {
    if ih(a).is_some() || ih(b).is_some() {
        abort(what)
    }
}
/// division, remainder and bit operations: op 0 udiv 1 urem 2 sdiv 3 srem 4 and 5 or 6 xor 7 shl 8 lshr 9 ashr
#[no_mangle]
pub extern "C-unwind" fn __sym_iother(op: u32, a: u64, b: u64) -> u64 {
    if ih(a).is_some() || ih(b).is_some() {
        let r = with(|rt| {
            let (x, y) = (node(rt, a), node(rt, b));
            let (rx, ry) = (rt.irange(x), rt.irange(y));
            if (op == 0 || op == 1) && ry.0 == ry.1 && ry.0 > 0 && ry.0 < (1 << 32) {
                let t = if op == 0 {
                    rt.iterm("idiv", &[x, y], rx.0 / ry.0, rx.1 / ry.0)
                } else {
                    rt.iterm("imod", &[x, y], 0, ry.0 - 1)
                };
                return Some(mki(t));
            }
            None
        });
        if let Some(v) = r {
            return v;
        }
    }
    only_plain(a, b, "division or bit operation on a symbolic integer");
    match op {
        0 => a.wrapping_div(b),
        1 => a.wrapping_rem(b),
        2 => (a as i64).wrapping_div(b as i64) as u64,
        3 => (a as i64).wrapping_rem(b as i64) as u64,
        4 => a & b,
        5 => a | b,
        6 => a ^ b,
        7 => a.wrapping_shl(b as u32),
        8 => a.wrapping_shr(b as u32),
        _ => ((a as i64).wrapping_shr(b as u32)) as u64,
    }
}
/// op 0 umax 1 umin 2 smax 3 smin
#[no_mangle]
pub extern "C-unwind" fn __sym_iminmax(op: u32, a: u64, b: u64) -> u64 {
    let lt = __sym_icmp(if op < 2 { 4 } else { 8 }, a, b);
    match (op & 1, lt) {
        (0, true) | (1, false) => b,
        _ => a,
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_satsub(a: u64, b: u64) -> u64 {
    if __sym_icmp(4, a, b) {
        0
    } else {
        __sym_iarith(1, a, b)
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_u2f(a: u64) -> f64 {
    match ih(a) {
        None => a as f64,
        Some(i) => with(|rt| {
            let (l, h) = rt.irange(i);
            if l == h {
                return h as f64;
            }
            mkf(rt.fterm("u2f", &[i], None))
        }),
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_s2f(a: u64) -> f64 {
    match ih(a) {
        None => (a as i64) as f64,
        Some(_) => __sym_u2f(a),
    }
}
/// A symbolic integer used where a plain one is needed (an index, a narrowing,
/// a switch): enumerate its range, one path per value.
pub fn concretize(a: u64) -> u64 {
    match ih(a) {
        None => a,
        Some(i) => {
            let (lo, hi) = with(|rt| rt.irange(i));
            if hi - lo > 300 {
                abort("a symbolic integer with a large range used as an index");
            }
            let mut v = lo;
            while v < hi {
                let eq = with(|rt| {
                    let c = rt.iconst(v);
                    ieq(rt, i, c)
                })
                .unwrap_or_else(|e| abort(&e));
                if eq {
                    return v as u64;
                }
                v += 1;
            }
            hi as u64
        }
    }
}
#[no_mangle]
pub extern "C-unwind" fn __sym_iconc(a: u64) -> u64 {
    concretize(a)
}
/// narrowing: exact below the limit (checked by forking), otherwise by enumeration
#[no_mangle]
pub extern "C-unwind" fn __sym_itrunc(a: u64) -> u64 {
    match ih(a) {
        None => a,
        Some(_) => concretize(a),
    }
}
#[no_mangle]
pub fn __sym_u64_fmt(x: &u64, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    match ih(*x) {
        None => fmt::Display::fmt(x, f),
        Some(i) => fmt::Display::fmt(&HandleText(i), f),
    }
}
