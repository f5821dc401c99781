//! C29 vector utilities and numeric conversions.
use measures_core::*;
use measures_core::core::utils::*;
use measures_core::traits::dot_product::array_sub;
use measures_exponential_family::exponential_family::array_utils::*;
use symrt::*;

fn real(n: &str) -> f64 {
    sym_in(n, -1e6, 1e6)
}
fn arr<const N: usize>(n: &str) -> [f64; N] {
    std::array::from_fn(|i| real(&format!("{n}{i}")))
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    let mut s = 0.0;
    for i in 0..a.len().min(b.len()) {
        s = s + a[i] * b[i];
    }
    s
}
fn arrays<const N: usize>() {
    let (a, b, c) = (arr::<N>("a"), arr::<N>("b"), arr::<N>("c"));
    claim_eq("dot product", a.dot(&b), dot(&a, &b));
    claim_eq("dot product, vectors", a.to_vec().dot(&b.to_vec()), dot(&a, &b));
    claim_eq("dot product of a sum", add_arrays(a, b).dot(&c), dot(&a, &c) + dot(&b, &c));
    let s = sum_arrays([a, b, c].into_iter());
    let d = array_sub(a, b);
    for i in 0..N {
        claim_eq(&format!("sum of two, {i}"), add_arrays(a, b)[i], a[i] + b[i]);
        claim_eq(&format!("difference, {i}"), d[i], a[i] - b[i]);
        claim_eq(&format!("sum of three, {i}"), s[i], a[i] + b[i] + c[i]);
        claim_eq(&format!("sum of one, {i}"), sum_arrays([a].into_iter())[i], a[i]);
        claim_eq(&format!("sum of none, {i}"), sum_arrays::<f64, N, _>(std::iter::empty())[i], 0.0);
        claim_eq(&format!("default, {i}"), default_array::<f64, N>()[i], 0.0);
    }
}
fn sizes() {
    match pick("n", 13) {
        6 => arrays::<6>(),
        7 => arrays::<7>(),
        8 => arrays::<8>(),
        9 => arrays::<9>(),
        10 => arrays::<16>(),
        11 => arrays::<17>(),
        12 => arrays::<33>(),
        0 => arrays::<0>(),
        1 => arrays::<1>(),
        2 => arrays::<2>(),
        3 => arrays::<3>(),
        4 => arrays::<4>(),
        _ => arrays::<5>(),
    }
}
fn counts() {
    let a: [u64; 3] = std::array::from_fn(|i| sym_u64(&format!("a{i}"), 0, 1000));
    let b: [u64; 3] = std::array::from_fn(|i| sym_u64(&format!("b{i}"), 0, 1000));
    let s = add_arrays(a, b);
    let t = sum_arrays([a, b, a].into_iter());
    for i in 0..3 {
        claim(&format!("sum {i}"), s[i] == a[i] + b[i]);
        claim(&format!("sum of three {i}"), t[i] == 2 * a[i] + b[i]);
    }
}
/// vectors of different lengths are multiplied as far as the shorter one goes
fn vectors() {
    let (n, m) = (pick("n", 5), pick("m", 5));
    let a: Vec<f64> = (0..n).map(|i| real(&format!("a{i}"))).collect();
    let b: Vec<f64> = (0..m).map(|i| real(&format!("b{i}"))).collect();
    claim_eq("dot product", a.dot(&b), dot(&a, &b));
}
/// sums of many arrays, products of long vectors
fn long() {
    let n = [4usize, 5, 7, 8, 9, 16, 17, 33, 65][pick("n", 9)];
    let rows: Vec<[f64; 3]> = (0..n).map(|i| arr::<3>(&format!("r{i}_"))).collect();
    let s = sum_arrays(rows.iter().copied());
    for c in 0..3 {
        let mut want = 0.0;
        for r in &rows {
            want = want + r[c];
        }
        claim_eq(&format!("sum of {n} arrays, {c}"), s[c], want);
    }
    let a: Vec<f64> = (0..n).map(|i| real(&format!("a{i}"))).collect();
    let b: Vec<f64> = (0..n + 1).map(|i| real(&format!("b{i}"))).collect();
    claim_eq(&format!("dot product of {n}"), a.dot(&b[..n].to_vec()), dot(&a, &b));
    claim_eq(&format!("dot product of {n}, other length"), b.dot(&a), dot(&a, &b));
}
fn floats() {
    let x = sym("x");
    claim_bits("to itself", safe_convert::<f64, f64>(x), x);
    claim_bits("to itself, fallback", safe_convert_or::<f64, f64>(x, 7.0), x);
    claim_bits("checked", safe_float_convert::<f64, f64>(x).unwrap_or(f64::NAN), x);
    claim_bits("constant", float_constant::<f64>(x), x);
}
fn special_floats() {
    for v in [f64::INFINITY, f64::NEG_INFINITY, 0.0, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE] {
        claim(&format!("constant {v:?}"), float_constant::<f64>(v) == v);
        claim(&format!("conversion {v:?}"), safe_convert::<f64, f64>(v) == v);
        claim(&format!("checked conversion {v:?}"), safe_float_convert::<f64, f64>(v) == Ok(v));
    }
    claim("constant NaN", float_constant::<f64>(f64::NAN).is_nan());
    claim("infinity has no integer", safe_convert_or::<f64, i32>(f64::INFINITY, 5) == 5 && safe_convert::<f64, u64>(f64::NEG_INFINITY) == 0);
    claim("NaN has no integer", safe_convert_or::<f64, i32>(f64::NAN, 5) == 5 && safe_convert::<f64, u8>(f64::NAN) == 0);
    claim("single precision", safe_convert::<f64, f32>(0.5) == 0.5f32 && float_constant::<f32>(0.25) == 0.25f32);
    claim("single precision infinity", float_constant::<f32>(f64::INFINITY) == f32::INFINITY && float_constant::<f32>(f64::NEG_INFINITY) == f32::NEG_INFINITY);
}
fn from_counts() {
    let n = sym_u64("n", 0, 1 << 50);
    claim_eq("count to float", safe_convert::<u64, f64>(n), n as f64);
    claim_eq("count to float, fallback", safe_convert_or::<u64, f64>(n, -1.0), n as f64);
    claim("count to itself", safe_convert::<u64, u64>(n) == n);
    claim("count to itself, fallback", safe_convert_or::<u64, u64>(n, 3) == n);
}
/// a number is truncated to a count, and refused where it is no count
fn to_counts() {
    let x = sym_in("x", -1e6, 1e6);
    let (c, d) = (safe_convert::<f64, u64>(x), safe_convert_or::<f64, u64>(x, 77));
    if x > -1.0 {
        let (lo, hi) = (c as f64, c as f64 + 1.0);
        claim("truncated", (x < 0.0 && c == 0) || (lo <= x && x < hi));
        claim("truncated, fallback", d == c);
    } else {
        claim("refused: default", c == 0);
        claim("refused: fallback", d == 77);
    }
}
pub const S: &[Scenario] = &[
    ("C29.sizes", sizes),
    ("C29.counts", counts),
    ("C29.vectors", vectors),
    ("C29.long", long),
    ("C29.floats", floats),
    ("C29.special_floats", special_floats),
    ("C29.from_counts", from_counts),
    ("C29.to_counts", to_counts),
];
