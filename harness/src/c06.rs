//! C06 caching and batching, C10 decompositions, C11 base measures.
use crate::spec;
use measures_combinators::measures::derived::binomial_coefficient::{log_binomial_coefficient, BinomialCoefficientMeasure};
use measures_combinators::measures::derived::factorial::{log_factorial, FactorialMeasure};
use measures_combinators::measures::derived::negative_binomial_coefficient::{log_negative_binomial_coefficient, NegativeBinomialCoefficientMeasure};
use measures_core::*;
use measures_distributions::*;
use std::cell::Cell;
use std::hash::{Hash, Hasher};
use std::rc::Rc;
use symrt::*;

// ---------------------------------------------------------------- C06
/// A point all of whose values share one hash bucket, so that the cache has to compare points.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Point(u64);
impl Hash for Point {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u8(1)
    }
}
#[derive(Clone)]
struct Line {
    slope: f64,
    calls: Rc<Cell<u64>>,
}
impl MeasureMarker for Line {
    type IsPrimitive = False;
    type IsExponentialFamily = False;
}
impl Measure<Point> for Line {
    type RootMeasure = CountingMeasure<Point>;
    fn in_support(&self, _: Point) -> bool {
        true
    }
    fn root_measure(&self) -> CountingMeasure<Point> {
        CountingMeasure::new()
    }
}
impl HasLogDensity<Point, f64> for Line {
    fn log_density_wrt_root(&self, x: &Point) -> f64 {
        self.calls.set(self.calls.get() + 1);
        self.slope * (x.0 as f64) + 1.0
    }
}
fn cache_history_n(n: usize) {
    let s = sym("slope");
    let calls = Rc::new(Cell::new(0));
    let m = Line { slope: s, calls: calls.clone() };
    let c = m.log_density().cached();
    let ks: Vec<u64> = (0..n).map(|i| sym_u64(&format!("k{i}"), 0, 1_000_000)).collect();
    let mut distinct = 0;
    for i in 0..n {
        let v: f64 = c.at(&Point(ks[i]));
        claim_eq(&format!("evaluation {i} of a history"), v, s * (ks[i] as f64) + 1.0);
        let again: f64 = c.at(&Point(ks[i]));
        claim_eq(&format!("evaluation {i} repeated"), again, s * (ks[i] as f64) + 1.0);
        let mut fresh = true;
        for j in 0..i {
            if ks[j] == ks[i] {
                fresh = false;
            }
        }
        if fresh {
            distinct += 1;
        }
        claim(&format!("after {i}: each distinct point is computed once"), calls.get() == distinct);
    }
}
fn cache_history() {
    cache_history_n(4)
}
fn cache_history_long() {
    cache_history_n(6)
}
fn cache_two() {
    let (s, t) = (sym("s"), sym("t"));
    let (j, k) = (sym_u64("j", 0, 1000), sym_u64("k", 0, 1000));
    let z = || Rc::new(Cell::new(0));
    let a = Line { slope: s, calls: z() }.log_density().cached_for::<f64>();
    let b = Line { slope: t, calls: z() }.log_density().cached_for::<f64>();
    let _: f64 = a.at(&Point(j));
    let _: f64 = b.at(&Point(k));
    let (aj, ak, bj, bk): (f64, f64, f64, f64) = (a.at(&Point(j)), a.at(&Point(k)), b.at(&Point(j)), b.at(&Point(k)));
    claim_eq("first cache, first point", aj, s * (j as f64) + 1.0);
    claim_eq("first cache, second point", ak, s * (k as f64) + 1.0);
    claim_eq("second cache, first point", bj, t * (j as f64) + 1.0);
    claim_eq("second cache, second point", bk, t * (k as f64) + 1.0);
}
/// a cached relative density
fn cache_relative() {
    let (s, t) = (sym("s"), sym("t"));
    let (j, k) = (sym_u64("j", 0, 1000), sym_u64("k", 0, 1000));
    let z = || Rc::new(Cell::new(0));
    let c = Line { slope: s, calls: z() }.log_density().wrt(Line { slope: t, calls: z() }).cached();
    for (i, p) in [j, k, j, k].into_iter().enumerate() {
        let v: f64 = c.at(&Point(p));
        claim_eq(&format!("relative, evaluation {i}"), v, (s - t) * (p as f64));
    }
}
fn cache_counts() {
    let (l, p) = (sym_pos("l"), sym_unit("p"));
    let n = 5;
    let a = Poisson::new(l).log_density().cached();
    let b = Geometric::new(p).log_density().cached();
    let c = Binomial::new(n, p).log_density().cached();
    for round in 0..2 {
        for k in 0..7u64 {
            let (x, y, z): (f64, f64, f64) = (a.at(&k), b.at(&k), c.at(&k));
            claim_eq(&format!("poisson {k}, round {round}"), x, Poisson::new(l).log_density_wrt_root(&k));
            claim_eq(&format!("geometric {k}, round {round}"), y, Geometric::new(p).log_density_wrt_root(&k));
            claim_eq(&format!("binomial {k}, round {round}"), z, Binomial::new(n, p).log_density_wrt_root(&k));
        }
    }
}
fn batch() {
    let (m, s) = (sym("m"), sym_pos("s"));
    let d = Normal::new(m, s);
    let xs: Vec<f64> = (0..6).map(|i| sym(&format!("x{i}"))).collect();
    for n in 0..=6 {
        let b: Vec<f64> = log_density_batch(&d, &xs[..n]);
        claim(&format!("{n} points, {n} values"), b.len() == n);
        for i in 0..n.min(b.len()) {
            claim_eq(&format!("{n} points, value {i}"), b[i], spec::normal(m, s, xs[i]));
        }
    }
    let one: f64 = log_density_at(&d, &xs[0]);
    claim_eq("at one point", one, spec::normal(m, s, xs[0]));
}
/// long batches, one size on each path
fn batch_long() {
    let (m, s) = (sym("m"), sym_pos("s"));
    let n = [7, 8, 9, 16, 17, 33, 65, 129][pick("size", 8)];
    let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), -1e3, 1e3)).collect();
    let b: Vec<f64> = log_density_batch(&Normal::new(m, s), &xs);
    claim("a value for each point", b.len() == n);
    for i in 0..n.min(b.len()) {
        claim_eq(&format!("{n} points, value {i}"), b[i], spec::normal(m, s, xs[i]));
    }
}
/// a cache with many points in it
fn cache_many() {
    let l = sym_pos("l");
    let n = [40u64, 300, 1100][pick("size", 3)];
    let c = Geometric::new(sym_unit("p")).log_density().cached();
    let d = Poisson::new(l).log_density().cached();
    for k in 0..n {
        let _: f64 = c.at(&k);
        let _: f64 = d.at(&k);
    }
    for k in [0, 1, 2, n / 2, n - 3, n - 1] {
        let (x, y): (f64, f64) = (c.at(&k), d.at(&k));
        let (v, w): (f64, f64) = (Geometric::new(sym_unit("p")).log_density_wrt_root(&k), Poisson::new(l).log_density_wrt_root(&k));
        claim_eq(&format!("geometric {k} of {n}"), x, v);
        claim_eq(&format!("poisson {k} of {n}"), y, w);
    }
}
fn batch_support() {
    let (r, x, y) = (sym_pos("r"), sym("x"), sym("y"));
    let b: Vec<f64> = log_density_batch(&Exponential::new(r), &[x, y, x]);
    claim_eq("first", b[0], spec::exponential(r, x));
    claim_eq("second", b[1], spec::exponential(r, y));
    claim_eq("third", b[2], spec::exponential(r, x));
}
fn shared_root() {
    let (m, s, l, g, r, x) = (sym("m"), sym_pos("s"), sym("l"), sym_pos("g"), sym_pos("r"), sym("x"));
    let v: f64 = (Normal::new(m, s), Cauchy::new(l, g)).log_density_wrt_shared_root(&x);
    claim_eq("normal and cauchy", v, spec::normal(m, s, x) + spec::cauchy(l, g, x));
    let v: f64 = (Exponential::new(r), Normal::new(m, s)).log_density_wrt_shared_root(&x);
    claim_eq("exponential and normal", v, spec::exponential(r, x) + spec::normal(m, s, x));
}
fn types() {
    // the typed evaluation at f32 agrees with f64 up to single precision at the same parameters
    let d = Normal::new(1.5f64, 2.0);
    let e = Normal::new(1.5f32, 2.0);
    for i in 0..5 {
        let x = i as f64 - 2.0;
        let (a, b): (f64, f32) = (d.log_density().at(&x), e.log_density().at(&(x as f32)));
        claim(&format!("single precision at {i}"), (a - b as f64).abs() < 1e-5);
    }
}

// ---------------------------------------------------------------- C10
macro_rules! decomposition {
    ($label:expr, $d:expr, $n:expr) => {{
        let (l, d): (&str, _) = ($label, $d);
        let xs: Vec<f64> = (0..$n).map(|i| sym(&format!("x{i}"))).collect();
        let dec = d.log_density_decomposition();
        let th = d.params();
        for i in 0..$n {
            let v: f64 = dec.evaluate(&xs[i], &th);
            claim_eq(&format!("{l}: evaluate {i}"), v, d.log_density_wrt_root(&xs[i]));
        }
        for n in 0..=$n {
            let mut s = 0.0;
            for i in 0..n {
                let v: f64 = d.log_density_wrt_root(&xs[i]);
                s += v;
            }
            claim_eq(&format!("{l}: {n} samples"), dec.evaluate_iid(&xs[..n], &th), s);
            claim_eq(&format!("{l}: {n} samples, method"), d.log_density_iid(&xs[..n]), s);
        }
        // the parts are what they claim to depend on, and add up
        let mut mixed = 0.0;
        for t in &dec.mixed_terms {
            mixed += (t.compute)(&xs[0], &th);
        }
        let parts = dec.evaluate_data_terms(&xs[0]) + dec.evaluate_param_terms(&th) + mixed + dec.constant_sum();
        claim_eq(&format!("{l}: sum of the parts"), parts, dec.evaluate(&xs[0], &th));
    }};
}
fn dec_normal() {
    let (m, s) = (sym("m"), sym_pos("s"));
    decomposition!("normal", Normal::new(m, s), 4);
}
fn dec_cauchy() {
    let (m, s) = (sym("m"), sym_pos("s"));
    decomposition!("cauchy", Cauchy::new(m, s), 3);
}
fn dec_student() {
    let nu = sym_pos("nu");
    decomposition!("student", StudentT::new(nu), 3);
}
/// larger samples
macro_rules! dec_many {
    ($l:expr, $d:expr) => {{
        let n = [5usize, 8, 9, 16, 17, 33, 65, 129][pick("size", 8)];
        let d = $d;
        let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), -1e3, 1e3)).collect();
        let mut s = 0.0;
        for x in &xs {
            let v: f64 = d.log_density_wrt_root(x);
            s += v;
        }
        claim_eq(&format!("{}: {n} samples", $l), d.log_density_decomposition().evaluate_iid(&xs, &d.params()), s);
        claim_eq(&format!("{}: {n} samples, method", $l), d.log_density_iid(&xs), s);
    }};
}
fn many_normal() {
    dec_many!("normal", Normal::new(sym("m"), sym_pos("s")));
}
fn many_cauchy() {
    dec_many!("cauchy", Cauchy::new(sym("m"), sym_pos("s")));
}
fn many_student() {
    dec_many!("student", StudentT::new(sym_pos("nu")));
}
/// parameters and points of any magnitude
fn dec_wide() {
    let (m, s, nu, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("nu", 1e-9, 1e12), sym_in("x", -1e100, 1e100));
    let d = Normal::new(m, s);
    claim_eq("normal", d.log_density_decomposition().evaluate(&x, &d.params()), spec::normal(m, s, x));
    claim_eq("normal, two samples", d.log_density_iid(&[x, m]), spec::normal(m, s, x) + spec::normal(m, s, m));
    let d = Cauchy::new(m, s);
    claim_eq("cauchy", d.log_density_decomposition().evaluate(&x, &d.params()), spec::cauchy(m, s, x));
    claim_eq("cauchy, two samples", d.log_density_iid(&[x, m]), spec::cauchy(m, s, x) + spec::cauchy(m, s, m));
    let d = StudentT::new(nu);
    claim_eq("student", d.log_density_decomposition().evaluate(&x, &d.params()), spec::student(nu, x));
    claim_eq("student, two samples", d.log_density_iid(&[x, 0.0]), spec::student(nu, x) + spec::student(nu, 0.0));
}
/// one decomposition evaluated at other parameters than those it was built from
fn dec_other_parameters() {
    let (m, s, n, t, x) = (sym("m"), sym_pos("s"), sym("n"), sym_pos("t"), sym("x"));
    let (a, b) = (Normal::new(m, s), Normal::new(n, t));
    claim_eq("normal", a.log_density_decomposition().evaluate(&x, &b.params()), spec::normal(n, t, x));
    let (a, b) = (Cauchy::new(m, s), Cauchy::new(n, t));
    claim_eq("cauchy", a.log_density_decomposition().evaluate(&x, &b.params()), spec::cauchy(n, t, x));
    let (a, b) = (StudentT::new(s), StudentT::new(t));
    claim_eq("student", a.log_density_decomposition().evaluate(&x, &b.params()), spec::student(t, x));
}
fn builder() {
    let (c1, c2, x, y, z, th) = (sym("c1"), sym("c2"), sym("x"), sym("y"), sym("z"), sym("th"));
    let d = DecompositionBuilder::<f64, f64, f64>::new()
        .data_term(|x: &f64| x * x, "a")
        .param_term(|t: &f64| 3.0 * t, "b")
        .mixed_term(|x: &f64, t: &f64| x * t, "c")
        .constant(c1)
        .data_term(|x: &f64| 2.0 * x, "d")
        .param_term(|t: &f64| t * t, "e")
        .mixed_term(|x: &f64, t: &f64| x - t * t, "f")
        .constant(c2)
        .build();
    let f = |x: f64| x * x + 2.0 * x + 3.0 * th + th * th + x * th + (x - th * th) + c1 + c2;
    claim_eq("evaluate", d.evaluate(&x, &th), f(x));
    claim_eq("data terms", d.evaluate_data_terms(&x), x * x + 2.0 * x);
    claim_eq("parameter terms", d.evaluate_param_terms(&th), 3.0 * th + th * th);
    claim_eq("constants", d.constant_sum(), c1 + c2);
    claim_eq("no samples", d.evaluate_iid(&[], &th), 0.0);
    claim_eq("one sample", d.evaluate_iid(&[x], &th), f(x));
    claim_eq("two samples", d.evaluate_iid(&[x, y], &th), f(x) + f(y));
    claim_eq("three samples", d.evaluate_iid(&[x, y, z], &th), f(x) + f(y) + f(z));
    claim_eq("a repeated sample", d.evaluate_iid(&[x, x], &th), 2.0 * f(x));
    let e = DecompositionBuilder::<f64, f64, f64>::default().build();
    claim_eq("empty decomposition", e.evaluate(&x, &th), 0.0);
    claim_eq("empty decomposition, samples", e.evaluate_iid(&[x, y], &th), 0.0);
}
/// any number of terms of each kind (also none), added to the decomposition itself, over any number of samples
fn combinations() {
    let (nd, np, nm, nc) = (pick("data", 4), pick("param", 4), pick("mixed", 4), pick("constants", 4));
    let n = [0usize, 1, 2, 5, 17][pick("samples", 5)];
    let th = sym_in("th", -10.0, 10.0);
    let xs: Vec<f64> = (0..n).map(|i| sym_in(&format!("x{i}"), -10.0, 10.0)).collect();
    let cs: Vec<f64> = (0..nc).map(|i| sym_in(&format!("c{i}"), -10.0, 10.0)).collect();
    let data: [fn(&f64) -> f64; 3] = [|x| *x, |x| x * x, |x| 1.0 - x];
    let param: [fn(&f64) -> f64; 3] = [|t| 3.0 * t, |t| t * t, |t| -*t];
    let mixed: [fn(&f64, &f64) -> f64; 3] = [|x, t| x * t, |x, t| x - t * t, |x, t| x + 2.0 * t];
    let mut d = LogDensityDecomposition::<f64, f64, f64>::new();
    for f in &data[..nd] {
        d = d.add_data_term(*f, None)
    }
    for c in &cs {
        d = d.add_constant(*c)
    }
    for f in &mixed[..nm] {
        d = d.add_mixed_term(*f, Some("m".into()))
    }
    for f in &param[..np] {
        d = d.add_param_term(*f, None)
    }
    let sum = |i: &mut dyn Iterator<Item = f64>| i.fold(0.0, |a, b| a + b);
    let (dt, pt) = (|x: f64| sum(&mut data[..nd].iter().map(|f| f(&x))), sum(&mut param[..np].iter().map(|f| f(&th))));
    let ct = sum(&mut cs.iter().copied());
    let at = |x: f64| dt(x) + pt + sum(&mut mixed[..nm].iter().map(|f| f(&x, &th))) + ct;
    claim_eq("parameter terms", d.evaluate_param_terms(&th), pt);
    claim_eq("constants", d.constant_sum(), ct);
    for (i, x) in xs.iter().take(2).enumerate() {
        claim_eq(&format!("evaluate {i}"), d.evaluate(x, &th), at(*x));
        claim_eq(&format!("data terms {i}"), d.evaluate_data_terms(x), dt(*x));
    }
    claim_eq("all samples", d.evaluate_iid(&xs, &th), sum(&mut xs.iter().map(|x| at(*x))));
}

// ---------------------------------------------------------------- C11
fn factorial_table() {
    let k = sym_u64("k", 0, 20);
    let v: f64 = log_factorial(k);
    claim_eq("up to 20", v, spec::lnfact(k));
    let w: f64 = FactorialMeasure::<f64>::new().log_density_wrt_root(&k);
    claim_eq("measure has density 1/k!", w, -spec::lnfact(k));
}
fn factorial_beyond() {
    let k = sym_u64("k", 21, 1_000_000_000);
    let v: f64 = log_factorial(k);
    claim_eq_tol("beyond 20", v, lgamma(k as f64 + 1.0), 1e-9);
    let w: f64 = FactorialMeasure::<f64>::default().log_density_wrt_root(&k);
    claim_eq_tol("measure beyond 20", w, -lgamma(k as f64 + 1.0), 1e-9);
}
fn factorial_step() {
    let k = sym_u64("k", 0, 1_000_000);
    let (a, b): (f64, f64) = (log_factorial(k), log_factorial(k + 1));
    claim_le("increasing", a, b);
}
fn factorial_exact() {
    let k = sym_u64("k", 0, 100);
    for n in 0..=100u64 {
        if k == n {
            let v: f64 = log_factorial(k);
            claim_eq_tol("a sum of logarithms", v, spec::lnfact(n), 1e-9);
        }
    }
}
fn binomial_coefficient() {
    let (n, k) = (sym_u64("n", 0, 1_000_000), sym_u64("k", 0, 1_000_000));
    let v: f64 = log_binomial_coefficient(n, k);
    let m: f64 = BinomialCoefficientMeasure::<f64>::new(n).log_density_wrt_root(&k);
    if k > n {
        claim_eq("none above n", v, f64::NEG_INFINITY);
        claim_eq("measure above n", m, f64::NEG_INFINITY);
    } else {
        claim_eq("coefficient", v, spec::lnchoose(n as f64, k as f64));
        claim_eq("measure", m, spec::lnchoose(n as f64, k as f64));
        let w: f64 = log_binomial_coefficient(n, n - k);
        claim_eq("symmetric", v, w);
    }
    claim("support", BinomialCoefficientMeasure::<f64>::new(n).in_support(k) == (k <= n));
    let z: f64 = log_binomial_coefficient(n, 0);
    claim_eq("one way to choose none", z, 0.0);
    let z: f64 = log_binomial_coefficient(n, n);
    claim_eq("one way to choose all", z, 0.0);
}
/// Pascal's rule by exact small values
fn binomial_small() {
    let mut row = vec![1.0f64];
    for n in 0..=20u64 {
        for k in 0..=n {
            let v: f64 = log_binomial_coefficient(n, k);
            claim_eq(&format!("C({n},{k})"), v, row[k as usize].ln());
        }
        let mut next = vec![1.0];
        for i in 1..row.len() {
            next.push(row[i - 1] + row[i]);
        }
        next.push(1.0);
        row = next;
    }
}
fn negative_binomial_coefficient() {
    let (r, k) = (sym_u64("r", 1, 1_000_000), sym_u64("k", 0, 1_000_000));
    let want = lgamma(k as f64 + r as f64) - lgamma(k as f64 + 1.0) - lgamma(r as f64);
    let v: f64 = log_negative_binomial_coefficient(r, k);
    claim_eq("coefficient", v, want);
    let m: f64 = NegativeBinomialCoefficientMeasure::<f64>::new(r).log_density_wrt_root(&k);
    claim_eq("measure", m, want);
    let b: f64 = log_binomial_coefficient(k + r - 1, k);
    claim_eq("as a binomial coefficient", v, b);
    let z: f64 = log_negative_binomial_coefficient(r, 0);
    claim_eq("no successes", z, 0.0);
    let o: f64 = log_negative_binomial_coefficient(1, k);
    claim_eq("one failure", o, 0.0);
}
fn primitive() {
    let (x, k) = (sym("x"), sym_u64("k", 0, 1_000_000));
    let l: f64 = LebesgueMeasure::<f64>::new().log_density_wrt_root(&x);
    let c: f64 = CountingMeasure::<u64>::new().log_density_wrt_root(&k);
    claim_eq("lebesgue", l, 0.0);
    claim_eq("counting", c, 0.0);
    claim("lebesgue everywhere", LebesgueMeasure::<f64>::new().in_support(x));
    claim("counting everywhere", CountingMeasure::<u64>::new().in_support(k));
}

pub const S: &[Scenario] = &[
    ("C06.cache_history", cache_history),
    ("C06.t.cache_history_long", cache_history_long),
    ("C06.cache_two", cache_two),
    ("C06.cache_relative", cache_relative),
    ("C06.cache_counts", cache_counts),
    ("C06.batch", batch),
    ("C06.batch_long", batch_long),
    ("C06.cache_many", cache_many),
    ("C06.batch_support", batch_support),
    ("C06.shared_root", shared_root),
    ("C06.types", types),
    ("C10.normal", dec_normal),
    ("C10.cauchy", dec_cauchy),
    ("C10.student", dec_student),
    ("C10.other_parameters", dec_other_parameters),
    ("C10.builder", builder),
    ("C10.combinations", combinations),
    ("C10.many_normal", many_normal),
    ("C10.many_cauchy", many_cauchy),
    ("C10.many_student", many_student),
    ("C10.wide", dec_wide),
    ("C11.factorial_table", factorial_table),
    ("C11.factorial_beyond", factorial_beyond),
    ("C11.factorial_step", factorial_step),
    ("C11.factorial_exact", factorial_exact),
    ("C11.binomial_coefficient", binomial_coefficient),
    ("C11.binomial_small", binomial_small),
    ("C11.negative_binomial_coefficient", negative_binomial_coefficient),
    ("C11.primitive", primitive),
];
