//! C01: continuous log-densities are the textbook formulas.
use crate::spec;
use measures_core::{HasLogDensity, LogDensityBuilder, log_density_at};
use measures_distributions::*;
use symrt::*;

fn three<D: HasLogDensity<f64, f64>>(d: &D, x: f64, want: f64) {
    claim_eq("wrt root", d.log_density_wrt_root(&x), want);
    claim_eq("log_density_at", log_density_at(d, &x), want);
}

fn normal() {
    let (m, s, x) = (sym("m"), sym_pos("s"), sym("x"));
    let d = Normal::new(m, s);
    let want = spec::normal(m, s, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
}
fn normal_default() {
    let x = sym("x");
    three(&Normal::<f64>::default(), x, spec::normal(0.0, 1.0, x));
}
fn normal_symmetry() {
    let (m, s, t) = (sym("m"), sym_pos("s"), sym("t"));
    let d = Normal::new(m, s);
    claim_eq("symmetric about the mean", d.log_density_wrt_root(&(m + t)), d.log_density_wrt_root(&(m - t)));
    claim_le("maximal at the mean", d.log_density_wrt_root(&(m + t)), d.log_density_wrt_root(&m));
}
fn exponential() {
    let (r, x) = (sym_pos("r"), sym("x"));
    let d = Exponential::new(r);
    let want = spec::exponential(r, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
}
fn exponential_default() {
    let x = sym("x");
    three(&Exponential::<f64>::default(), x, spec::exponential(1.0, x));
}
fn gamma() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym("x"));
    let d = Gamma::new(a, b);
    let want = spec::gamma(a, b, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
}
fn gamma_scale() {
    let (a, t, x) = (sym_pos("a"), sym_pos("t"), sym("x"));
    let d = Gamma::from_shape_scale(a, t);
    three(&d, x, spec::gamma(a, 1.0 / t, x));
    claim_eq("scale", d.scale(), t);
}
fn gamma_default() {
    let x = sym("x");
    three(&Gamma::<f64>::default(), x, spec::gamma(1.0, 1.0, x));
}
fn chisq() {
    let (k, x) = (sym_pos("k"), sym("x"));
    let d = ChiSquared::new(k);
    let want = spec::chisq(k, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
    claim_eq("shape", d.shape(), k / 2.0);
    claim_eq("rate", d.rate(), 0.5);
}
fn chisq_default() {
    let x = sym("x");
    three(&ChiSquared::<f64>::default(), x, spec::chisq(1.0, x));
}
fn chisq_is_gamma() {
    let (k, x) = (sym_pos("k"), sym("x"));
    let d = ChiSquared::new(k);
    let g = Gamma::new(k / 2.0, 0.5);
    let (a, b): (f64, f64) = (d.log_density_wrt_root(&x), g.log_density_wrt_root(&x));
    claim_eq("chi-squared is a gamma", a, b);
}
fn beta() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym("x"));
    let d = Beta::new(a, b);
    let want = spec::beta(a, b, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
}
fn beta_default() {
    let x = sym("x");
    three(&Beta::<f64>::default(), x, spec::beta(1.0, 1.0, x));
}
fn beta_mirror() {
    let (a, b, x) = (sym_pos("a"), sym_pos("b"), sym("x"));
    let (p, q): (f64, f64) = (Beta::new(a, b).log_density_wrt_root(&x), Beta::new(b, a).log_density_wrt_root(&(1.0 - x)));
    claim_eq("mirror image", p, q);
}
fn cauchy() {
    let (l, s, x) = (sym("l"), sym_pos("s"), sym("x"));
    let d = Cauchy::new(l, s);
    let want = spec::cauchy(l, s, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
    claim_eq("log_pdf", d.log_pdf(x), want);
    claim_eq("location", d.location(), l);
    claim_eq("scale", d.scale(), s);
}
fn cauchy_default() {
    let x = sym("x");
    three(&Cauchy::<f64>::default(), x, spec::cauchy(0.0, 1.0, x));
    three(&Cauchy::<f64>::standard(), x, spec::cauchy(0.0, 1.0, x));
}
fn student() {
    let (nu, x) = (sym_pos("nu"), sym("x"));
    let d = StudentT::new(nu);
    let want = spec::student(nu, x);
    let v: f64 = d.log_density().at(&x);
    claim_eq("builder", v, want);
    three(&d, x, want);
    claim_eq("log_pdf", d.log_pdf(x), want);
    claim_eq("nu", d.nu(), nu);
}
fn student_default() {
    let x = sym("x");
    three(&StudentT::<f64>::default(), x, spec::student(1.0, x));
}
/// far out: magnitudes up to 1e100
fn wide_normal() {
    let (m, s, x) = (sym_in("m", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    three(&Normal::new(m, s), x, spec::normal(m, s, x));
}
fn wide_positive() {
    let (a, b, x) = (sym_in("a", 1e-50, 1e50), sym_in("b", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    three(&Gamma::new(a, b), x, spec::gamma(a, b, x));
    claim_eq("exponential", Exponential::new(b).log_density_wrt_root(&x), spec::exponential(b, x));
    claim_eq("chi-squared", ChiSquared::new(a).log_density_wrt_root(&x), spec::chisq(a, x));
}
fn wide_student() {
    let (nu, x) = (sym_in("nu", 1e-9, 1e8), sym_in("x", -1e100, 1e100));
    three(&StudentT::new(nu), x, spec::student(nu, x));
    claim_eq("log_pdf", StudentT::new(nu).log_pdf(x), spec::student(nu, x));
}
fn wide_cauchy() {
    let (l, s, x) = (sym_in("l", -1e100, 1e100), sym_in("s", 1e-50, 1e50), sym_in("x", -1e100, 1e100));
    three(&Cauchy::new(l, s), x, spec::cauchy(l, s, x));
    claim_eq("log_pdf", Cauchy::new(l, s).log_pdf(x), spec::cauchy(l, s, x));
}
fn wide_beta() {
    let (a, b, x) = (sym_in("a", 1e-50, 1e50), sym_in("b", 1e-50, 1e50), sym_in("x", -10.0, 10.0));
    three(&Beta::new(a, b), x, spec::beta(a, b, x));
}

pub const S: &[Scenario] = &[
    ("C01.normal", normal),
    ("C01.normal_default", normal_default),
    ("C01.normal_symmetry", normal_symmetry),
    ("C01.exponential", exponential),
    ("C01.exponential_default", exponential_default),
    ("C01.gamma", gamma),
    ("C01.gamma_scale", gamma_scale),
    ("C01.gamma_default", gamma_default),
    ("C01.chisq", chisq),
    ("C01.chisq_default", chisq_default),
    ("C01.chisq_is_gamma", chisq_is_gamma),
    ("C01.beta", beta),
    ("C01.beta_default", beta_default),
    ("C01.beta_mirror", beta_mirror),
    ("C01.cauchy", cauchy),
    ("C01.cauchy_default", cauchy_default),
    ("C01.student", student),
    ("C01.student_default", student_default),
    ("C01.wide_normal", wide_normal),
    ("C01.wide_positive", wide_positive),
    ("C01.wide_student", wide_student),
    ("C01.wide_cauchy", wide_cauchy),
    ("C01.wide_beta", wide_beta),
];
