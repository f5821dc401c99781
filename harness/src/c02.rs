//! C02: discrete log-probabilities are the textbook formulas (with respect to counting measure).
use crate::spec;
use measures_core::{HasLogDensity, LogDensityBuilder};
use measures_distributions::*;
use symrt::*;

fn bernoulli() {
    let p = sym_in("p", 0.0, 1.0);
    let d = Bernoulli::new(p);
    for x in 0..=4u8 {
        let want = match x {
            0 => (1.0 - p).ln(),
            1 => p.ln(),
            _ => f64::NEG_INFINITY,
        };
        let v: f64 = d.log_density_wrt_root(&x);
        claim_eq(&format!("P(X={x})"), v, want);
        let w: f64 = d.log_density().at(&x);
        claim_eq(&format!("builder {x}"), w, want);
    }
    let a: f64 = d.log_density_wrt_root(&0);
    let b: f64 = d.log_density_wrt_root(&1);
    claim_eq("total mass", a.exp() + b.exp(), 1.0);
}
fn bernoulli_default() {
    let d = Bernoulli::<f64>::default();
    let v: f64 = d.log_density_wrt_root(&1);
    claim_eq("fair coin", v, 0.5f64.ln());
}
/// any n, any k (inside and outside), interior probability
fn binomial() {
    let n = sym_u64("n", 0, 1_000_000);
    let k = sym_u64("k", 0, 2_000_000);
    let p = sym_unit("p");
    let v: f64 = Binomial::new(n, p).log_density_wrt_root(&k);
    let want = if k > n {
        f64::NEG_INFINITY
    } else {
        let (nf, kf) = (n as f64, k as f64);
        spec::lnchoose(nf, kf) + kf * p.ln() + (nf - kf) * (1.0 - p).ln()
    };
    claim_eq("formula", v, want);
}
fn binomial_mass() {
    let p = sym_unit("p");
    for n in 0..=6u64 {
        let mut s = 0.0;
        for k in 0..=n {
            let v: f64 = Binomial::new(n, p).log_density_wrt_root(&k);
            s += v.exp();
        }
        claim_eq(&format!("total mass n={n}"), s, 1.0);
    }
}
fn categorical() {
    for n in 1..=4usize {
        let mut ps: Vec<f64> = (0..n - 1).map(|i| sym_in(&format!("p{n}_{i}"), 0.0, 1.0)).collect();
        let mut last = 1.0;
        for p in &ps {
            last = last - p;
        }
        assume(last >= 0.0);
        ps.push(last);
        let d = Categorical::new(ps.clone());
        claim(&format!("categories {n}"), d.num_categories() == n);
        for k in 0..n + 2 {
            let v: f64 = d.log_density_wrt_root(&k);
            let want = if k < n { ps[k].ln() } else { f64::NEG_INFINITY };
            claim_eq(&format!("{n} categories, P(X={k})"), v, want);
        }
    }
}
/// many categories, each with a probability of its own
fn categorical_many() {
    let n = [5usize, 7, 8, 9, 16, 17, 33, 65][pick("n", 8)];
    let mut ps: Vec<f64> = (0..n - 1).map(|i| sym_in(&format!("p{i}"), 1e-12, 1.0 / n as f64)).collect();
    let mut last = 1.0;
    for p in &ps {
        last = last - p;
    }
    ps.push(last);
    let d = Categorical::new(ps.clone());
    claim("categories", d.num_categories() == n);
    for k in 0..n + 2 {
        let v: f64 = d.log_density_wrt_root(&k);
        claim_eq(&format!("{n} categories, P(X={k})"), v, if k < n { ps[k].ln() } else { f64::NEG_INFINITY });
    }
}
fn categorical_uniform() {
    for k in (1..=9usize).chain([16, 17, 33, 100]) {
        let d = Categorical::<f64>::uniform(k);
        for x in 0..k + 1 {
            let v: f64 = d.log_density_wrt_root(&x);
            claim_eq(&format!("uniform {k} at {x}"), v, if x < k { -(k as f64).ln() } else { f64::NEG_INFINITY });
        }
    }
}
fn geometric() {
    let p = sym_unit("p");
    let k = sym_u64("k", 0, 1_000_000);
    let d = Geometric::new(p);
    let v: f64 = d.log_density_wrt_root(&k);
    let want = if k == 0 { f64::NEG_INFINITY } else { (k as f64 - 1.0) * (1.0 - p).ln() + p.ln() };
    claim_eq("formula", v, want);
    let v: f64 = d.log_density().at(&k);
    claim_eq("builder", v, want);
}
fn geometric_default() {
    let k = sym_u64("k", 1, 1000);
    let v: f64 = Geometric::<f64>::default().log_density_wrt_root(&k);
    claim_eq("fair coin", v, -(k as f64) * 2.0f64.ln());
}
/// successes before the r-th failure: C(k+r-1,k) p^k (1-p)^r, the law whose mean is r p/(1-p)
fn negative_binomial() {
    let r = sym_u64("r", 1, 1_000_000);
    let k = sym_u64("k", 0, 1_000_000);
    let p = sym_unit("p");
    let v: f64 = NegativeBinomial::new(r, p).log_density_wrt_root(&k);
    let (rf, kf) = (r as f64, k as f64);
    claim_eq("formula", v, lgamma(kf + rf) - lgamma(kf + 1.0) - lgamma(rf) + kf * p.ln() + rf * (1.0 - p).ln());
}
fn poisson_n(hi: u64) {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, hi);
    let d = Poisson::new(l);
    let v: f64 = d.log_density_wrt_root(&k);
    let want = (k as f64) * l.ln() - l - spec::lnfact(k);
    claim_eq("formula", v, want);
    let w: f64 = d.log_density().at(&k);
    claim_eq("builder", w, want);
}
fn poisson() {
    poisson_n(25)
}
fn poisson_long() {
    poisson_n(120)
}
/// counts where implementations change their method
fn poisson_large() {
    let l = sym_pos("l");
    let k = [20u64, 21, 22, 30, 31, 32, 33, 50, 63, 64, 65, 100, 101, 127, 128, 129, 170, 171, 172, 200, 255, 256, 257, 300, 500, 1000, 1024, 2000][pick("k", 28)];
    let d = Poisson::new(l);
    let v: f64 = d.log_density_wrt_root(&k);
    claim_eq("formula", v, (k as f64) * l.ln() - l - lgamma(k as f64 + 1.0));
    let w: f64 = d.log_density().at(&k);
    claim_eq("builder", w, v);
}
/// probabilities close to zero and one, large counts, extreme rates
fn wide() {
    let p = sym_in("p", 1e-300, 1.0 - 1e-9);
    let n = sym_u64("n", 1, 1_000_000_000);
    let k = sym_u64("k", 0, 1_000_000_000);
    let (nf, kf) = (n as f64, k as f64);
    let v: f64 = Geometric::new(p).log_density_wrt_root(&k);
    claim_eq("geometric", v, if k == 0 { f64::NEG_INFINITY } else { (kf - 1.0) * (1.0 - p).ln() + p.ln() });
    let v: f64 = NegativeBinomial::new(n, p).log_density_wrt_root(&k);
    claim_eq("negative binomial", v, lgamma(kf + nf) - lgamma(kf + 1.0) - lgamma(nf) + kf * p.ln() + nf * (1.0 - p).ln());
    let v: f64 = Binomial::new(n, p).log_density_wrt_root(&k);
    claim_eq("binomial", v, if k > n { f64::NEG_INFINITY } else { spec::lnchoose(nf, kf) + kf * p.ln() + (nf - kf) * (1.0 - p).ln() });
}
fn wide_bits() {
    let p = sym_in("p", 1e-300, 1.0 - 1e-9);
    for x in 0..3u8 {
        let v: f64 = Bernoulli::new(p).log_density().at(&x);
        claim_eq(&format!("bernoulli {x}"), v, if x == 0 { (1.0 - p).ln() } else if x == 1 { p.ln() } else { f64::NEG_INFINITY });
    }
    let l = sym_in("l", 1e-300, 1e100);
    let k = [0u64, 1, 2, 10, 40, 200][pick("k", 6)];
    let v: f64 = Poisson::new(l).log_density_wrt_root(&k);
    claim_eq("poisson", v, k as f64 * l.ln() - l - spec::lnfact(k));
}
/// outcomes of probability zero and one
fn certain() {
    let p = [0.0, 1.0][pick("p", 2)];
    let n = sym_u64("n", 0, 1_000_000);
    let k = sym_u64("k", 0, 2_000_000);
    let only = |yes: bool| if yes { 0.0 } else { f64::NEG_INFINITY };
    let v: f64 = Binomial::new(n, p).log_density_wrt_root(&k);
    claim_eq("binomial", v, only(if p == 0.0 { k == 0 } else { k == n }));
    let v: f64 = Binomial::new(n, p).log_density().at(&k);
    claim_eq("binomial, builder", v, only(if p == 0.0 { k == 0 } else { k == n }));
    let v: f64 = Geometric::new(1.0).log_density_wrt_root(&k);
    claim_eq("geometric", v, only(k == 1));
    for x in 0..3u8 {
        let v: f64 = Bernoulli::new(p).log_density_wrt_root(&x);
        claim_eq(&format!("bernoulli {x}"), v, only(x as f64 == p));
    }
    let i = pick("category", 4);
    let d = Categorical::new((0..4).map(|j| if i == j { 1.0 } else { 0.0 }).collect());
    for x in 0..6usize {
        let v: f64 = d.log_density_wrt_root(&x);
        claim_eq(&format!("categorical {x}"), v, only(x == i));
    }
}
/// ratio of consecutive probabilities
fn poisson_ratio() {
    let l = sym_pos("l");
    let k = sym_u64("k", 0, 20);
    let d = Poisson::new(l);
    let (a, b): (f64, f64) = (d.log_density_wrt_root(&k), d.log_density_wrt_root(&(k + 1)));
    claim_eq("P(k+1)/P(k) = l/(k+1)", b - a, l.ln() - ((k + 1) as f64).ln());
}
fn poisson_default() {
    let k = sym_u64("k", 0, 12);
    let v: f64 = Poisson::<f64>::default().log_density_wrt_root(&k);
    claim_eq("rate one", v, -1.0 - spec::lnfact(k));
}

pub const S: &[Scenario] = &[
    ("C02.bernoulli", bernoulli),
    ("C02.bernoulli_default", bernoulli_default),
    ("C02.binomial", binomial),
    ("C02.binomial_mass", binomial_mass),
    ("C02.categorical", categorical),
    ("C02.categorical_many", categorical_many),
    ("C02.categorical_uniform", categorical_uniform),
    ("C02.geometric", geometric),
    ("C02.geometric_default", geometric_default),
    ("C02.negative_binomial", negative_binomial),
    ("C02.poisson", poisson),
    ("C02.poisson_large", poisson_large),
    ("C02.wide", wide),
    ("C02.wide_bits", wide_bits),
    ("C02.certain", certain),
    ("C02.t.poisson_long", poisson_long),
    ("C02.poisson_ratio", poisson_ratio),
    ("C02.poisson_default", poisson_default),
];
