//! Products of dense tensors, what is derived from them, power series.
use crate::dense::{at_, lens, show};
use crate::h::{eq, Res, H};
use crate::keys::{depth, start, word};
use rustyalgebra::algebra::Algebra;
use rustyalgebra::basis::*;
use rustyalgebra::coefficients::*;
use rustyalgebra::free_tensor::{FreeTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::*;
use std::borrow::Borrow;
use std::time::Instant;
use std::ops::{Deref, DerefMut};

/// numbers modulo a prime: an exact field, in which also quotients can be compared
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fp(pub u64);
pub const P: u64 = 2147483647;
impl Fp {
    fn pow(self, mut e: u64) -> Fp {
        let (mut b, mut r) = (self.0 as u128, 1u128);
        while e > 0 { if e & 1 == 1 { r = r * b % P as u128; } b = b * b % P as u128; e >>= 1; }
        Fp(r as u64)
    }
}
impl CoefficientBase for Fp {}
impl Commutative for Fp {}
impl From<i8> for Fp { fn from(x: i8) -> Fp { Fp((x as i64).rem_euclid(P as i64) as u64) } }
impl From<i16> for Fp { fn from(x: i16) -> Fp { Fp((x as i64).rem_euclid(P as i64) as u64) } }
impl FromDegreeType for Fp { fn from_degree(d: &u32) -> Fp { Fp(*d as u64 % P) } }
impl CoefficientField for Fp {
    type RationalType = Fp;
    const ZERO: Fp = Fp(0);
    const ONE: Fp = Fp(1);
    const MONE: Fp = Fp(P - 1);
    fn uminus(&self) -> Fp { Fp((P - self.0) % P) }
    fn inv(arg: impl Borrow<Fp>) -> Fp { arg.borrow().pow(P - 2) }
    fn add(&self, o: &Fp) -> Fp { Fp((self.0 + o.0) % P) }
    fn sub(&self, o: &Fp) -> Fp { Fp((self.0 + P - o.0) % P) }
    fn mul(&self, o: &Fp) -> Fp { Fp((self.0 as u128 * o.0 as u128 % P as u128) as u64) }
    fn div(&self, o: &Fp) -> Fp { CoefficientField::mul(self, &o.pow(P - 2)) }
    fn add_inplace(&mut self, o: &Fp) -> &mut Fp { *self = CoefficientField::add(self, o); self }
    fn sub_inplace(&mut self, o: &Fp) -> &mut Fp { *self = CoefficientField::sub(self, o); self }
    fn mul_inplace(&mut self, o: &Fp) -> &mut Fp { *self = CoefficientField::mul(self, o); self }
    fn div_inplace(&mut self, o: &Fp) -> &mut Fp { *self = CoefficientField::div(self, o); self }
}

pub trait Sc: CoefficientField<RationalType = Self> + Copy + std::fmt::Debug + 'static { fn int(x: i16) -> Self; }
impl Sc for Fp { fn int(x: i16) -> Fp { Fp::from(x) } }
impl Sc for f64 { fn int(x: i16) -> f64 { x as f64 } }

pub type W<S, const N: u32> = SimpleDenseVector<'static, TensorBasis<N>, S>;
fn cf<S: Sc, const N: u32>(v: &W<S, N>) -> Vec<S> { DenseVector::as_slice(v).to_vec() }
fn same<S: Sc>(what: &str, got: &[S], want: &[S]) -> Res {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (at_(got, i, S::ZERO), at_(want, i, S::ZERO));
        if g != w { return Err(format!("{what}: coefficient {i} is {g:?}, want {w:?} (stored {} of {})", got.len(), want.len())); }
    }
    Ok(())
}
fn nums<S: Sc>(h: &mut H, n: usize) -> Vec<S> {
    let m = h.below(4);
    (0..n).map(|i| {
        if m == 0 && h.below(2) == 0 { return S::ZERO; }
        if m == 1 && i == 0 { return if h.below(2) == 0 { S::ZERO } else { S::ONE }; }
        let x = h.below(19) as i16 - 9;
        S::int(if x == 0 { 11 } else { x })
    }).collect()
}
/// the product of two lists of coefficients, up to degree d
pub fn prod<S: Sc>(n: u32, a: &[S], b: &[S], d: u32) -> Vec<S> {
    let mut out: Vec<S> = vec![];
    for (j, y) in b.iter().enumerate() {
        let wj = word(n, j as u128).len() as u32;
        if wj > d { break; }
        let p = (n as u128).pow(wj);
        for (i, x) in a.iter().enumerate() {
            let o = i as u128 * p + j as u128;
            if o >= start(n, d + 1) { break; }
            let o = o as usize;
            if out.len() <= o { out.resize(o + 1, S::ZERO); }
            out[o] = out[o].add(&x.mul(y));
        }
    }
    out
}
fn comb<S: Sc>(a: &[S], b: &[S], f: impl Fn(S, S) -> S) -> Vec<S> {
    (0..a.len().max(b.len())).map(|i| f(at_(a, i, S::ZERO), at_(b, i, S::ZERO))).collect()
}
fn shows<S: Sc>(v: &[S]) -> String { if v.len() <= 10 { format!("{v:?}") } else { format!("{:?}.. ({} coefficients)", &v[..5], v.len()) } }

/// factors and a truncation degree whose product has at most about cap coefficients
fn factors<S: Sc, const N: u32>(h: &mut H, cap: usize, tries: usize, mut f: impl FnMut(&mut H, Vec<S>, Vec<S>, Vec<S>, u32)) {
    let ls: Vec<usize> = lens::<N>(cap);
    let top = depth::<N>();
    for t in 0..tries {
        if h.full() { return; }
        let pick = |h: &mut H| if t < ls.len() && h.below(2) == 0 { ls[t] } else { ls[h.below(ls.len() as u64) as usize] };
        let (l, m, o) = (pick(h), pick(h), pick(h));
        let deg = |l: usize| if l == 0 { 0 } else { word(N, l as u128 - 1).len() as u32 };
        let ds: Vec<u32> = (0..=top).filter(|d| start(N, (*d).min(deg(l) + deg(m)) + 1) <= cap as u128 * 2 + 8).collect();
        if ds.is_empty() { continue; }
        let d = match h.below(4) { 0 => *ds.last().unwrap(), 1 => (deg(l) + deg(m)).min(*ds.last().unwrap()), _ => ds[h.below(ds.len().min(8) as u64) as usize] };
        let (a, b, c) = (nums::<S>(h, l), nums::<S>(h, m), nums::<S>(h, o));
        f(h, a, b, c, d);
    }
}
macro_rules! for_tensors {
    ($f:ident, $h:expr) => {{ each!($f, $h, 2 3 1 4 5 7 8 10 16); extra_small!($f, $h); each!($f, $h, 40 100); }};
}

fn c13_s<S: Sc, const N: u32>(h: &mut H, cap: usize, tries: usize) {
    factors::<S, N>(h, cap, tries, |h, a, b, c, d| {
        let nm = format!("N={N} product of {} and {} up to degree {d}, target {}", shows(&a), shows(&b), shows(&c));
        h.case(|| nm.clone(), || {
            let (va, vb) = (W::<S, N>::from(a.clone()), W::<S, N>::from(b.clone()));
            let p = prod(N, &a, &b, d);
            same("product", &cf(&va.multiply(&vb, Some(d))), &p)?;
            same("product by value", &cf(&va.multiply(W::<S, N>::from(b.clone()), Some(d))), &p)?;
            let mut t = W::<S, N>::from(c.clone());
            t.multiply_and_add_into_impl(&va, &vb, |v| v.clone(), Some(d));
            same("accumulated", &cf(&t), &comb(&c, &p, |x, y| x.add(&y)))?;
            let mut t = W::<S, N>::from(c.clone());
            let two = S::int(2);
            t.multiply_and_add_into_impl(&va, &vb, |v| v.mul(&two), Some(d));
            same("accumulated twice the product", &cf(&t), &comb(&c, &p, |x, y| x.add(&y.mul(&two))))?;
            let mut t = W::<S, N>::from(a.clone());
            t.multiply_into_impl(&vb, |v| v.clone(), Some(d));
            same("in place", &cf(&t), &p)?;
            same("square", &cf(&va.multiply(&va, Some(d.min(3)))), &prod(N, &a, &a, d.min(3)))?;
            eq("left factor", cf(&va), a.clone())?;
            eq("right factor", cf(&vb), b.clone())
        });
    });
}
fn c13_n<const N: u32>(h: &mut H) { c13_s::<f64, N>(h, 160, 900); c13_s::<Fp, N>(h, 160, 250); }
/// factors with more coefficients than fit in sixteen bits
fn c13_large<const N: u32>(h: &mut H, sizes: &[(usize, usize, u32)]) {
    for (l, m, d) in sizes {
        if h.full() { return; }
        let (a, b) = (nums::<f64>(h, *l), nums::<f64>(h, *m));
        let nm = format!("N={N} product of {} and {} up to degree {d}", shows(&a), shows(&b));
        h.case(|| nm.clone(), || {
            let (va, vb) = (W::<f64, N>::from(a.clone()), W::<f64, N>::from(b.clone()));
            same("product", &cf(&va.multiply(&vb, Some(*d))), &prod(N, &a, &b, *d))
        });
    }
}
/// factors that store whole degrees, with infinite coefficients: every split of a word counts, so zero times infinity makes the sum not a number
fn c13_nan<const N: u32>(h: &mut H) {
    for (l, m) in [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2)] {
        for t in 0..12 {
            let mut some = |k: u32| (0..start(N, k + 1)).map(|_| match h.below(if t < 6 { 5 } else { 12 }) { 0 => 0.0, 1 => f64::INFINITY, 2 => f64::NEG_INFINITY, x => x as f64 }).collect::<Vec<f64>>();
            let (a, b) = (some(l), some(m));
            let d = l + m;
            h.case(|| format!("N={N} product of {a:?} and {b:?} up to degree {d}"), || {
                let (va, vb) = (W::<f64, N>::from(a.clone()), W::<f64, N>::from(b.clone()));
                let (got, want) = (cf(&va.multiply(&vb, Some(d))), prod(N, &a, &b, d));
                for i in 0..got.len().max(want.len()) {
                    let (g, w) = (at_(&got, i, 0.0), at_(&want, i, 0.0));
                    if g != w && !(g.is_nan() && w.is_nan()) { return Err(format!("product: coefficient {i} is {g:?}, want {w:?}")); }
                }
                Ok(())
            });
        }
    }
}
pub fn c13(h: &mut H) {
    c13_large::<2>(h, &[(262143, 1, 17), (1, 262143, 17), (262143 - 65536, 2, 17), (2, 262143 - 65536, 17), (131071, 3, 17), (3, 131071, 17), (511, 511, 16), (1023, 511, 17)]);
    c13_large::<300>(h, &[(90301, 1, 2), (1, 90301, 2), (90301 - 65536, 1, 2), (1, 90301 - 65536, 2), (301, 301, 2), (300, 290, 2)]);
    c13_large::<16>(h, &[(69905, 5, 4), (17, 4369, 4), (273, 273, 4)]);
    c13_large::<11>(h, &[(133, 12, 3), (12, 133, 3), (1, 1464, 3), (1464, 1, 3), (133, 133, 4)]);
    c13_large::<17>(h, &[(307, 18, 3), (18, 307, 3), (1, 5220, 3), (5220, 1, 3)]);
    c13_large::<29>(h, &[(871, 30, 3), (30, 871, 3), (800, 30, 3), (30, 800, 3), (30, 30, 2)]);
    c13_large::<33>(h, &[(1123, 34, 3), (34, 1123, 3), (34, 1000, 3), (34, 34, 2)]);
    c13_nan::<2>(h); c13_nan::<3>(h);
    for_tensors!(c13_n, h); for_tensors!(c13_n, h); }

/// meant to run under the address sanitizer: everything that works on stored coefficients
pub fn c14(h: &mut H) {
    h.memory_only = true;
    let left = h.deadline.saturating_duration_since(Instant::now());
    let runs: Vec<fn(&mut H)> = vec![c13, crate::dense::c07, crate::dense::c08, crate::dense::c12, crate::dense::c11, crate::dense::c09, crate::dense::c10, c15, c16];
    for (i, f) in runs.iter().enumerate() {
        h.deadline = Instant::now() + left / if i < 2 { 6 } else { 11 };
        f(h);
    }
}

fn c15_s<S: Sc, const N: u32>(h: &mut H) {
    factors::<S, N>(h, 130, 400, |h, a, b, c, d| {
        let k = [2, -1, 1, 4, -2, 0][h.below(6) as usize];
        let q = [2, -1, 1, 4, -8][h.below(5) as usize];
        let (s, q) = (S::int(k), S::int(q));
        h.case(|| format!("N={N} self={} rhs={} receiver={} degree {d} s={s:?} q={q:?}", shows(&a), shows(&b), shows(&c)), || {
            let mk = |x: &Vec<S>| W::<S, N>::from(x.clone());
            let (va, vb) = (mk(&a), mk(&b));
            let (ab, ba) = (prod(N, &a, &b, d), prod(N, &b, &a, d));
            let m = |v: &Vec<S>, f: &dyn Fn(S) -> S| v.iter().map(|x| f(*x)).collect::<Vec<S>>();
            same("multiply", &cf(&va.multiply(&vb, Some(d))), &ab)?;
            let mut t = mk(&a);
            let r = cf(t.multiply_inplace(&vb, Some(d)));
            eq("returned vector", r, cf(&t))?;
            same("multiply_inplace", &cf(&t), &ab)?;
            let mut t = mk(&c); t.add_mul(&va, &vb, Some(d));
            same("add_mul", &cf(&t), &comb(&c, &ab, |x, y| x.add(&y)))?;
            let mut t = mk(&c); t.sub_mul(&va, &vb, Some(d));
            same("sub_mul", &cf(&t), &comb(&c, &ab, |x, y| x.sub(&y)))?;
            same("commutator", &cf(&va.commutator(&vb, Some(d))), &comb(&ab, &ba, |x, y| x.sub(&y)))?;
            let mut t = mk(&a); t.mul_scal_lprod(&vb, s, Some(d));
            same("mul_scal_lprod", &cf(&t), &m(&ab, &|x| s.mul(&x)))?;
            let mut t = mk(&a); t.mul_scal_rprod(&vb, s, Some(d));
            same("mul_scal_rprod", &cf(&t), &m(&ab, &|x| x.mul(&s)))?;
            let mut t = mk(&a); t.mul_rat_ldiv(&vb, q, Some(d));
            same("mul_rat_ldiv", &cf(&t), &m(&ab, &|x| x.div(&q)))?;
            let mut t = mk(&a); t.mul_rat_rdiv(&vb, q, Some(d));
            same("mul_rat_rdiv", &cf(&t), &m(&ab, &|x| x.div(&q)))?;
            eq("self", cf(&va), a.clone())?;
            eq("rhs", cf(&vb), b.clone())
        });
    });
}
fn c15_n<const N: u32>(h: &mut H) { c15_s::<f64, N>(h); c15_s::<Fp, N>(h); }
pub fn c15(h: &mut H) { for_tensors!(c15_n, h); for_tensors!(c15_n, h); }

/// a free tensor as a user would define one
#[derive(PartialEq)]
pub struct Ft<S: Sc, const N: u32, const D: u32>(pub W<S, N>);
impl<S: Sc, const N: u32, const D: u32> Deref for Ft<S, N, D> { type Target = W<S, N>; fn deref(&self) -> &W<S, N> { &self.0 } }
impl<S: Sc, const N: u32, const D: u32> DerefMut for Ft<S, N, D> { fn deref_mut(&mut self) -> &mut W<S, N> { &mut self.0 } }
impl<S: Sc, const N: u32, const D: u32> From<W<S, N>> for Ft<S, N, D> { fn from(v: W<S, N>) -> Self { Ft(v) } }
impl<S: Sc, const N: u32, const D: u32> DenseVector<'static> for Ft<S, N, D> {
    fn as_slice(&self) -> &[S] { DenseVector::as_slice(&self.0) }
    fn as_mut_slice(&mut self) -> &mut [S] { DenseVector::as_mut_slice(&mut self.0) }
}
impl<S: Sc, const N: u32, const D: u32> ResizeableDenseVector<'static> for Ft<S, N, D> {
    fn resize(&mut self, n: usize) { self.0.resize(n) }
}
impl<S: Sc, const N: u32, const D: u32> VectorWithDegree<'static> for Ft<S, N, D> {
    fn degree(&self) -> u32 { VectorWithDegree::degree(&self.0) }
}
impl<S: Sc, const N: u32, const D: u32> FreeTensor<'static, S, N> for Ft<S, N, D> { const MAX_DEGREE: u32 = D; }

fn close<S: Sc>(what: &str, got: &[S], want: &[S]) -> Res { same(what, got, want) }
/// sum of x^k / weight(k)
fn powers<S: Sc>(n: u32, x: &[S], d: u32, mut term: impl FnMut(u32) -> Option<S>) -> Vec<S> {
    let mut p = vec![S::ONE];
    let mut out: Vec<S> = vec![];
    for k in 0..=d {
        if let Some(c) = term(k) {
            let q: Vec<S> = p.iter().map(|y| y.mul(&c)).collect();
            out = comb(&out, &q, |a, b| a.add(&b));
        }
        p = prod(n, &p, x, d);
    }
    out
}
fn c16_d<S: Sc, const N: u32, const D: u32>(h: &mut H) {
    if D > depth::<N>() || start(N, D + 1) > 800 { return; }
    let mut ls = lens::<N>(start(N, D + 1) as usize);
    ls.retain(|l| *l <= start(N, D + 1) as usize);
    for t in 0..(12 + ls.len() * 2) {
        if h.full() { return; }
        let l = if t < ls.len() { ls[t] } else { ls[h.below(ls.len() as u64) as usize] };
        let m = ls[h.below(ls.len() as u64) as usize];
        let (a, b) = (nums::<S>(h, l), nums::<S>(h, m));
        h.case(|| format!("N={N} MAX_DEGREE={D} x={} receiver={}", shows(&a), shows(&b)), || {
            let mk = |x: &Vec<S>| Ft::<S, N, D>(W::<S, N>::from(x.clone()));
            let va = mk(&a);
            let fact = |k: u32| { let mut f = S::ONE; for i in 1..=k { f = f.mul(&S::from_degree(&i)); } f };
            let e = powers(N, &a, D, |k| Some(S::ONE.div(&fact(k))));
            close("exp", &cf(&va.exp().0), &e)?;
            let mut x = a.clone();
            if !x.is_empty() { x[0] = S::ZERO; }
            let e0 = powers(N, &x, D, |k| Some(S::ONE.div(&fact(k))));
            let mut r = mk(&b);
            let got = cf(&r.fmexp(&va).0);
            eq("returned tensor", cf(&r.0), got)?;
            close("fmexp", &cf(&r.0), &prod(N, &b, &e0, D))?;
            let l = powers(N, &x, D, |k| if k == 0 { None } else { let i = S::ONE.div(&S::from_degree(&k)); Some(if k % 2 == 0 { i.uminus() } else { i }) });
            close("log", &cf(&va.log().0), &l)?;
            eq("argument", cf(&va.0), a.clone())
        });
    }
}
macro_rules! degrees { ($h:expr, $n:literal, $($d:literal)*) => { $( c16_d::<Fp, $n, $d>($h); )* }; }
pub fn c16(h: &mut H) {
    degrees!(h, 2, 1 2 3 4 0 5 6 7 8);
    degrees!(h, 3, 2 1 3 4 5);
    degrees!(h, 1, 3 7 10 20 2);
    degrees!(h, 5, 2 3);
    degrees!(h, 4, 2 3 4);
    degrees!(h, 8, 2 3);
    degrees!(h, 20, 1 2);
    degrees!(h, 7, 1 2 3);
}
#[allow(dead_code)]
fn unused<const N: u32>(k: TensorKey<N>) { let _ = (k, show(&[])); }
