//! Dense vectors, derived operations, the key extension, wrappers.
use crate::h::{eq, Res, H};
use crate::keys::{depth, index, key, start, word};
use rustyalgebra::basis::*;
use rustyalgebra::free_tensor::{DenseTensor, TensorBasis, TensorKey};
use rustyalgebra::vector::*;
use std::ops::{Deref, DerefMut};

pub type V<const N: u32> = SimpleDenseVector<'static, TensorBasis<N>, f64>;
pub type D<const N: u32> = DenseTensor<'static, f64, N>;

/// a wrapper as a user would write one
#[derive(PartialEq)]
pub struct Wr<const N: u32>(pub V<N>);
impl<const N: u32> Deref for Wr<N> { type Target = V<N>; fn deref(&self) -> &V<N> { &self.0 } }
impl<const N: u32> DerefMut for Wr<N> { fn deref_mut(&mut self) -> &mut V<N> { &mut self.0 } }
impl<const N: u32> From<V<N>> for Wr<N> { fn from(v: V<N>) -> Self { Wr(v) } }

pub fn coeffs<const N: u32>(v: &V<N>) -> Vec<f64> { DenseVector::as_slice(v).to_vec() }
pub fn at_<T: Copy>(v: &[T], i: usize, z: T) -> T { v.get(i).copied().unwrap_or(z) }
pub fn at(v: &[f64], i: usize) -> f64 { v.get(i).copied().unwrap_or(0.0) }
/// equal up to stored zeros at the end
pub fn same(what: &str, got: &[f64], want: &[f64]) -> Res {
    for i in 0..got.len().max(want.len()) {
        if at(got, i) != at(want, i) && !(at(got, i).is_nan() && at(want, i).is_nan()) { return Err(format!("{what}: coefficient {i} is {}, want {} (stored {} of {})", at(got, i), at(want, i), got.len(), want.len())); }
    }
    Ok(())
}
/// how many indices the basis has, at most cap
pub fn room<const N: u32>(cap: u128) -> usize { start(N, depth::<N>().min(64) + 1).min(cap) as usize }

/// a small non-zero integer
fn val(h: &mut H) -> f64 { let x = h.below(19) as f64 - 9.0; if x == 0.0 { 11.0 } else { x } }
fn vals(h: &mut H, n: usize) -> Vec<f64> {
    let zero = h.below(3) == 0;
    (0..n).map(|_| if zero && h.below(2) == 0 { 0.0 } else { val(h) }).collect()
}
/// lengths of stored coefficients worth trying: few, starts of degrees and around them, numbers of the source
pub fn lens<const N: u32>(cap: usize) -> Vec<usize> {
    let r = room::<N>(cap as u128);
    let mut v: Vec<usize> = (0..12).collect();
    for d in 0..=depth::<N>().min(64) + 1 {
        let s = start(N, d);
        if s <= cap as u128 { let s = s as usize; v.extend([s.saturating_sub(1), s, s + 1]); }
    }
    v.extend(crate::MINED.iter().filter(|x| **x <= cap as u64).map(|x| *x as usize));
    v.sort(); v.dedup();
    v.into_iter().filter(|x| *x <= r).collect()
}
pub fn show(v: &[f64]) -> String { if v.len() <= 12 { format!("{v:?}") } else { format!("{:?}.. ({} coefficients)", &v[..8], v.len()) } }

macro_rules! for_dense {
    ($f:ident, $h:expr) => {{ each!($f, $h, 1 2 3 4 5 6 7 8 10 16 26 64 100 300 1000); extra_small!($f, $h); }};
}

fn c07_n<const N: u32>(h: &mut H) {
    let cap = 900usize;
    let r = room::<N>(cap as u128);
    // one key: every small index, the first and last of each degree
    let mut is: Vec<usize> = (0..r.min(160)).collect();
    is.extend(lens::<N>(cap).into_iter().filter(|x| *x < r));
    for i in is {
        let w = word(N, i as u128);
        let s = val(h);
        h.case(|| format!("N={N} from_key({w:?}), from_key_scalar({w:?}, {s})"), || {
            let mut want = vec![0.0; i + 1];
            want[i] = 1.0;
            same("from_key", &coeffs(&V::<N>::from_key(key::<N>(&w))), &want)?;
            want[i] = s;
            let v = V::<N>::from_key_scalar(key::<N>(&w), s);
            same("from_key_scalar", &coeffs(&v), &want)?;
            eq("get", v.get(key::<N>(&w)).copied(), Some(s))?;
            let v = V::<N>::from_iterator(vec![(key::<N>(&w), s)]);
            same("from_iterator of one", &coeffs(&v), &want)?;
            let v = V::<N>::from_iterator(vec![(key::<N>(&w), s), (key::<N>(&w), 3.0)]);
            want[i] = s + 3.0;
            same("from_iterator of one key twice", &coeffs(&v), &want)
        });
    }
    for n in lens::<N>(cap) {
        h.case(|| format!("N={N} from_dimension({n})"), || eq("from_dimension", coeffs(&V::<N>::from_dimension(n)), vec![0.0; n]));
    }
    h.case(|| format!("N={N} empty"), || {
        same("from no pairs", &coeffs(&V::<N>::from_iterator(vec![])), &[])?;
        same("new", &coeffs(&<V<N> as Vector>::new()), &[])
    });
    let mut counts: Vec<usize> = vec![2, 2, 3, 3, 4, 5, 6, 8, 13, 21, 34, 60, 200];
    counts.extend(crate::MINED.iter().filter(|x| **x > 1 && **x < 400).map(|x| *x as usize));
    for n in counts {
        for mode in 0..6 {
            let top = match mode { 0 => r, 1 => 3.min(r), 2 => (N as usize + 1).min(r), _ => (1 + h.below(r as u64) as usize).min(r) };
            let mut pairs: Vec<(usize, f64)> = (0..n).map(|_| (h.below(top as u64) as usize, val(h))).collect();
            if mode == 3 { pairs.sort_by_key(|p| p.0); }
            if mode == 4 { pairs.sort_by_key(|p| std::cmp::Reverse(p.0)); }
            if mode == 5 { let k = pairs[0]; pairs[n - 1] = (k.0, -k.1); }
            if mode >= 2 && h.below(2) == 0 { for _ in 0..1 + n / 6 { let i = h.below(n as u64) as usize; pairs[i].1 = 0.0; } }
            let nm = format!("N={N} from_iterator of {:?}{}", &pairs[..n.min(12)].iter().map(|p| (word(N, p.0 as u128), p.1)).collect::<Vec<_>>(), if n > 12 { format!(".. ({n} pairs)") } else { String::new() });
            h.case(|| nm.clone(), || {
                let mut want = vec![0.0; r];
                for p in &pairs { want[p.0] += p.1; }
                let v = V::<N>::from_iterator(pairs.iter().map(|p| (key::<N>(&word(N, p.0 as u128)), p.1)));
                same("sum of the pairs", &coeffs(&v), &want)
            });
        }
    }
    // few pairs far apart
    let r = room::<N>(140_000);
    for t in 0..24 {
        if r < 300 || h.full() { break; }
        let big = [255, 256, 257, 65535, 65536, 65537, 65536 + 9, r as u64 - 1];
        let mut pairs: Vec<(usize, f64)> = (0..2 + t % 3).map(|_| (match h.below(3) { 0 => big[h.below(8) as usize], 1 => h.below(r as u64), _ => h.below(400) } as usize % r, val(h))).collect();
        if t % 4 == 0 { pairs.sort_by_key(|p| std::cmp::Reverse(p.0)); }
        let nm = format!("N={N} from_iterator of {:?}", pairs.iter().map(|p| (word(N, p.0 as u128), p.1)).collect::<Vec<_>>());
        h.case(|| nm.clone(), || {
            let v = V::<N>::from_iterator(pairs.iter().map(|p| (key::<N>(&word(N, p.0 as u128)), p.1)));
            for p in &pairs {
                let want: f64 = pairs.iter().filter(|q| q.0 == p.0).map(|q| q.1).sum();
                eq("coefficient", v.get(key::<N>(&word(N, p.0 as u128))).copied(), Some(want))?;
            }
            eq("number of other coefficients", DenseVector::as_slice(&v).iter().enumerate().filter(|(i, x)| **x != 0.0 && !pairs.iter().any(|p| p.0 == *i)).count(), 0)
        });
    }
}
pub fn c07(h: &mut H) { for_dense!(c07_n, h); }

/// a vector with a past: its storage has held more coefficients than it has now
fn worn<const N: u32>(a: &[f64], k: usize, how: u64) -> V<N> {
    let mut v = V::<N>::from(a.to_vec());
    match how {
        0 => v.resize(k),
        1 => { v.clear(); v.resize(k); }
        2 => { v.resize(k); let mut w = V::<N>::from(vec![]); w.swap(&mut v); v = w; }
        3 => { v.resize(a.len() + 3); v.resize(k); }
        _ => { v.clear(); }
    }
    v
}
/// calls f with the coefficients, how many of them to keep, and the kind of past
fn worns<const N: u32>(h: &mut H, cap: usize, mut f: impl FnMut(&mut H, Vec<f64>, usize, u64)) {
    let ls = lens::<N>(cap);
    for l in ls.iter().copied() {
        for how in 0..5 {
            if h.full() { return; }
            let k = match h.below(4) { 0 => l.saturating_sub(1), 1 => 0, 2 => l / 2, _ => h.below(l as u64 + 1) as usize };
            let a = (0..l).map(|_| val(h)).collect();
            f(h, a, k, how);
        }
    }
}

fn c08_n<const N: u32>(h: &mut H) {
    let cap = 500usize;
    let r = room::<N>(cap as u128);
    let ls = lens::<N>(cap);
    for l in ls.clone() {
        let mut is: Vec<usize> = (0..r.min(20)).collect();
        for x in &ls { is.push(*x); }
        is.extend([l.saturating_sub(1), l, l + 1]);
        is.sort(); is.dedup();
        for i in is.into_iter().filter(|i| *i < r) {
            let a = vals(h, l);
            let s = val(h) * 3.0;
            let w = word(N, i as u128);
            h.case(|| format!("N={N} vector {}, key {w:?}, value {s}", show(&a)), || {
                let k = key::<N>(&w);
                let mut v = V::<N>::from(a.clone());
                eq("get", v.get(&k).copied(), a.get(i).copied())?;
                eq("get by value", v.get(k.clone()).copied(), a.get(i).copied())?;
                eq("get changes nothing", coeffs(&v), a.clone())?;
                let mut want = a.clone();
                match v.get_mut(&k) {
                    Some(x) => {
                        eq("get_mut stored", i < l, true)?;
                        eq("get_mut", *x, a[i])?;
                        *x = s;
                        want[i] = s;
                    }
                    None => eq("get_mut gives nothing", i >= l, true)?,
                }
                eq("after get_mut", coeffs(&v), want)?;
                let mut v = V::<N>::from(a.clone());
                v.insert_single(&k, s);
                let mut want = a.clone();
                if i >= l { want.resize(i + 1, 0.0); }
                want[i] = s;
                same("after insert_single", &coeffs(&v), &want)?;
                eq("get after insert_single", v.get(&k).copied(), Some(s))?;
                v.insert_single(&k, s + 1.0);
                want[i] = s + 1.0;
                same("after the second insert_single", &coeffs(&v), &want)?;
                v.insert_single(&k, 0.0);
                want[i] = 0.0;
                same("after inserting zero", &coeffs(&v), &want)?;
                let mut v = V::<N>::from(a.clone());
                v.insert_single(&k, 0.0);
                let mut want = a.clone();
                if i < l { want[i] = 0.0; }
                same("after inserting zero at once", &coeffs(&v), &want)?;
                eq("get after inserting zero", v.get(&k).copied(), Some(0.0))?;
                let mut v = V::<N>::from(a.clone());
                v.erase(&k);
                let mut want = a.clone();
                if i < l { want[i] = 0.0; }
                same("after erase", &coeffs(&v), &want)?;
                eq("get after erase", v.get(&k).copied(), a.get(i).map(|_| 0.0))?;
                // by position
                let j = (i + 1 + i % 3).min(l + 1);
                let mut v = V::<N>::from(a.clone());
                eq("one by position", v.get_slice(i).copied(), a.get(i).copied())?;
                eq("stretch", v.get_slice(i..j), a.get(i..j))?;
                eq("stretch to the end", v.get_slice(i..), a.get(i..))?;
                eq("stretch from the start", v.get_slice(..i), a.get(..i))?;
                eq("stretch with its end", v.get_slice(i..=j), a.get(i..=j))?;
                eq("all", v.get_slice(..), Some(&a[..]))?;
                let mut want = a.clone();
                match v.get_mut_slice(i..j) {
                    Some(x) => { eq("stretch to write", Some(&*x), a.get(i..j))?; x.fill(s); want[i..j].fill(s); }
                    None => eq("no stretch to write", a.get(i..j).is_none(), true)?,
                }
                same("after writing a stretch", &coeffs(&v), &want)?;
                match v.get_mut_slice(i) {
                    Some(x) => { *x = s + 2.0; want[i] = s + 2.0; }
                    None => eq("nothing to write", i >= l, true)?,
                }
                same("after writing by position", &coeffs(&v), &want)
            });
        }
    }
}
fn c08_worn<const N: u32>(h: &mut H) {
    worns::<N>(h, 300, |h, a, k, how| {
        let i = k + h.below((a.len() - k) as u64 + 2) as usize;
        if i >= room::<N>(300) { return; }
        let w = word(N, i as u128);
        h.case(|| format!("N={N} vector of {} coefficients cut down to {k} (past {how}), insert_single at {w:?}", a.len()), || {
            let mut v = worn::<N>(&a, k, how);
            let mut want = coeffs(&v);
            v.insert_single(&key::<N>(&w), 5.0);
            if want.len() <= i { want.resize(i + 1, 0.0); }
            want[i] = 5.0;
            same("after insert_single", &coeffs(&v), &want)
        });
    });
}
pub fn c08(h: &mut H) { for_dense!(c08_worn, h); for_dense!(c08_n, h); }

/// pairs of lengths, each with values
fn pairs<const N: u32>(h: &mut H, cap: usize, mut f: impl FnMut(&mut H, Vec<f64>, Vec<f64>)) {
    let ls = lens::<N>(cap);
    for (x, l) in ls.iter().enumerate() {
        for (y, m) in ls.iter().enumerate() {
            if h.full() { return; }
            if x > 14 && y > 14 && x != y && x != y + 1 && y != x + 1 && h.below(6) != 0 { continue; }
            let a = vals(h, *l);
            let b = match h.below(8) {
                0 => a.iter().chain(std::iter::repeat(&0.0)).take(*m).copied().collect(),
                1 => a.iter().chain(std::iter::repeat(&1.0)).take(*m).map(|x| -x).collect(),
                _ => vals(h, *m),
            };
            f(h, a, b);
        }
    }
    // a few that are long
    let r = room::<N>(70_000);
    for (l, m) in [(65535, 65536), (65536, 65536), (65537, 65536), (65536, 65537), (65537, 1), (1, 65537), (1000, 65535), (66000, 4097)] {
        if h.full() || l > r || m > r || N > 4 && N != 300 { return; }
        let (a, b) = (vals(h, l), vals(h, m));
        f(h, a, b);
    }
}
fn zip(a: &[f64], b: &[f64], f: impl Fn(f64, f64) -> f64) -> Vec<f64> { (0..a.len().max(b.len())).map(|i| f(at(a, i), at(b, i))).collect() }
const SCALARS: &[f64] = &[2.0, -1.0, 1.0, 3.0, 0.5, -7.0, 10.0];
fn special(h: &mut H) -> f64 { let i = h.below(SCALARS.len() as u64); SCALARS[i as usize] }

fn c09_n<const N: u32>(h: &mut H) {
    pairs::<N>(h, 400, |h, a, b| {
        let (s, q) = (if h.below(5) == 0 { 0.0 } else { special(h) }, special(h));
        h.case(|| format!("N={N} a={} b={} s={s} q={q}", show(&a), show(&b)), || {
            let va = || V::<N>::from(a.clone());
            let vb = V::<N>::from(b.clone());
            let mut x = va(); x.uminus_inplace();
            same("negated", &coeffs(&x), &a.iter().map(|x| -x).collect::<Vec<_>>())?;
            let mut x = va();
            let y = coeffs(x.add_inplace(&vb));
            eq("returned vector", y, coeffs(&x))?;
            same("sum", &coeffs(&x), &zip(&a, &b, |x, y| x + y))?;
            let mut x = va(); x.add_inplace(V::<N>::from(b.clone()));
            same("sum by value", &coeffs(&x), &zip(&a, &b, |x, y| x + y))?;
            let mut x = va(); x.sub_inplace(&vb);
            same("difference", &coeffs(&x), &zip(&a, &b, |x, y| x - y))?;
            same("right operand", &coeffs(&vb), &b)?;
            let mut x = va(); x.scalar_lmultiply_inplace(s);
            same("left multiple", &coeffs(&x), &a.iter().map(|x| x * s).collect::<Vec<_>>())?;
            let mut x = va(); x.scalar_rmultiply_inplace(s);
            same("right multiple", &coeffs(&x), &a.iter().map(|x| x * s).collect::<Vec<_>>())?;
            let mut x = va(); x.scalar_rdivide_inplace(q);
            same("quotient", &coeffs(&x), &a.iter().map(|x| x / q).collect::<Vec<_>>())?;
            let mut x = va(); x.scalar_ldivide_inplace(q);
            same("left quotient", &coeffs(&x), &a.iter().map(|x| x / q).collect::<Vec<_>>())?;
            // every coefficient takes part, also where the scalar operation gives no number
            for s in [0.0, f64::INFINITY, f64::NAN, 3.0] {
                let mut x = va(); x.scalar_lmultiply_inplace(s);
                same(&format!("left multiple by {s}"), &coeffs(&x), &a.iter().map(|x| x * s).collect::<Vec<_>>())?;
                let mut x = va(); x.scalar_rmultiply_inplace(s);
                same(&format!("right multiple by {s}"), &coeffs(&x), &a.iter().map(|x| x * s).collect::<Vec<_>>())?;
                let mut x = va(); x.scalar_rdivide_inplace(s);
                same(&format!("quotient by {s}"), &coeffs(&x), &a.iter().map(|x| x / s).collect::<Vec<_>>())?;
                let mut x = va(); x.scalar_ldivide_inplace(s);
                same(&format!("left quotient by {s}"), &coeffs(&x), &a.iter().map(|x| x / s).collect::<Vec<_>>())?;
            }
            Ok(())
        });
    });
}
fn c09_worn<const N: u32>(h: &mut H) {
    worns::<N>(h, 300, |h, a, k, how| {
        let b = { let n = (k + h.below(a.len() as u64 + 1) as usize).min(room::<N>(300)); vals(h, n) };
        h.case(|| format!("N={N} vector of {} coefficients cut down to {k} (past {how}), b={}", a.len(), show(&b)), || {
            let mut v = worn::<N>(&a, k, how);
            let c = coeffs(&v);
            v.add_inplace(&V::<N>::from(b.clone()));
            same("sum", &coeffs(&v), &zip(&c, &b, |x, y| x + y))?;
            let mut v = worn::<N>(&a, k, how);
            v.sub_inplace(&V::<N>::from(b.clone()));
            same("difference", &coeffs(&v), &zip(&c, &b, |x, y| x - y))?;
            let mut v = worn::<N>(&a, k, how);
            v.scalar_rmultiply_inplace(2.0);
            same("multiple", &coeffs(&v), &c.iter().map(|x| x * 2.0).collect::<Vec<_>>())
        });
    });
}
pub fn c09(h: &mut H) { for_dense!(c09_worn, h); for_dense!(c09_n, h); }

fn derived<T>(a: &[f64], b: &[f64], s: f64, q: f64, make: impl Fn(&[f64]) -> T, show: impl Fn(&T) -> Vec<f64>) -> Res
    where T: Vector<'static, ScalarType = f64, RationalType = f64>
{
    let (va, vb) = (make(a), make(b));
    let m = |v: &[f64], f: &dyn Fn(f64) -> f64| v.iter().map(|x| f(*x)).collect::<Vec<f64>>();
    same("negation", &show(&va.uminus()), &m(a, &|x| -x))?;
    same("sum", &show(&va.add(&vb)), &zip(a, b, |x, y| x + y))?;
    same("sum by value", &show(&va.add(make(b))), &zip(a, b, |x, y| x + y))?;
    same("difference", &show(&va.sub(&vb)), &zip(a, b, |x, y| x - y))?;
    same("right multiple", &show(&va.scalar_rmultiply(s)), &m(a, &|x| x * s))?;
    same("left multiple", &show(&va.scalar_lmultiply(s)), &m(a, &|x| x * s))?;
    same("right quotient", &show(&va.scalar_rdivide(q)), &m(a, &|x| x / q))?;
    same("left quotient", &show(&va.scalar_ldivide(q)), &m(a, &|x| x / q))?;
    same("left operand", &show(&va), a)?;
    let fused: Vec<(&str, Box<dyn Fn(&mut T)>, Vec<f64>)> = vec![
        ("add_scalar_rmultiply", Box::new(|x: &mut T| { x.add_scalar_rmultiply(&vb, s); }), zip(a, b, |x, y| x + y * s)),
        ("add_scalar_lmultiply", Box::new(|x: &mut T| { x.add_scalar_lmultiply(&vb, s); }), zip(a, b, |x, y| x + y * s)),
        ("sub_scalar_rmultiply", Box::new(|x: &mut T| { x.sub_scalar_rmultiply(&vb, s); }), zip(a, b, |x, y| x - y * s)),
        ("sub_scalar_lmultiply", Box::new(|x: &mut T| { x.sub_scalar_lmultiply(&vb, s); }), zip(a, b, |x, y| x - y * s)),
        ("add_scalar_rdivide", Box::new(|x: &mut T| { x.add_scalar_rdivide(&vb, q); }), zip(a, b, |x, y| x + y / q)),
        ("add_scalar_ldivide", Box::new(|x: &mut T| { x.add_scalar_ldivide(&vb, q); }), zip(a, b, |x, y| x + y / q)),
        ("sub_scalar_rdivide", Box::new(|x: &mut T| { x.sub_scalar_rdivide(&vb, q); }), zip(a, b, |x, y| x - y / q)),
        ("sub_scalar_ldivide", Box::new(|x: &mut T| { x.sub_scalar_ldivide(&vb, q); }), zip(a, b, |x, y| x - y / q)),
        ("scalar_rmultiply_inplace", Box::new(|x: &mut T| { x.scalar_rmultiply_inplace(s); }), m(a, &|x| x * s)),
        ("scalar_ldivide_inplace", Box::new(|x: &mut T| { x.scalar_ldivide_inplace(q); }), m(a, &|x| x / q)),
    ];
    for (n, f, want) in fused.iter() {
        let mut x = make(a);
        f(&mut x);
        same(n, &show(&x), want)?;
    }
    same("right operand", &show(&vb), b)
}

fn c10_n<const N: u32>(h: &mut H) {
    pairs::<N>(h, 300, |h, a, b| {
        // divisions by powers of two only where results are added, so that every order of operations is exact
        let s = if h.below(6) == 0 { 0.0 } else { special(h) };
        let q = [2.0, -4.0, 0.5, 1.0, -1.0, 8.0][h.below(6) as usize];
        h.case(|| format!("N={N} a={} b={} s={s} q={q}", show(&a), show(&b)), || {
            derived(&a, &b, s, q, |x| V::<N>::from(x.to_vec()), |v| coeffs(v))?;
            // the same vector on both sides
            let v = V::<N>::from(a.clone());
            same("a + a", &coeffs(&v.add(&v)), &zip(&a, &a, |x, y| x + y))?;
            same("a - a", &coeffs(&v.sub(&v)), &vec![0.0; a.len()])
        });
    });
}
pub fn c10(h: &mut H) { for_dense!(c10_n, h); }

fn c11_n<const N: u32>(h: &mut H) {
    pairs::<N>(h, 400, |h, a, b| {
        let n = { let l = lens::<N>(400); l[h.below(l.len() as u64) as usize] };
        let flip = h.below(a.len() as u64) as usize;
        h.case(|| format!("N={N} a={} b={} resize to {n}, change at {flip}", show(&a), show(&b)), || {
            let (mut va, mut vb) = (V::<N>::from(a.clone()), V::<N>::from(b.clone()));
            eq("size", va.size(), a.len())?;
            let mut c = va.clone();
            eq("clone", coeffs(&c), a.clone())?;
            eq("clone equal", c == va && va == c, true)?;
            for x in DenseVector::as_mut_slice(&mut c).iter_mut() { *x += 1.0; }
            eq("original after changing the clone", coeffs(&va), a.clone())?;
            eq("changed clone", coeffs(&c), a.iter().map(|x| x + 1.0).collect::<Vec<_>>())?;
            let mut c = Vector::to_owned(&va);
            eq("copy", coeffs(&c), a.clone())?;
            for x in DenseVector::as_mut_slice(&mut c).iter_mut() { *x -= 1.0; }
            eq("original after changing the copy", coeffs(&va), a.clone())?;
            eq("equality", va == vb, a == b)?;
            eq("inequality", va != vb, a != b)?;
            eq("inequality", vb != va, a != b)?;
            let mut x = V::<N>::from(a.clone());
            eq("equal to another of the same coefficients", x == va, true)?;
            if !a.is_empty() {
                DenseVector::as_mut_slice(&mut x)[flip] += 1.0;
                eq("equal after a change of one coefficient", x == va, false)?;
                eq("equal after a change of one coefficient, swapped", va == x, false)?;
                eq("different after a change of one coefficient", va != x, true)?;
            }
            if !a.is_empty() {
                // a coefficient that is not equal to itself
                let mut x = a.clone();
                x[flip] = f64::NAN;
                let x = V::<N>::from(x);
                eq("equal to itself with a NaN", x == x, false)?;
                eq("equal to its copy with a NaN", x == x.clone(), false)?;
                let (mut x, mut y) = (a.clone(), a.clone());
                x[flip] = 0.0;
                y[flip] = -0.0;
                eq("equal with zeros of both signs", V::<N>::from(x) == V::<N>::from(y), true)?;
            }
            va.swap(&mut vb);
            eq("swapped, left", coeffs(&va), b.clone())?;
            eq("swapped, right", coeffs(&vb), a.clone())?;
            let mut x = V::<N>::from(a.clone());
            x.resize(n);
            let mut want = a.clone();
            want.resize(n, 0.0);
            eq("resized", coeffs(&x), want)?;
            eq("size", x.size(), n)?;
            let x = V::<N>::from(a.clone());
            eq("degree", VectorWithDegree::degree(&x) as usize, if a.is_empty() { 0 } else { word(N, a.len() as u128 - 1).len() })?;
            eq("slice by range", DenseVector::get_slice(&x, 0..a.len()).map(|s| s.to_vec()), Some(a.clone()))?;
            eq("slice out of range", DenseVector::get_slice(&x, 0..a.len() + 1).is_none(), true)?;
            let mut x = V::<N>::from(a.clone());
            x.clear();
            same("cleared", &coeffs(&x), &[])?;
            x.add_inplace(&va);
            same("cleared plus b", &coeffs(&x), &b)
        });
    });
}
fn c11_worn<const N: u32>(h: &mut H) {
    worns::<N>(h, 300, |h, a, k, how| {
        let n = (k + h.below(a.len() as u64 + 4) as usize).min(room::<N>(300));
        h.case(|| format!("N={N} vector of {} coefficients cut down to {k} (past {how}), resize to {n}", a.len()), || {
            let mut v = worn::<N>(&a, k, how);
            let mut want = if how == 1 || how == 4 { vec![] } else { a[..k].to_vec() };
            if how != 4 { want.resize(k, 0.0); }
            same("cut down", &coeffs(&v), &want)?;
            eq("clone", coeffs(&v.clone()), coeffs(&v))?;
            v.resize(n);
            want.resize(n, 0.0);
            eq("resized", coeffs(&v), want.clone())?;
            v.clear();
            same("cleared", &coeffs(&v), &[])?;
            v.resize(n);
            same("cleared and resized", &coeffs(&v), &[])?;
            eq("size", v.size(), n)
        });
    });
}
pub fn c11(h: &mut H) { for_dense!(c11_worn, h); for_dense!(c11_n, h); }

fn c12_n<const N: u32>(h: &mut H) {
    let cap = 400usize;
    let r = room::<N>(cap as u128);
    let ls = lens::<N>(cap);
    for l in ls.clone() {
        let mut is: Vec<usize> = (0..r.min(12)).collect();
        is.extend(ls.iter());
        is.extend([l.saturating_sub(1), l, l + 1]);
        is.sort(); is.dedup();
        for i in is.into_iter().filter(|i| *i < r) {
            let a = vals(h, l);
            let s = match h.below(8) { 0 => f64::INFINITY, 1 => *a.get(i).unwrap_or(&3.0), 2 => 0.0, _ => val(h) };
            let mut a = a;
            if i < l && h.below(16) == 0 { a[i] = f64::INFINITY; }
            let q = [2.0, -4.0, 0.5, 1.0, -1.0, 8.0][h.below(6) as usize];
            let w = word(N, i as u128);
            h.case(|| format!("N={N} vector {}, key {w:?}, s={s} q={q}", show(&a)), || {
                let k = key::<N>(&w);
                let by = |x: f64| { let mut v = a.clone(); if v.len() <= i { v.resize(i + 1, 0.0); } v[i] += x; v };
                let mut v = V::<N>::from(a.clone()); v.add_scalar_multiply(&k, s);
                same("add_scalar_multiply", &coeffs(&v), &by(s))?;
                let mut v = V::<N>::from(a.clone()); v.sub_scalar_multiply(&k, s);
                same("sub_scalar_multiply", &coeffs(&v), &by(-s))?;
                let mut v = V::<N>::from(a.clone()); v.add_scalar_divide(&k, q);
                same("add_scalar_divide", &coeffs(&v), &by(1.0 / q))?;
                let mut v = V::<N>::from(a.clone()); v.sub_scalar_divide(&k, q);
                same("sub_scalar_divide", &coeffs(&v), &by(-1.0 / q))?;
                v.add_scalar_divide(k.clone(), q).add_scalar_multiply(k.clone(), s);
                same("three in a row", &coeffs(&v), &by(s))
            });
        }
    }
}
pub fn c12(h: &mut H) { for_dense!(c12_n, h); }

/// everything through the wrapper
fn wrapped<T, const N: u32>(h: &mut H, name: &str, make: fn(V<N>) -> T, inner: fn(&T) -> &V<N>)
    where T: Vector<'static, KeyType = TensorKey<N>, ScalarType = f64, RationalType = f64>
{
    let show_ = |t: &T| coeffs(inner(t));
    let r = room::<N>(300);
    for i in 0..r.min(40) {
        let w = word(N, i as u128);
        let s = val(h);
        let nm = format!("{name} N={N} key {w:?} scalar {s}");
        h.case(|| nm.clone(), || {
            let k = key::<N>(&w);
            eq("from_key", show_(&T::from_key(k.clone())), coeffs(&V::<N>::from_key(k.clone())))?;
            eq("from_key_scalar", show_(&T::from_key_scalar(k.clone(), s)), coeffs(&V::<N>::from_key_scalar(k.clone(), s)))?;
            let ps = vec![(k.clone(), s), (TensorKey::<N>::new(), 2.0), (k.clone(), 5.0)];
            eq("from_iterator", show_(&T::from_iterator(ps.clone())), coeffs(&V::<N>::from_iterator(ps)))?;
            eq("new", show_(&T::new()), coeffs(&<V<N> as Vector>::new()))
        });
        let a = { let n = h.below(60).min(r as u64) as usize; vals(h, n) };
        let nm = format!("{name} N={N} vector {} key {w:?} scalar {s}", show(&a));
        h.case(|| nm.clone(), || {
            let k = key::<N>(&w);
            let (mut t, mut v) = (make(V::<N>::from(a.clone())), V::<N>::from(a.clone()));
            eq("get", Vector::get(&t, &k), v.get(&k))?;
            eq("get_mut", Vector::get_mut(&mut t, &k).map(|x| { *x += 1.0; *x }), v.get_mut(&k).map(|x| { *x += 1.0; *x }))?;
            eq("after get_mut", show_(&t), coeffs(&v))?;
            t.insert_single(&k, s); v.insert_single(&k, s);
            eq("insert_single", show_(&t), coeffs(&v))?;
            eq("to_owned", show_(&Vector::to_owned(&t)), coeffs(&v))?;
            t.erase(&k); v.erase(&k);
            eq("erase", show_(&t), coeffs(&v))?;
            let mut u = make(V::<N>::from(vec![7.0, 8.0]));
            t.swap(&mut u);
            eq("swap", (show_(&t), show_(&u)), (vec![7.0, 8.0], coeffs(&v)))?;
            u.clear(); v.clear();
            eq("clear", show_(&u), coeffs(&v))?;
            let (x, y) = (make(V::<N>::from(a.clone())), make(V::<N>::from(a.clone())));
            let z = make(V::<N>::from(vec![1.0; a.len() + 1]));
            eq("equal", x == y, true)?;
            eq("different", x == z, false)?;
            // one that goes on, and one that differs in one place
            let more = make(V::<N>::from(a.iter().copied().chain([0.0]).collect()));
            let inner_more = V::<N>::from(a.iter().copied().chain([0.0]).collect());
            let inner_a = V::<N>::from(a.clone());
            eq("compared with one that goes on", (x == more, more == x, x != more), (inner_a == inner_more, inner_more == inner_a, inner_a != inner_more))?;
            if !a.is_empty() {
                let j = i % a.len();
                let mut b = a.clone();
                b[j] += 1.0;
                let (c, d) = (make(V::<N>::from(b.clone())), V::<N>::from(b));
                eq("compared with one that differs in one place", (x == c, c == x, x != c), (inner_a == d, d == inner_a, inner_a != d))?;
                let mut b = a.clone();
                b[j] = f64::NAN;
                let (c, d) = (make(V::<N>::from(b.clone())), V::<N>::from(b));
                eq("compared with itself, with a NaN", c == c, d == d)?;
            }
            Ok(())
        });
    }
    let ls: Vec<usize> = lens::<N>(100);
    for _ in 0..120 {
        let (l, m) = (ls[h.below(ls.len() as u64) as usize], ls[h.below(ls.len() as u64) as usize]);
        let (a, b) = (vals(h, l), vals(h, m));
        let s = special(h);
        let q = [2.0, -4.0, 0.5, 1.0, -1.0, 8.0][h.below(6) as usize];
        let nm = format!("{name} N={N} a={} b={} s={s} q={q}", show(&a), show(&b));
        h.case(|| nm.clone(), || {
            derived(&a, &b, s, q, |x| make(V::<N>::from(x.to_vec())), |t| show_(t))?;
            let y = make(V::<N>::from(b.clone()));
            let mut x = make(V::<N>::from(a.clone())); x.uminus_inplace();
            same("uminus_inplace", &show_(&x), &a.iter().map(|x| -x).collect::<Vec<_>>())?;
            let mut x = make(V::<N>::from(a.clone())); x.add_inplace(&y);
            same("add_inplace", &show_(&x), &zip(&a, &b, |x, y| x + y))?;
            let mut x = make(V::<N>::from(a.clone())); x.sub_inplace(&y);
            same("sub_inplace", &show_(&x), &zip(&a, &b, |x, y| x - y))?;
            let mut x = make(V::<N>::from(a.clone())); x.scalar_lmultiply_inplace(s);
            same("scalar_lmultiply_inplace", &show_(&x), &a.iter().map(|x| x * s).collect::<Vec<_>>())?;
            let mut x = make(V::<N>::from(a.clone())); x.scalar_rdivide_inplace(q);
            same("scalar_rdivide_inplace", &show_(&x), &a.iter().map(|x| x / q).collect::<Vec<_>>())?;
            same("right operand", &show_(&y), &b)
        });
    }
}
fn c19_n<const N: u32>(h: &mut H) {
    wrapped::<Wr<N>, N>(h, "user's wrapper", |v| Wr(v), |w| &w.0);
    wrapped::<D<N>, N>(h, "dense tensor", |v| D::<N>::from(v), |w| w.deref());
    h.case(|| format!("N={N} dense tensor into a vector"), || {
        let v: V<N> = D::<N>::from(V::<N>::from(vec![1.0, 2.0])).into();
        eq("into", coeffs(&v), vec![1.0, 2.0])
    });
}
pub fn c19(h: &mut H) { for_dense!(c19_n, h); }

#[allow(dead_code)]
fn unused() { let _ = index(1, &[]); }
