//! Searches for sparse vectors, against ordered maps.
use crate::h::*;
use crate::tensor::{Fp, Sc};
use rustyalgebra::basis::Basis;
use rustyalgebra::vector::implementation::SimpleSparseVector;
use rustyalgebra::vector::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Kx(pub u32, pub String);
impl std::fmt::Display for Kx { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{}", self.0) } }
pub struct Bx;
impl Basis for Bx { type KeyType = Kx; }
fn key(i: u32) -> Kx { Kx(i, format!("k{i}")) }
type V<S> = SimpleSparseVector<'static, Bx, S, Kx>;
type M<S> = BTreeMap<Kx, S>;

fn build<S: Sc>(m: &M<S>, how: u64) -> V<S> {
    let mut p: Vec<(Kx, S)> = m.iter().map(|(k, v)| (k.clone(), *v)).collect();
    match how {
        0 => V::<S>::from_iterator(p),
        1 => { p.reverse(); V::<S>::from_iterator(p) }
        2 => { let mut v = V::<S>::new(); for (k, s) in p { v.insert_single(&k, s); } v }
        _ => {
            let mut v = V::<S>::new();
            p.reverse();
            for (k, _) in &p { v.insert_single(k, S::ONE); }
            for (k, s) in &p { v.insert_single(k, *s); }
            v
        }
    }
}
fn stored<S: Sc>(v: &V<S>) -> M<S> { v.into_iter().map(|(k, s)| (k.clone(), *s)).collect() }
fn is<S: Sc>(what: &str, v: &V<S>, m: &M<S>) -> Res {
    eq(&format!("{what}: stored"), stored(v), m.clone())?;
    eq(&format!("{what}: key and value of each entry"), v.into_iter().map(|e| (VectorIteratorItem::key(&e).clone(), *VectorIteratorItem::value(&e))).collect::<M<S>>(), m.clone())?;
    eq(&format!("{what}: number of entries"), v.into_iter().count(), m.len())?;
    for i in 0..12 { eq(&format!("{what}: get({i})"), v.get(key(i)).copied(), m.get(&key(i)).copied())?; }
    Ok(())
}
fn show<S: Sc>(m: &M<S>) -> String { m.iter().take(40).map(|(k, v)| format!("{}:{v:?}", k.0)).collect::<Vec<_>>().join(" ") + &if m.len() > 40 { format!(" .. ({} entries)", m.len()) } else { String::new() } }
/// many keys; every few values of all that are tried, or one value throughout
fn large<S: Sc>(h: &mut H) -> M<S> {
    let sizes = [9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 65, 100, 128, 129, 257];
    let mut n = sizes[h.below(16) as usize];
    let mined: Vec<u64> = crate::MINED.iter().copied().filter(|x| *x < 2000).collect();
    if !mined.is_empty() && h.below(3) == 0 { n = mined[h.below(mined.len() as u64) as usize] + h.below(2); }
    let from = if h.below(2) == 0 { 0 } else { h.below(n + 3) as u32 };
    let fixed = if h.below(4) == 0 { Some(h.below(4) as i16 - 1) } else { None };
    (0..n as u32).map(|i| (key(from + i), S::int(fixed.unwrap_or(h.below(9) as i16 - 4)))).collect()
}
/// all maps on two keys with few values, then random ones
fn some<S: Sc>(h: &mut H) -> M<S> {
    let n = h.below(9);
    let mut m = M::<S>::new();
    for _ in 0..n { let k = h.below(10) as u32; let x = h.below(9) as i16 - 4; m.insert(key(k), S::int(x)); }
    m
}
fn small<S: Sc>(i: u64) -> M<S> {
    let mut m = M::<S>::new();
    let vals = [None, Some(0), Some(1), Some(-1), Some(2)];
    for (j, c) in [i % 5, i / 5 % 5].iter().enumerate() { if let Some(x) = vals[*c as usize] { m.insert(key(j as u32), S::int(x)); } }
    m
}

#[cfg(feature = "C17")]
pub fn c17(h: &mut H) {
    fn one<S: Sc>(h: &mut H, a: M<S>, b: M<S>, s: S) {
        let t = std::any::type_name::<S>();
        let how = h.below(4);
        let cut = |x: Option<&S>, y: Option<&S>, sub: bool| -> Option<S> {
            match (x, y) {
                (Some(x), Some(y)) => { let r = if sub { S::sub(x, y) } else { S::add(x, y) }; if r == S::ZERO { None } else { Some(r) } }
                (Some(x), None) => Some(*x),
                (None, Some(y)) => Some(if sub { S::uminus(y) } else { *y }),
                _ => None,
            }
        };
        for sub in [false, true] {
            h.case(|| format!("{t} {{{}}} {} {{{}}}", show(&a), if sub { "-=" } else { "+=" }, show(&b)), || {
                let (mut v, w) = (build(&a, how), build(&b, 0));
                if sub { v.sub_inplace(&w); } else { v.add_inplace(&w); }
                let mut m = M::<S>::new();
                for k in a.keys().chain(b.keys()) { if let Some(x) = cut(a.get(k), b.get(k), sub) { m.insert(k.clone(), x); } }
                is("left", &v, &m)?;
                is("right", &w, &b)
            });
        }
        h.case(|| format!("{t} -{{{}}}", show(&a)), || {
            let mut v = build(&a, how);
            v.uminus_inplace();
            is("negative", &v, &a.iter().map(|(k, x)| (k.clone(), S::uminus(x))).collect())
        });
        h.case(|| format!("{t} {{{}}} *= {s:?}", show(&a)), || {
            let mut v = build(&a, how);
            v.scalar_lmultiply_inplace(s);
            let m = if s == S::ZERO { M::<S>::new() } else { a.iter().map(|(k, x)| (k.clone(), S::mul(x, &s))).collect() };
            is("product", &v, &m)
        });
        if s != S::ZERO {
            h.case(|| format!("{t} {{{}}} /= {s:?}", show(&a)), || {
                let mut v = build(&a, how);
                v.scalar_rdivide_inplace(s);
                is("quotient", &v, &a.iter().map(|(k, x)| (k.clone(), S::div(x, &s))).collect())
            });
        }
    }
    fn go<S: Sc>(h: &mut H, n: u64) {
        for i in 0..25 { for j in 0..25 { one::<S>(h, small(i), small(j), S::int((j % 5) as i16 - 2)); } }
        for r in 0..n / 8 {
            if h.full() { return; }
            let (mut a, mut b) = (large::<S>(h), large::<S>(h));
            match r % 6 { 0 => a = M::<S>::new(), 1 => b = M::<S>::new(), 2 => b = a.clone(), 3 => b = some(h), 4 => a = some(h), _ => {} }
            let s = S::int(h.below(5) as i16 - 2);
            one::<S>(h, a, b, s);
        }
        for r in 0..n { if h.full() { return; } let (a, b) = (some(h), some(h)); let s = S::int(h.below(9) as i16 - 4); one::<S>(h, a.clone(), if r % 7 == 0 { a } else { b }, s); }
    }
    go::<f64>(h, 2000);
    go::<Fp>(h, 1000);
}

#[cfg(feature = "C25")]
pub fn c25(h: &mut H) {
    fn one<S: Sc>(h: &mut H, a: M<S>, b: M<S>, s: S, k: u32) {
        let t = std::any::type_name::<S>();
        for how in 0..4 {
            h.case(|| format!("{t} build {how} {{{}}}", show(&a)), || is("built", &build(&a, how), &a));
            h.case(|| format!("{t} {{{}}} == {{{}}} (built {how})", show(&a), show(&b)), || {
                let (v, w) = (build(&a, how), build(&b, 3 - how));
                eq("equal", v == w, a == b)?;
                eq("equal, the other way", w == v, a == b)?;
                eq("different", v != w, a != b)?;
                eq("not equal", v != w, a != b)
            });
        }
        h.case(|| format!("{t} {{{}}} insert {k} {s:?}", show(&a)), || {
            let (mut v, mut m) = (build(&a, 0), a.clone());
            v.insert_single(&key(k), s);
            m.insert(key(k), s);
            is("inserted", &v, &m)
        });
        h.case(|| format!("{t} {{{}}} get_mut {k} := {s:?}", show(&a)), || {
            let (mut v, mut m) = (build(&a, 0), a.clone());
            let there = match v.get_mut(key(k)) { Some(x) => { let o = *x; *x = s; Some(o) } None => None };
            eq("found", there, a.get(&key(k)).copied())?;
            if let Some(x) = m.get_mut(&key(k)) { *x = s; }
            is("written", &v, &m)
        });
        h.case(|| format!("{t} {{{}}} clear", show(&a)), || { let mut v = build(&a, 0); v.clear(); is("cleared", &v, &M::<S>::new()) });
        h.case(|| format!("{t} from_key_scalar({k}, {s:?})"), || {
            is("single", &V::<S>::from_key_scalar(key(k), s), &M::<S>::from([(key(k), s)]))?;
            is("single one", &V::<S>::from_key(key(k)), &M::<S>::from([(key(k), S::ONE)]))?;
            is("new", &V::<S>::new(), &M::<S>::new())
        });
    }
    fn go<S: Sc>(h: &mut H, n: u64) {
        for i in 0..25 { for j in 0..25 { one::<S>(h, small(i), small(j), S::int((j % 5) as i16 - 2), (i % 3) as u32); } }
        for r in 0..n {
            if h.full() { return; }
            let (a, mut b) = if r % 8 == 7 { (large::<S>(h), large::<S>(h)) } else { (some::<S>(h), some::<S>(h)) };
            if r % 3 == 0 { b = a.clone(); if let Some(k) = a.keys().nth(h.below(a.len() as u64 + 1) as usize) { b.insert(k.clone(), S::int(9)); } }
            if r % 3 == 1 { b = a.clone(); if let Some(k) = a.keys().nth(h.below(a.len() as u64 + 1) as usize) { b.remove(k); b.insert(key(3000), S::int(1)); } }
            let s = S::int(h.below(9) as i16 - 4);
            let k = h.below(11) as u32;
            one::<S>(h, a, b, s, k);
        }
    }
    go::<f64>(h, 1000);
    go::<Fp>(h, 500);
}

#[cfg(feature = "C12")]
pub fn c12_sparse(h: &mut H) {
    for i in 0..600u64 {
        if h.full() { return; }
        let a = if i < 25 { small::<f64>(i) } else if i % 10 == 0 { large::<f64>(h) } else { some::<f64>(h) };
        let k = key(h.below(12) as u32);
        let s = match a.get(&k) { Some(x) if i % 3 == 0 => *x, Some(x) if i % 3 == 1 => -*x, _ => h.below(9) as f64 - 4.0 };
        let q = [2.0, -4.0, 0.5, 1.0, -1.0, 8.0][h.below(6) as usize];
        h.case(|| format!("sparse vector {{{}}}, key {}, s={s} q={q}", show(&a), k.0), || {
            // a coefficient that is not stored counts as zero
            let by = |x: f64| { let mut m = a.clone(); *m.entry(k.clone()).or_insert(0.0) += x; m };
            let is = |what: &str, v: &V<f64>, m: M<f64>| {
                for x in m.keys().cloned().chain(stored(v).into_keys()) {
                    eq(&format!("{what}: coefficient of {}", x.0), v.get(&x).copied().unwrap_or(0.0), m.get(&x).copied().unwrap_or(0.0))?;
                }
                Ok(())
            };
            let mut v = build(&a, 0); v.add_scalar_multiply(&k, s);
            is("add_scalar_multiply", &v, by(s))?;
            let mut v = build(&a, 0); v.sub_scalar_multiply(&k, s);
            is("sub_scalar_multiply", &v, by(-s))?;
            let mut v = build(&a, 0); v.add_scalar_divide(&k, q);
            is("add_scalar_divide", &v, by(1.0 / q))?;
            let mut v = build(&a, 0); v.sub_scalar_divide(&k, q);
            is("sub_scalar_divide", &v, by(-1.0 / q))
        });
    }
}
