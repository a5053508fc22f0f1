//! Searches for the Lie basis: dimensions, degree ranges, packed Hall keys.
use crate::h::*;
use rustyalgebra::lie::verif::{DegreeRangeMap, HallKey};

fn mobius(n: u64) -> i128 {
    let (mut n, mut r, mut p) = (n, 1, 2);
    while p <= n {
        if n % p == 0 {
            n /= p;
            if n % p == 0 { return 0; }
            r = -r;
        }
        p += 1;
    }
    r
}
/// the largest degree whose power fits
fn top(w: u64) -> u64 {
    if w < 2 { return 62; }
    let (mut p, mut n) = (w as u128, 1);
    while p * w as u128 <= i64::MAX as u128 { p *= w as u128; n += 1; }
    n
}
fn level(w: u64, n: u64) -> u128 {
    let mut s: i128 = 0;
    for d in 1..=n { if n % d == 0 { s += mobius(d) * (w as i128).pow((n / d) as u32); } }
    (s / n as i128) as u128
}
pub fn sizes(w: u64) -> Vec<usize> {
    let mut v = vec![0u128];
    for n in 1..=top(w) { let l = v[v.len() - 1]; v.push(l + level(w, n)); }
    v.iter().map(|x| *x as usize).collect()
}
#[cfg(any(feature = "C20", feature = "C21"))]
macro_rules! widths {
    ($f:ident, $h:expr) => {{
        each!($f, $h, 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 21 24 26 31 32 33 63 64 100 127 128 200 255 256 257 1000 1023 1024 4096 32768 65535 65536 65537
            1000000 2097151 2097152 16777216 0x3fffffff 0x7fffffff 0xb504f333 0xb504f332 0xb504f334 0x80000000 0xffffffff);
        extra_widths!($f, $h);
    }};
}
fn new_map<const N: u32>(n: u32) -> DegreeRangeMap<N> { DegreeRangeMap::new(n) }

#[cfg(feature = "C20")]
pub fn c20(h: &mut H) {
    fn f<const N: u32>(h: &mut H) {
        if N == 0 { return; }
        let s = sizes(N as u64);
        for n in 0..s.len() {
            h.case(|| format!("DegreeRangeMap::<{N}>::new({}).get({n})", n + 1), || {
                eq("size", new_map::<N>(n as u32 + 1).get(n as u32).map_err(|_| ()), Ok(s[n]))
            });
        }
    }
    widths!(f, h);
}

#[cfg(feature = "C21")]
pub fn c21(h: &mut H) {
    fn check<const N: u32>(m: &DegreeRangeMap<N>, len: usize, s: &[usize]) -> Res {
        for d in 0..len { eq(&format!("get({d})"), m.get(d as u32).map_err(|_| ()), Ok(s[d]))?; }
        for d in [len as u32, len as u32 + 1, 0x7fffffff, 0xffffffff] { eq(&format!("get({d}) is an error"), m.get(d).is_err(), true)?; }
        let mut keys: Vec<u64> = vec![0, 1, u64::MAX];
        for d in 0..len.min(s.len()) { for x in [-2i64, -1, 0, 1, 2] { keys.push((s[d] as u64).wrapping_add(x as u64)); } if d > 0 { keys.push(((s[d - 1] as u128 + s[d] as u128) / 2) as u64); } }
        for k in keys {
            let want = (0..len).find(|d| k <= s[*d] as u64).map(|d| d as u32).ok_or(());
            eq(&format!("find_deg({k})"), m.find_deg(k).map_err(|_| ()), want)?;
        }
        Ok(())
    }
    fn f<const N: u32>(h: &mut H) {
        if N == 0 { return; }
        let s = sizes(N as u64);
        for n in 0..=s.len() {
            h.case(|| format!("DegreeRangeMap::<{N}>::new({n})"), || check(&new_map::<N>(n as u32), n, &s));
            let step = if s.len() > 20 { 7 } else { 2 };
            for g in (0..s.len()).step_by(step).chain([n.saturating_sub(1), n, n + 1]) {
                if g >= s.len() || h.full() { continue; }
                let g2 = h.below(s.len() as u64) as usize;
                h.case(|| format!("DegreeRangeMap::<{N}>::new({n}); grow({g}); grow({g2})"), || {
                    let mut m = new_map::<N>(n as u32);
                    eq("grow is ok", m.grow(g as u32).is_ok(), true)?;
                    let len = n.max(g + 1);
                    check(&m, len, &s)?;
                    eq("grow is ok", m.grow(g2 as u32).is_ok(), true)?;
                    check(&m, len.max(g2 + 1), &s)
                });
            }
        }
    }
    widths!(f, h);
}

#[cfg(feature = "C22")]
pub fn c22(h: &mut H) {
    fn read<const N: u32>(k: &HallKey<N>, f: [u64; 4]) -> Res {
        eq("index field", k.verif_get_key() as u64, f[0])?;
        eq("left parent", k.get_lparent() as u64, f[1])?;
        eq("right parent", k.get_rparent() as u64, f[2])?;
        eq("degree", k.size() as u64, f[3])?;
        eq("is_letter", k.is_letter(), f[3] == 1)?;
        if f[0] >= 1 { eq("to_index", k.to_index() as u64, f[0] - 1)?; }
        eq("is_valid", k.is_valid(), f != [0; 4])
    }
    fn letters<const N: u32>(h: &mut H) {
        let top = (N as u64).min((1 << 18) - 1);
        let mut ls: Vec<u64> = (1..=top.min(70)).chain([top / 2, top - 1, top]).collect();
        for b in 6..18 { for x in [-1i64, 0, 1] { ls.push(((1i64 << b) + x) as u64); } }
        for m in crate::MINED { ls.push(*m); }
        for l in ls {
            if l < 1 || l > top || h.full() { continue; }
            h.case(|| format!("HallKey::<{N}>::from_letter({l})"), || read(&HallKey::<N>::from_letter(l as u32), [l, 0, l, 1]));
        }
        h.case(|| format!("HallKey::<{N}>::new()"), || read(&HallKey::<N>::new(), [0; 4]));
    }
    letters::<2>(h);
    for_alphabets!(letters, h);
    let pts = |bits: u32| {
        let mut v: Vec<u64> = vec![0, 1, 2, 3];
        for b in 2..=bits { for x in [-1i64, 0, 1] { let y = (1i64 << b) + x; if y < 1 << bits { v.push(y as u64); } } }
        for m in crate::MINED { if *m < 1 << bits { v.push(*m); } }
        v
    };
    let (p, s) = (pts(18), pts(10));
    for i in 0..200000u64 {
        if h.full() { break; }
        let mut f = [0u64; 4];
        for j in 0..4 {
            let v = if j == 3 { &s } else { &p };
            f[j] = match h.below(4) { 0 => 0, 1 => h.below(if j == 3 { 1 << 10 } else { 1 << 18 }), _ => v[h.below(v.len() as u64) as usize] };
        }
        if i < 4 { f = [0; 4]; f[i as usize] = if i == 3 { 1023 } else { (1 << 18) - 1 }; }
        h.case(|| format!("HallKey with the fields {f:?}"), || read(&HallKey::<5>::verif_from_fields(f[0], f[1], f[2], f[3] as u32), f));
    }
}
