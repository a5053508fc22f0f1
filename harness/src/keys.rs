use crate::h::{eq, Res, H};
use rustyalgebra::basis::*;
use rustyalgebra::free_tensor::{TensorBasis, TensorKey};
use std::cmp::Ordering;

pub fn bits(n: u32) -> u32 { 32 - n.leading_zeros() }
/// the advertised maximal length
pub fn depth<const N: u32>() -> u32 { TensorKey::<N>::max_depth() }
/// number of words shorter than d
pub fn start(n: u32, d: u32) -> u128 {
    let mut s = 0u128;
    for _ in 0..d { s = s * n as u128 + 1; }
    s
}
pub fn index(n: u32, w: &[u32]) -> u128 {
    w.iter().fold(0u128, |a, l| a * n as u128 + *l as u128)
}
pub fn word(n: u32, mut i: u128) -> Vec<u32> {
    let mut w = vec![];
    while i > 0 { i -= 1; w.push((i % n as u128) as u32 + 1); i /= n as u128; }
    w.reverse();
    w
}
pub fn key<const N: u32>(w: &[u32]) -> TensorKey<N> { TensorKey::<N>::from_letters(w) }

/// Words over N letters: all short ones, and for each length extreme and random ones
pub fn words<const N: u32>(h: &mut H, total: usize) -> Vec<Vec<u32>> {
    let d = depth::<N>().min(64);
    let mut v: Vec<Vec<u32>> = vec![];
    let mut i = 0u128;
    let small = total / 3;
    while (i as usize) < small && i < start(N, d + 1) { v.push(word(N, i)); i += 1; }
    let per = ((total - small) / (d as usize + 1)).max(8);
    for len in 1..=d as usize {
        v.push(vec![1; len]);
        v.push(vec![N; len]);
        let mut w = vec![1; len]; w[len - 1] = N; v.push(w);
        let mut w = vec![1; len]; w[0] = N; v.push(w);
        let mut w = vec![N; len]; w[len - 1] = 1; v.push(w);
        let mut w = vec![N; len]; w[0] = 1; v.push(w);
        if N > 2 { let mut w = vec![N; len]; w[len - 1] = N - 1; v.push(w); }
        for _ in 0..per {
            let mode = h.below(4);
            let w: Vec<u32> = (0..len).map(|_| match mode {
                0 => (h.below(N as u64) + 1) as u32,
                1 => if h.below(2) == 0 { 1 } else { N },
                2 => if h.below(3) == 0 { (h.below(N as u64) + 1) as u32 } else { N },
                _ => { let p = 1u64 << h.below(32); let x = if h.below(2) == 0 { p } else { p + 1 }; ((x - 1) % N as u64 + 1) as u32 }
            }).collect();
            v.push(w);
        }
    }
    v
}

fn is_word<const N: u32>(k: &TensorKey<N>, w: &[u32]) -> Res {
    eq("length", k.size() as usize, w.len())?;
    for i in 0..w.len() { eq(&format!("letter {i}"), k.get_letter(i as u32), w[w.len() - 1 - i])?; }
    let mut r = w.to_vec();
    r.reverse();
    eq("letters", k.to_letters(), r)
}

fn c01_n<const N: u32>(h: &mut H) {
    let d = depth::<N>();
    h.case(|| format!("N={N} max_depth"), || {
        if d < 2 { return Err(format!("maximal length {d} is less than two")); }
        if d as u64 * bits(N) as u64 > 64 { return Err(format!("{d} letters of {} bits do not fit", bits(N))); }
        eq("maximal degree", TensorBasis::<N>::max_degree(), d)?;
        is_word(&TensorKey::<N>::new(), &[])
    });
    let total = if N < 40 { 1500 } else { 400 };
    let ws = words::<N>(h, total);
    let mut prev: Option<Vec<u32>> = None;
    for w in ws {
        let p = prev.replace(w.clone());
        h.case(|| format!("N={N} word={w:?} (compared with {p:?})"), || {
            let a = key::<N>(&w);
            is_word(&a, &w)?;
            let mut b = TensorKey::<N>::new();
            for l in w.iter().rev() { b.push_front(*l); }
            is_word(&b, &w)?;
            eq("made in two ways, equal", a == b && b == a && a.clone() == a, true)?;
            if w.len() == 1 {
                let c = TensorKey::<N>::from_letter(w[0]);
                is_word(&c, &w)?;
                eq("from one letter, equal", c == a, true)?;
            }
            if let Some(p) = &p {
                let q = key::<N>(p);
                eq("equality", q == a, *p == w)?;
                eq("inequality", q != a, *p != w)?;
                eq("inequality with itself", a != b, false)?;
            }
            // every proper suffix and prefix is another word
            if w.len() > 1 {
                eq("suffix", key::<N>(&w[1..]) == a, false)?;
                eq("prefix", key::<N>(&w[..w.len() - 1]) == a, false)?;
                let mut x = w.clone();
                x[0] = if x[0] == 1 { N } else { 1 };
                eq("other first letter", key::<N>(&x) == a, x == w)?;
            }
            Ok(())
        });
    }
}
pub fn c01(h: &mut H) { for_alphabets!(c01_n, h); }

fn c02_n<const N: u32>(h: &mut H) {
    let d = depth::<N>() as usize;
    let total = if N < 40 { 800 } else { 300 };
    let ws = words::<N>(h, total);
    for w in ws {
        let mut cuts: Vec<usize> = vec![0, w.len(), w.len() / 2];
        if w.len() > 1 { cuts.push(1); cuts.push(w.len() - 1); cuts.push(h.below(w.len() as u64) as usize); }
        for c in cuts {
            h.case(|| format!("N={N} word={w:?} cut={c}"), || {
                let (a, b) = (key::<N>(&w[..c]), key::<N>(&w[c..]));
                let r = a.concatenate(&b);
                is_word(&r, &w)?;
                eq("equal to the key of the joint word", r == key::<N>(&w), true)?;
                is_word(&a, &w[..c])?;
                is_word(&b, &w[c..])?;
                let e = TensorKey::<N>::new();
                is_word(&e.concatenate(&r), &w)?;
                is_word(&r.concatenate(&e), &w)?;
                if w.len() + 1 <= d {
                    let f = TensorKey::<N>::from_letter(N).concatenate(&r);
                    let mut x = vec![N]; x.extend(&w);
                    is_word(&f, &x)?;
                }
                Ok(())
            });
        }
    }
}
pub fn c02(h: &mut H) { for_alphabets!(c02_n, h); }

pub fn indices<const N: u32>(h: &mut H, total: usize) -> Vec<u128> {
    let d = depth::<N>().min(64);
    let end = start(N, d + 1);
    let mut v: Vec<u128> = (0..(total as u128 / 2).min(end)).collect();
    for k in 0..=d + 1 {
        let s = start(N, k);
        for x in [s.wrapping_sub(2), s.wrapping_sub(1), s, s + 1, s + 2, s + N as u128, s + N as u128 - 1] { if x < end { v.push(x); } }
    }
    let mut p = 1u128;
    while p < end { for x in [p - 1, p, p + 1] { if x < end { v.push(x); } } p *= 2; }
    for _ in 0..total / 2 {
        let k = h.below(d as u64 + 1) as u32;
        let (a, b) = (start(N, k), start(N, k + 1));
        v.push(a + (((h.rnd() as u128) << 64 | h.rnd() as u128) % (b - a)));
    }
    for x in crate::MINED { if (*x as u128) < end { v.push(*x as u128); } }
    v
}

fn c03_n<const N: u32>(h: &mut H) {
    let total = if N < 40 { 1200 } else { 400 };
    for w in words::<N>(h, total) {
        h.case(|| format!("N={N} word={w:?}"), || {
            let k = key::<N>(&w);
            let i = TensorBasis::<N>::key_to_index(&k);
            eq("index", i as u128, index(N, &w))?;
            eq("back", TensorBasis::<N>::index_to_key(i) == k, true)?;
            is_word(&TensorBasis::<N>::index_to_key(i), &w)
        });
    }
    for i in indices::<N>(h, total) {
        h.case(|| format!("N={N} index={i}"), || {
            let k = TensorBasis::<N>::index_to_key(i as usize);
            is_word(&k, &word(N, i))?;
            eq("back", TensorBasis::<N>::key_to_index(&k) as u128, i)
        });
    }
}
/// the same letters over several alphabets in turn: what one alphabet's call leaves behind must not reach another's
fn mixed(h: &mut H, fs: &[(u32, fn(&[u32]) -> Res)]) {
    h.group("several alphabets in turn");
    for len in 0..6usize {
        for m in 0..1usize << len {
            let w: Vec<u32> = (0..len).map(|j| (m >> j & 1) as u32 + 1).collect();
            for k in 0..2 * fs.len() {
                let f = if k < fs.len() { fs[k] } else { fs[2 * fs.len() - 1 - k] };
                if h.full() { return; }
                h.case(|| format!("N={} word={w:?} after the same over another alphabet ({k})", f.0), || f.1(&w));
            }
        }
    }
}
macro_rules! several { ($f:ident) => { &[(2, $f::<2>), (3, $f::<3>), (4, $f::<4>), (5, $f::<5>), (6, $f::<6>), (7, $f::<7>), (8, $f::<8>), (17, $f::<17>), (31, $f::<31>), (64, $f::<64>), (65, $f::<65>)] } }
fn m03<const N: u32>(w: &[u32]) -> Res {
    let i = index(N, w);
    eq("index", TensorBasis::<N>::key_to_index(&key::<N>(w)) as u128, i)?;
    is_word(&TensorBasis::<N>::index_to_key(index(2, w) as usize), &word(N, index(2, w)))?;
    is_word(&TensorBasis::<N>::index_to_key(i as usize), w)
}
fn m04<const N: u32>(w: &[u32]) -> Res {
    type B<const N: u32> = TensorBasis<N>;
    let k = w.len() as u32;
    eq("start", <B<N> as OrderedBasisWithDegree>::start_of_degree(k) as u128, start(N, k))?;
    let i = index(2, w);
    let mut d = 0;
    while start(N, d + 1) <= i { d += 1; }
    eq("degree of index", <B<N> as OrderedBasisWithDegree>::index_to_degree(i as usize), d)?;
    eq("dimension for index", B::<N>::vector_dimension_for_index(i as usize) as u128, start(N, d + 1))?;
    eq("dimension for key", B::<N>::vector_dimension_for_key(&key::<N>(w)) as u128, start(N, k + 1))
}
pub fn c03(h: &mut H) { mixed(h, several!(m03)); for_alphabets!(c03_n, h); }

fn c04_n<const N: u32>(h: &mut H) {
    type B<const N: u32> = TensorBasis<N>;
    let d = depth::<N>();
    for k in 0..=d + 1 {
        h.case(|| format!("N={N} degree={k}"), || eq("start", <B<N> as OrderedBasisWithDegree>::start_of_degree(k) as u128, start(N, k)));
    }
    let total = if N < 40 { 1200 } else { 400 };
    for i in indices::<N>(h, total) {
        h.case(|| format!("N={N} index={i}"), || {
            let mut k = 0;
            while start(N, k + 1) <= i { k += 1; }
            eq("degree of index", <B<N> as OrderedBasisWithDegree>::index_to_degree(i as usize), k)?;
            eq("dimension for index", B::<N>::vector_dimension_for_index(i as usize) as u128, start(N, k + 1))
        });
    }
    for w in words::<N>(h, total / 2) {
        h.case(|| format!("N={N} word={w:?}"), || {
            let k = key::<N>(&w);
            eq("degree", B::<N>::degree(&k) as usize, w.len())?;
            eq("dimension for key", B::<N>::vector_dimension_for_key(&k) as u128, start(N, w.len() as u32 + 1))
        });
    }
}
pub fn c04(h: &mut H) { mixed(h, several!(m04)); for_alphabets!(c04_n, h); }

fn c05_n<const N: u32>(h: &mut H) {
    let ws = words::<N>(h, if N < 40 { 600 } else { 250 });
    let n = ws.len();
    for a in 0..n {
        let mut os = vec![a, (a + 1) % n, (a + 2) % n];
        for _ in 0..4 { os.push(h.below(n as u64) as usize); }
        for b in os {
            let (x, y) = (ws[a].clone(), ws[b].clone());
            h.case(|| format!("N={N} {x:?} against {y:?}"), || {
                let want = index(N, &x).cmp(&index(N, &y));
                eq("order", TensorBasis::<N>::compare(&key(&x), &key(&y)), want)?;
                eq("reverse order", TensorBasis::<N>::compare(&key(&y), &key(&x)), want.reverse())?;
                eq("equal", TensorBasis::<N>::compare(&key(&x), &key(&y)) == Ordering::Equal, x == y)
            });
        }
    }
}
pub fn c05(h: &mut H) { for_alphabets!(c05_n, h); }

type It<const N: u32> = <TensorBasis<N> as OrderedBasis>::KeyIterator;

fn c06_n<const N: u32>(h: &mut H) {
    let d = depth::<N>();
    let end = start(N, d + 1);
    let cap: u128 = if N < 40 { 3000 } else { 400 };
    h.case(|| format!("N={N} the first {} words", cap.min(end)), || {
        let mut it = TensorBasis::<N>::iter_keys();
        let mut i = 0u128;
        while i < cap && i < end {
            let k = it.next().ok_or(format!("ends before index {i}"))?;
            is_word(&k, &word(N, i)).map_err(|e| format!("at index {i}: {e}"))?;
            i += 1;
        }
        if i == end { for _ in 0..3 { eq("after the end", it.next().is_none(), true)?; } }
        Ok(())
    });
    for n in [0usize, 1, 2, 7, 255, 256, 257, 300, 700] {
        if n as u128 >= end.min(800) { continue; }
        h.case(|| format!("N={N} skipping {n} words"), || {
            let mut it = TensorBasis::<N>::iter_keys();
            is_word(&it.nth(n).ok_or("ends")?, &word(N, n as u128))?;
            let (lo, hi) = it.size_hint();
            let left = end - n as u128 - 1;
            if lo as u128 > left || hi.map_or(false, |x| (x as u128) < left) { return Err(format!("says that {lo} to {hi:?} words follow, {left} do")); }
            if left > 0 { is_word(&it.next().ok_or("ends")?, &word(N, n as u128 + 1))?; }
            let v: Vec<_> = TensorBasis::<N>::iter_keys().skip(n).step_by(3).take(4).collect();
            for (j, k) in v.iter().enumerate() { is_word(k, &word(N, n as u128 + 3 * j as u128))?; }
            Ok(())
        });
    }
    let mut ws = words::<N>(h, 60);
    for back in [0u128, 1, 2, N as u128, N as u128 + 1, 2 * N as u128 + 3, 50] { if back < end { ws.push(word(N, end - 1 - back)); } }
    for k in 0..=d { for b in [1u128, 2] { let s = start(N, k + 1); if s >= b { ws.push(word(N, s - b)); } } }
    for w in ws {
        h.case(|| format!("N={N} from {w:?}"), || {
            let mut it = It::<N>::starting_from(key::<N>(&w));
            let mut i = index(N, &w);
            for _ in 0..60 {
                if i == end { for _ in 0..3 { eq("after the end", it.next().is_none(), true)?; } break; }
                let k = it.next().ok_or(format!("ends before index {i}"))?;
                is_word(&k, &word(N, i)).map_err(|e| format!("at index {i}: {e}"))?;
                i += 1;
            }
            Ok(())
        });
    }
}
pub fn c06(h: &mut H) { for_alphabets!(c06_n, h); }
