//! Hall sets: queries against tables made here, the cache under several threads.
use crate::h::*;
use crate::lie::sizes;
use rustyalgebra::lie::verif::{get_hall_set, verif_hall_set, HallSet, HallSetError};
use std::sync::{Arc, Barrier};

fn small<T>(r: Result<T, HallSetError>) -> Result<T, &'static str> {
    r.map_err(|e| match e { HallSetError::HallSetTooSmall => "too small", HallSetError::HallSetReadError => "read error", _ => "another error" })
}
macro_rules! hall_widths {
    ($f:ident, $h:expr) => {{
        each!($f, $h, 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 19 20 21 22 24 26 31 32 33 63 64 65 100 127 128 200 255 256 257 1000 1023 1024 4096 32768 65535 65536 65537
            1000000 2097152 16777216 0x3fffffff 0x7fffffff 0x80000000 0x80000001 0xfffffffe 0xffffffff);
        extra_widths!($f, $h);
    }};
}

macro_rules! fresh_alphabets { ($f:ident, $h:expr) => { each!($f, $h, 300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319 320 321 322 323 324 325 326 327 328 329 330 331 332 333 334 335 336 337 338 339 340 341 342 343 344 345 346 347 348 349 350 351 352 353 354 355 356 357 358 359 360 361 362 363 364 365 366 367 368 369 370 371 372 373 374 375 376 377 378 379 380 381 382 383 384 385 386 387 388 389 390 391 392 393 394 395 396 397 398 399 400 401 402 403 404 405 406 407 408 409 410 411 412 413 414 415 416 417 418 419) } }
/// degrees worth growing to
fn growths() -> Vec<u32> {
    let mut degs: Vec<u32> = (0..40).collect();
    degs.extend(crate::MINED.iter().filter(|x| **x < 20000).flat_map(|x| [*x as u32 + 1, *x as u32]));
    degs
}

#[cfg(feature = "C26")]
pub fn c26(h: &mut H) {
    fn start(n: u32) -> usize { match n { 2 => 30, 3 | 4 | 5 => 20, 6 | 7 | 8 | 9 | 10 => 8, n if n >= 11 && n <= 20 => 3, _ => 2 } }
    fn queries<const N: u32>(set: &impl HallSet, keys: &[(u32, u32)], more: &[u64]) -> Res {
        let s = sizes(N as u64);
        let degs = start(N);
        let mut ks: Vec<u64> = (0..keys.len() as u64 + 3).chain([N as u64 - 1, N as u64, N as u64 + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + N as u64, 1 << 63, u64::MAX]).collect();
        ks.extend(more);
        let deg = |k: u64| (0..).find(|d| k <= s[*d] as u64).unwrap() as u32;
        let details = |k: u64| (k, keys[k as usize].0 as u64, keys[k as usize].1 as u64, deg(k));
        for k in ks {
            eq(&format!("is_letter({k})"), small(set.is_letter(k)), Ok(k >= 1 && k <= N as u64))?;
            let known = k < keys.len() as u64;
            let want = |p: u64| if known { Ok(details(p)) } else { Err("too small") };
            eq(&format!("key_details({k})"), small(set.key_details(k)), want(k))?;
            eq(&format!("lparent_details({k})"), small(set.lparent_details(k)), want(if known { keys[k as usize].0 as u64 } else { 0 }))?;
            eq(&format!("rparent_details({k})"), small(set.rparent_details(k)), want(if known { keys[k as usize].1 as u64 } else { 0 }))?;
        }
        for d in (0..degs as u32 + 3).chain([100, 0x7fffffff, 0xfffffffe, 0xffffffff]) {
            let want = if (d as usize) + 1 < degs { Ok((s[d as usize], s[d as usize + 1])) } else { Err("too small") };
            eq(&format!("degree_range({d})"), small(set.degree_range(d)), want)?;
        }
        Ok(())
    }
    fn f<const N: u32>(h: &mut H) {
        if N == 0 { return; }
        let more: Vec<u64> = crate::MINED.iter().copied().take(200).collect();
        for g in [None, Some(1), Some(4), Some(0)] {
            h.case(|| format!("queries of get_hall_set::<{N}>({g:?})"), || queries::<N>(&get_hall_set::<N>(g), &[(0, 0)], &more));
        }
        // sets with more keys in them: the letters, and keys with parents below them
        let s = sizes(N as u64);
        let top = (s[start(N) - 1] as u64).min(400) + 1;
        for len in [2u64, 3, 7, 40, 400] {
            if len > top || h.full() { continue; }
            let mut keys = vec![(0u32, 0u32)];
            for k in 1..len {
                keys.push(if k <= N as u64 { (0, k as u32) } else { (h.below(k) as u32, h.below(k) as u32) });
            }
            h.case(|| format!("queries of a Hall set of {N} letters with the keys {keys:?}"), || queries::<N>(&verif_hall_set::<N>(keys.clone()), &keys, &more));
        }
    }
    // growing through the trait is not written yet and panics with the lock held
    fn poisoned<const N: u32>(h: &mut H) {
        if N == 0 { return; }
        h.case(|| format!("queries of a Hall set of {N} letters after a panic of its writer"), || {
            let set = verif_hall_set::<N>(vec![(0, 0), (0, 1)]);
            let mut other = set.clone();
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = other.grow_up(2); })).is_ok() { return Ok(()); }
            for set in [&set, &other] {
                eq("is_letter(1)", small(set.is_letter(1)), Err("read error"))?;
                for k in [0, 1, 2, u64::MAX] {
                    eq(&format!("key_details({k})"), small(set.key_details(k)), Err("read error"))?;
                    eq(&format!("lparent_details({k})"), small(set.lparent_details(k)), Err("read error"))?;
                    eq(&format!("rparent_details({k})"), small(set.rparent_details(k)), Err("read error"))?;
                }
                for d in [0, 1, 40, u32::MAX] { eq(&format!("degree_range({d})"), small(set.degree_range(d)), Err("read error"))?; }
            }
            Ok(())
        });
    }
    h.group("Hall sets after a panic");
    each!(poisoned, h, 1 2 3 6 11 21 300);
    // the first call for an alphabet grows the set: degrees of many sizes, every one on an alphabet not used before
    fn first<const N: u32>(h: &mut H) {
        let degs = growths();
        let d = degs[(N as usize - 300) % degs.len()];
        h.case(|| format!("queries of get_hall_set::<{N}>(Some({d})), then of get_hall_set::<{N}>(Some({}))", d + 1), || {
            queries::<N>(&get_hall_set::<N>(Some(d)), &[(0, 0)], &[])?;
            queries::<N>(&get_hall_set::<N>(Some(d + 1)), &[(0, 0)], &[])
        });
    }
    h.group("Hall sets grown at once");
    fresh_alphabets!(first, h);
    h.group("queries of Hall sets");
    hall_widths!(f, h);
}

#[cfg(feature = "C24")]
pub fn c24(h: &mut H) {
    fn f<const N: u32>(h: &mut H) {
        if N == 0 { return; }
        h.case(|| format!("8 threads call get_hall_set::<{N}> at once"), || {
            let bar = Arc::new(Barrier::new(8));
            let ts: Vec<_> = (0..8u32).map(|i| {
                let bar = bar.clone();
                std::thread::spawn(move || {
                    bar.wait();
                    let a = get_hall_set::<N>(if i % 2 == 0 { None } else { Some(i) });
                    let b = get_hall_set::<N>(Some(1));
                    (a, b)
                })
            }).collect();
            let mut all = vec![];
            for t in ts {
                let (a, b) = t.join().map_err(|_| "a thread panics".to_string())?;
                all.push(a);
                all.push(b);
            }
            for (i, x) in all.iter().enumerate() {
                eq(&format!("call {i} gives the set that call 0 gives"), x.verif_same(&all[0]), true)?;
                eq("letter", small(x.is_letter(N as u64)), Ok(true))?;
                eq("no letter", small(x.is_letter(N as u64 + 1)), Ok(false))?;
            }
            eq("a later call gives the same set", get_hall_set::<N>(None).verif_same(&all[0]), true)?;
            eq("another number of letters, another set", get_hall_set::<2>(None).verif_same(&all[0]), N == 2)
        });
    }
    // the first call for an alphabet decides: degrees of many sizes, every one on an alphabet not used before
    fn first<const N: u32>(h: &mut H) {
        let degs = growths();
        let d = degs[(N as usize - 300) % degs.len()];
        h.case(|| format!("get_hall_set::<{N}>(Some({d})) and again"), || {
            let a = get_hall_set::<N>(Some(d));
            for g in [Some(d), None, Some(d + 1), Some(1)] {
                eq(&format!("get_hall_set::<{N}>({g:?}) gives the set that the first call gave"), get_hall_set::<N>(g).verif_same(&a), true)?;
            }
            eq("letter", small(a.is_letter(N as u64)), Ok(true))?;
            eq("no letter", small(a.is_letter(N as u64 + 1)), Ok(false))
        });
    }
    // one thread, two alphabets that a rough index would mix up, in turn
    fn turns<const A: u32, const B: u32>(h: &mut H) {
        h.case(|| format!("one thread: get_hall_set of {A}, {B}, {A}, {B} letters"), || {
            let (a, b, c, d) = (get_hall_set::<A>(None), get_hall_set::<B>(None), get_hall_set::<A>(None), get_hall_set::<B>(Some(1)));
            eq("the same set again", a.verif_same(&c), true)?;
            eq("the same set again", b.verif_same(&d), true)?;
            drop((c, d));
            drop(b.clone());
            let (c, d) = (get_hall_set::<A>(None), get_hall_set::<B>(None));
            eq("the same set after others were dropped", a.verif_same(&c), true)?;
            eq("the same set after others were dropped", b.verif_same(&d), true)?;
            drop((b, d));
            let c2 = get_hall_set::<A>(None);
            eq("the same set after the other was dropped", a.verif_same(&c2), true)?;
            let (b, d) = (get_hall_set::<B>(None), get_hall_set::<B>(Some(2)));
            eq("the same set again", b.verif_same(&d), true)?;
            eq("another number of letters, another set", a.verif_same(&b), A == B)?;
            for x in [&a, &c] { eq("letter", small(x.is_letter(A as u64)), Ok(true))?; eq("no letter", small(x.is_letter(A as u64 + 1)), Ok(false))?; }
            for x in [&b, &d] { eq("letter", small(x.is_letter(B as u64)), Ok(true))?; eq("no letter", small(x.is_letter(B as u64 + 1)), Ok(false))?; }
            Ok(())
        });
    }
    h.group("alphabets in turn");
    macro_rules! both { ($($a:literal $b:literal),*) => {{ $( turns::<$a, $b>(h); turns::<$b, $a>(h); )* }}; }
    both!(2 3, 1 2, 2 4, 4 8, 5 10, 7 9, 3 10, 11 18, 3 19, 2 18, 3 35, 5 69, 2 66, 3 131, 4 260, 5 261, 2 258, 6 518, 3 1027, 5 2053, 3 4099, 7 8199, 2 16386, 6 32774, 3 65539, 2 65538,
        4 1048580, 5 16777221, 3 1003, 7 1007, 8 1008, 2 102, 9 1000009, 12 21, 123 321, 20 22, 255 256, 300 556, 65535 65536);
    h.group("first calls for alphabets");
    fresh_alphabets!(first, h);
    h.group("threads that ask for Hall sets");
    hall_widths!(f, h);
    each!(f, h, 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90);
}
