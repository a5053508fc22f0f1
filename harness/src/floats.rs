//! Floating point coefficients against the machine's operations, bit for bit (NaN equal to NaN).
use crate::h::*;
use rustyalgebra::coefficients::*;

macro_rules! go {
    ($h:expr, $t:ty, $u:ty, $specials:expr) => {{
        let h: &mut H = $h;
        type T = $t;
        let show = |x: T| format!("{x:?} ({:#x})", x.to_bits());
        let same = |what: &str, got: T, want: T| -> Res {
            if got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan()) { Ok(()) } else { Err(format!("{what}: got {}, want {}", show(got), show(want))) }
        };
        let t = stringify!($t);
        h.case(|| format!("{t} constants"), || {
            same("ZERO", <T as CoefficientField>::ZERO, 0.0)?;
            same("ONE", <T as CoefficientField>::ONE, 1.0)?;
            same("MONE", <T as CoefficientField>::MONE, -1.0)
        });
        let mut degs: Vec<u32> = (0..70).collect();
        for b in 0..32u32 { for d in [-2i64, -1, 0, 1, 2, 3] { degs.push(((1i64 << b) + d).rem_euclid(1 << 32) as u32); } }
        for _ in 0..2000 { degs.push(h.rnd() as u32); let x = h.rnd() as u32; degs.push(x >> h.below(32)); }
        for d in degs { h.case(|| format!("{t}::from_degree({d})"), || {
            // the nearest number: by way of wider arithmetic
            let got: T = <T as FromDegreeType>::from_degree(&d);
            let want: T = d.to_string().parse().unwrap();
            same("degree", got, want)
        }); }
        let specials: Vec<T> = $specials;
        let mut pairs: Vec<(T, T)> = vec![];
        for a in &specials { for b in &specials { pairs.push((*a, *b)); } }
        for i in 0..20000 {
            let a = if i % 3 == 0 { (h.below(2001) as i64 - 1000) as T / 8.0 } else { T::from_bits(h.rnd() as $u) };
            let b = if i % 4 == 0 { (h.below(2001) as i64 - 1000) as T / 8.0 } else { T::from_bits(h.rnd() as $u) };
            pairs.push((a, b));
        }
        for (a, b) in pairs {
            if h.full() { break; }
            h.case(|| format!("{t} {} and {}", show(a), show(b)), || {
                let ops: [(&str, T, T, fn(&mut T, &T) -> T); 4] = [
                    ("sum", <T as CoefficientField>::add(&a, &b), a + b, |x, y| *<T as CoefficientField>::add_inplace(x, y)),
                    ("difference", <T as CoefficientField>::sub(&a, &b), a - b, |x, y| *<T as CoefficientField>::sub_inplace(x, y)),
                    ("product", <T as CoefficientField>::mul(&a, &b), a * b, |x, y| *<T as CoefficientField>::mul_inplace(x, y)),
                    ("quotient", <T as CoefficientField>::div(&a, &b), a / b, |x, y| *<T as CoefficientField>::div_inplace(x, y)),
                ];
                for (n, got, want, f) in ops {
                    same(n, got, want)?;
                    let mut x = a;
                    same(&format!("{n} in place, returned"), f(&mut x, &b), want)?;
                    same(&format!("{n} in place"), x, want)?;
                }
                same("negative", <T as CoefficientField>::uminus(&a), -a)?;
                same("inverse", <T as CoefficientField>::inv(a), 1.0 / a)?;
                same("inverse of a reference", <T as CoefficientField>::inv(&b), 1.0 / b)?;
                same("fraction", <T as CoefficientField>::from_rational(a, b), a / b)?;
                let (n, d) = (a.to_bits() as i16, b.to_bits() as i8);
                same("fraction of integers", <T as CoefficientField>::from_rational(n, d), n as T / d as T)
            });
        }
    }};
}

pub fn c18(h: &mut H) {
    go!(h, f32, u32, vec![0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, f32::MIN_POSITIVE, f32::MAX, f32::MIN, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45, 16777216.0, 0.1, 1.0 + f32::EPSILON]);
    go!(h, f64, u64, vec![0.0, -0.0, 1.0, -1.0, 2.0, 0.5, 3.0, f64::MIN_POSITIVE, f64::MAX, f64::MIN, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 9007199254740992.0, 0.1, 1.0 + f64::EPSILON]);
}
