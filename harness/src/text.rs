//! Formatted keys against texts put together from the letters.
use crate::h::*;
use crate::keys::*;
use rustyalgebra::lie::verif::HallKey;

fn tensor<const N: u32>(h: &mut H) {
    for w in words::<N>(h, 60) {
        if h.full() { return; }
        h.case(|| format!("format TensorKey::<{N}> {w:?}"), || {
            let k = key::<N>(&w);
            let mut r = w.clone();
            r.reverse();
            let want = format!("({})", r.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", "));
            eq("debug", format!("{k:?}"), want.clone())?;
            eq("display", format!("{k}"), want)
        });
    }
}
fn vector<const N: u32>(h: &mut H) {
    use rustyalgebra::{free_tensor::TensorBasis, vector::SimpleDenseVector};
    for n in crate::dense::lens::<N>(400) {
        if h.full() { return; }
        let mut v: Vec<f64> = (0..n).map(|i| (i as f64) * 0.25 - 3.0).collect();
        if n % 2 == 1 { for _ in 0..n / 2 { let j = h.below(n as u64) as usize; v[j] = [0.0, -0.0, 1.0, -1.0, 1e9, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-300][h.below(9) as usize]; } }
        h.case(|| format!("display a dense vector over TensorBasis<{N}> with the coefficients {}", crate::dense::show(&v)), || {
            let mut want = String::new();
            for (i, c) in v.iter().enumerate() {
                let mut w = word(N, i as u128);
                w.reverse();
                want.push_str(&format!("{c}({})", w.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(", ")));
            }
            let mut x = SimpleDenseVector::<TensorBasis<N>, f64>::from_dimension(v.len());
            rustyalgebra::vector::DenseVector::as_mut_slice(&mut x).copy_from_slice(&v);
            eq("display", format!("{x}"), want)
        });
    }
}
fn hall<const N: u32>(h: &mut H, f: [u64; 4]) {
    h.case(|| format!("format HallKey::<{N}> with the fields {f:?}"), || {
        let k = HallKey::<N>::verif_from_fields(f[0], f[1], f[2], f[3] as u32);
        eq("debug", format!("{k:?}"), format!("HallKey(key={}, lparent={}, rparent={}, size={})", f[0], f[1], f[2], f[3]))?;
        eq("display", format!("{k}"), if f[3] == 1 { f[0].to_string() } else { format!("[{}, {}]", f[1], f[2]) })
    });
}
pub fn c23(h: &mut H) {
    h.group("formatting keys");
    for_alphabets!(tensor, h);
    h.group("displaying dense vectors");
    each!(vector, h, 1 2 3 4 5 7 10 16 64 300);
    extra_small!(vector, h);
    h.group("formatting Hall keys");
    for n in 0..6000u64 {
        if h.full() { return; }
        let b = |h: &mut H, w: u32| { let s = h.below(w as u64 + 1); h.below(1 << w) >> s };
        let f = match n { 0 => [0; 4], 1 => [1, 0, 1, 1], 2 => [3, 1, 2, 2], 3 => [(1 << 18) - 1, (1 << 18) - 1, (1 << 18) - 1, 1023],
            _ => [b(h, 18), b(h, 18), b(h, 18), if n % 3 == 0 { 1 } else { b(h, 10) }] };
        hall::<2>(h, f);
        hall::<5>(h, f);
    }
}
