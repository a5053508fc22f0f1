//! Search for concrete inputs on which the real crate breaks a property. It runs when the verifier
//! does not accept all obligations: to replay what the verifier reports on the real code, and as
//! the bounded stand-in when the code left the extractor's reach. Oracles here are independent of
//! the crate: plain lists of letters, 128 bit integers, maps from words to numbers.
#![allow(non_upper_case_globals)]
include!(concat!(env!("VP_GEN"), "/extra.rs"));

/// Calls $f::<N>($h) for alphabets around every change of the bit layout, and for those mined from the source
macro_rules! for_alphabets {
    ($f:ident, $h:expr) => {{
        each!($f, $h, 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 20 26 27 31 32 33 40 63 64 65 100 127 128 129 200 255 256 257 300
            511 512 513 1000 1023 1024 1025 2047 2048 4095 4096 8191 8192 16383 16384 32767 32768 65535 65536 65537 100000 131071 131072
            262143 262144 524287 524288 1048575 1048576 2097151 2097152 4194303 4194304 16777215 16777216 0x3fffffff 0x40000000
            0x7fffffff 0x80000000 0x80000001 0xfffffffe 0xffffffff);
        extra_alphabets!($f, $h);
    }};
}
macro_rules! each {
    ($f:ident, $h:expr, $($n:literal)*) => { $( if !$h.full() { $f::<$n>($h); } )* };
}

mod h;
mod keys;
#[allow(dead_code)]
mod dense;
#[allow(dead_code)]
mod tensor;
#[cfg(any(feature = "C20", feature = "C21", feature = "C22", feature = "C24", feature = "C26"))]
#[allow(dead_code)]
mod lie;
#[cfg(any(feature = "C24", feature = "C26"))]
#[allow(dead_code)]
mod hall;

#[cfg(any(feature = "C12", feature = "C17", feature = "C25"))]
#[allow(dead_code)]
mod sparse;

#[cfg(feature = "C18")]
mod floats;

#[cfg(feature = "C23")]
mod text;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args.get(1).cloned().expect("property");
    let secs: u64 = args.get(2).map(|s| s.parse().unwrap()).unwrap_or(60);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut h = h::H::new(&prop, seed, secs);
    match prop.as_str() {
        #[cfg(feature = "C01")]
        "C01" => keys::c01(&mut h),
        #[cfg(feature = "C02")]
        "C02" => keys::c02(&mut h),
        #[cfg(feature = "C03")]
        "C03" => keys::c03(&mut h),
        #[cfg(feature = "C04")]
        "C04" => keys::c04(&mut h),
        #[cfg(feature = "C05")]
        "C05" => keys::c05(&mut h),
        #[cfg(feature = "C06")]
        "C06" => keys::c06(&mut h),
        #[cfg(feature = "C07")]
        "C07" => dense::c07(&mut h),
        #[cfg(feature = "C08")]
        "C08" => dense::c08(&mut h),
        #[cfg(feature = "C09")]
        "C09" => dense::c09(&mut h),
        #[cfg(feature = "C10")]
        "C10" => dense::c10(&mut h),
        #[cfg(feature = "C11")]
        "C11" => dense::c11(&mut h),
        #[cfg(feature = "C12")]
        "C12" => { sparse::c12_sparse(&mut h); dense::c12(&mut h) }
        #[cfg(feature = "C13")]
        "C13" => tensor::c13(&mut h),
        #[cfg(feature = "C14")]
        "C14" => tensor::c14(&mut h),
        #[cfg(feature = "C15")]
        "C15" => tensor::c15(&mut h),
        #[cfg(feature = "C16")]
        "C16" => tensor::c16(&mut h),
        #[cfg(feature = "C17")]
        "C17" => sparse::c17(&mut h),
        #[cfg(feature = "C23")]
        "C23" => text::c23(&mut h),
        #[cfg(feature = "C25")]
        "C25" => sparse::c25(&mut h),
        #[cfg(feature = "C18")]
        "C18" => floats::c18(&mut h),
        #[cfg(feature = "C19")]
        "C19" => dense::c19(&mut h),
        #[cfg(feature = "C20")]
        "C20" => lie::c20(&mut h),
        #[cfg(feature = "C21")]
        "C21" => lie::c21(&mut h),
        #[cfg(feature = "C22")]
        "C22" => lie::c22(&mut h),
        #[cfg(feature = "C24")]
        "C24" => hall::c24(&mut h),
        #[cfg(feature = "C26")]
        "C26" => hall::c26(&mut h),
        _ => panic!("no search for {prop}"),
    }
    h.finish();
}
