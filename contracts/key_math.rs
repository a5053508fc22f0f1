// ---- words, packed words, indices: specification functions and lemmas ----

pub open spec fn s_log2(n: nat) -> nat decreases n { if n < 2 { 0 } else { s_log2(n / 2) + 1 } }
pub open spec fn s_bits(n: u32) -> nat { s_log2(n as nat) + 1 }
pub open spec fn s_size_bits(n: u32) -> nat { s_log2((63int / (s_bits(n) as int)) as nat) }
pub open spec fn s_depth(n: u32) -> nat { ((64int - s_size_bits(n)) / (s_bits(n) as int)) as nat }
/// the number of values of one packed letter
pub open spec fn s_base(n: u32) -> nat { pow2(s_bits(n)) }

pub open spec fn ipow(x: nat, k: nat) -> nat decreases k { if k == 0 { 1 } else { x * ipow(x, (k - 1) as nat) } }

/// letters of the alphabet
pub open spec fn letters_ok(n: u32, w: Seq<u32>) -> bool { forall|i: int| 0 <= i < w.len() ==> 1 <= #[trigger] w[i] <= n }
/// words that can be represented
pub open spec fn word_ok(n: u32, w: Seq<u32>) -> bool { letters_ok(n, w) && w.len() <= s_depth(n) }

/// the letter stored as digit x; a digit of 2^32 - 1 stands for no letter
pub open spec fn s_letter(x: nat) -> u32 { if x < 0xffff_ffff { (x + 1) as u32 } else { 0u32 } }
pub open spec fn unpack(bb: nat, d: nat, n: nat) -> Seq<u32> decreases n {
    if n == 0 { Seq::empty() } else { unpack(bb, d / bb, (n - 1) as nat).push(s_letter(d % bb)) }
}
pub open spec fn pack(bb: nat, w: Seq<u32>) -> nat decreases w.len() {
    if w.len() == 0 { 0 } else { pack(bb, w.drop_last()) * bb + (w.last() - 1) as nat }
}
/// index of a word: position in the list of all words by length, then lexicographically
pub open spec fn s_idx(n: u32, w: Seq<u32>) -> nat decreases w.len() {
    if w.len() == 0 { 0 } else { s_idx(n, w.drop_last()) * (n as nat) + (w.last() as nat) }
}
/// number of words shorter than d
pub open spec fn s_start(n: u32, d: nat) -> nat decreases d {
    if d == 0 { 0 } else { s_start(n, (d - 1) as nat) + ipow(n as nat, (d - 1) as nat) }
}

pub proof fn lemma_log2(n: nat)
    requires n >= 1
    ensures pow2(s_log2(n)) <= n < pow2(s_log2(n) + 1)
    decreases n
{
    if n < 2 { lemma2_to64(); } else {
        lemma_log2(n / 2);
        lemma_pow2_unfold(s_log2(n));
        lemma_pow2_unfold(s_log2(n) + 1);
    }
}

pub proof fn lemma_log2_bound(n: nat, k: nat)
    requires n < pow2(k), k >= 1
    ensures s_log2(n) < k
    decreases k
{
    if n >= 2 {
        lemma_pow2_unfold(k);
        if k == 1 { lemma2_to64(); }
        lemma_log2_bound(n / 2, (k - 1) as nat);
    }
}

/// the bit layout: every letter fits, and so do max_depth letters
pub proof fn lemma_layout(n: u32)
    requires n >= 1
    ensures
        1 <= s_bits(n) <= 32,
        n < s_base(n),
        s_base(n) <= 0x1_0000_0000,
        s_base(n) >= 2,
        0 <= s_size_bits(n) <= 5,
        2 <= s_depth(n) <= 59,
        s_depth(n) * s_bits(n) <= 64,
        pow2(s_depth(n) * s_bits(n)) <= 0x1_0000_0000_0000_0000,
        s_depth(n) * s_bits(n) == 64 ==> s_depth(n) == 2,
{
    lemma2_to64();
    lemma2_to64_rest();
    lemma_log2(n as nat);
    lemma_log2_bound(n as nat, 32);
    let b = s_bits(n);
    let m = (63int / (b as int)) as nat;
    lemma_log2_bound(m, 6);
    assert(m >= 1) by (nonlinear_arith) requires 1 <= b <= 32, m == 63int / (b as int);
    assert(m <= 63) by (nonlinear_arith) requires 1 <= b <= 32, m == 63int / (b as int);
    lemma_log2(m);
    let s = s_size_bits(n);
    let d = s_depth(n);
    assert(s <= 5);
    // there are only 32 layouts
    assert(s_log2(1) == 0) by (compute_only);
    assert(s_log2(2) == 1) by (compute_only);
    assert(s_log2(3) == 1) by (compute_only);
    assert(s_log2(4) == 2) by (compute_only);
    assert(s_log2(5) == 2) by (compute_only);
    assert(s_log2(6) == 2) by (compute_only);
    assert(s_log2(7) == 2) by (compute_only);
    assert(s_log2(9) == 3) by (compute_only);
    assert(s_log2(10) == 3) by (compute_only);
    assert(s_log2(12) == 3) by (compute_only);
    assert(s_log2(15) == 3) by (compute_only);
    assert(s_log2(21) == 4) by (compute_only);
    assert(s_log2(31) == 4) by (compute_only);
    assert(s_log2(63) == 5) by (compute_only);
    if b == 1 { assert(m == 63); assert(s == 5); assert(d == 59) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 1, s == 5; assert(d * b == 59) by (nonlinear_arith) requires d == 59, b == 1; }
    if b == 2 { assert(m == 31); assert(s == 4); assert(d == 30) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 2, s == 4; assert(d * b == 60) by (nonlinear_arith) requires d == 30, b == 2; }
    if b == 3 { assert(m == 21); assert(s == 4); assert(d == 20) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 3, s == 4; assert(d * b == 60) by (nonlinear_arith) requires d == 20, b == 3; }
    if b == 4 { assert(m == 15); assert(s == 3); assert(d == 15) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 4, s == 3; assert(d * b == 60) by (nonlinear_arith) requires d == 15, b == 4; }
    if b == 5 { assert(m == 12); assert(s == 3); assert(d == 12) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 5, s == 3; assert(d * b == 60) by (nonlinear_arith) requires d == 12, b == 5; }
    if b == 6 { assert(m == 10); assert(s == 3); assert(d == 10) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 6, s == 3; assert(d * b == 60) by (nonlinear_arith) requires d == 10, b == 6; }
    if b == 7 { assert(m == 9); assert(s == 3); assert(d == 8) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 7, s == 3; assert(d * b == 56) by (nonlinear_arith) requires d == 8, b == 7; }
    if b == 8 { assert(m == 7); assert(s == 2); assert(d == 7) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 8, s == 2; assert(d * b == 56) by (nonlinear_arith) requires d == 7, b == 8; }
    if b == 9 { assert(m == 7); assert(s == 2); assert(d == 6) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 9, s == 2; assert(d * b == 54) by (nonlinear_arith) requires d == 6, b == 9; }
    if b == 10 { assert(m == 6); assert(s == 2); assert(d == 6) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 10, s == 2; assert(d * b == 60) by (nonlinear_arith) requires d == 6, b == 10; }
    if b == 11 { assert(m == 5); assert(s == 2); assert(d == 5) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 11, s == 2; assert(d * b == 55) by (nonlinear_arith) requires d == 5, b == 11; }
    if b == 12 { assert(m == 5); assert(s == 2); assert(d == 5) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 12, s == 2; assert(d * b == 60) by (nonlinear_arith) requires d == 5, b == 12; }
    if b == 13 { assert(m == 4); assert(s == 2); assert(d == 4) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 13, s == 2; assert(d * b == 52) by (nonlinear_arith) requires d == 4, b == 13; }
    if b == 14 { assert(m == 4); assert(s == 2); assert(d == 4) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 14, s == 2; assert(d * b == 56) by (nonlinear_arith) requires d == 4, b == 14; }
    if b == 15 { assert(m == 4); assert(s == 2); assert(d == 4) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 15, s == 2; assert(d * b == 60) by (nonlinear_arith) requires d == 4, b == 15; }
    if b == 16 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 16, s == 1; assert(d * b == 48) by (nonlinear_arith) requires d == 3, b == 16; }
    if b == 17 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 17, s == 1; assert(d * b == 51) by (nonlinear_arith) requires d == 3, b == 17; }
    if b == 18 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 18, s == 1; assert(d * b == 54) by (nonlinear_arith) requires d == 3, b == 18; }
    if b == 19 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 19, s == 1; assert(d * b == 57) by (nonlinear_arith) requires d == 3, b == 19; }
    if b == 20 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 20, s == 1; assert(d * b == 60) by (nonlinear_arith) requires d == 3, b == 20; }
    if b == 21 { assert(m == 3); assert(s == 1); assert(d == 3) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 21, s == 1; assert(d * b == 63) by (nonlinear_arith) requires d == 3, b == 21; }
    if b == 22 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 22, s == 1; assert(d * b == 44) by (nonlinear_arith) requires d == 2, b == 22; }
    if b == 23 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 23, s == 1; assert(d * b == 46) by (nonlinear_arith) requires d == 2, b == 23; }
    if b == 24 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 24, s == 1; assert(d * b == 48) by (nonlinear_arith) requires d == 2, b == 24; }
    if b == 25 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 25, s == 1; assert(d * b == 50) by (nonlinear_arith) requires d == 2, b == 25; }
    if b == 26 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 26, s == 1; assert(d * b == 52) by (nonlinear_arith) requires d == 2, b == 26; }
    if b == 27 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 27, s == 1; assert(d * b == 54) by (nonlinear_arith) requires d == 2, b == 27; }
    if b == 28 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 28, s == 1; assert(d * b == 56) by (nonlinear_arith) requires d == 2, b == 28; }
    if b == 29 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 29, s == 1; assert(d * b == 58) by (nonlinear_arith) requires d == 2, b == 29; }
    if b == 30 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 30, s == 1; assert(d * b == 60) by (nonlinear_arith) requires d == 2, b == 30; }
    if b == 31 { assert(m == 2); assert(s == 1); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 31, s == 1; assert(d * b == 62) by (nonlinear_arith) requires d == 2, b == 31; }
    if b == 32 { assert(m == 1); assert(s == 0); assert(d == 2) by (nonlinear_arith) requires d == (64int - s) / (b as int), b == 32, s == 0; assert(d * b == 64) by (nonlinear_arith) requires d == 2, b == 32; }
    assert(2 <= d && d * b <= 64 && d <= 59 && (d * b == 64 ==> d == 2));
    lemma_pow2_monotone(b, 32);
    lemma_pow2_monotone(1, b);
    lemma_pow2_monotone(d * b, 64);
}

pub proof fn lemma_pow2_monotone(a: nat, b: nat)
    requires a <= b
    ensures pow2(a) <= pow2(b)
{
    if a < b { lemma_pow2_strictly_increases(a, b); }
}

pub proof fn lemma_ipow_pos(x: nat, k: nat)
    requires x >= 1
    ensures ipow(x, k) >= 1
    decreases k
{
    if k > 0 { lemma_ipow_pos(x, (k - 1) as nat); assert(x * ipow(x, (k - 1) as nat) >= 1) by (nonlinear_arith) requires x >= 1, ipow(x, (k - 1) as nat) >= 1; }
}

pub proof fn lemma_ipow_add(x: nat, a: nat, b: nat)
    ensures ipow(x, a + b) == ipow(x, a) * ipow(x, b)
    decreases a
{
    if a == 0 { assert(ipow(x, 0) == 1); assert(1 * ipow(x, b) == ipow(x, b)) by (nonlinear_arith); assert(0 + b == b); } else {
        lemma_ipow_add(x, (a - 1) as nat, b);
        assert((a - 1) as nat + b == (a + b - 1) as nat);
        assert(ipow(x, a + b) == x * ipow(x, (a + b - 1) as nat));
        assert(x * (ipow(x, (a - 1) as nat) * ipow(x, b)) == (x * ipow(x, (a - 1) as nat)) * ipow(x, b)) by (nonlinear_arith);
    }
}

pub proof fn lemma_ipow_pow2(b: nat, k: nat)
    ensures ipow(pow2(b), k) == pow2(b * k)
    decreases k
{
    if k == 0 { lemma2_to64(); assert(b * 0 == 0) by (nonlinear_arith); } else {
        lemma_ipow_pow2(b, (k - 1) as nat);
        lemma_pow2_adds(b, b * (k - 1) as nat);
        assert(b + b * ((k - 1) as nat) == b * k) by (nonlinear_arith) requires k >= 1;
    }
}

pub proof fn lemma_ipow_mono(x: nat, a: nat, b: nat)
    requires x >= 1, a <= b
    ensures ipow(x, a) <= ipow(x, b)
    decreases b - a
{
    if a < b {
        lemma_ipow_mono(x, a, (b - 1) as nat);
        assert(x * ipow(x, (b - 1) as nat) >= ipow(x, (b - 1) as nat)) by (nonlinear_arith) requires x >= 1;
    }
}

// ---- packed words ----

pub proof fn lemma_unpack_len(bb: nat, d: nat, n: nat)
    requires bb >= 1
    ensures unpack(bb, d, n).len() == n
    decreases n
{
    if n > 0 { lemma_unpack_len(bb, d / bb, (n - 1) as nat); } else { }
}

pub proof fn lemma_div_lt(bb: nat, d: nat, n: nat)
    requires bb >= 1, n >= 1, d < ipow(bb, n)
    ensures d / bb < ipow(bb, (n - 1) as nat)
{
    let q = d / bb;
    let p = ipow(bb, (n - 1) as nat);
    lemma_fundamental_div_mod(d as int, bb as int);
    if q >= p {
        assert(bb * q >= bb * p) by (nonlinear_arith) requires q >= p;
        assert(false);
    }
}

pub proof fn lemma_pack_unpack(bb: nat, d: nat, n: nat)
    requires 1 <= bb <= 0x1_0000_0000, d < ipow(bb, n), 
        forall|i: int| 0 <= i < n ==> #[trigger] unpack(bb, d, n)[i] >= 1,
    ensures pack(bb, unpack(bb, d, n)) == d
    decreases n
{
    if n > 0 {
        lemma_div_lt(bb, d, n);
        let w = unpack(bb, d / bb, (n - 1) as nat);
        lemma_unpack_len(bb, d / bb, (n - 1) as nat);
        let v = unpack(bb, d, n);
        assert(v.drop_last() =~= w);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] unpack(bb, d / bb, (n - 1) as nat)[i] >= 1 by {
            assert(v[i] == w[i]);
        }
        lemma_pack_unpack(bb, d / bb, (n - 1) as nat);
        lemma_fundamental_div_mod(d as int, bb as int);
        assert(d % bb < bb) by { lemma_mod_bound(d as int, bb as int); }
        assert(v.last() == s_letter(d % bb));
        assert(v[n - 1] >= 1);
        assert((v.last() - 1) as nat == d % bb);
        assert((d / bb) * bb == bb * (d / bb)) by (nonlinear_arith);
    }
}

pub proof fn lemma_unpack_pack(bb: nat, w: Seq<u32>)
    requires bb >= 1, forall|i: int| 0 <= i < w.len() ==> 1 <= #[trigger] w[i] <= bb,
    ensures unpack(bb, pack(bb, w), w.len()) == w, pack(bb, w) < ipow(bb, w.len())
    decreases w.len()
{
    if w.len() > 0 {
        let v = w.drop_last();
        assert forall|i: int| 0 <= i < v.len() implies 1 <= #[trigger] v[i] <= bb by { assert(v[i] == w[i]); }
        lemma_unpack_pack(bb, v);
        let q = pack(bb, v);
        let r = (w.last() - 1) as nat;
        assert(1 <= w[w.len() - 1] <= bb);
        let d = pack(bb, w);
        lemma_fundamental_div_mod_converse(d as int, bb as int, q as int, r as int);
        assert(unpack(bb, d, w.len()) =~= w);
        assert(q * bb + r < bb * ipow(bb, v.len())) by (nonlinear_arith) requires q + 1 <= ipow(bb, v.len()), r < bb;
    }
}

/// the i-th letter from the end is the i-th digit
pub proof fn lemma_unpack_digit(bb: nat, d: nat, n: nat, i: nat)
    requires bb >= 1, i < n
    ensures unpack(bb, d, n).len() == n, unpack(bb, d, n)[n - 1 - i] == s_letter((d / ipow(bb, i)) % bb)
    decreases n
{
    lemma_unpack_len(bb, d, n);
    lemma_unpack_len(bb, d / bb, (n - 1) as nat);
    if i == 0 {
        assert(d / 1 == d);
    } else {
        lemma_unpack_digit(bb, d / bb, (n - 1) as nat, (i - 1) as nat);
        lemma_ipow_pos(bb, (i - 1) as nat);
        lemma_div_denominator(d as int, bb as int, ipow(bb, (i - 1) as nat) as int);
        assert(unpack(bb, d, n)[n - 1 - i] == unpack(bb, d / bb, (n - 1) as nat)[n - 1 - i]);
    }
}

/// concatenation of packed words
pub proof fn lemma_unpack_concat(bb: nat, d1: nat, n1: nat, d2: nat, n2: nat)
    requires bb >= 1, d2 < ipow(bb, n2)
    ensures unpack(bb, d1 * ipow(bb, n2) + d2, n1 + n2) == unpack(bb, d1, n1) + unpack(bb, d2, n2)
    decreases n2
{
    if n2 == 0 {
        assert(d1 * ipow(bb, 0) + d2 == d1) by { assert(d1 * 1 == d1); }
        assert(unpack(bb, d1, n1) + unpack(bb, d2, 0) =~= unpack(bb, d1, n1));
    } else {
        let p = ipow(bb, (n2 - 1) as nat);
        let d = d1 * ipow(bb, n2) + d2;
        lemma_div_lt(bb, d2, n2);
        lemma_fundamental_div_mod(d2 as int, bb as int);
        lemma_mod_bound(d2 as int, bb as int);
        let q = d1 * p + d2 / bb;
        assert(d == bb * q + d2 % bb) by (nonlinear_arith)
            requires d == d1 * (bb * p) + d2, q == d1 * p + d2 / bb, d2 == bb * (d2 / bb) + d2 % bb;
        assert(bb * q == q * bb) by (nonlinear_arith);
        lemma_fundamental_div_mod_converse(d as int, bb as int, q as int, (d2 % bb) as int);
        lemma_unpack_concat(bb, d1, n1, d2 / bb, (n2 - 1) as nat);
        assert((n1 + n2 - 1) as nat == n1 + (n2 - 1) as nat);
        assert(unpack(bb, d, n1 + n2) =~= unpack(bb, d1, n1) + unpack(bb, d2, n2));
    }
}

/// prepending a letter, and replacing one, in terms of the packed number
pub proof fn lemma_unpack_push_front(bb: nat, d: nat, n: nat, l: nat)
    requires bb >= 1, d < ipow(bb, n), l < bb
    ensures unpack(bb, l * ipow(bb, n) + d, n + 1) == seq![s_letter(l)] + unpack(bb, d, n),
        l * ipow(bb, n) + d < ipow(bb, n + 1),
{
    lemma_unpack_concat(bb, l, 1, d, n);
    lemma_small_mod(l, bb);
    reveal_with_fuel(unpack, 2);
    assert(unpack(bb, l, 1) =~= seq![s_letter(l)]);
    assert(1 + n == n + 1);
    assert(l * ipow(bb, n) + d < bb * ipow(bb, n)) by (nonlinear_arith) requires l + 1 <= bb, d < ipow(bb, n);
}

/// words of the same length are the same when their packed numbers are
pub proof fn lemma_unpack_inj(bb: nat, d1: nat, d2: nat, n: nat)
    requires 1 <= bb <= 0x1_0000_0000, d1 < ipow(bb, n), d2 < ipow(bb, n), unpack(bb, d1, n) == unpack(bb, d2, n),
        forall|i: int| 0 <= i < n ==> #[trigger] unpack(bb, d1, n)[i] >= 1,
    ensures d1 == d2
{
    lemma_pack_unpack(bb, d1, n);
    lemma_pack_unpack(bb, d2, n);
}

// ---- indices ----

pub proof fn lemma_idx_concat(n: u32, a: Seq<u32>, b: Seq<u32>)
    ensures s_idx(n, a + b) == s_idx(n, a) * ipow(n as nat, b.len()) + s_idx(n, b)
    decreases b.len()
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(s_idx(n, a) * 1 == s_idx(n, a));
    } else {
        let bl = b.drop_last();
        assert((a + b).drop_last() =~= a + bl);
        lemma_idx_concat(n, a, bl);
        let p = ipow(n as nat, bl.len());
        assert((s_idx(n, a) * p + s_idx(n, bl)) * (n as nat) + b.last() as nat
            == s_idx(n, a) * ((n as nat) * p) + (s_idx(n, bl) * (n as nat) + b.last() as nat)) by (nonlinear_arith);
    }
}

/// the index of a word of length d lies in the range of degree d
pub proof fn lemma_idx_range(n: u32, w: Seq<u32>)
    requires letters_ok(n, w), n >= 1
    ensures s_start(n, w.len()) <= s_idx(n, w) < s_start(n, w.len() + 1)
    decreases w.len()
{
    lemma_start_step(n, w.len());
    if w.len() == 0 { } else {
        let v = w.drop_last();
        assert forall|i: int| 0 <= i < v.len() implies 1 <= #[trigger] v[i] <= n by { assert(v[i] == w[i]); }
        lemma_idx_range(n, v);
        lemma_start_step(n, v.len());
        lemma_start_step(n, w.len());
        assert(1 <= w[w.len() - 1] <= n);
        let i = s_idx(n, v);
        let nn = n as nat;
        assert(i * nn >= s_start(n, v.len()) * nn) by (nonlinear_arith) requires i >= s_start(n, v.len());
        assert((i + 1) * nn <= s_start(n, w.len()) * nn) by (nonlinear_arith) requires i + 1 <= s_start(n, w.len());
        assert((i + 1) * nn == i * nn + nn) by (nonlinear_arith);
    }
}

/// S(d+1) = N S(d) + 1, the recursion of the code
pub proof fn lemma_start_step(n: u32, d: nat)
    ensures s_start(n, d + 1) == s_start(n, d) * (n as nat) + 1,
        s_start(n, d + 1) == s_start(n, d) + ipow(n as nat, d),
    decreases d
{
    if d == 0 {
        reveal_with_fuel(s_start, 2);
        reveal_with_fuel(ipow, 2);
        assert(0 * (n as nat) == 0) by (nonlinear_arith);
        assert(s_start(n, 1) == s_start(n, 0) + ipow(n as nat, 0));
    } else {
        lemma_start_step(n, (d - 1) as nat);
        let s = s_start(n, (d - 1) as nat);
        let p = ipow(n as nat, (d - 1) as nat);
        assert((s + p) * (n as nat) == s * (n as nat) + (n as nat) * p) by (nonlinear_arith);
    }
}

pub proof fn lemma_start_mono(n: u32, a: nat, b: nat)
    requires a <= b, n >= 1
    ensures s_start(n, a) <= s_start(n, b), a < b ==> s_start(n, a) < s_start(n, b)
    decreases b - a
{
    if a < b {
        lemma_start_mono(n, a, (b - 1) as nat);
        lemma_ipow_pos(n as nat, (b - 1) as nat);
    }
}

/// indices of representable words fit, with room for the start of the degree after the last
pub proof fn lemma_start_bound(n: u32, d: nat)
    requires n >= 1, d <= s_depth(n) + 1
    ensures s_start(n, d) <= 0xffff_ffff_ffff_ffff, s_start(n, d) <= ipow(s_base(n), (if d == 0 { 0 } else { (d - 1) as nat }))
{
    lemma_layout(n);
    lemma_start_lt(n, d);
    let b = s_bits(n);
    lemma_start_mono(n, d, s_depth(n) + 1);
    lemma_start_lt(n, s_depth(n) + 1);
    lemma_ipow_pow2(b, s_depth(n));
    assert(b * s_depth(n) == s_depth(n) * b) by (nonlinear_arith);
}

pub proof fn lemma_start_lt(n: u32, d: nat)
    requires n >= 1
    ensures d >= 3 ==> s_start(n, d) < ipow(s_base(n), (d - 1) as nat),
       s_start(n, d) <= ipow(s_base(n), (if d == 0 { 0 } else { (d - 1) as nat })),
    decreases d
{
    lemma_layout(n);
    let bb = s_base(n);
    reveal_with_fuel(ipow, 4);
    reveal_with_fuel(s_start, 4);
    if d == 0 || d == 1 {
    } else if d == 2 {
        assert(s_start(n, 2) == 1 + n as nat);
        assert(ipow(bb, 1) == bb);
    } else if d == 3 {
        let m = n as nat;
        assert(s_start(n, 3) == 1 + m + m * m) by { assert(ipow(m, 2) == m * (m * 1)); assert(m * 1 == m); }
        assert(ipow(bb, 2) == bb * bb) by { assert(bb * 1 == bb); }
        assert(1 + m + m * m < bb * bb) by (nonlinear_arith) requires m + 1 <= bb, m >= 1;
    } else {
        lemma_start_lt(n, (d - 1) as nat);
        lemma_start_step(n, (d - 1) as nat);
        let s = s_start(n, (d - 1) as nat);
        let p = ipow(bb, (d - 2) as nat);
        assert(s * (n as nat) + 1 < bb * p) by (nonlinear_arith) requires s < p, n as nat + 1 <= bb, n >= 1;
    }
}

/// every index below the start of degree d is the index of exactly one word shorter than d
pub proof fn lemma_idx_inj(n: u32, a: Seq<u32>, b: Seq<u32>)
    requires letters_ok(n, a), letters_ok(n, b), n >= 1, s_idx(n, a) == s_idx(n, b)
    ensures a == b
    decreases a.len()
{
    lemma_idx_range(n, a);
    lemma_idx_range(n, b);
    if a.len() < b.len() { lemma_start_mono(n, a.len() + 1, b.len()); }
    if b.len() < a.len() { lemma_start_mono(n, b.len() + 1, a.len()); }
    assert(a.len() == b.len());
    if a.len() > 0 {
        let (al, bl) = (a.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < al.len() implies 1 <= #[trigger] al[i] <= n by { assert(al[i] == a[i]); }
        assert forall|i: int| 0 <= i < bl.len() implies 1 <= #[trigger] bl[i] <= n by { assert(bl[i] == b[i]); }
        let m = n as int;
        let (x, y) = (s_idx(n, al) as int, s_idx(n, bl) as int);
        let (p, q) = (a.last() as int, b.last() as int);
        assert(1 <= a[a.len() - 1] <= n && 1 <= b[b.len() - 1] <= n);
        lemma_order_step(x, y, m, p - 1, q - 1);
        lemma_idx_inj(n, al, bl);
        assert(a =~= al.push(a.last()));
        assert(b =~= bl.push(b.last()));
    } else { assert(a =~= b); }
}

pub proof fn lemma_order_step(x: int, y: int, m: int, p: int, q: int)
    requires 0 <= p < m, 0 <= q < m
    ensures
        x < y ==> x * m + p < y * m + q,
        x > y ==> x * m + p > y * m + q,
        x == y ==> x * m == y * m,
{
    if x < y { assert(x * m + p < y * m + q) by (nonlinear_arith) requires x + 1 <= y, 0 <= p < m, 0 <= q; }
    if x > y { assert(x * m + p > y * m + q) by (nonlinear_arith) requires y + 1 <= x, 0 <= q < m, 0 <= p; }
}

