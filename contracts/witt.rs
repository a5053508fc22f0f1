// ---- Moebius function and Witt's formula, by their textbook definitions ----
/// no square of a number above one divides n
pub open spec fn s_sqfree(n: nat) -> bool { forall|k: nat| k >= 2 ==> n % #[trigger] (k * k) != 0 }
/// the least divisor above one, searched from d on
pub open spec fn s_lpf_from(n: nat, d: nat) -> nat
    decreases n - d
{ if d >= n || d == 0 || n % d == 0 { d } else { s_lpf_from(n, d + 1) } }
pub open spec fn s_lpf(n: nat) -> nat { s_lpf_from(n, 2) }
/// the number of prime factors, with multiplicity
pub open spec fn s_omega(n: nat) -> nat
    decreases n
{ if n <= 1 { 0 } else if s_lpf(n) >= 2 && s_lpf(n) <= n && n / s_lpf(n) < n { 1 + s_omega(n / s_lpf(n)) } else { 0 } }
pub open spec fn s_sgn(k: nat) -> int { if k % 2 == 0 { 1 } else { -1 } }
/// zero if a square divides n, else the parity of the number of prime factors
pub open spec fn s_mobius(n: nat) -> int { if s_sqfree(n) { s_sgn(s_omega(n)) } else { 0 } }
/// the d-th term of the sum over the divisors of n
pub open spec fn s_witt_term(w: nat, n: nat, d: nat) -> int { if d > 0 && n % d == 0 { s_mobius(d) * ipow(w, n / d) } else { 0 } }
/// the terms from d on
pub open spec fn s_witt_from(w: nat, n: nat, d: nat) -> int
    decreases n + 1 - d
{ if d > n { 0 } else { s_witt_term(w, n, d) + s_witt_from(w, n, d + 1) } }
/// the number of basis elements of degree n
pub open spec fn s_level(w: nat, n: nat) -> nat { if n == 0 { 0 } else { (s_witt_from(w, n, 1) / (n as int)) as nat } }
/// the number of basis elements of the degrees up to n
pub open spec fn s_hall_size(w: nat, n: nat) -> nat
    decreases n
{ if n == 0 { 0 } else { s_hall_size(w, (n - 1) as nat) + s_level(w, n) } }
pub open spec fn s_levels(w: nat, a: nat, n: nat) -> nat
    decreases n + 1 - a
{ if a > n { 0 } else { s_level(w, a) + s_levels(w, a + 1, n) } }
/// the powers of degree n fit the machine's signed integers
pub open spec fn s_witt_fits(w: nat, n: nat) -> bool { w >= 1 && n <= 0xffff_ffff && ipow(w, n) <= 0x7fff_ffff_ffff_ffff }
/// no number from 2 up to d, d excluded, divides n
pub open spec fn s_none_below(n: nat, d: nat) -> bool { forall|k: nat| 2 <= k < d ==> #[trigger] (n % k) != 0 }

pub proof fn lemma_dvd_trans(n: nat, m: nat, k: nat)
    requires m > 0, k > 0, n % m == 0, m % k == 0
    ensures n % k == 0
{
    let (q, r) = (n / m, m / k);
    lemma_fundamental_div_mod(n as int, m as int);
    lemma_fundamental_div_mod(m as int, k as int);
    assert(n == k * (r * q)) by (nonlinear_arith) requires n == m * q, m == k * r;
    lemma_mul_nonnegative(r as int, q as int);
    lemma_mod_multiples_basic((r * q) as int, k as int);
    lemma_mul_is_commutative((r * q) as int, k as int);
}
pub proof fn lemma_lpf(n: nat, d: nat)
    requires 2 <= d <= n, s_none_below(n, d)
    ensures ({ let p = s_lpf_from(n, d); &&& 2 <= p <= n && n % p == 0 && s_none_below(n, p) })
    decreases n - d
{
    if d >= n {
        lemma_mod_self_0(n as int);
    } else if n % d == 0 {
    } else {
        assert(s_none_below(n, d + 1)) by {
            assert forall|k: nat| 2 <= k < d + 1 implies #[trigger] (n % k) != 0 by { if k < d {} else { assert(k == d); } }
        }
        lemma_lpf(n, d + 1);
    }
}
/// the search for the least divisor may start at any number below it
pub proof fn lemma_lpf_skip(n: nat, d: nat, e: nat)
    requires 2 <= d <= e <= n, s_none_below(n, e)
    ensures s_lpf_from(n, d) == s_lpf_from(n, e)
    decreases e - d
{
    if d < e { assert(n % d != 0); lemma_lpf_skip(n, d + 1, e); }
}
/// what the trial divisions establish at a divisor d with none below
pub proof fn lemma_mobius_at(n: nat, d: nat)
    requires 2 <= d <= n, s_none_below(n, d), n % d == 0
    ensures s_lpf(n) == d, n / d < n, n / d >= 1, s_omega(n) == 1 + s_omega(n / d), s_sqfree(d), s_omega(d) == 1, s_mobius(d) == -1,
        s_sqfree(n) ==> s_sqfree(n / d) && s_mobius(n) == -s_mobius(n / d),
        s_none_below(n / d, d), d < n ==> n / d >= d,
{
    assert(s_none_below(n / d, d) && (d < n ==> n / d >= d)) by {
        lemma_fundamental_div_mod(n as int, d as int);
        let m = n / d;
        if m == 0 { assert(d * m == 0) by (nonlinear_arith) requires m == 0; }
        assert(n % m == 0) by { lemma_mod_multiples_basic(d as int, m as int); }
        assert forall|k: nat| 2 <= k < d implies #[trigger] (m % k) != 0 by {
            if m % k == 0 { lemma_dvd_trans(n, m, k); assert(n % k == 0); }
        }
        if d < n && m < d {
            assert(m >= 2) by { if m == 1 { assert(d * m == d) by (nonlinear_arith) requires m == 1; } }
            lemma_mod_self_0(m as int);
            assert(m % m == 0);
        }
    }
    lemma_lpf_skip(n, 2, d);
    lemma_div_decreases(n as int, d as int);
    lemma_fundamental_div_mod(n as int, d as int);
    if n / d == 0 { assert(d * (n / d) == 0) by (nonlinear_arith) requires n / d == 0; }
    // d is prime
    assert(s_none_below(d, d)) by {
        assert forall|k: nat| 2 <= k < d implies #[trigger] (d % k) != 0 by {
            if d % k == 0 { lemma_dvd_trans(n, d, k); assert(n % k == 0); }
        }
    }
    lemma_lpf_skip(d, 2, d);
    lemma_div_by_self(d as int);
    assert(s_omega(1) == 0);
    lemma_div_decreases(d as int, d as int);
    assert(s_omega(d) == 1);
    assert(s_sqfree(d)) by {
        assert forall|k: nat| k >= 2 implies d % #[trigger] (k * k) != 0 by {
            assert(k * k >= 2 * k) by (nonlinear_arith) requires k >= 2;
            if d % (k * k) == 0 {
                if k * k > d { lemma_small_mod(d, k * k); }
                assert((k * k) % k == 0) by { lemma_mod_multiples_basic(k as int, k as int); }
                lemma_dvd_trans(d, k * k, k);
                assert(k < d);
            }
        }
    }
    if s_sqfree(n) {
        let m = n / d;
        assert(s_sqfree(m)) by {
            assert forall|k: nat| k >= 2 implies m % #[trigger] (k * k) != 0 by {
                if m % (k * k) == 0 {
                    assert(k * k > 0) by (nonlinear_arith) requires k >= 2;
                    assert(n % m == 0) by { lemma_mod_multiples_basic(d as int, m as int); }
                    lemma_dvd_trans(n, m, k * k);
                }
            }
        }
    }
}
pub proof fn lemma_mobius_one()
    ensures s_mobius(1) == 1
{
    assert(s_sqfree(1)) by {
        assert forall|k: nat| k >= 2 implies 1nat % #[trigger] (k * k) != 0 by {
            assert(k * k >= 4) by (nonlinear_arith) requires k >= 2;
            lemma_small_mod(1, k * k);
        }
    }
}
pub proof fn lemma_mobius_range(n: nat)
    ensures -1 <= s_mobius(n) <= 1
{ }
/// squares above n do not divide it
pub proof fn lemma_sq_above(n: nat, b: nat)
    requires n >= 1, b >= 1, b * b >= n, n % (b * b) != 0
    ensures forall|k: nat| k >= b ==> n % #[trigger] (k * k) != 0
{
    assert forall|k: nat| k >= b implies n % #[trigger] (k * k) != 0 by {
        assert(k * k >= b * b) by (nonlinear_arith) requires k >= b;
        if k * k > n { lemma_small_mod(n, k * k); } else { assert(k * k == b * b); }
    }
}

// ---- sizes ----
pub open spec fn s_geo(w: nat, k: nat) -> nat
    decreases k
{ if k == 0 { 0 } else { s_geo(w, (k - 1) as nat) + ipow(w, k) } }
pub proof fn lemma_geo_mono(w: nat, a: nat, b: nat)
    requires a <= b
    ensures s_geo(w, a) <= s_geo(w, b)
    decreases b
{ if a < b { lemma_geo_mono(w, a, (b - 1) as nat); } }
pub proof fn lemma_geo(w: nat, k: nat)
    requires w >= 2
    ensures k >= 1 ==> s_geo(w, (k - 1) as nat) + 2 <= ipow(w, k) , s_geo(w, k) + 2 <= 2 * ipow(w, k)
    decreases k
{
    if k == 0 {} else {
        lemma_geo(w, (k - 1) as nat);
        let x = ipow(w, (k - 1) as nat);
        assert(ipow(w, k) == w * x);
        assert(w * x >= 2 * x) by (nonlinear_arith) requires w >= 2;
    }
}
/// the terms from d on stay within a geometric sum
pub proof fn lemma_witt_bound(w: nat, n: nat, d: nat)
    requires w >= 2, n >= 1, d >= 1
    ensures -(s_geo(w, n / d) as int) <= s_witt_from(w, n, d) <= s_geo(w, n / d)
    decreases n + 1 - d
{
    if d <= n {
        lemma_witt_bound(w, n, d + 1);
        lemma_fundamental_div_mod(n as int, d as int);
        lemma_fundamental_div_mod(n as int, (d + 1) as int);
        let (a, b) = (n / d, n / (d + 1));
        lemma_mod_bound(n as int, d as int);
        lemma_mod_bound(n as int, (d + 1) as int);
        if n % d == 0 {
            assert(b < a) by (nonlinear_arith) requires n == d * a, n == (d + 1) * b + n % (d + 1), n % (d + 1) >= 0, n >= 1, d >= 1;
            lemma_geo_mono(w, b, (a - 1) as nat);
            let x = ipow(w, a) as int;
            let m = s_mobius(d);
            assert(-x <= m * x <= x) by (nonlinear_arith) requires -1 <= m <= 1, x >= 0;
        } else {
            assert(b <= a) by (nonlinear_arith) requires n == d * a + n % d, n == (d + 1) * b + n % (d + 1), n % (d + 1) >= 0, n % d < d, n >= 1, d >= 1;
            lemma_geo_mono(w, b, a);
        }
    }
}
/// the terms after the first lower the sum
pub proof fn lemma_witt_tail(w: nat, n: nat, d: nat)
    requires w >= 2, n >= 2, 2 <= d <= n, s_none_below(n, d)
    ensures s_witt_from(w, n, d) <= 0
    decreases n - d
{
    if n % d == 0 {
        lemma_mobius_at(n, d);
        lemma_witt_bound(w, n, d + 1);
        lemma_fundamental_div_mod(n as int, d as int);
        lemma_fundamental_div_mod(n as int, (d + 1) as int);
        lemma_mod_bound(n as int, (d + 1) as int);
        let (a, b) = (n / d, n / (d + 1));
        assert(b < a) by (nonlinear_arith) requires n == d * a, n == (d + 1) * b + n % (d + 1), n % (d + 1) >= 0, n >= 1, d >= 1;
        lemma_geo_mono(w, b, (a - 1) as nat);
        lemma_geo(w, a);
        assert(s_witt_term(w, n, d) == -(ipow(w, a) as int)) by (nonlinear_arith)
            requires s_witt_term(w, n, d) == s_mobius(d) * ipow(w, a), s_mobius(d) == -1;
    } else {
        assert(d < n) by { if d == n { lemma_mod_self_0(n as int); } }
        assert(s_none_below(n, d + 1)) by {
            assert forall|k: nat| 2 <= k < d + 1 implies #[trigger] (n % k) != 0 by { if k < d {} else { assert(k == d); } }
        }
        lemma_witt_tail(w, n, d + 1);
    }
}
/// all the partial sums, and the sum, fit when the power does
pub proof fn lemma_witt(w: nat, n: nat, d: nat)
    requires s_witt_fits(w, n), n >= 1, d >= 1
    ensures -0x7fff_ffff_ffff_ffff <= s_witt_from(w, n, d) <= 0x7fff_ffff_ffff_ffff,
        0 <= s_witt_from(w, n, 1) <= ipow(w, n), s_level(w, n) <= ipow(w, n), w <= 0x7fff_ffff_ffff_ffff,
{
    if w == 1 {
        lemma_one(n);
        lemma_one_pow(n);
        if d <= n { lemma_one_from(n, s_lpf(n), d); }
        return;
    }
    assert(s_mobius(1) == 1) by { lemma_mobius_one(); }
    assert(n / 1 == n);
    assert(n % 1 == 0);
    assert(s_witt_term(w, n, 1) == ipow(w, n)) by (nonlinear_arith)
        requires s_witt_term(w, n, 1) == s_mobius(1) * ipow(w, n), s_mobius(1) == 1;
    lemma_witt_bound(w, n, 2);
    lemma_fundamental_div_mod(n as int, 2);
    if n >= 2 {
        lemma_witt_tail(w, n, 2);
        lemma_geo_mono(w, n / 2, (n - 1) as nat);
        lemma_geo(w, n);
    } else {
        assert(s_witt_from(w, 1, 2) == 0);
    }
    assert(s_witt_from(w, n, 1) == s_witt_term(w, n, 1) + s_witt_from(w, n, 2));
    if d >= 2 {
        lemma_witt_bound(w, n, d);
        if d <= n {
            lemma_div_is_ordered_by_denominator(n as int, 2, d as int);
            lemma_geo_mono(w, n / d, n / 2);
            lemma_geo_mono(w, n / 2, (n - 1) as nat);
            lemma_geo(w, n);
        }
    }
    let s = s_witt_from(w, n, 1);
    assert(0 <= s / (n as int) <= s) by { lemma_div_is_ordered_by_denominator(s, 1, n as int); lemma_div_pos_is_pos(s, n as int); }
    lemma_pow_grows(w, n);
}
pub proof fn lemma_pow_grows(w: nat, n: nat)
    requires w >= 2, n >= 1
    ensures ipow(w, n) <= 0x7fff_ffff_ffff_ffff ==> n <= 62 && w <= 0x7fff_ffff_ffff_ffff
{
    lemma_two_le(w, n);
    if n > 62 {
        lemma_two_le(2, n);
        lemma_ipow_mono(2, 63, n);
        assert(ipow(2, 63) == 0x8000_0000_0000_0000) by (compute);
    }
    assert(ipow(w, n) == w * ipow(w, (n - 1) as nat));
    lemma_ipow_pos(w, (n - 1) as nat);
    let x = ipow(w, (n - 1) as nat);
    assert(w * x >= w) by (nonlinear_arith) requires x >= 1;
}
pub proof fn lemma_two_le(w: nat, n: nat)
    requires w >= 2
    ensures ipow(2, n) <= ipow(w, n)
    decreases n
{
    if n > 0 {
        lemma_two_le(w, (n - 1) as nat);
        let (x, y) = (ipow(2, (n - 1) as nat), ipow(w, (n - 1) as nat));
        assert(2 * x <= w * y) by (nonlinear_arith) requires x <= y, w >= 2;
    }
}
pub proof fn lemma_fits_mono(w: nat, a: nat, b: nat)
    requires s_witt_fits(w, b), a <= b
    ensures s_witt_fits(w, a)
{ lemma_ipow_mono(w, a, b); }
pub proof fn lemma_geo_one(k: nat)
    ensures s_geo(1, k) == k
    decreases k
{ if k > 0 { lemma_geo_one((k - 1) as nat); lemma_one_pow(k); } }
/// the cumulative sizes fit
pub proof fn lemma_levels(w: nat, a: nat, n: nat)
    requires s_witt_fits(w, n), a >= 1
    ensures s_levels(w, a, n) <= s_geo(w, n), s_levels(w, a, n) <= 0xffff_ffff_ffff_ffff,
        a <= n ==> s_levels(w, a, n) + s_geo(w, (a - 1) as nat) <= s_geo(w, n),
        a <= n ==> s_levels(w, a, n) == s_levels(w, a, (n - 1) as nat) + s_level(w, n),
    decreases n + 1 - a
{
    if w == 1 { lemma_geo_one(n); } else { lemma_geo(w, n); }
    if a <= n {
        lemma_levels(w, a + 1, n);
        lemma_fits_mono(w, a, n);
        lemma_witt(w, a, 1);
        if a == n { assert(s_levels(w, a + 1, n) == 0); assert(s_levels(w, a, (n - 1) as nat) == 0); }
    }
}
pub proof fn lemma_size_levels(w: nat, n: nat)
    requires s_witt_fits(w, n)
    ensures s_hall_size(w, n) == s_levels(w, 1, n), s_hall_size(w, n) <= 0xffff_ffff_ffff_ffff
    decreases n
{
    lemma_levels(w, 1, n);
    if n > 0 { lemma_fits_mono(w, (n - 1) as nat, n); lemma_size_levels(w, (n - 1) as nat); }
}
pub proof fn lemma_size_mono(w: nat, a: nat, b: nat)
    requires a <= b
    ensures s_hall_size(w, a) <= s_hall_size(w, b)
    decreases b
{ if a < b { lemma_size_mono(w, a, (b - 1) as nat); } }

// ---- the sum of the Moebius function over the divisors: the formula for one letter ----
pub proof fn lemma_dvd(a: nat, d: nat, q: nat)
    requires d > 0, a == d * q
    ensures a % d == 0, a / d == q
{
    lemma_mul_is_commutative(d as int, q as int);
    lemma_mod_multiples_basic(q as int, d as int);
    lemma_div_multiples_vanish(q as int, d as int);
}
/// a prime that divides a product divides a factor
pub proof fn lemma_euclid(p: nat, a: nat, b: nat)
    requires p >= 2, s_none_below(p, p), (a * b) % p == 0
    ensures a % p == 0 || b % p == 0
    decreases a
{
    let t = (a * b) / p;
    lemma_fundamental_div_mod((a * b) as int, p as int);
    assert(a * b == p * t);
    if a >= p {
        let (q, r) = (a / p, a % p);
        lemma_fundamental_div_mod(a as int, p as int);
        lemma_mod_bound(a as int, p as int);
        assert(r * b == p * (t - q * b)) by (nonlinear_arith) requires a == p * q + r, a * b == p * t;
        assert(t - q * b >= 0) by (nonlinear_arith) requires r * b == p * (t - q * b), r * b >= 0, p >= 2;
        lemma_dvd(r * b, p, (t - q * b) as nat);
        lemma_euclid(p, r, b);
        if r % p == 0 { lemma_small_mod(r, p); }
    } else if a == 0 {
        lemma_small_mod(0, p);
    } else if a == 1 {
        assert(a * b == b) by (nonlinear_arith) requires a == 1;
    } else {
        let (q, r) = (p / a, p % a);
        lemma_fundamental_div_mod(p as int, a as int);
        lemma_mod_bound(p as int, a as int);
        assert(p % a != 0);
        assert(r * b == p * (b - q * t)) by (nonlinear_arith) requires p == a * q + r, a * b == p * t;
        assert(b - q * t >= 0) by (nonlinear_arith) requires r * b == p * (b - q * t), r * b >= 0, p >= 2;
        lemma_dvd(r * b, p, (b - q * t) as nat);
        lemma_euclid(p, r, b);
        if r % p == 0 { lemma_small_mod(r, p); }
    }
}
/// a divisor of p b without the prime p divides b
pub proof fn lemma_coprime_dvd(p: nat, a: nat, b: nat)
    requires p >= 2, s_none_below(p, p), a >= 1, a % p != 0, (p * b) % a == 0
    ensures b % a == 0
{
    let t = (p * b) / a;
    lemma_fundamental_div_mod((p * b) as int, a as int);
    assert(a * t == p * b);
    lemma_dvd(a * t, p, b);
    lemma_euclid(p, a, t);
    let u = t / p;
    lemma_fundamental_div_mod(t as int, p as int);
    assert(a * u == b) by (nonlinear_arith) requires a * t == p * b, t == p * u, p >= 2;
    lemma_dvd(b, a, u);
}
pub proof fn lemma_prime_lpf(n: nat, p: nat)
    requires n >= 2, p == s_lpf(n)
    ensures 2 <= p <= n, n % p == 0, s_none_below(n, p), s_none_below(p, p), n == p * (n / p), n / p >= 1
{
    lemma_lpf(n, 2);
    assert forall|k: nat| 2 <= k < p implies #[trigger] (p % k) != 0 by {
        if p % k == 0 { lemma_dvd_trans(n, p, k); assert(n % k == 0); }
    }
    lemma_fundamental_div_mod(n as int, p as int);
    if n / p == 0 { assert(p * (n / p) == 0) by (nonlinear_arith) requires n / p == 0; }
}
/// the Moebius function at p times a divisor of n / p, p the least prime factor of n
pub proof fn lemma_mobius_times(n: nat, p: nat, e: nat)
    requires n >= 2, p == s_lpf(n), e >= 1, (n / p) % e == 0
    ensures s_mobius(p * e) == (if e % p == 0 { 0 } else { -s_mobius(e) }), n % (p * e) == 0
{
    lemma_prime_lpf(n, p);
    let m = n / p;
    let f = m / e;
    let pe = p * e;
    lemma_fundamental_div_mod(m as int, e as int);
    assert(n == pe * f) by (nonlinear_arith) requires n == p * m, m == e * f, pe == p * e;
    assert(pe >= p) by (nonlinear_arith) requires pe == p * e, e >= 1;
    lemma_dvd(n, pe, f);
    assert(s_none_below(pe, p)) by {
        assert forall|k: nat| 2 <= k < p implies #[trigger] (pe % k) != 0 by {
            if pe % k == 0 { lemma_dvd_trans(n, pe, k); assert(n % k == 0); }
        }
    }
    lemma_dvd(pe, p, e);
    lemma_mobius_at(pe, p);
    if e % p == 0 {
        let g = e / p;
        lemma_fundamental_div_mod(e as int, p as int);
        assert(pe == (p * p) * g) by (nonlinear_arith) requires pe == p * e, e == p * g;
        assert(p * p > 0) by (nonlinear_arith) requires p >= 2;
        lemma_dvd(pe, p * p, g);
        assert(!s_sqfree(pe));
    } else if !s_sqfree(pe) {
        let k = choose|k: nat| k >= 2 && pe % #[trigger] (k * k) == 0;
        let kk = k * k;
        assert(kk >= 4) by (nonlinear_arith) requires k >= 2, kk == k * k;
        if kk % p == 0 {
            lemma_euclid(p, k, k);
            let (j, t) = (k / p, pe / kk);
            lemma_fundamental_div_mod(k as int, p as int);
            lemma_fundamental_div_mod(pe as int, kk as int);
            assert(e == p * (j * j * t)) by (nonlinear_arith) requires p * e == kk * t, kk == k * k, k == p * j, p >= 2;
            lemma_dvd(e, p, j * j * t);
        }
        lemma_coprime_dvd(p, kk, e);
        assert(e % (k * k) == 0);
        assert(!s_sqfree(e));
    }
}
/// the terms of the divisors of n up to h; those that p divides, or those that it does not
pub open spec fn s_mu_sum(n: nat, p: nat, div: bool, h: nat) -> int
    decreases h
{ if h == 0 { 0 } else { s_mu_sum(n, p, div, (h - 1) as nat) + (if n % h == 0 && (h % p == 0) == div { s_mobius(h) } else { 0 }) } }
pub proof fn lemma_mu_gap(n: nat, p: nat, h: nat, r: nat)
    requires p >= 2, r < p
    ensures s_mu_sum(n, p, true, p * h + r) == s_mu_sum(n, p, true, p * h)
    decreases r
{
    if r > 0 {
        lemma_mu_gap(n, p, h, (r - 1) as nat);
        lemma_mul_is_commutative(p as int, h as int);
        lemma_fundamental_div_mod_converse((p * h + r) as int, p as int, h as int, r as int);
        assert((p * h + r) as nat % p == r);
        assert((p * h + r - 1) as nat == p * h + (r - 1) as nat);
    }
}
pub proof fn lemma_mu_with(n: nat, p: nat, h: nat)
    requires n >= 2, p == s_lpf(n)
    ensures s_mu_sum(n, p, true, p * h) == -s_mu_sum(n / p, p, false, h)
    decreases h
{
    lemma_prime_lpf(n, p);
    let m = n / p;
    if h == 0 {
        assert(p * h == 0) by (nonlinear_arith) requires h == 0;
    } else {
        let g = (h - 1) as nat;
        lemma_mu_with(n, p, g);
        lemma_mu_gap(n, p, g, (p - 1) as nat);
        let ph = p * h;
        assert(ph == p * g + p) by (nonlinear_arith) requires ph == p * h, h == g + 1;
        lemma_dvd(ph, p, h);
        assert((ph - 1) as nat == p * g + (p - 1) as nat);
        assert(s_mu_sum(n, p, true, ph) == s_mu_sum(n, p, true, (ph - 1) as nat) + (if n % ph == 0 { s_mobius(ph) } else { 0 }));
        if m % h == 0 {
            lemma_mobius_times(n, p, h);
        } else if n % ph == 0 {
            let f = n / ph;
            lemma_fundamental_div_mod(n as int, ph as int);
            assert(m == h * f) by (nonlinear_arith) requires p * m == ph * f, ph == p * h, p >= 2;
            lemma_dvd(m, h, f);
        }
    }
}
pub proof fn lemma_mu_without(n: nat, p: nat, h: nat)
    requires n >= 2, p == s_lpf(n)
    ensures s_mu_sum(n, p, false, h) == s_mu_sum(n / p, p, false, h)
    decreases h
{
    lemma_prime_lpf(n, p);
    let m = n / p;
    if h > 0 {
        lemma_mu_without(n, p, (h - 1) as nat);
        if h % p != 0 {
            if n % h == 0 { lemma_coprime_dvd(p, h, m); }
            if m % h == 0 { lemma_dvd(n, m, p) ; lemma_mul_is_commutative(m as int, p as int); lemma_dvd_trans(n, m, h); }
        }
    }
}
pub proof fn lemma_mu_above(m: nat, p: nat, h: nat)
    requires m >= 1, h >= m
    ensures s_mu_sum(m, p, false, h) == s_mu_sum(m, p, false, m)
    decreases h
{ if h > m { lemma_mu_above(m, p, (h - 1) as nat); lemma_small_mod(m, h); } }
pub proof fn lemma_one_pow(k: nat)
    ensures ipow(1, k) == 1
    decreases k
{ if k > 0 { lemma_one_pow((k - 1) as nat); } }
pub proof fn lemma_one_from(n: nat, p: nat, d: nat)
    requires n >= 1, 1 <= d <= n + 1
    ensures s_witt_from(1, n, d) == s_mu_sum(n, p, true, n) + s_mu_sum(n, p, false, n) - s_mu_sum(n, p, true, (d - 1) as nat) - s_mu_sum(n, p, false, (d - 1) as nat),
        -(n + 1 - d) <= s_witt_from(1, n, d) <= n + 1 - d
    decreases n + 1 - d
{
    if d <= n {
        lemma_one_from(n, p, d + 1);
        lemma_one_pow(n / d);
        lemma_mobius_range(d);
        assert(s_witt_term(1, n, d) == (if n % d == 0 { s_mobius(d) } else { 0 }));
    }
}
/// there is one element of degree one and none of others
pub proof fn lemma_one(n: nat)
    requires n >= 1
    ensures s_witt_from(1, n, 1) == (if n == 1 { 1int } else { 0 }), s_level(1, n) == (if n == 1 { 1nat } else { 0 })
{
    if n == 1 {
        lemma_mobius_one();
        lemma_one_pow(1);
        assert(s_witt_from(1, 1, 2) == 0);
        assert(s_witt_term(1, 1, 1) == 1);
    } else {
        let p = s_lpf(n);
        lemma_prime_lpf(n, p);
        lemma_one_from(n, p, 1);
        lemma_mu_with(n, p, n / p);
        lemma_mu_without(n, p, n);
        lemma_mu_above(n / p, p, n);
    }
}
