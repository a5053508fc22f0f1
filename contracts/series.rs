// ---- tensors as functions from words to scalars, and power series ----
pub type Tn<S> = spec_fn(Seq<u32>) -> S;

/// the scalars are a commutative group under addition, products distribute over sums, quotients are linear
#[verifier::opaque]
pub open spec fn s_field<S: CoefficientField>() -> bool {
    &&& forall|a: S, b: S, c: S| #[trigger] a.s_add(b).s_add(c) == a.s_add(b.s_add(c))
    &&& forall|a: S, b: S| #[trigger] a.s_add(b) == b.s_add(a)
    &&& forall|a: S| #[trigger] a.s_add(S::ZERO) == a
    &&& forall|a: S| #[trigger] a.s_mul(S::ZERO) == S::ZERO
    &&& forall|a: S| #[trigger] S::ZERO.s_mul(a) == S::ZERO
    &&& forall|a: S, b: S, c: S| #[trigger] a.s_add(b).s_mul(c) == a.s_mul(c).s_add(b.s_mul(c))
    &&& forall|a: S, b: S| #[trigger] a.s_sub(b) == a.s_add(b.s_neg())
    &&& forall|a: S, b: S| #[trigger] a.s_neg().s_mul(b) == a.s_mul(b).s_neg()
    &&& forall|a: S, b: S| #[trigger] a.s_add(b).s_neg() == a.s_neg().s_add(b.s_neg())
    &&& S::ZERO.s_neg() == S::ZERO
    &&& forall|a: S, b: S, q: S::RationalType| #[trigger] a.s_add(b).s_div(q) == a.s_div(q).s_add(b.s_div(q))
    &&& forall|a: S, b: S, q: S::RationalType| #[trigger] a.s_div(q).s_mul(b) == a.s_mul(b).s_div(q)
    &&& forall|a: S, p: S::RationalType, q: S::RationalType| #[trigger] a.s_div(p).s_div(q) == a.s_div(q).s_div(p)
    &&& forall|q: S::RationalType| #[trigger] S::ZERO.s_div(q) == S::ZERO
}

pub open spec fn t_zero<S: CoefficientField>() -> Tn<S> { |w: Seq<u32>| S::ZERO }
pub open spec fn t_single<S: CoefficientField>(u: Seq<u32>, s: S) -> Tn<S> { |w: Seq<u32>| if w == u { s } else { S::ZERO } }
pub open spec fn t_set<S: CoefficientField>(a: Tn<S>, u: Seq<u32>, s: S) -> Tn<S> { |w: Seq<u32>| if w == u { s } else { a(w) } }
pub open spec fn t_add<S: CoefficientField>(a: Tn<S>, b: Tn<S>) -> Tn<S> { |w: Seq<u32>| a(w).s_add(b(w)) }
pub open spec fn t_sub<S: CoefficientField>(a: Tn<S>, b: Tn<S>) -> Tn<S> { |w: Seq<u32>| a(w).s_sub(b(w)) }
pub open spec fn t_neg<S: CoefficientField>(a: Tn<S>) -> Tn<S> { |w: Seq<u32>| a(w).s_neg() }
pub open spec fn t_map<S: CoefficientField>(f: spec_fn(S) -> S, a: Tn<S>) -> Tn<S> { |w: Seq<u32>| f(a(w)) }
pub open spec fn t_div<S: CoefficientField>(a: Tn<S>, q: S::RationalType) -> Tn<S> { |w: Seq<u32>| a(w).s_div(q) }
/// the sum over the splits of w after hi, .., lo letters
pub open spec fn t_sum<S: CoefficientField>(a: Tn<S>, b: Tn<S>, w: Seq<u32>, hi: int, lo: int) -> S
    decreases hi + 1 - lo
{
    if lo > hi { S::ZERO } else { t_sum(a, b, w, hi, lo + 1).s_add(a(w.take(lo)).s_mul(b(w.skip(lo)))) }
}
/// the product, up to degree d
pub open spec fn t_mul<S: CoefficientField>(n: u32, a: Tn<S>, b: Tn<S>, d: nat) -> Tn<S> {
    |w: Seq<u32>| if letters_ok(n, w) && w.len() <= d { t_sum(a, b, w, w.len() as int, 0) } else { S::ZERO }
}
pub open spec fn s_additive<S: CoefficientField>(f: spec_fn(S) -> S) -> bool {
    f(S::ZERO) == S::ZERO && forall|a: S, b: S| #[trigger] f(a.s_add(b)) == f(a).s_add(f(b))
}

/// p, p x, p x x, ..: the power of x of exponent k, with p in front
pub open spec fn t_pow<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, k: nat) -> Tn<S>
    decreases k
{ if k == 0 { p } else { t_mul(n, t_pow(n, p, x, d, (k - 1) as nat), x, d) } }

/// the degree as a rational
pub open spec fn s_q<S: CoefficientField>(i: nat) -> S::RationalType { S::RationalType::s_from_degree(i as DegreeType) }
/// a divided by i, i + 1, .., i + k - 1; by the factorial of k when i is 1
pub open spec fn t_divs<S: CoefficientField>(a: Tn<S>, i: nat, k: nat) -> Tn<S>
    decreases k
{ if k == 0 { a } else { t_div(t_divs(a, i, (k - 1) as nat), s_q::<S>((i + k - 1) as nat)) } }

/// the sum of p x^k / (i .. (i + k - 1)) for k up to m
pub open spec fn t_series<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat) -> Tn<S>
    decreases m
{
    if m == 0 { p } else { t_add(t_series(n, p, x, d, i, (m - 1) as nat), t_divs(t_pow(n, p, x, d, m), i, m)) }
}
/// the exponential: the sum of the powers of x divided by the factorials, with p in front
pub open spec fn t_exp<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat) -> Tn<S> { t_series(n, p, x, d, 1, d) }

/// x^k / q with the sign of the term of exponent e in the logarithm
pub open spec fn t_log_term<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, k: nat, e: nat) -> Tn<S> {
    if e % 2 == 0 { t_neg(t_div(t_pow(n, p, x, d, k), s_q::<S>(e))) } else { t_div(t_pow(n, p, x, d, k), s_q::<S>(e)) }
}
/// the sum of the terms x^k / (i + k - 1), signs alternating, for k from 1 to m
pub open spec fn t_log_series<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat) -> Tn<S>
    decreases m
{
    if m == 0 { t_zero() } else { t_add(t_log_series(n, p, x, d, i, (m - 1) as nat), t_log_term(n, p, x, d, m, (i + m - 1) as nat)) }
}
pub open spec fn t_log<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat) -> Tn<S> { t_log_series(n, p, x, d, 1, d) }

// ---- linearity ----
pub proof fn lemma_sum_add<S: CoefficientField>(a: Tn<S>, b: Tn<S>, x: Tn<S>, w: Seq<u32>, hi: int, lo: int)
    requires s_field::<S>()
    ensures t_sum(t_add(a, b), x, w, hi, lo) == t_sum(a, x, w, hi, lo).s_add(t_sum(b, x, w, hi, lo))
    decreases hi + 1 - lo
{
    reveal(s_field);
    if lo <= hi {
        lemma_sum_add(a, b, x, w, hi, lo + 1);
        let (p, q) = (t_sum(a, x, w, hi, lo + 1), t_sum(b, x, w, hi, lo + 1));
        let (u, v, c) = (a(w.take(lo)), b(w.take(lo)), x(w.skip(lo)));
        assert(u.s_add(v).s_mul(c) == u.s_mul(c).s_add(v.s_mul(c)));
        lemma_swap(p, q, u.s_mul(c), v.s_mul(c));
    } else { assert(S::ZERO.s_add(S::ZERO) == S::ZERO); }
}
/// (p + q) + (r + s) = (p + r) + (q + s)
pub proof fn lemma_swap<S: CoefficientField>(p: S, q: S, r: S, s: S)
    requires s_field::<S>()
    ensures p.s_add(q).s_add(r.s_add(s)) == p.s_add(r).s_add(q.s_add(s))
{
    reveal(s_field);
    assert(p.s_add(q).s_add(r.s_add(s)) == p.s_add(q.s_add(r.s_add(s))));
    assert(q.s_add(r.s_add(s)) == q.s_add(r).s_add(s));
    assert(q.s_add(r) == r.s_add(q));
    assert(r.s_add(q).s_add(s) == r.s_add(q.s_add(s)));
    assert(p.s_add(r.s_add(q.s_add(s))) == p.s_add(r).s_add(q.s_add(s)));
}
pub proof fn lemma_sum_neg<S: CoefficientField>(a: Tn<S>, x: Tn<S>, w: Seq<u32>, hi: int, lo: int)
    requires s_field::<S>()
    ensures t_sum(t_neg(a), x, w, hi, lo) == t_sum(a, x, w, hi, lo).s_neg()
    decreases hi + 1 - lo
{
    reveal(s_field);
    if lo <= hi {
        lemma_sum_neg(a, x, w, hi, lo + 1);
        let (u, c) = (a(w.take(lo)), x(w.skip(lo)));
        assert(u.s_neg().s_mul(c) == u.s_mul(c).s_neg());
        assert(t_sum(a, x, w, hi, lo + 1).s_add(u.s_mul(c)).s_neg() == t_sum(a, x, w, hi, lo + 1).s_neg().s_add(u.s_mul(c).s_neg()));
    }
}
pub proof fn lemma_sum_div<S: CoefficientField>(a: Tn<S>, q: S::RationalType, x: Tn<S>, w: Seq<u32>, hi: int, lo: int)
    requires s_field::<S>()
    ensures t_sum(t_div(a, q), x, w, hi, lo) == t_sum(a, x, w, hi, lo).s_div(q)
    decreases hi + 1 - lo
{
    reveal(s_field);
    if lo <= hi {
        lemma_sum_div(a, q, x, w, hi, lo + 1);
        let (u, c) = (a(w.take(lo)), x(w.skip(lo)));
        assert(u.s_div(q).s_mul(c) == u.s_mul(c).s_div(q));
        assert(t_sum(a, x, w, hi, lo + 1).s_add(u.s_mul(c)).s_div(q) == t_sum(a, x, w, hi, lo + 1).s_div(q).s_add(u.s_mul(c).s_div(q)));
    } else { assert(S::ZERO.s_div(q) == S::ZERO); }
}
pub proof fn lemma_mul_add<S: CoefficientField>(n: u32, a: Tn<S>, b: Tn<S>, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_add(a, b), x, d) == t_add(t_mul(n, a, x, d), t_mul(n, b, x, d))
{
    assert forall|w: Seq<u32>| #[trigger] t_mul(n, t_add(a, b), x, d)(w) == t_add(t_mul(n, a, x, d), t_mul(n, b, x, d))(w) by {
        lemma_sum_add(a, b, x, w, w.len() as int, 0);
        reveal(s_field);
        assert(S::ZERO.s_add(S::ZERO) == S::ZERO);
    }
    assert(t_mul(n, t_add(a, b), x, d) =~= t_add(t_mul(n, a, x, d), t_mul(n, b, x, d)));
}
pub proof fn lemma_mul_neg<S: CoefficientField>(n: u32, a: Tn<S>, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_neg(a), x, d) == t_neg(t_mul(n, a, x, d))
{
    assert forall|w: Seq<u32>| #[trigger] t_mul(n, t_neg(a), x, d)(w) == t_neg(t_mul(n, a, x, d))(w) by {
        lemma_sum_neg(a, x, w, w.len() as int, 0);
        reveal(s_field);
    }
    assert(t_mul(n, t_neg(a), x, d) =~= t_neg(t_mul(n, a, x, d)));
}
pub proof fn lemma_mul_div<S: CoefficientField>(n: u32, a: Tn<S>, q: S::RationalType, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_div(a, q), x, d) == t_div(t_mul(n, a, x, d), q)
{
    assert forall|w: Seq<u32>| #[trigger] t_mul(n, t_div(a, q), x, d)(w) == t_div(t_mul(n, a, x, d), q)(w) by {
        lemma_sum_div(a, q, x, w, w.len() as int, 0);
        reveal(s_field);
        assert(S::ZERO.s_div(q) == S::ZERO);
    }
    assert(t_mul(n, t_div(a, q), x, d) =~= t_div(t_mul(n, a, x, d), q));
}
pub proof fn lemma_mul_divs<S: CoefficientField>(n: u32, a: Tn<S>, i: nat, k: nat, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_divs(a, i, k), x, d) == t_divs(t_mul(n, a, x, d), i, k)
    decreases k
{
    if k > 0 {
        lemma_mul_divs(n, a, i, (k - 1) as nat, x, d);
        lemma_mul_div(n, t_divs(a, i, (k - 1) as nat), s_q::<S>((i + k - 1) as nat), x, d);
    }
}
pub proof fn lemma_div_div<S: CoefficientField>(a: Tn<S>, p: S::RationalType, q: S::RationalType)
    requires s_field::<S>()
    ensures t_div(t_div(a, p), q) == t_div(t_div(a, q), p)
{
    assert forall|w: Seq<u32>| #[trigger] t_div(t_div(a, p), q)(w) == t_div(t_div(a, q), p)(w) by { reveal(s_field); assert(a(w).s_div(p).s_div(q) == a(w).s_div(q).s_div(p)); }
    assert(t_div(t_div(a, p), q) =~= t_div(t_div(a, q), p));
}
/// a / ((i + 1) .. (i + k)) / i = a / (i .. (i + k))
pub proof fn lemma_divs_first<S: CoefficientField>(a: Tn<S>, i: nat, k: nat)
    requires s_field::<S>()
    ensures t_div(t_divs(a, i + 1, k), s_q::<S>(i)) == t_divs(a, i, k + 1)
    decreases k
{
    if k > 0 {
        lemma_divs_first(a, i, (k - 1) as nat);
        lemma_div_div(t_divs(a, i + 1, (k - 1) as nat), s_q::<S>(i + k), s_q::<S>(i));
        assert(t_divs(a, i + 1, k) == t_div(t_divs(a, i + 1, (k - 1) as nat), s_q::<S>(i + k)));
        assert(t_divs(a, i, k + 1) == t_div(t_divs(a, i, k), s_q::<S>(i + k)));
    } else {
        assert(t_divs(a, i, 1) == t_div(t_divs(a, i, 0), s_q::<S>(i)));
    }
}
pub proof fn lemma_div_add<S: CoefficientField>(a: Tn<S>, b: Tn<S>, q: S::RationalType)
    requires s_field::<S>()
    ensures t_div(t_add(a, b), q) == t_add(t_div(a, q), t_div(b, q))
{
    assert forall|w: Seq<u32>| #[trigger] t_div(t_add(a, b), q)(w) == t_add(t_div(a, q), t_div(b, q))(w) by { reveal(s_field); assert(a(w).s_add(b(w)).s_div(q) == a(w).s_div(q).s_add(b(w).s_div(q))); }
    assert(t_div(t_add(a, b), q) =~= t_add(t_div(a, q), t_div(b, q)));
}
pub proof fn lemma_add_comm<S: CoefficientField>(a: Tn<S>, b: Tn<S>)
    requires s_field::<S>()
    ensures t_add(a, b) == t_add(b, a)
{
    assert forall|w: Seq<u32>| #[trigger] t_add(a, b)(w) == t_add(b, a)(w) by { reveal(s_field); }
    assert(t_add(a, b) =~= t_add(b, a));
}
/// (a + b) + c = (a + c) + b
pub proof fn lemma_add_right<S: CoefficientField>(a: Tn<S>, b: Tn<S>, c: Tn<S>)
    requires s_field::<S>()
    ensures t_add(t_add(a, b), c) == t_add(t_add(a, c), b)
{
    assert forall|w: Seq<u32>| #[trigger] t_add(t_add(a, b), c)(w) == t_add(t_add(a, c), b)(w) by {
        reveal(s_field);
        let (x, y, z) = (a(w), b(w), c(w));
        assert(x.s_add(y).s_add(z) == x.s_add(y.s_add(z)));
        assert(y.s_add(z) == z.s_add(y));
        assert(x.s_add(z).s_add(y) == x.s_add(z.s_add(y)));
    }
    assert(t_add(t_add(a, b), c) =~= t_add(t_add(a, c), b));
}
pub proof fn lemma_sub<S: CoefficientField>(a: Tn<S>, b: Tn<S>)
    requires s_field::<S>()
    ensures t_sub(a, b) == t_add(a, t_neg(b))
{
    assert forall|w: Seq<u32>| #[trigger] t_sub(a, b)(w) == t_add(a, t_neg(b))(w) by { reveal(s_field); assert(a(w).s_sub(b(w)) == a(w).s_add(b(w).s_neg())); }
    assert(t_sub(a, b) =~= t_add(a, t_neg(b)));
}
pub proof fn lemma_mul_zero<S: CoefficientField>(n: u32, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_zero::<S>(), x, d) == t_zero::<S>(), forall|a: Tn<S>| #[trigger] t_add(t_zero::<S>(), a) == a
{
    assert forall|w: Seq<u32>| #[trigger] t_mul(n, t_zero::<S>(), x, d)(w) == t_zero::<S>()(w) by { lemma_sum_zero::<S>(x, w, w.len() as int, 0); }
    assert(t_mul(n, t_zero::<S>(), x, d) =~= t_zero::<S>());
    assert forall|a: Tn<S>| #[trigger] t_add(t_zero::<S>(), a) == a by {
        assert forall|w: Seq<u32>| #[trigger] t_add(t_zero::<S>(), a)(w) == a(w) by { reveal(s_field); assert(S::ZERO.s_add(a(w)) == a(w).s_add(S::ZERO)); }
        assert(t_add(t_zero::<S>(), a) =~= a);
    }
}
pub proof fn lemma_sum_zero<S: CoefficientField>(x: Tn<S>, w: Seq<u32>, hi: int, lo: int)
    requires s_field::<S>()
    ensures t_sum(t_zero::<S>(), x, w, hi, lo) == S::ZERO
    decreases hi + 1 - lo
{
    reveal(s_field);
    if lo <= hi { lemma_sum_zero::<S>(x, w, hi, lo + 1); assert(S::ZERO.s_mul(x(w.skip(lo))) == S::ZERO); assert(S::ZERO.s_add(S::ZERO) == S::ZERO); }
}

// ---- Horner's scheme ----
/// (series from i + 1) x / i + p is the series from i
pub proof fn lemma_series_step<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat)
    requires s_field::<S>()
    ensures t_add(t_div(t_mul(n, t_series(n, p, x, d, i + 1, m), x, d), s_q::<S>(i)), p) == t_series(n, p, x, d, i, m + 1)
    decreases m
{
    let q = s_q::<S>(i);
    if m == 0 {
        let y = t_div(t_mul(n, p, x, d), q);
        assert(t_pow(n, p, x, d, 1) == t_mul(n, t_pow(n, p, x, d, 0), x, d));
        assert(t_divs(t_pow(n, p, x, d, 1), i, 1) == t_div(t_divs(t_pow(n, p, x, d, 1), i, 0), q));
        assert(t_series(n, p, x, d, i, 1) == t_add(t_series(n, p, x, d, i, 0), t_divs(t_pow(n, p, x, d, 1), i, 1)));
        lemma_add_comm(y, p);
    } else {
        let a = t_series(n, p, x, d, i + 1, (m - 1) as nat);
        let b = t_divs(t_pow(n, p, x, d, m), i + 1, m);
        lemma_series_step(n, p, x, d, i, (m - 1) as nat);
        lemma_mul_add(n, a, b, x, d);
        lemma_div_add(t_mul(n, a, x, d), t_mul(n, b, x, d), q);
        lemma_add_right(t_div(t_mul(n, a, x, d), q), t_div(t_mul(n, b, x, d), q), p);
        lemma_mul_divs(n, t_pow(n, p, x, d, m), i + 1, m, x, d);
        lemma_divs_first(t_pow(n, p, x, d, m + 1), i, m);
        assert(t_div(t_mul(n, b, x, d), q) == t_divs(t_pow(n, p, x, d, m + 1), i, m + 1));
    }
}
/// (logarithm from i + 1, plus or minus p / i) x is the logarithm from i
pub proof fn lemma_log_step<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_add(t_log_series(n, p, x, d, i + 1, m), t_log_term(n, p, x, d, 0, i)), x, d) == t_log_series(n, p, x, d, i, m + 1)
    decreases m
{
    let t = t_log_term(n, p, x, d, 0, i);
    lemma_mul_add(n, t_log_series(n, p, x, d, i + 1, m), t, x, d);
    lemma_log_term_mul(n, p, x, d, 0, i);
    lemma_mul_zero::<S>(n, x, d);
    if m == 0 {
        assert(t_log_series(n, p, x, d, i, 1) == t_add(t_log_series(n, p, x, d, i, 0), t_log_term(n, p, x, d, 1, i)));
    } else {
        let a = t_log_series(n, p, x, d, i + 1, (m - 1) as nat);
        let b = t_log_term(n, p, x, d, m, i + m);
        lemma_log_step(n, p, x, d, i, (m - 1) as nat);
        lemma_mul_add(n, a, t, x, d);
        lemma_mul_add(n, a, b, x, d);
        lemma_log_term_mul(n, p, x, d, m, i + m);
        lemma_add_right(t_mul(n, a, x, d), t_mul(n, b, x, d), t_mul(n, t, x, d));
    }
}
pub proof fn lemma_log_term_mul<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, k: nat, e: nat)
    requires s_field::<S>()
    ensures t_mul(n, t_log_term(n, p, x, d, k, e), x, d) == t_log_term(n, p, x, d, k + 1, e)
{
    let y = t_div(t_pow(n, p, x, d, k), s_q::<S>(e));
    lemma_mul_div(n, t_pow(n, p, x, d, k), s_q::<S>(e), x, d);
    lemma_mul_neg(n, y, x, d);
}

// ---- truncation ----
/// equal on words of length up to d
pub open spec fn t_agree<S: CoefficientField>(n: u32, a: Tn<S>, b: Tn<S>, d: int) -> bool {
    forall|w: Seq<u32>| letters_ok(n, w) && w.len() <= d ==> #[trigger] a(w) == b(w)
}
/// when x has no constant term, the product up to degree d + 1 needs the left factor up to degree d only
pub proof fn lemma_sum_agree<S: CoefficientField>(n: u32, a: Tn<S>, b: Tn<S>, x: Tn<S>, d: int, w: Seq<u32>, lo: int)
    requires s_field::<S>(), t_agree(n, a, b, d), x(Seq::empty()) == S::ZERO, letters_ok(n, w), w.len() <= d + 1, 0 <= lo
    ensures t_sum(a, x, w, w.len() as int, lo) == t_sum(b, x, w, w.len() as int, lo)
    decreases w.len() + 1 - lo
{
    reveal(s_field);
    if lo <= w.len() {
        lemma_sum_agree(n, a, b, x, d, w, lo + 1);
        if lo == w.len() {
            assert(w.skip(lo) =~= Seq::empty());
            assert(a(w.take(lo)).s_mul(S::ZERO) == S::ZERO);
            assert(b(w.take(lo)).s_mul(S::ZERO) == S::ZERO);
        } else {
            let u = w.take(lo);
            assert forall|i: int| 0 <= i < u.len() implies 1 <= #[trigger] u[i] <= n by { assert(u[i] == w[i]); }
            assert(a(u) == b(u));
        }
    }
}
/// one step of the fused exponential: truncation at degree e <= d + 1 of the product with what agrees up to d
pub proof fn lemma_fused_step<S: CoefficientField>(n: u32, s: Tn<S>, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat, e: nat, r: Tn<S>)
    requires s_field::<S>(), x(Seq::empty()) == S::ZERO, t_agree(n, s, t_series(n, p, x, d, i + 1, m), m as int), m + 1 <= e <= d,
        r == t_add(t_div(t_mul(n, s, x, e), s_q::<S>(i)), p),
    ensures t_agree(n, r, t_series(n, p, x, d, i, m + 1), m as int + 1)
{
    lemma_series_step(n, p, x, d, i, m);
    assert forall|w: Seq<u32>| letters_ok(n, w) && w.len() <= m + 1 implies #[trigger] r(w) == t_series(n, p, x, d, i, m + 1)(w) by {
        lemma_sum_agree(n, s, t_series(n, p, x, d, i + 1, m), x, m as int, w, 0);
        let y = t_add(t_div(t_mul(n, t_series(n, p, x, d, i + 1, m), x, d), s_q::<S>(i)), p);
        assert(y(w) == t_series(n, p, x, d, i, m + 1)(w));
        assert(t_mul(n, s, x, e)(w) == t_mul(n, t_series(n, p, x, d, i + 1, m), x, d)(w));
    }
}
/// beyond degree d the series is its first term
pub proof fn lemma_series_long<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, m: nat, w: Seq<u32>)
    requires s_field::<S>(), w.len() > d || !letters_ok(n, w)
    ensures t_series(n, p, x, d, i, m)(w) == p(w)
    decreases m
{
    if m > 0 {
        lemma_series_long(n, p, x, d, i, (m - 1) as nat, w);
        lemma_divs_zero(t_pow(n, p, x, d, m), i, m, w);
        reveal(s_field);
        assert(p(w).s_add(S::ZERO) == p(w));
    }
}
pub proof fn lemma_divs_zero<S: CoefficientField>(a: Tn<S>, i: nat, k: nat, w: Seq<u32>)
    requires s_field::<S>(), a(w) == S::ZERO
    ensures t_divs(a, i, k)(w) == S::ZERO
    decreases k
{
    if k > 0 { lemma_divs_zero(a, i, (k - 1) as nat, w); reveal(s_field); assert(S::ZERO.s_div(s_q::<S>((i + k - 1) as nat)) == S::ZERO); }
}
