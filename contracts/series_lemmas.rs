// ---- one step of the loops, in terms of the series ----
pub proof fn lemma_quot<S: CoefficientField>(n: u32, q: S::RationalType, a: Tn<S>, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures s_additive(s_quot::<S>(q)), t_add(t_zero::<S>(), t_map(s_quot::<S>(q), t_mul(n, a, x, d))) == t_div(t_mul(n, a, x, d), q)
{
    reveal(s_field);
    lemma_mul_zero::<S>(n, x, d);
    let y = t_mul(n, a, x, d);
    assert(t_map(s_quot::<S>(q), y) =~= t_div(y, q));
}
pub proof fn lemma_ident<S: CoefficientField>(n: u32, a: Tn<S>, x: Tn<S>, d: nat)
    requires s_field::<S>()
    ensures s_additive(s_id::<S>()), t_add(t_zero::<S>(), t_map(s_id::<S>(), t_mul(n, a, x, d))) == t_mul(n, a, x, d)
{
    lemma_mul_zero::<S>(n, x, d);
    let y = t_mul(n, a, x, d);
    assert(t_map(s_id::<S>(), y) =~= y);
}
pub proof fn lemma_fused_long<S: CoefficientField>(n: u32, h: Tn<S>, p: Tn<S>, x: Tn<S>, q: S::RationalType, e: nat)
    requires s_field::<S>()
    ensures forall|w: Seq<u32>| w.len() > e || !letters_ok(n, w) ==> #[trigger] t_add(t_div(t_mul(n, h, x, e), q), p)(w) == p(w)
{
    assert forall|w: Seq<u32>| w.len() > e || !letters_ok(n, w) implies #[trigger] t_add(t_div(t_mul(n, h, x, e), q), p)(w) == p(w) by {
        reveal(s_field);
        assert(S::ZERO.s_div(q) == S::ZERO);
        assert(S::ZERO.s_add(p(w)) == p(w).s_add(S::ZERO));
    }
}
pub proof fn lemma_log_term_0<S: CoefficientField>(n: u32, p: Tn<S>, x: Tn<S>, d: nat, i: nat, h: Tn<S>)
    requires s_field::<S>()
    ensures t_add(h, t_log_term(n, p, x, d, 0, i)) == if i % 2 == 0 { t_sub(h, t_div(p, s_q::<S>(i))) } else { t_add(h, t_div(p, s_q::<S>(i))) }
{
    lemma_sub(h, t_div(p, s_q::<S>(i)));
}
/// the empty word with coefficient one is the unit of the product
pub proof fn lemma_unit<S: CoefficientField>(n: u32, x: Tn<S>, d: nat, w: Seq<u32>)
    requires s_field::<S>(), forall|a: S| #[trigger] S::ONE.s_mul(a) == a, letters_ok(n, w), w.len() <= d
    ensures t_mul(n, t_single(Seq::empty(), S::ONE), x, d)(w) == x(w)
{
    let u = t_single(Seq::<u32>::empty(), S::ONE);
    lemma_unit_rest(x, w, w.len() as int, 1);
    assert(w.take(0) =~= Seq::<u32>::empty());
    assert(w.skip(0) =~= w);
    assert(S::ONE.s_mul(x(w)) == x(w));
    assert(S::ZERO.s_add(x(w)) == x(w)) by { reveal(s_field); assert(S::ZERO.s_add(x(w)) == x(w).s_add(S::ZERO)); }
}
pub proof fn lemma_unit_rest<S: CoefficientField>(x: Tn<S>, w: Seq<u32>, hi: int, lo: int)
    requires s_field::<S>(), 1 <= lo, hi <= w.len()
    ensures t_sum(t_single(Seq::empty(), S::ONE), x, w, hi, lo) == S::ZERO
    decreases hi + 1 - lo
{
    reveal(s_field);
    if lo <= hi {
        lemma_unit_rest(x, w, hi, lo + 1);
        assert(w.take(lo).len() == lo);
        assert(S::ZERO.s_mul(x(w.skip(lo))) == S::ZERO);
        assert(S::ZERO.s_add(S::ZERO) == S::ZERO);
    }
}
