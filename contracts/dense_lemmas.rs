/// copies, element by element
pub open spec fn s_copy<S: Clone>(a: Seq<S>, b: Seq<S>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned(#[trigger] a[i], b[i])
}
pub broadcast proof fn lemma_clone<S: CoefficientField>(a: S, b: S)
    requires #[trigger] cloned(a, b)
    ensures a == b
{ S::law_clone(a, b); }
pub broadcast proof fn lemma_copy<S: CoefficientField>(a: Seq<S>, b: Seq<S>)
    requires #[trigger] s_copy(a, b)
    ensures a == b
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { S::law_clone(a[i], b[i]); }
    assert(a =~= b);
}
pub broadcast group group_clone { lemma_clone, lemma_copy }

/// the coefficient at a place, zero where nothing is stored
pub open spec fn s_at<S: CoefficientField>(v: Seq<S>, i: int) -> S { if 0 <= i < v.len() { v[i] } else { S::ZERO } }
pub open spec fn s_max(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn s_seq_neg<S: CoefficientField>(v: Seq<S>) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].s_neg()) }
pub open spec fn s_seq_mul<S: CoefficientField>(v: Seq<S>, s: S) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].s_mul(s)) }
pub open spec fn s_seq_div<S: CoefficientField>(v: Seq<S>, q: S::RationalType) -> Seq<S> { Seq::new(v.len(), |i: int| v[i].s_div(q)) }
/// sum of two vectors: beyond the end of the second nothing changes
pub open spec fn s_seq_add<S: CoefficientField>(v: Seq<S>, w: Seq<S>) -> Seq<S> {
    Seq::new(s_max(v.len(), w.len()), |i: int| if i < w.len() { s_at(v, i).s_add(w[i]) } else { v[i] })
}
pub open spec fn s_seq_sub<S: CoefficientField>(v: Seq<S>, w: Seq<S>) -> Seq<S> {
    Seq::new(s_max(v.len(), w.len()), |i: int| if i < w.len() { s_at(v, i).s_sub(w[i]) } else { v[i] })
}
/// the sum of what the pairs give for one index
pub open spec fn s_pair_sum<S: CoefficientField>(p: Seq<(nat, S)>, i: nat) -> S
    decreases p.len()
{
    if p.len() == 0 { S::ZERO }
    else if p.last().0 == i { s_pair_sum(p.drop_last(), i).s_add(p.last().1) }
    else { s_pair_sum(p.drop_last(), i) }
}
pub open spec fn s_same<S>(i: usize) -> spec_fn((usize, S)) -> bool { |x: (usize, S)| x.0 == i }
pub open spec fn s_nats<S>(p: Seq<(usize, S)>) -> Seq<(nat, S)> { p.map_values(|x: (usize, S)| (x.0 as nat, x.1)) }
/// the sum for an index needs only the pairs for that index, in their order
pub proof fn lemma_pair_sum_filter<S: CoefficientField>(p: Seq<(usize, S)>, i: usize)
    ensures s_pair_sum(s_nats(p), i as nat) == s_pair_sum(s_nats(p.filter(s_same(i))), i as nat)
    decreases p.len()
{
    reveal(Seq::filter);
    if p.len() > 0 {
        lemma_pair_sum_filter(p.drop_last(), i);
        assert(s_nats(p).drop_last() =~= s_nats(p.drop_last()));
        let f = p.drop_last().filter(s_same(i));
        if p.last().0 == i {
            assert(p.filter(s_same(i)) == f.push(p.last()));
            assert(s_nats(f.push(p.last())).drop_last() =~= s_nats(f));
        } else {
            assert(p.filter(s_same(i)) == f);
        }
    } else {
        assert(p.filter(s_same(i)) == p);
    }
}
pub proof fn lemma_pair_sum_none<S: CoefficientField>(p: Seq<(nat, S)>, i: nat)
    requires forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).0 != i
    ensures s_pair_sum(p, i) == S::ZERO
    decreases p.len()
{
    if p.len() > 0 {
        assert(p.last() == p[p.len() - 1]);
        assert forall|j: int| 0 <= j < p.drop_last().len() implies (#[trigger] p.drop_last()[j]).0 != i by { assert(p.drop_last()[j] == p[j]); }
        lemma_pair_sum_none(p.drop_last(), i);
    }
}
pub proof fn lemma_pair_sum_step<S: CoefficientField>(p: Seq<(usize, S)>, n: int, i: nat)
    requires 0 <= n < p.len()
    ensures s_pair_sum(s_nats(p.take(n + 1)), i) == if p[n].0 == i { s_pair_sum(s_nats(p.take(n)), i).s_add(p[n].1) } else { s_pair_sum(s_nats(p.take(n)), i) }
{
    assert(s_nats(p.take(n + 1)).drop_last() =~= s_nats(p.take(n)));
}
/// sorting by index keeps the sums
pub proof fn lemma_pair_sum_sorted<S: CoefficientField>(p: Seq<(usize, S)>, q: Seq<(usize, S)>, i: nat)
    requires forall|i: usize| p.filter(#[trigger] s_same::<S>(i)) == q.filter(s_same::<S>(i)),
        forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j]).0 <= usize::MAX,
    ensures s_pair_sum(s_nats(p), i) == s_pair_sum(s_nats(q), i)
{
    if i <= usize::MAX {
        let k = i as usize;
        assert(p.filter(s_same::<S>(k)) == q.filter(s_same::<S>(k)));
        lemma_pair_sum_filter(p, k);
        lemma_pair_sum_filter(q, k);
    } else {
        lemma_pair_sum_none(s_nats(p), i);
        lemma_pair_sum_none(s_nats(q), i);
    }
}
