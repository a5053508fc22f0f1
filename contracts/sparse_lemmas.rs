// ---- sparse vectors: finite maps from keys to scalars; a key that is not stored counts as zero ----
pub open spec fn s_zero<S: CoefficientField>(s: S) -> bool { s.eq_spec(&S::ZERO) }
pub open spec fn s_map_neg<K, S: CoefficientField>(v: Map<K, S>) -> Map<K, S> { v.map_values(|s: S| s.s_neg()) }
pub open spec fn s_map_add<K, S: CoefficientField>(v: Map<K, S>, w: Map<K, S>) -> Map<K, S> {
    Map::new(
        v.dom().union(w.dom()).filter(|k: K| v.contains_key(k) && w.contains_key(k) ==> !s_zero(v[k].s_add(w[k]))),
        |k: K| if v.contains_key(k) && w.contains_key(k) { v[k].s_add(w[k]) } else if v.contains_key(k) { v[k] } else { w[k] })
}
pub open spec fn s_map_sub<K, S: CoefficientField>(v: Map<K, S>, w: Map<K, S>) -> Map<K, S> {
    Map::new(
        v.dom().union(w.dom()).filter(|k: K| v.contains_key(k) && w.contains_key(k) ==> !s_zero(v[k].s_sub(w[k]))),
        |k: K| if v.contains_key(k) && w.contains_key(k) { v[k].s_sub(w[k]) } else if v.contains_key(k) { v[k] } else { w[k].s_neg() })
}
pub open spec fn s_map_mul<K, S: CoefficientField>(v: Map<K, S>, s: S) -> Map<K, S> {
    if s_zero(s) { Map::empty() } else { v.map_values(|x: S| x.s_mul(s)) }
}
pub open spec fn s_map_div<K, S: CoefficientField>(v: Map<K, S>, q: S::RationalType) -> Map<K, S> { v.map_values(|x: S| x.s_div(q)) }
/// the part of a map whose keys are among the first
pub open spec fn s_part<K, S>(w: Map<K, S>, ks: Seq<K>, i: int) -> Map<K, S> { w.restrict(ks.take(i).to_set()) }
/// an operation done on the first keys only
pub open spec fn s_upto<K, S>(v: Map<K, S>, f: Map<K, S>, ks: Seq<K>, i: int) -> Map<K, S> {
    Map::new(v.dom(), |k: K| if ks.take(i).contains(k) { f[k] } else { v[k] })
}

pub proof fn lemma_take_step<K>(ks: Seq<K>, i: int)
    requires 0 <= i < ks.len(), ks.no_duplicates()
    ensures forall|k: K| #[trigger] ks.take(i + 1).contains(k) <==> ks.take(i).contains(k) || k == ks[i], !ks.take(i).contains(ks[i])
{
    let (a, b) = (ks.take(i), ks.take(i + 1));
    assert(b =~= a.push(ks[i]));
    assert forall|k: K| #[trigger] b.contains(k) implies a.contains(k) || k == ks[i] by {
        let j = choose|j: int| 0 <= j < b.len() && b[j] == k;
        if j < i { assert(a[j] == k); }
    }
    assert forall|k: K| a.contains(k) || k == ks[i] implies #[trigger] b.contains(k) by {
        if k == ks[i] { assert(b[i] == k); } else { let j = choose|j: int| 0 <= j < a.len() && a[j] == k; assert(b[j] == k); }
    }
    if a.contains(ks[i]) { let j = choose|j: int| 0 <= j < a.len() && a[j] == ks[i]; assert(ks[j] == ks[i]); }
}
/// before the first and after the last key of an iteration
pub proof fn lemma_part_ends<K, S>(w: Map<K, S>, ks: Seq<K>)
    requires s_enum(w, ks)
    ensures s_part(w, ks, 0) == Map::<K, S>::empty(), s_part(w, ks, ks.len() as int) == w
{
    assert(ks.take(ks.len() as int) =~= ks);
    assert(s_part(w, ks, 0) =~= Map::<K, S>::empty());
    assert(s_part(w, ks, ks.len() as int) =~= w);
}
pub proof fn lemma_add_zero<K, S: CoefficientField>(v: Map<K, S>)
    ensures s_map_add(v, Map::empty()) == v, s_map_sub(v, Map::empty()) == v
{
    assert(s_map_add(v, Map::empty()) =~= v);
    assert(s_map_sub(v, Map::empty()) =~= v);
}
/// one more key of the right operand
pub proof fn lemma_sum_step<K, S: CoefficientField>(v: Map<K, S>, w: Map<K, S>, ks: Seq<K>, i: int)
    requires s_enum(w, ks), 0 <= i < ks.len()
    ensures ({
        let (k, a, b) = (ks[i], s_map_add(v, s_part(w, ks, i)), s_map_add(v, s_part(w, ks, i + 1)));
        &&& w.contains_key(k) && (a.contains_key(k) <==> v.contains_key(k)) && (v.contains_key(k) ==> a[k] == v[k])
        &&& v.contains_key(k) && s_zero(v[k].s_add(w[k])) ==> b == a.remove(k)
        &&& v.contains_key(k) && !s_zero(v[k].s_add(w[k])) ==> b == a.insert(k, v[k].s_add(w[k]))
        &&& !v.contains_key(k) ==> b == a.insert(k, w[k])
    }),
    ({
        let (k, a, b) = (ks[i], s_map_sub(v, s_part(w, ks, i)), s_map_sub(v, s_part(w, ks, i + 1)));
        &&& (a.contains_key(k) <==> v.contains_key(k)) && (v.contains_key(k) ==> a[k] == v[k])
        &&& v.contains_key(k) && s_zero(v[k].s_sub(w[k])) ==> b == a.remove(k)
        &&& v.contains_key(k) && !s_zero(v[k].s_sub(w[k])) ==> b == a.insert(k, v[k].s_sub(w[k]))
        &&& !v.contains_key(k) ==> b == a.insert(k, w[k].s_neg())
    })
{
    lemma_take_step(ks, i);
    let k = ks[i];
    assert(ks.contains(k));
    let (p, q) = (s_part(w, ks, i), s_part(w, ks, i + 1));
    assert(!p.contains_key(k));
    assert(q.contains_key(k) && q[k] == w[k]);
    {
        let (a, b) = (s_map_add(v, p), s_map_add(v, q));
        if v.contains_key(k) && s_zero(v[k].s_add(w[k])) { assert(b =~= a.remove(k)); }
        if v.contains_key(k) && !s_zero(v[k].s_add(w[k])) { assert(b =~= a.insert(k, v[k].s_add(w[k]))); }
        if !v.contains_key(k) { assert(b =~= a.insert(k, w[k])); }
    }
    {
        let (a, b) = (s_map_sub(v, p), s_map_sub(v, q));
        if v.contains_key(k) && s_zero(v[k].s_sub(w[k])) { assert(b =~= a.remove(k)); }
        if v.contains_key(k) && !s_zero(v[k].s_sub(w[k])) { assert(b =~= a.insert(k, v[k].s_sub(w[k]))); }
        if !v.contains_key(k) { assert(b =~= a.insert(k, w[k].s_neg())); }
    }
}
pub proof fn lemma_upto_ends<K, S>(v: Map<K, S>, f: Map<K, S>, ks: Seq<K>)
    requires s_enum(v, ks), f.dom() == v.dom()
    ensures s_upto(v, f, ks, 0) == v, s_upto(v, f, ks, ks.len() as int) == f
{
    assert(ks.take(ks.len() as int) =~= ks);
    assert(s_upto(v, f, ks, 0) =~= v);
    assert(s_upto(v, f, ks, ks.len() as int) =~= f);
}
pub proof fn lemma_upto_step<K, S>(v: Map<K, S>, f: Map<K, S>, ks: Seq<K>, i: int)
    requires s_enum(v, ks), 0 <= i < ks.len(), f.dom() == v.dom()
    ensures ({
        let (k, a, b) = (ks[i], s_upto(v, f, ks, i), s_upto(v, f, ks, i + 1));
        a.contains_key(k) && a[k] == v[k] && b == a.insert(k, f[k]) && f.contains_key(k)
    })
{
    lemma_take_step(ks, i);
    assert(ks.contains(ks[i]));
    assert(v.contains_key(ks[i]));
    assert(s_upto(v, f, ks, i + 1) =~= s_upto(v, f, ks, i).insert(ks[i], f[ks[i]]));
}
/// the same keys, with scalars that compare as equal
pub open spec fn s_map_eq<K, S: CoefficientField>(v: Map<K, S>, w: Map<K, S>) -> bool {
    &&& forall|k: K| #[trigger] v.contains_key(k) <==> w.contains_key(k)
    &&& forall|k: K| #[trigger] v.contains_key(k) ==> v[k].eq_spec(&w[k])
}
/// as many keys, each of them a key of the other
pub proof fn lemma_same_keys<K, S>(v: Map<K, S>, w: Map<K, S>)
    ensures v.len() == w.len() && (forall|k: K| #[trigger] v.contains_key(k) ==> w.contains_key(k)) ==> v.dom() == w.dom(),
        v.dom() == w.dom() ==> v.len() == w.len(),
        (forall|k: K| #[trigger] v.contains_key(k) <==> w.contains_key(k)) ==> v.dom() == w.dom(),
{
    if v.len() == w.len() && (forall|k: K| #[trigger] v.contains_key(k) ==> w.contains_key(k)) {
        assert(v.dom().subset_of(w.dom())) by { assert forall|k: K| v.dom().contains(k) implies w.dom().contains(k) by { assert(v.contains_key(k)); } }
        vstd::set_lib::lemma_len_subset(v.dom(), w.dom());
        vstd::set_lib::lemma_subset_equality(v.dom(), w.dom());
    }
    if forall|k: K| #[trigger] v.contains_key(k) <==> w.contains_key(k) {
        assert forall|k: K| v.dom().contains(k) <==> w.dom().contains(k) by { assert(v.contains_key(k) <==> w.contains_key(k)); }
        assert(v.dom() =~= w.dom());
    }
}
