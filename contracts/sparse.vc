// ---------------------------------------------------------------- vector/implementation/simple_sparse_vector.rs
=== impl Vector for SimpleSparseVector
members:
    type SV = Map<K, S>;
    open spec fn s_v(&self) -> Map<K, S> { self.0@ }
    open spec fn s_key_ok(k: K) -> bool { true }
    open spec fn s_keys_ok(p: Seq<(K, S)>) -> bool { forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i].0 != #[trigger] p[j].0 }
    open spec fn s_is_new(v: Map<K, S>) -> bool { v == Map::<K, S>::empty() }
    open spec fn s_is_single(v: Map<K, S>, k: K, s: S) -> bool { v == Map::<K, S>::empty().insert(k, s) }
    open spec fn s_is_sum(v: Map<K, S>, p: Seq<(K, S)>) -> bool {
        &&& forall|i: int| 0 <= i < p.len() ==> v.contains_key(#[trigger] p[i].0) && v[p[i].0] == p[i].1
        &&& forall|k: K| #[trigger] v.contains_key(k) ==> exists|i: int| 0 <= i < p.len() && #[trigger] p[i].0 == k
    }
    open spec fn s_is_clear(v: Map<K, S>, w: Map<K, S>) -> bool { w == Map::<K, S>::empty() }
    open spec fn s_get(v: Map<K, S>, k: K) -> Option<S> { if v.contains_key(k) { Some(v[k]) } else { None } }
    open spec fn s_is_set(v: Map<K, S>, w: Map<K, S>, k: K, s: S) -> bool { w == v.insert(k, s) }
    open spec fn s_is_erased(v: Map<K, S>, w: Map<K, S>, k: K) -> bool { w == v.remove(k) }
    open spec fn s_neg_v(v: Map<K, S>) -> Map<K, S> { s_map_neg(v) }
    open spec fn s_add_v(v: Map<K, S>, w: Map<K, S>) -> Map<K, S> { s_map_add(v, w) }
    open spec fn s_sub_v(v: Map<K, S>, w: Map<K, S>) -> Map<K, S> { s_map_sub(v, w) }
    open spec fn s_mul_v(v: Map<K, S>, s: S) -> Map<K, S> { s_map_mul(v, s) }
    open spec fn s_div_v(v: Map<K, S>, q: S::RationalType) -> Map<K, S> { s_map_div(v, q) }

=== Vector for SimpleSparseVector::uminus_inplace(self) -> r
hashmap:
start:
    let ghost __v = self.0@;
    let ghost __f = s_map_neg(__v);
vars: i=__v0 k=__v0_s
loop 0 before:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(__v, $k.s_ks()), __f == s_map_neg(__v), __f.dom() == __v.dom(), self.0@ == s_upto(__v, __f, $k.s_ks(), $i as int)
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    proof { lemma_upto_step(__v, __f, $k.s_ks(), $i as int); }
loop 0 after:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }

=== Vector for SimpleSparseVector::scalar_lmultiply_inplace(self, scalar) -> r
hashmap:
start:
    proof { S::law_eq(); }
    let ghost __v = self.0@;
    let ghost __f = __v.map_values(|x: S| x.s_mul(scalar.s_into()));
vars: i=__v0 k=__v0_s s=s
loop 0 before:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(__v, $k.s_ks()), __f == __v.map_values(|x: S| x.s_mul(scalar.s_into())), __f.dom() == __v.dom(), self.0@ == s_upto(__v, __f, $k.s_ks(), $i as int),
    $s == scalar.s_into()
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    proof { lemma_upto_step(__v, __f, $k.s_ks(), $i as int); }
loop 0 after:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }

=== Vector for SimpleSparseVector::scalar_rdivide_inplace(self, rational) -> r
hashmap:
start:
    let ghost __v = self.0@;
    let ghost __f = s_map_div(__v, rational.s_into());
vars: i=__v0 k=__v0_s s=r
loop 0 before:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(__v, $k.s_ks()), __f == s_map_div(__v, rational.s_into()), __f.dom() == __v.dom(), self.0@ == s_upto(__v, __f, $k.s_ks(), $i as int),
    $s == rational.s_into()
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    proof { lemma_upto_step(__v, __f, $k.s_ks(), $i as int); }
loop 0 after:
    proof { lemma_upto_ends(__v, __f, $k.s_ks()); }

=== Vector for SimpleSparseVector::add_inplace(self, other) -> r
hashmap:
start:
    proof { S::law_eq(); }
    broadcast use {lemma_key_clone, lemma_clone};
    let ghost __v = self.0@;
    let ghost __w = other.s_borrow().0@;
vars: i=__v0 k=__v0_s
loop 0 before:
    proof { lemma_part_ends(__w, $k.s_ks()); lemma_add_zero(__v); }
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(__w, $k.s_ks()), $k.s_map() == __w, S::obeys_eq_spec(), self.0@ == s_map_add(__v, s_part(__w, $k.s_ks(), $i as int))
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    broadcast use {lemma_key_clone, lemma_clone};
    let ghost __m = self.0@;
    proof { lemma_sum_step(__v, __w, $k.s_ks(), $i as int); }
loop 0 body_end:
    proof { let x = $k.s_ks()[$i - 1]; assert forall|y: S| #[trigger] __m.insert(x, y).remove(x) == __m.remove(x) by { assert(__m.insert(x, y).remove(x) =~= __m.remove(x)); } }
loop 0 after:
    proof { lemma_part_ends(__w, $k.s_ks()); }

=== Vector for SimpleSparseVector::sub_inplace(self, other) -> r
hashmap:
start:
    proof { S::law_eq(); }
    broadcast use {lemma_key_clone, lemma_clone};
    let ghost __v = self.0@;
    let ghost __w = other.s_borrow().0@;
vars: i=__v0 k=__v0_s
loop 0 before:
    proof { lemma_part_ends(__w, $k.s_ks()); lemma_add_zero(__v); }
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(__w, $k.s_ks()), $k.s_map() == __w, S::obeys_eq_spec(), self.0@ == s_map_sub(__v, s_part(__w, $k.s_ks(), $i as int))
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    broadcast use {lemma_key_clone, lemma_clone};
    let ghost __m = self.0@;
    proof { lemma_sum_step(__v, __w, $k.s_ks(), $i as int); }
loop 0 body_end:
    proof { let x = $k.s_ks()[$i - 1]; assert forall|y: S| #[trigger] __m.insert(x, y).remove(x) == __m.remove(x) by { assert(__m.insert(x, y).remove(x) =~= __m.remove(x)); } }
loop 0 after:
    proof { lemma_part_ends(__w, $k.s_ks()); }

=== struct SimpleSparseVector
attr:
    #[verifier::reject_recursive_types(K)]

=== impl PartialEq for SimpleSparseVector
members:

=== PartialEq for SimpleSparseVector::eq(self, other) -> r
hashmap:
ensures:
    r == s_map_eq(self.0@, other.0@)
start:
    proof { S::law_eq(); lemma_same_keys(self.0@, other.0@); }
vars: i=__v0 k=__v0_s
loop 0 invariant:
    $i <= $k.s_ks().len(), s_enum(self.0@, $k.s_ks()), $k.s_map() == self.0@, S::obeys_eq_spec(), self.0@.len() == other.0@.len(),
    forall|j: int| 0 <= j < $i ==> other.0@.contains_key(#[trigger] $k.s_ks()[j]) && self.0@[$k.s_ks()[j]].eq_spec(&other.0@[$k.s_ks()[j]])
loop 0 decreases:
    $k.s_ks().len() - $i
loop 0 body_start:
    proof { S::law_eq(); assert($k.s_ks().contains($k.s_ks()[$i as int])); assert(self.0@.contains_key($k.s_ks()[$i as int])); }
loop 0 after:
    proof {
        assert forall|k: K| #[trigger] self.0@.contains_key(k) implies other.0@.contains_key(k) && self.0@[k].eq_spec(&other.0@[k]) by {
            let j = choose|j: int| 0 <= j < $k.s_ks().len() && $k.s_ks()[j] == k;
        }
        lemma_same_keys(self.0@, other.0@);
    }

=== Vector for SimpleSparseVector::from_iterator(iterator) -> r
vars: i=__v0 s=__v0_s m=inner
loop 0 invariant:
    $i <= $s@.len(), $s@ == iterator@, Self::s_keys_ok(iterator@), Self::s_is_sum($m@, iterator@.take($i as int))
loop 0 decreases:
    $s@.len() - $i
loop 0 body_start:
    let ghost __m = $m@;
    let ghost __j = $i as int;
loop 0 body_end:
    proof {
        let (p, q) = (iterator@.take(__j), iterator@.take(__j + 1));
        assert(q =~= p.push(iterator@[__j]));
        assert forall|k: K| #[trigger] $m@.contains_key(k) implies exists|i: int| 0 <= i < q.len() && #[trigger] q[i].0 == k by {
            if k == iterator@[__j].0 { assert(q[__j].0 == k); } else {
                assert(__m.contains_key(k));
                let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i].0 == k;
                assert(q[i].0 == k);
            }
        }
    }
loop 0 after:
    assert(iterator@.take($i as int) =~= iterator@);

=== Vector for SimpleSparseVector::insert_single(self, key, value)
start:
    broadcast use lemma_key_clone;


// ---------------------------------------------------------------- the stored entries, one after the other
=== IntoIterator for &SimpleSparseVector::into_iter(self) -> r
ensures:
    r.s_map() == self.0@, s_enum(self.0@, r.s_ks())

=== VectorIteratorItem for ()::key(self) -> r
ensures:
    *r == *self.0

=== VectorIteratorItem for ()::value(self) -> r
ensures:
    *r == *self.1
