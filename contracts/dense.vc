// ---------------------------------------------------------------- vector/implementation/simple_dense_vector.rs
=== impl Vector for SimpleDenseVector
members:
    type SV = Seq<S>;
    open spec fn s_v(&self) -> Seq<S> { self.s_seq() }
    open spec fn s_key_ok(k: B::KeyType) -> bool { B::s_ok(k) }
    open spec fn s_keys_ok(p: Seq<(B::KeyType, S)>) -> bool { forall|j: int| 0 <= j < p.len() ==> B::s_ok(#[trigger] p[j].0) }
    open spec fn s_is_new(v: Seq<S>) -> bool { v.len() == 0 }
    open spec fn s_is_single(v: Seq<S>, k: B::KeyType, s: S) -> bool {
        B::s_index(k) < v.len() <= B::s_dim(B::s_index(k)) && v == Seq::new(v.len(), |i: int| S::ZERO).update(B::s_index(k) as int, s)
    }
    open spec fn s_is_sum(v: Seq<S>, p: Seq<(B::KeyType, S)>) -> bool {
        let q = p.map_values(|x: (B::KeyType, S)| (B::s_index(x.0), x.1));
        forall|i: nat| #[trigger] s_at(v, i as int) == s_pair_sum(q, i)
    }
    open spec fn s_is_clear(v: Seq<S>, w: Seq<S>) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == S::ZERO }
    open spec fn s_get(v: Seq<S>, k: B::KeyType) -> Option<S> { if B::s_index(k) < v.len() { Some(v[B::s_index(k) as int]) } else { None } }
    open spec fn s_is_set(v: Seq<S>, w: Seq<S>, k: B::KeyType, s: S) -> bool {
        &&& v.len() <= w.len() && B::s_index(k) < w.len() && (B::s_index(k) < v.len() ==> v.len() == w.len())
        &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == if i == B::s_index(k) { s } else { s_at(v, i) }
    }
    open spec fn s_is_erased(v: Seq<S>, w: Seq<S>, k: B::KeyType) -> bool {
        &&& v.len() == w.len()
        &&& forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == if i == B::s_index(k) { S::ZERO } else { v[i] }
    }
    open spec fn s_neg_v(v: Seq<S>) -> Seq<S> { s_seq_neg(v) }
    open spec fn s_add_v(v: Seq<S>, w: Seq<S>) -> Seq<S> { s_seq_add(v, w) }
    open spec fn s_sub_v(v: Seq<S>, w: Seq<S>) -> Seq<S> { s_seq_sub(v, w) }
    open spec fn s_mul_v(v: Seq<S>, s: S) -> Seq<S> { s_seq_mul(v, s) }
    open spec fn s_div_v(v: Seq<S>, q: S::RationalType) -> Seq<S> { s_seq_div(v, q) }

=== SimpleDenseVector::new() -> r
ensures:
    r.s_seq().len() == 0

=== SimpleDenseVector::from(vec) -> r
ensures:
    r.s_seq() == vec@

=== SimpleDenseVector::from_dimension(size) -> r
ensures:
    r.s_seq() == Seq::new(size as nat, |i: int| S::ZERO)
start:
    broadcast use group_clone;
ret:
    assert(__ret.s_seq() =~= Seq::new(size as nat, |i: int| S::ZERO));

=== SimpleDenseVector::to_owned_with_size(self, resize)
requires:
    !(old(self).0 is Owned)
ensures:
    resize is None ==> final(self).s_seq() == old(self).s_seq(),
    resize matches Some(n) ==> final(self).s_seq() == Seq::new(n as nat, |i: int| s_at(old(self).s_seq(), i)),
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
end:
    assert(resize is None ==> self.s_seq() =~= __v);
    assert(resize matches Some(n) ==> self.s_seq() =~= Seq::new(n as nat, |i: int| s_at(__v, i)));

=== SimpleDenseVector::size(self) -> r
ensures:
    r == self.s_seq().len()

=== SimpleDenseVector::as_slice(self) -> r
ensures:
    r@ == self.s_seq()

=== SimpleDenseVector::as_mut_slice(self) -> r
ensures:
    r@ == old(self).s_seq(), final(self).s_seq() == final(r)@
start:
    broadcast use group_clone;

=== ResizeableDenseVector::resize(self, new_dim)
ensures:
    Self::s_is_resized(old(self).s_v(), final(self).s_v(), new_dim as nat)

=== trait ResizeableDenseVector
members:
    spec fn s_is_resized(v: Self::SV, w: Self::SV, n: nat) -> bool;

=== impl ResizeableDenseVector for SimpleDenseVector
members:
    open spec fn s_is_resized(v: Seq<S>, w: Seq<S>, n: nat) -> bool { w == Seq::new(n, |i: int| s_at(v, i)) }

=== ResizeableDenseVector for SimpleDenseVector::resize(self, new_dim)
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
end:
    assert(self.s_seq() =~= Seq::new(new_dim as nat, |i: int| s_at(__v, i)));

=== trait DenseVector
members:
    spec fn s_slice(v: Self::SV) -> Seq<Self::ScalarType>;

=== DenseVector::as_slice(self) -> r
ensures:
    r@ == Self::s_slice(self.s_v())

=== DenseVector::as_mut_slice(self) -> r
ensures:
    r@ == Self::s_slice(old(self).s_v()), Self::s_slice(final(self).s_v()) == final(r)@

=== DenseVector::get_slice(self, index) -> r
ensures:
    exists|s: &[Self::ScalarType]| #![trigger s@] s@ == Self::s_slice(self.s_v()) && (r is Some <==> index.in_bounds(s)) && (r matches Some(o) ==> index.index_postcondition(s, o))

=== DenseVector::get_mut_slice(self, index) -> r
ensures:
    exists|s: &[Self::ScalarType], t: &[Self::ScalarType]| #![trigger s@, t@] s@ == Self::s_slice(old(self).s_v()) && t@ == Self::s_slice(final(self).s_v()) && (r is Some <==> index.in_bounds(s))
        && (match r { Some(o) => index.index_mut_postcondition(s, t, o, final(o)), None => t@ == s@ })

=== impl DenseVector for SimpleDenseVector
members:
    open spec fn s_slice(v: Seq<S>) -> Seq<S> { v }

=== DenseVector for SimpleDenseVector::as_mut_slice(self) -> r
start:
    broadcast use group_clone;

=== Vector for SimpleDenseVector::uminus_inplace(self) -> r
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
vars: i=__v0 s=__v0_s
loop 0 invariant:
    $i <= $s@.len(), $s@.len() == __v.len(),
    forall|j: int| 0 <= j < $i ==> #[trigger] $s@[j] == __v[j].s_neg(),
    forall|j: int| $i <= j < $s@.len() ==> #[trigger] $s@[j] == __v[j],
loop 0 decreases:
    $s@.len() - $i
loop 0 after:
    assert($s@ =~= s_seq_neg(__v));

=== Vector for SimpleDenseVector::add_inplace(self, other) -> r
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
    let ghost __w = other.s_borrow().s_seq();
vars: i=__v0 s=__v0_s t=__v0_t
loop 0 invariant:
    $i <= $s@.len(), $i <= $t@.len(), $t@ == __w, $s@.len() == s_max(__v.len(), __w.len()),
    forall|j: int| 0 <= j < $i ==> #[trigger] $s@[j] == s_at(__v, j).s_add(__w[j]),
    forall|j: int| $i <= j < $s@.len() ==> #[trigger] $s@[j] == s_at(__v, j),
loop 0 decreases:
    $s@.len() - $i
loop 0 after:
    assert($s@ =~= s_seq_add(__v, __w));

=== Vector for SimpleDenseVector::sub_inplace(self, other) -> r
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
    let ghost __w = other.s_borrow().s_seq();
vars: i=__v0 s=__v0_s t=__v0_t
loop 0 invariant:
    $i <= $s@.len(), $i <= $t@.len(), $t@ == __w, $s@.len() == s_max(__v.len(), __w.len()),
    forall|j: int| 0 <= j < $i ==> #[trigger] $s@[j] == s_at(__v, j).s_sub(__w[j]),
    forall|j: int| $i <= j < $s@.len() ==> #[trigger] $s@[j] == s_at(__v, j),
loop 0 decreases:
    $s@.len() - $i
loop 0 after:
    assert($s@ =~= s_seq_sub(__v, __w));

=== Vector for SimpleDenseVector::scalar_lmultiply_inplace(self, scalar) -> r
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
    let ghost __c = scalar.s_into();
vars: i=__v0 s=__v0_s val=val
loop 0 invariant:
    $i <= $s@.len(), $s@.len() == __v.len(), $val == __c,
    forall|j: int| 0 <= j < $i ==> #[trigger] $s@[j] == __v[j].s_mul(__c),
    forall|j: int| $i <= j < $s@.len() ==> #[trigger] $s@[j] == __v[j],
loop 0 decreases:
    $s@.len() - $i
loop 0 after:
    assert($s@ =~= s_seq_mul(__v, __c));

=== Vector for SimpleDenseVector::scalar_rdivide_inplace(self, rational) -> r
start:
    broadcast use group_clone;
    let ghost __v = self.s_seq();
    let ghost __c = rational.s_into();
vars: i=__v0 s=__v0_s val=val
loop 0 invariant:
    $i <= $s@.len(), $s@.len() == __v.len(), $val == __c,
    forall|j: int| 0 <= j < $i ==> #[trigger] $s@[j] == __v[j].s_div(__c),
    forall|j: int| $i <= j < $s@.len() ==> #[trigger] $s@[j] == __v[j],
loop 0 decreases:
    $s@.len() - $i
loop 0 after:
    assert($s@ =~= s_seq_div::<S>(__v, __c));

=== Vector for SimpleDenseVector::from_key_scalar(key, scalar) -> r
start:
    broadcast use group_clone;
    proof { B::law_index(key.s_into()); }
    let ghost __k = key.s_into();
    let ghost __c = scalar.s_into();
ret:
    assert(__ret.s_seq() =~= Seq::new(__ret.s_seq().len(), |i: int| S::ZERO).update(B::s_index(__k) as int, __c));

=== Vector for SimpleDenseVector::from_iterator(iterator) -> r
start:
    broadcast use group_clone;
    let ghost __p = iterator@;
    let ghost mut __o: Seq<(usize, S)> = Seq::empty();
    let ghost __q = __p.map_values(|x: (B::KeyType, S)| (B::s_index(x.0), x.1));
vars: i=__v0 s=__v0_s out=__v0_out n=__v1 vs=__v1_s res=result
closure 0 types:
    &(DimensionType, S); &(DimensionType, S)
closure 0:
    -> (o: Ordering) ensures o == s_cmp(__c0_0.0, __c0_1.0)
loop 0 invariant:
    $s@ == __p, $i <= $s@.len(), $out@.len() == $i,
    __q == __p.map_values(|x: (B::KeyType, S)| (B::s_index(x.0), x.1)),
    forall|j: int| 0 <= j < __p.len() ==> B::s_ok(#[trigger] __p[j].0),
    forall|j: int| 0 <= j < $i ==> (#[trigger] $out@[j]).0 == B::s_index(__p[j].0) && $out@[j].1 == __p[j].1 && B::s_valid($out@[j].0 as nat) && $out@[j].0 < B::s_dim($out@[j].0 as nat),
loop 0 decreases:
    $s@.len() - $i
loop 0 body_start:
    proof { B::law_index(__p[$i as int].0); }
loop 0 after:
    proof { assert(s_nats($out@) =~= __q); }
    proof { __o = $out@; }
loop 1 before:
    proof { assert($vs@.take(0) =~= Seq::empty()); }
loop 1 invariant:
    $n <= $vs@.len(),
    forall|j: int| 0 <= j < $vs@.len() ==> (#[trigger] $vs@[j]).0 < $res.s_seq().len(),
    forall|i: int| 0 <= i < $res.s_seq().len() ==> #[trigger] $res.s_seq()[i] == s_pair_sum(s_nats($vs@.take($n as int)), i as nat),
loop 1 decreases:
    $vs@.len() - $n
loop 1 body_start:
    proof { assert forall|i: nat| true implies #[trigger] s_pair_sum(s_nats($vs@.take($n + 1)), i) == if $vs@[$n as int].0 == i { s_pair_sum(s_nats($vs@.take($n as int)), i).s_add($vs@[$n as int].1) } else { s_pair_sum(s_nats($vs@.take($n as int)), i) } by { lemma_pair_sum_step($vs@, $n as int, i); } }
loop 1 after:
    proof {
        assert($vs@.take($n as int) =~= $vs@);
        assert forall|i: nat| #[trigger] s_at($res.s_seq(), i as int) == s_pair_sum(__q, i) by {
            lemma_pair_sum_sorted(__o, $vs@, i);
            if i >= $res.s_seq().len() { lemma_pair_sum_none(s_nats($vs@), i); }
        }
    }

=== Vector for SimpleDenseVector::insert_single(self, key, value)
start:
    broadcast use group_clone;
    proof { B::law_index(*key); }

=== impl VectorWithDegree for SimpleDenseVector
members:
    open spec fn s_degree_ok(v: Seq<S>) -> bool { v.len() > 0 ==> B::s_valid((v.len() - 1) as nat) }
    open spec fn s_degree_v(v: Seq<S>) -> nat { if v.len() == 0 { 0 } else { B::s_degree_of((v.len() - 1) as nat) } }

=== Clone for SimpleDenseVector::clone(self) -> r
ensures:
    r.s_seq() == self.s_seq()
start:
    broadcast use group_clone;
ret:
    assert(__ret.s_seq() =~= self.s_seq());

=== impl PartialEq for SimpleDenseVector
members:

=== PartialEq for SimpleDenseVector::eq(self, other) -> r
ensures:
    r == (self.s_seq().len() == other.s_seq().len() && forall|i: int| 0 <= i < self.s_seq().len() ==> #[trigger] self.s_seq()[i].eq_spec(&other.s_seq()[i]))
start:
    proof { S::law_eq(); }

=== Vector for SimpleDenseVector::to_owned(self) -> r
start:
    broadcast use group_clone;
ret:
    assert(__ret.s_seq() =~= self.s_seq());

=== Vector for SimpleDenseVector::clear(self)
start:
    broadcast use group_clone;
