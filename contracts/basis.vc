// ---------------------------------------------------------------- basis/mod.rs
=== trait OrderedBasis
omit:
    KeyIterator
members:
    /// keys of this basis
    spec fn s_ok(k: Self::KeyType) -> bool;
    /// indices of keys of this basis
    spec fn s_valid(i: nat) -> bool;
    /// the index of a key
    spec fn s_index(k: Self::KeyType) -> nat;
    /// the length of a vector that holds the coefficient with this index
    spec fn s_dim(i: nat) -> nat;
    proof fn law_index(k: Self::KeyType)
        requires Self::s_ok(k)
        ensures Self::s_valid(Self::s_index(k)), Self::s_index(k) < Self::s_dim(Self::s_index(k)), Self::s_dim(Self::s_index(k)) <= usize::MAX;
    proof fn law_inj(a: Self::KeyType, b: Self::KeyType)
        requires Self::s_ok(a), Self::s_ok(b), Self::s_index(a) == Self::s_index(b)
        ensures a == b;

=== OrderedBasis::compare(lhs, rhs) -> r
requires:
    Self::s_ok(*lhs), Self::s_ok(*rhs)
ensures:
    r == s_order(Self::s_index(*lhs) as int, Self::s_index(*rhs) as int)

=== OrderedBasis::key_to_index(key) -> r
requires:
    Self::s_ok(*key)
ensures:
    r == Self::s_index(*key)

=== OrderedBasis::index_to_key(index) -> r
requires:
    Self::s_valid(index as nat)
ensures:
    Self::s_ok(r), Self::s_index(r) == index

=== OrderedBasis::vector_dimension_for_key(key) -> r
requires:
    Self::s_ok(*key)
ensures:
    r == Self::s_dim(Self::s_index(*key))

=== OrderedBasis::vector_dimension_for_index(index) -> r
requires:
    Self::s_valid(index.s_into() as nat)
ensures:
    r == Self::s_dim(index.s_into() as nat)

=== trait BasisWithDegree
members:
    spec fn s_deg_ok(k: Self::KeyType) -> bool;
    spec fn s_degree(k: Self::KeyType) -> nat;

=== BasisWithDegree::degree(key) -> r
requires:
    Self::s_deg_ok(*key)
ensures:
    r == Self::s_degree(*key)

=== trait OrderedBasisWithDegree
members:
    spec fn s_start_ok(d: nat) -> bool;
    spec fn s_start_of(d: nat) -> nat;
    spec fn s_degree_of(i: nat) -> nat;

=== OrderedBasisWithDegree::index_to_degree(index) -> r
requires:
    Self::s_valid(index as nat)
ensures:
    r == Self::s_degree_of(index as nat)

=== OrderedBasisWithDegree::start_of_degree(deg) -> r
requires:
    Self::s_start_ok(deg as nat)
ensures:
    r == Self::s_start_of(deg as nat)

// ---------------------------------------------------------------- tensor_basis/mod.rs
=== impl OrderedBasis for TensorBasis
omit:
    KeyIterator
members:
    open spec fn s_ok(k: TensorKey<NLETTERS>) -> bool { k.wf() }
    open spec fn s_valid(i: nat) -> bool { NLETTERS >= 1 && i < s_start(NLETTERS, s_depth(NLETTERS) + 1) }
    open spec fn s_index(k: TensorKey<NLETTERS>) -> nat { s_idx(NLETTERS, k.word()) }
    open spec fn s_dim(i: nat) -> nat { s_start(NLETTERS, s_degree_of_index(NLETTERS, i) + 1) }
    proof fn law_index(k: TensorKey<NLETTERS>) {
        k.lemma_wf();
        lemma_idx_degree(NLETTERS, k.word());
        lemma_start_mono(NLETTERS, k.word().len() + 1, s_depth(NLETTERS) + 1);
        lemma_start_bound(NLETTERS, k.word().len() + 1);
    }
    proof fn law_inj(a: TensorKey<NLETTERS>, b: TensorKey<NLETTERS>) {
        a.lemma_wf();
        b.lemma_wf();
        lemma_idx_inj(NLETTERS, a.word(), b.word());
        a.lemma_eq(&b);
    }

=== OrderedBasis for TensorBasis::compare(lhs, rhs) -> r
start:
    proof { lemma_key_order(lhs, rhs); }

=== OrderedBasis for TensorBasis::key_to_index(key) -> r
start:
    proof { key.lemma_wf(); lemma_layout(NLETTERS); assert(s_idx(NLETTERS, key.word().take(0)) == 0); }
vars: i=i acc=result
loop 0 invariant:
    key.wf(), $i <= key.size, key.word().len() == key.size, NLETTERS >= 1,
    $acc == s_idx(NLETTERS, key.word().take(key.size - $i))
loop 0 decreases:
    $i
loop 0 body_start:
    proof { lemma_idx_step(NLETTERS, key.word(), (key.size - $i) as int); }
loop 0 after:
    assert(key.word().take(key.size as int) =~= key.word());

=== OrderedBasis for TensorBasis::index_to_key(index) -> r
ensures:
    r.word().len() == s_degree_of_index(NLETTERS, index as nat)
start:
    proof { lemma_layout(NLETTERS); lemma_index_to_key_start(NLETTERS, index as nat); }
vars: pos=pos key=result
loop 0 invariant:
    NLETTERS >= 1, FACTOR == NLETTERS, $key.wf(), index < s_start(NLETTERS, s_depth(NLETTERS) + 1),
    index == $pos * ipow(NLETTERS as nat, $key.word().len()) + s_idx(NLETTERS, $key.word()),
loop 0 decreases:
    $pos
loop 0 body_start:
    proof { lemma_index_to_key_step($key, index as nat, $pos as nat); }
loop 0 after:
    proof {
        $key.lemma_wf();
        assert(0 * ipow(NLETTERS as nat, $key.word().len()) == 0) by (nonlinear_arith);
        lemma_idx_degree(NLETTERS, $key.word());
    }

=== OrderedBasis for TensorBasis::vector_dimension_for_key(key) -> r
ensures:
    r == s_start(NLETTERS, key.word().len() + 1)
start:
    proof { key.lemma_wf(); lemma_idx_degree(NLETTERS, key.word()); }

=== OrderedBasis for TensorBasis::vector_dimension_for_index(index) -> r
start:
    proof { lemma_layout(NLETTERS); lemma_degree_of_index(NLETTERS, index.s_into() as nat, s_depth(NLETTERS)); }

=== TensorBasis::max_degree() -> r
requires:
    NLETTERS >= 1
ensures:
    r == s_depth(NLETTERS), 2 <= r <= 59

=== TensorBasis::start_of_degree(deg) -> r
requires:
    NLETTERS >= 1, deg <= s_depth(NLETTERS) + 1
ensures:
    r == s_start(NLETTERS, deg as nat)
start:
    proof { lemma_layout(NLETTERS); }
vars: i=i acc=result
loop 0 invariant:
    NLETTERS >= 1, deg <= s_depth(NLETTERS) + 1, $i <= deg, $acc == s_start(NLETTERS, $i as nat)
loop 0 decreases:
    deg - $i
loop 0 body_start:
    proof { lemma_start_step(NLETTERS, $i as nat); lemma_start_bound(NLETTERS, $i as nat + 1);
        assert(s_start(NLETTERS, $i as nat) * (NLETTERS as nat) >= 0) by (nonlinear_arith);
        lemma_mul_is_commutative(s_start(NLETTERS, $i as nat) as int, NLETTERS as int); }

=== TensorBasis::degree_range(deg) -> r
requires:
    NLETTERS >= 1, deg <= s_depth(NLETTERS)
ensures:
    r.start == s_start(NLETTERS, deg as nat), r.end == s_start(NLETTERS, deg as nat + 1)
start:
    proof { lemma_layout(NLETTERS); lemma_start_step(NLETTERS, deg as nat); lemma_start_bound(NLETTERS, deg as nat + 1);
        assert(s_start(NLETTERS, deg as nat) * (NLETTERS as nat) >= 0) by (nonlinear_arith); }

=== TensorBasis::index_to_degree_impl(index, deg) -> r
requires:
    NLETTERS >= 1, s_start(NLETTERS, deg as nat) <= *index < s_start(NLETTERS, s_depth(NLETTERS) + 1), deg <= s_depth(NLETTERS)
ensures:
    r == s_degree_of_index(NLETTERS, *index as nat), r <= s_depth(NLETTERS)
decreases:
    s_depth(NLETTERS) - deg
start:
    proof { lemma_layout(NLETTERS); lemma_degree_unique(NLETTERS, *index as nat, deg as nat);
        if deg == s_depth(NLETTERS) { } }

=== TensorBasis::index_to_degree(index) -> r
requires:
    NLETTERS >= 1, *index < s_start(NLETTERS, s_depth(NLETTERS) + 1)
ensures:
    r == s_degree_of_index(NLETTERS, *index as nat), r <= s_depth(NLETTERS)
start:
    proof { lemma_layout(NLETTERS); lemma_degree_small(NLETTERS, *index as nat); }

=== impl BasisWithDegree for TensorBasis
members:
    open spec fn s_deg_ok(k: TensorKey<NLETTERS>) -> bool { k.wf() }
    open spec fn s_degree(k: TensorKey<NLETTERS>) -> nat { k.word().len() }

=== BasisWithDegree for TensorBasis::degree(key) -> r
start:
    proof { key.lemma_wf(); }

=== impl OrderedBasisWithDegree for TensorBasis
members:
    open spec fn s_start_ok(d: nat) -> bool { NLETTERS >= 1 && d <= s_depth(NLETTERS) + 1 }
    open spec fn s_start_of(d: nat) -> nat { s_start(NLETTERS, d) }
    open spec fn s_degree_of(i: nat) -> nat { s_degree_of_index(NLETTERS, i) }

// ---------------------------------------------------------------- key_iterator.rs
=== TensorBasisIterator::new() -> r
requires:
    NLETTERS >= 1
ensures:
    r.s_inv(), r.current is Some, r.current->0.word() == Seq::<u32>::empty()

=== TensorBasisIterator::starting_from(key) -> r
requires:
    key.s_into().wf()
ensures:
    r.s_inv(), r.current == Some(key.s_into())

=== impl Iterator for TensorBasisIterator
members:
    open spec fn s_inv(&self) -> bool {
        NLETTERS >= 1 && self.max_depth == s_depth(NLETTERS) && (self.current is Some ==> self.current->0.wf())
    }

=== Iterator for TensorBasisIterator::next() -> r
ensures:
    r == old(self).current,
    r is None ==> final(self).current is None,
    r is Some && final(self).current is Some ==> s_idx(NLETTERS, final(self).current->0.word()) == s_idx(NLETTERS, r->0.word()) + 1,
    r is Some && final(self).current is None ==> s_idx(NLETTERS, r->0.word()) + 1 == s_start(NLETTERS, s_depth(NLETTERS) + 1),
vars: i=letter_i cur=current this=this_key
loop 0 invariant_except_break:
    NLETTERS >= 1, self.max_depth == s_depth(NLETTERS), $this.wf(), $cur.wf(),
    $i <= $this.size, $cur.size == $this.size, $this.word().len() == $this.size,
    $cur.word() == s_carry(NLETTERS, $this.word(), $i as int),
    s_all_last(NLETTERS, $this.word(), $i as int),
    after_borrow(self.current) == Some(*final($cur)),
loop 0 ensures:
    self.max_depth == s_depth(NLETTERS), $this.wf(),
    after_borrow(self.current) is None ==> s_idx(NLETTERS, $this.word()) + 1 == s_start(NLETTERS, s_depth(NLETTERS) + 1),
    after_borrow(self.current) is Some ==> after_borrow(self.current) == Some(*final($cur)) && $cur.wf() && s_idx(NLETTERS, $cur.word()) == s_idx(NLETTERS, $this.word()) + 1,
loop 0 decreases:
    $this.size - $i
loop 0 before:
    proof { $this.lemma_wf(); assert($this.word().take($this.word().len() as int) + Seq::new(0, |j: int| 1u32) =~= $this.word()); }
loop 0 body_start:
    proof {
        $cur.lemma_wf();
        if $i < $this.size { lemma_carry(NLETTERS, $this.word(), $i as int); } else { lemma_succ_len(NLETTERS, $this.word()); }
        if $i < $this.size && $this.word()[$this.size - 1 - $i] < NLETTERS { lemma_succ(NLETTERS, $this.word(), $i as int); }
    }

=== trait OrderedBasis/iter
members:
    spec fn s_nonempty() -> bool;

=== OrderedBasis::iter_keys() -> r
requires:
    Self::s_nonempty()
ensures:
    r.s_inv()

=== impl OrderedBasis/iter for TensorBasis
members:
    open spec fn s_nonempty() -> bool { NLETTERS >= 1 }

=== OrderedBasis for TensorBasis::iter_keys() -> r
ensures:
    r.current is Some && r.current->0.word() == Seq::<u32>::empty()

=== trait OrderedBasis/compare
omit:
    KeyIterator
members:
    spec fn s_ok(k: Self::KeyType) -> bool;
    spec fn s_index(k: Self::KeyType) -> nat;

=== impl OrderedBasis/compare for TensorBasis
omit:
    KeyIterator
members:
    open spec fn s_ok(k: TensorKey<NLETTERS>) -> bool { k.wf() }
    open spec fn s_index(k: TensorKey<NLETTERS>) -> nat { s_idx(NLETTERS, k.word()) }

// ---------------------------------------------------------------- the keys in order, for unit C23c
=== trait OrderedBasis/show
members:
    /// the i-th key
    spec fn s_nth(i: nat) -> Option<Self::KeyType>;

=== OrderedBasis/show::iter_keys() -> r
ensures:
    forall|i: nat| #[trigger] r.s_rest(i) == Self::s_nth(i)
