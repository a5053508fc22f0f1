// ---------------------------------------------------------------- algebra/mod.rs
=== trait Algebra
members:
    /// factors and degree for which the product is defined
    spec fn s_mul_ok(l: Self::SV, r: Self::SV, d: Option<DegreeType>) -> bool;
    /// adding f of the terms of the product of l and r, up to degree d, to v gives w
    spec fn s_is_mac(v: Self::SV, l: Self::SV, r: Self::SV, f: spec_fn(Self::ScalarType) -> Self::ScalarType, d: Option<DegreeType>, w: Self::SV) -> bool;

=== Algebra::multiply_and_add_into_impl(self, lhs, rhs, func, to_degree)
requires:
    Self::s_mul_ok(lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), to_degree), s_total(func)
ensures:
    forall|f: spec_fn(Self::ScalarType) -> Self::ScalarType| #![trigger s_fun(func, f)] #![trigger Self::s_is_mac(old(self).s_v(), lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), f, to_degree, final(self).s_v())] s_fun(func, f) ==> Self::s_is_mac(old(self).s_v(), lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), f, to_degree, final(self).s_v())

=== Algebra::multiply_into_impl(self, rhs, func, to_degree)
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree), s_total(func)
ensures:
    exists|z: Self::SV| #[trigger] Self::s_is_new(z) && forall|f: spec_fn(Self::ScalarType) -> Self::ScalarType| #![trigger s_fun(func, f)] #![trigger Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), f, to_degree, final(self).s_v())] s_fun(func, f) ==> Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), f, to_degree, final(self).s_v())

// ---------------------------------------------------------------- free_tensor/implementation/dense.rs
=== impl Algebra for V
members:
    open spec fn s_mul_ok(l: V::SV, r: V::SV, d: Option<DegreeType>) -> bool {
        s_laws::<V, S, NLETTERS>() && NLETTERS >= 1 && d is Some && d->0 <= s_depth(NLETTERS) && s_fits::<V, S, NLETTERS>(l) && s_fits::<V, S, NLETTERS>(r)
    }
    open spec fn s_is_mac(v: V::SV, l: V::SV, r: V::SV, f: spec_fn(S) -> S, d: Option<DegreeType>, w: V::SV) -> bool {
        s_mac_seq(NLETTERS, V::s_slice(v), V::s_slice(l), V::s_slice(r), f, d->0 as nat, V::s_slice(w))
            && V::s_slice(w).len() <= s_max(V::s_slice(v).len(), s_start(NLETTERS, d->0 as nat + 1))
    }

=== Algebra for V::multiply_and_add_into_impl(self, lhs, rhs, func, to_degree)
start:
    let ghost __v = V::s_slice(self.s_v());
    let ghost __l = V::s_slice(lhs.s_borrow().s_v());
    let ghost __r = V::s_slice(rhs.s_borrow().s_v());
    let ghost __ld = s_len_degree(NLETTERS, __l.len());
    let ghost __rd = s_len_degree(NLETTERS, __r.len());
    let ghost __n = to_degree->0 as nat;
    let ghost __f = func;
    proof { lemma_layout(NLETTERS); lemma_pad(NLETTERS, __l); lemma_pad(NLETTERS, __r); }
vars: m=max_deg d=out_deg a=__v0 ae=__v0_e k=__v1 ke=__v1_e rr=rhs_r lr=lhs_r lo=lhs_deg_min hi=lhs_deg_max ld=lhs_deg rd=rhs_deg
loop 0 before:
    let ghost __t = V::s_slice(self.s_v());
    let ghost __pl = s_pad(NLETTERS, __l);
    let ghost __pr = s_pad(NLETTERS, __r);
    proof {
        lemma_start_bound(NLETTERS, $m as nat + 1);
        lemma_start_mono(NLETTERS, $m as nat + 1, __n + 1);
        assert forall|w: Seq<u32>| letters_ok(NLETTERS, w) implies #[trigger] s_coef(NLETTERS, __t, w) == s_coef(NLETTERS, __v, w) by { }
    }
loop 0 invariant:
    NLETTERS >= 1, func == __f, s_total(func), $ae == 0, $a <= $m + 1, $m <= s_depth(NLETTERS) <= 59, s_start(NLETTERS, $m as nat + 1) <= V::s_slice(self.s_v()).len(),
    $ld == __ld, $rd == __rd, __ld <= s_depth(NLETTERS), __rd <= s_depth(NLETTERS), $m <= __ld + __rd,
    V::s_slice($lr.s_v()) == __pl, V::s_slice($rr.s_v()) == __pr,
    __pl.len() == s_start(NLETTERS, __ld + 1), __pr.len() == s_start(NLETTERS, __rd + 1),
    V::s_slice(self.s_v()).len() == __t.len(),
    forall|f: spec_fn(S) -> S| s_fun(func, f) ==> #[trigger] s_done(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $a as int, $m as int, V::s_slice(self.s_v())),
loop 0 decreases:
    $a
loop 0 after:
    proof {
        assert forall|f: spec_fn(S) -> S| s_fun(func, f) implies #[trigger] s_mac_seq(NLETTERS, __v, __l, __r, f, __n, V::s_slice(self.s_v())) by {
            assert(s_done(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, 0, $m as int, V::s_slice(self.s_v())));
            lemma_done(NLETTERS, __t, __l, __r, f, __v, __n, $m as int, V::s_slice(self.s_v()));
        }
    }
loop 1 before:
    proof {
        assert forall|f: spec_fn(S) -> S| s_fun(func, f) implies #[trigger] s_state(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, $k as int, $m as int, V::s_slice(self.s_v())) by {
            assert(s_done(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d + 1, $m as int, V::s_slice(self.s_v())));
        }
        lemma_start_mono(NLETTERS, $d as nat + 1, $m as nat + 1);
    }
loop 1 invariant:
    NLETTERS >= 1, func == __f, s_total(func), $d <= $m, $m <= s_depth(NLETTERS) <= 59, s_start(NLETTERS, $d as nat + 1) <= s_start(NLETTERS, $m as nat + 1) <= V::s_slice(self.s_v()).len(),
    __ld <= s_depth(NLETTERS), __rd <= s_depth(NLETTERS), $lo == s_lo($d as int, __rd as int), $hi == s_hi($d as int, __ld as int), $ke == $lo, $lo <= $k <= $hi + 1,
    V::s_slice($lr.s_v()) == __pl, V::s_slice($rr.s_v()) == __pr,
    __pl.len() == s_start(NLETTERS, __ld + 1), __pr.len() == s_start(NLETTERS, __rd + 1),
    V::s_slice(self.s_v()).len() == __t.len(),
    forall|f: spec_fn(S) -> S| s_fun(func, f) ==> #[trigger] s_state(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, $k as int, $m as int, V::s_slice(self.s_v())),
loop 1 decreases:
    $k - $lo
loop 1 body_start:
    let ghost __u = V::s_slice(self.s_v());
    let ghost __k = $k - 1;
    proof { lemma_block_lens(NLETTERS, __pl, __pr, __u, __ld as int, __rd as int, $d as int, __k); }
loop 1 body_end:
    proof {
        let w = V::s_slice(self.s_v());
        let o = s_deg_seq(NLETTERS, w, $d as int);
        assert forall|f: spec_fn(S) -> S| s_fun(func, f) implies #[trigger] s_state(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, $k as int, $m as int, w) by {
            assert(s_state(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, __k + 1, $m as int, __u));
            assert(s_block(s_deg_seq(NLETTERS, __u, $d as int), s_deg_seq(NLETTERS, __pl, __k), s_deg_seq(NLETTERS, __pr, $d - __k), f, o));
            lemma_block_step(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, __k, $m as int, __u, o, w);
        }
    }
loop 1 after:
    proof {
        assert forall|f: spec_fn(S) -> S| s_fun(func, f) implies #[trigger] s_done(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, $m as int, V::s_slice(self.s_v())) by {
            assert(s_state(NLETTERS, __t, __pl, __pr, f, __ld as int, __rd as int, $d as int, $lo as int, $m as int, V::s_slice(self.s_v())));
        }
    }

=== pad_to_degree(arg) -> r
requires:
    s_laws::<V, S, NLETTERS>(), NLETTERS >= 1, s_fits::<V, S, NLETTERS>(arg.s_v())
ensures:
    V::s_slice(match r { Some(x) => x.s_v(), None => arg.s_v() }) == s_pad(NLETTERS, V::s_slice(arg.s_v()))
start:
    proof { lemma_pad(NLETTERS, V::s_slice(arg.s_v())); lemma_layout(NLETTERS); }

=== dense_tensor_multiply_into_buffer(out, lhs, rhs, func)
requires:
    old(out)@.len() == lhs@.len() * rhs@.len(), s_total(*old(func))
ensures:
    forall|f: spec_fn(S) -> S| s_fun(*old(func), f) ==> #[trigger] s_block(old(out)@, lhs@, rhs@, f, final(out)@),
    final(out)@.len() == old(out)@.len(), *final(func) == *old(func)
vars: p=out_ptr i=__v0 j=__v1 ls=__v0_s rs=__v1_s x=lhs_v
start:
    let ghost __o = out@;
    let ghost __m = rhs@.len() as int;
loop 0 before:
    proof { assert(s_cell(__m, 0, 0) == 0) by (nonlinear_arith); }
loop 0 invariant:
    $i <= lhs@.len(), $ls@ == lhs@, __m == rhs@.len(), __o.len() == lhs@.len() * __m, $p.s_slice().len() == __o.len(), $p.s_pos() == $i * __m,
    s_total(*func), *func == *old(func), $p.s_fin() == after_borrow(out)@, __o == old(out)@,
    forall|f: spec_fn(S) -> S| s_fun(*func, f) ==> #[trigger] s_block_part(__o, lhs@, rhs@, f, $i as int, 0, $p.s_slice()),
loop 0 decreases:
    lhs@.len() - $i
loop 0 after:
    proof {
        assert forall|f: spec_fn(S) -> S| s_fun(*func, f) implies #[trigger] s_block(__o, lhs@, rhs@, f, $p.s_slice()) by {
            assert(s_block_part(__o, lhs@, rhs@, f, $i as int, 0, $p.s_slice()));
        }
    }
loop 1 before:
    proof { assert($i * __m == ($i - 1) * __m + __m) by (nonlinear_arith); assert($i * __m <= lhs@.len() * __m) by (nonlinear_arith) requires $i <= lhs@.len(), __m >= 0; }
loop 1 invariant:
    $j <= rhs@.len(), $rs@ == rhs@, $ls@ == lhs@, 0 < $i <= lhs@.len(), *$x == lhs@[$i - 1], __m == rhs@.len(), __o.len() == lhs@.len() * __m, $p.s_slice().len() == __o.len(), $p.s_pos() == ($i - 1) * __m + $j,
    s_total(*func), *func == *old(func), $p.s_fin() == after_borrow(out)@, __o == old(out)@, 
    forall|f: spec_fn(S) -> S| s_fun(*func, f) ==> #[trigger] s_block_part(__o, lhs@, rhs@, f, $i - 1, $j as int, $p.s_slice()),
loop 1 decreases:
    rhs@.len() - $j
loop 1 body_start:
    let ghost __u = $p.s_slice();
    let ghost __c = $p.s_pos() as int;
    let ghost __j = $j as int;
    proof { lemma_cell(__m, $i - 1, __j, lhs@.len() as int); }
loop 1 body_end:
    proof {
        assert forall|f: spec_fn(S) -> S| s_fun(*func, f) implies #[trigger] s_block_part(__o, lhs@, rhs@, f, $i - 1, __j + 1, $p.s_slice()) by {
            assert(s_block_part(__o, lhs@, rhs@, f, $i - 1, __j, __u));
            assert($p.s_slice() == __u.update(__c, __u[__c].s_add(f(lhs@[$i - 1].s_mul(rhs@[__j])))));
            lemma_part_step(__o, lhs@, rhs@, f, $i - 1, __j, __u, $p.s_slice());
        }
    }
loop 1 after:
    proof {
        assert($i * __m == ($i - 1) * __m + __m) by (nonlinear_arith);
        assert forall|f: spec_fn(S) -> S| s_fun(*func, f) implies #[trigger] s_block_part(__o, lhs@, rhs@, f, $i as int, 0, $p.s_slice()) by {
            assert(s_block_part(__o, lhs@, rhs@, f, $i - 1, $j as int, $p.s_slice()));
        }
    }

// ---------------------------------------------------------------- algebra/mod.rs, derived operations
=== Algebra::multiply(self, rhs, to_degree) -> r
requires:
    Self::s_mul_ok(self.s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, self.s_v(), rhs.s_borrow().s_v(), s_id(), to_degree, r.s_v()))
start:
    broadcast use lemma_clone;
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_id(__c0_0)

=== Algebra::multiply_inplace(self, rhs, to_degree) -> r
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), s_id(), to_degree, r.s_v())), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_id(__c0_0)

=== Algebra::add_mul(self, lhs, rhs, to_degree) -> r
requires:
    Self::s_mul_ok(lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    Self::s_is_mac(old(self).s_v(), lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), s_id(), to_degree, r.s_v()), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_id(__c0_0)

=== Algebra::sub_mul(self, lhs, rhs, to_degree) -> r
requires:
    Self::s_mul_ok(lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    Self::s_is_mac(old(self).s_v(), lhs.s_borrow().s_v(), rhs.s_borrow().s_v(), s_minus::<Self::ScalarType>(), to_degree, r.s_v()), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_neg(__c0_0)

=== Algebra::commutator(self, rhs, to_degree) -> r
requires:
    Self::s_mul_ok(self.s_v(), rhs.s_borrow().s_v(), to_degree), Self::s_mul_ok(rhs.s_borrow().s_v(), self.s_v(), to_degree)
ensures:
    exists|z: Self::SV, v: Self::SV| #[trigger] Self::s_is_new(z) && #[trigger] Self::s_is_mac(z, self.s_v(), rhs.s_borrow().s_v(), s_id(), to_degree, v) && #[trigger] Self::s_is_mac(v, rhs.s_borrow().s_v(), self.s_v(), s_minus::<Self::ScalarType>(), to_degree, r.s_v())
start:
    broadcast use lemma_clone;

=== Algebra::mul_scal_lprod(self, rhs, scalar, to_degree) -> r
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), s_scale_l(scalar.s_into()), to_degree, r.s_v())), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
vars: s=sca
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_mul(&$s, __c0_0)

=== Algebra::mul_scal_rprod(self, rhs, scalar, to_degree) -> r
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), s_scale_r(scalar.s_into()), to_degree, r.s_v())), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
vars: s=sca
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_mul(__c0_0, &$s)

=== Algebra::mul_rat_ldiv(self, rhs, scalar, to_degree) -> r
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), s_quot(scalar.s_into()), to_degree, r.s_v())), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
vars: s=sca
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_div(__c0_0, &$s)

=== Algebra::mul_rat_rdiv(self, rhs, scalar, to_degree) -> r
requires:
    Self::s_mul_ok(old(self).s_v(), rhs.s_borrow().s_v(), to_degree)
ensures:
    (exists|z: Self::SV| #[trigger] Self::s_is_new(z) && Self::s_is_mac(z, old(self).s_v(), rhs.s_borrow().s_v(), s_quot(scalar.s_into()), to_degree, r.s_v())), *final(r) == *final(self)
start:
    broadcast use lemma_clone;
vars: s=sca
closure 0 types:
    &Self::ScalarType
closure 0:
    -> (o: Self::ScalarType) ensures o == r_div(__c0_0, &$s)
