// ---------------------------------------------------------------- free_tensor/mod.rs
=== trait FreeTensor
members:
    /// the coefficients of a tensor, by word
    spec fn s_t(v: Self::SV) -> Tn<S>;
    /// it has no words beyond the maximal length
    spec fn s_fit(v: Self::SV) -> bool;
    /// the maximal degree is a length that words can have
    spec fn s_ready() -> bool;
    proof fn law_mul_ok(l: Self::SV, r: Self::SV, d: DegreeType)
        requires Self::s_ready(), Self::s_fit(l), Self::s_fit(r), d <= Self::MAX_DEGREE
        ensures Self::s_mul_ok(l, r, Some(d));
    proof fn law_ready()
        requires Self::s_ready()
        ensures NLETTERS >= 1, Self::MAX_DEGREE <= s_depth(NLETTERS), s_depth(NLETTERS) <= 63;
    proof fn law_key(k: TensorKey<NLETTERS>)
        requires Self::s_ready(), k.wf()
        ensures Self::s_key_ok(k);
    proof fn law_new(v: Self::SV)
        requires Self::s_ready(), Self::s_is_new(v)
        ensures Self::s_t(v) == t_zero::<S>(), Self::s_fit(v);
    proof fn law_single(v: Self::SV, k: TensorKey<NLETTERS>, s: S)
        requires Self::s_ready(), k.wf(), Self::s_is_single(v, k, s)
        ensures Self::s_t(v) == t_single(k.word(), s), Self::s_fit(v);
    proof fn law_set(v: Self::SV, w: Self::SV, k: TensorKey<NLETTERS>, s: S)
        requires Self::s_ready(), k.wf(), Self::s_fit(v), Self::s_get(v, k) is Some, Self::s_is_set(v, w, k, s)
        ensures Self::s_t(w) == t_set(Self::s_t(v), k.word(), s), Self::s_fit(w);
    proof fn law_erased(v: Self::SV, w: Self::SV, k: TensorKey<NLETTERS>)
        requires Self::s_ready(), k.wf(), Self::s_fit(v), Self::s_is_erased(v, w, k)
        ensures Self::s_t(w) == t_set(Self::s_t(v), k.word(), S::ZERO), Self::s_fit(w);
    proof fn law_none(v: Self::SV, k: TensorKey<NLETTERS>)
        requires Self::s_ready(), k.wf(), Self::s_fit(v), Self::s_get(v, k) is None
        ensures Self::s_t(v)(k.word()) == S::ZERO;
    proof fn law_mac(v: Self::SV, l: Self::SV, r: Self::SV, f: spec_fn(S) -> S, d: DegreeType, w: Self::SV)
        requires Self::s_ready(), Self::s_fit(v), Self::s_fit(l), Self::s_fit(r), d <= Self::MAX_DEGREE, Self::s_is_mac(v, l, r, f, Some(d), w)
        ensures Self::s_fit(w), s_field::<S>() && s_additive(f) ==> Self::s_t(w) == t_add(Self::s_t(v), t_map(f, t_mul(NLETTERS, Self::s_t(l), Self::s_t(r), d as nat)));
    proof fn law_add(v: Self::SV, w: Self::SV)
        requires Self::s_ready(), Self::s_fit(v), Self::s_fit(w)
        ensures Self::s_fit(Self::s_add_v(v, w)), s_field::<S>() ==> Self::s_t(Self::s_add_v(v, w)) == t_add(Self::s_t(v), Self::s_t(w));
    proof fn law_sub(v: Self::SV, w: Self::SV)
        requires Self::s_ready(), Self::s_fit(v), Self::s_fit(w)
        ensures Self::s_fit(Self::s_sub_v(v, w)), s_field::<S>() ==> Self::s_t(Self::s_sub_v(v, w)) == t_sub(Self::s_t(v), Self::s_t(w));
    proof fn law_div(v: Self::SV, q: S::RationalType)
        requires Self::s_ready(), Self::s_fit(v)
        ensures Self::s_fit(Self::s_div_v(v, q)), s_field::<S>() ==> Self::s_t(Self::s_div_v(v, q)) == t_div(Self::s_t(v), q);

=== FreeTensor::exp(self) -> r
requires:
    Self::s_ready(), Self::s_fit(self.s_v())
ensures:
    s_field::<S>() ==> Self::s_t(r.s_v()) == t_exp(NLETTERS, t_single(Seq::empty(), S::ONE), Self::s_t(self.s_v()), Self::MAX_DEGREE as nat)
vars: u=tunit b=borrowed_result o=result a=__v0 ae=__v0_e i=i
start:
    proof {
        Self::law_ready();
        assert forall|k: TensorKey<NLETTERS>| #[trigger] k.wf() implies Self::s_key_ok(k) by { Self::law_key(k); }
        assert forall|v: Self::SV, k: TensorKey<NLETTERS>, s: S| k.wf() && #[trigger] Self::s_is_single(v, k, s) implies Self::s_t(v) == t_single(k.word(), s) && Self::s_fit(v) by { Self::law_single(v, k, s); }
    }
loop 0 invariant:
    Self::s_ready(), NLETTERS >= 1, Self::MAX_DEGREE <= s_depth(NLETTERS) <= 63, Self::s_fit(self.s_v()), Self::s_fit($b.s_v()), Self::s_fit($u.s_v()),
    Self::s_t($u.s_v()) == t_single(Seq::<u32>::empty(), S::ONE), $ae == 1, 1 <= $a <= Self::MAX_DEGREE + 1,
    ?b/=o *final($b) == after_borrow($o),
    s_field::<S>() ==> Self::s_t($b.s_v()) == t_series(NLETTERS, t_single(Seq::<u32>::empty(), S::ONE), Self::s_t(self.s_v()), Self::MAX_DEGREE as nat, $a as nat, (Self::MAX_DEGREE + 1 - $a) as nat),
loop 0 decreases:
    $a
loop 0 body_start:
    let ghost __h = $b.s_v();
    proof { Self::law_mul_ok(__h, self.s_v(), Self::MAX_DEGREE); }
loop 0 body_end:
    proof {
        let d = Self::MAX_DEGREE;
        let q = s_q::<S>($i as nat);
        let (z, m) = choose|z: Self::SV, m: Self::SV| Self::s_is_new(z) && #[trigger] Self::s_is_mac(z, __h, self.s_v(), s_quot::<S>(q), Some(d), m) && $b.s_v() == Self::s_add_v(m, $u.s_v());
        Self::law_new(z);
        Self::law_mac(z, __h, self.s_v(), s_quot::<S>(q), d, m);
        Self::law_add(m, $u.s_v());
        if s_field::<S>() {
            lemma_quot::<S>(NLETTERS, q, Self::s_t(__h), Self::s_t(self.s_v()), d as nat);
            lemma_series_step(NLETTERS, t_single(Seq::<u32>::empty(), S::ONE), Self::s_t(self.s_v()), d as nat, $i as nat, (d - $i) as nat);
        }
    }

=== FreeTensor::fmexp(self, arg) -> r
requires:
    Self::s_ready(), Self::s_fit(old(self).s_v()), Self::s_fit(arg.s_borrow().s_v())
ensures:
    s_field::<S>() ==> Self::s_t(r.s_v()) == t_exp(NLETTERS, Self::s_t(old(self).s_v()), t_set(Self::s_t(arg.s_borrow().s_v()), Seq::empty(), S::ZERO), Self::MAX_DEGREE as nat),
    *final(r) == *final(self)
vars: x=x p=oself a=__v0 ae=__v0_e i=i
start:
    broadcast use lemma_clone;
    let ghost __x = t_set(Self::s_t(arg.s_borrow().s_v()), Seq::empty(), S::ZERO);
    let ghost __p = Self::s_t(self.s_v());
    proof {
        Self::law_ready();
        let v = arg.s_borrow().s_v();
        assert forall|k: TensorKey<NLETTERS>| #[trigger] k.wf() implies Self::s_key_ok(k) by { Self::law_key(k); }
        assert forall|w: Self::SV, k: TensorKey<NLETTERS>, s: S| k.wf() && Self::s_get(v, k) is Some && #[trigger] Self::s_is_set(v, w, k, s) implies Self::s_t(w) == t_set(Self::s_t(v), k.word(), s) && Self::s_fit(w) by { Self::law_set(v, w, k, s); }
        assert forall|w: Self::SV, k: TensorKey<NLETTERS>| k.wf() && #[trigger] Self::s_is_erased(v, w, k) implies Self::s_t(w) == t_set(Self::s_t(v), k.word(), S::ZERO) && Self::s_fit(w) by { Self::law_erased(v, w, k); }
        assert forall|k: TensorKey<NLETTERS>| #[trigger] k.wf() && Self::s_get(v, k) is None && k.word() == Seq::<u32>::empty() implies Self::s_t(v) == t_set(Self::s_t(v), Seq::empty(), S::ZERO) by {
            Self::law_none(v, k);
            assert(Self::s_t(v) =~= t_set(Self::s_t(v), Seq::empty(), S::ZERO));
        }
    }
loop 0 invariant:
    Self::s_ready(), NLETTERS >= 1, Self::MAX_DEGREE <= s_depth(NLETTERS) <= 63, Self::s_fit($x.s_v()), Self::s_fit(self.s_v()), Self::s_fit($p.s_v()),
    Self::s_t($x.s_v()) == __x, __x(Seq::empty()) == S::ZERO, Self::s_t($p.s_v()) == __p, $ae == 1, 1 <= $a <= Self::MAX_DEGREE + 1,
    s_field::<S>() ==> t_agree(NLETTERS, Self::s_t(self.s_v()), t_series(NLETTERS, __p, __x, Self::MAX_DEGREE as nat, $a as nat, (Self::MAX_DEGREE + 1 - $a) as nat), Self::MAX_DEGREE + 1 - $a),
    s_field::<S>() ==> forall|w: Seq<u32>| w.len() > Self::MAX_DEGREE || !letters_ok(NLETTERS, w) ==> #[trigger] Self::s_t(self.s_v())(w) == __p(w),
loop 0 decreases:
    $a
loop 0 body_start:
    let ghost __h = self.s_v();
    proof {
        Self::law_mul_ok(__h, $x.s_v(), (Self::MAX_DEGREE + 2 - $a) as DegreeType);
        Self::law_mul_ok(__h, $x.s_v(), Self::MAX_DEGREE);
    }
loop 0 body_end:
    proof {
        let d = Self::MAX_DEGREE;
        let q = s_q::<S>($i as nat);
        // no product may be cut below degree d - i + 1; what lies above does not matter
        let (z, m, e) = choose|z: Self::SV, m: Self::SV, e: DegreeType| Self::s_is_new(z) && d - $i + 1 <= e <= d && #[trigger] Self::s_is_mac(z, __h, $x.s_v(), s_quot::<S>(q), Some(e), m) && self.s_v() == Self::s_add_v(m, $p.s_v());
        Self::law_new(z);
        Self::law_mac(z, __h, $x.s_v(), s_quot::<S>(q), e, m);
        Self::law_add(m, $p.s_v());
        if s_field::<S>() {
            lemma_quot::<S>(NLETTERS, q, Self::s_t(__h), __x, e as nat);
            lemma_fused_step(NLETTERS, Self::s_t(__h), __p, __x, d as nat, $i as nat, (d - $i) as nat, e as nat, Self::s_t(self.s_v()));
            lemma_fused_long::<S>(NLETTERS, Self::s_t(__h), __p, __x, q, e as nat);
        }
    }
loop 0 after:
    proof {
        if s_field::<S>() {
            assert forall|w: Seq<u32>| #[trigger] Self::s_t(self.s_v())(w) == t_exp(NLETTERS, __p, __x, Self::MAX_DEGREE as nat)(w) by {
                if w.len() > Self::MAX_DEGREE || !letters_ok(NLETTERS, w) { lemma_series_long(NLETTERS, __p, __x, Self::MAX_DEGREE as nat, 1, Self::MAX_DEGREE as nat, w); }
            }
            assert(Self::s_t(self.s_v()) =~= t_exp(NLETTERS, __p, __x, Self::MAX_DEGREE as nat));
        }
    }

=== FreeTensor::log(self) -> r
requires:
    Self::s_ready(), Self::s_fit(self.s_v())
ensures:
    s_field::<S>() ==> Self::s_t(r.s_v()) == t_log(NLETTERS, t_single(Seq::empty(), S::ONE), t_set(Self::s_t(self.s_v()), Seq::empty(), S::ZERO), Self::MAX_DEGREE as nat)
vars: u=tunit x=x o=rv a=__v0 ae=__v0_e i=i
start:
    broadcast use lemma_clone;
    let ghost __x = t_set(Self::s_t(self.s_v()), Seq::empty(), S::ZERO);
    let ghost __u = t_single(Seq::<u32>::empty(), S::ONE);
    proof {
        Self::law_ready();
        let v = self.s_v();
        assert forall|k: TensorKey<NLETTERS>| #[trigger] k.wf() implies Self::s_key_ok(k) by { Self::law_key(k); }
        assert forall|v: Self::SV, k: TensorKey<NLETTERS>, s: S| k.wf() && #[trigger] Self::s_is_single(v, k, s) implies Self::s_t(v) == t_single(k.word(), s) && Self::s_fit(v) by { Self::law_single(v, k, s); }
        assert forall|w: Self::SV, k: TensorKey<NLETTERS>, s: S| k.wf() && Self::s_get(v, k) is Some && #[trigger] Self::s_is_set(v, w, k, s) implies Self::s_t(w) == t_set(Self::s_t(v), k.word(), s) && Self::s_fit(w) by { Self::law_set(v, w, k, s); }
        assert forall|w: Self::SV, k: TensorKey<NLETTERS>| k.wf() && #[trigger] Self::s_is_erased(v, w, k) implies Self::s_t(w) == t_set(Self::s_t(v), k.word(), S::ZERO) && Self::s_fit(w) by { Self::law_erased(v, w, k); }
        assert forall|k: TensorKey<NLETTERS>| #[trigger] k.wf() && Self::s_get(v, k) is None && k.word() == Seq::<u32>::empty() implies Self::s_t(v) == t_set(Self::s_t(v), Seq::empty(), S::ZERO) by {
            Self::law_none(v, k);
            assert(Self::s_t(v) =~= t_set(Self::s_t(v), Seq::empty(), S::ZERO));
        }
        assert forall|z: Self::SV| #[trigger] Self::s_is_new(z) implies Self::s_t(z) == t_zero::<S>() && Self::s_fit(z) by { Self::law_new(z); }
    }
loop 0 invariant:
    Self::s_ready(), NLETTERS >= 1, Self::MAX_DEGREE <= s_depth(NLETTERS) <= 63, Self::s_fit($x.s_v()), Self::s_fit($u.s_v()), Self::s_fit($o.s_v()),
    Self::s_t($x.s_v()) == __x, Self::s_t($u.s_v()) == __u, $ae == 1, 1 <= $a <= Self::MAX_DEGREE + 1,
    s_field::<S>() ==> Self::s_t($o.s_v()) == t_log_series(NLETTERS, __u, __x, Self::MAX_DEGREE as nat, $a as nat, (Self::MAX_DEGREE + 1 - $a) as nat),
loop 0 decreases:
    $a
loop 0 body_start:
    let ghost __h = $o.s_v();
    proof {
        assert(forall|n: u32| #[trigger] (n & 1) == n % 2) by (bit_vector);
        let q = s_q::<S>(($a - 1) as nat);
        Self::law_div($u.s_v(), q);
        let t = Self::s_div_v($u.s_v(), q);
        Self::law_add(__h, t);
        Self::law_sub(__h, t);
        Self::law_mul_ok(Self::s_add_v(__h, t), $x.s_v(), Self::MAX_DEGREE);
        Self::law_mul_ok(Self::s_sub_v(__h, t), $x.s_v(), Self::MAX_DEGREE);
    }
loop 0 body_end:
    proof {
        let d = Self::MAX_DEGREE;
        let q = s_q::<S>($i as nat);
        let t = Self::s_div_v($u.s_v(), q);
        let l = if $i % 2 == 0 { Self::s_sub_v(__h, t) } else { Self::s_add_v(__h, t) };
        let z = choose|z: Self::SV| Self::s_is_new(z) && #[trigger] Self::s_is_mac(z, l, $x.s_v(), s_id::<S>(), Some(d), $o.s_v());
        Self::law_new(z);
        Self::law_mac(z, l, $x.s_v(), s_id::<S>(), d, $o.s_v());
        if s_field::<S>() {
            lemma_ident::<S>(NLETTERS, Self::s_t(l), __x, d as nat);
            lemma_log_term_0::<S>(NLETTERS, __u, __x, d as nat, $i as nat, Self::s_t(__h));
            lemma_log_step(NLETTERS, __u, __x, d as nat, $i as nat, (d - $i) as nat);
        }
    }
