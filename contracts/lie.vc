// ---------------------------------------------------------------- hall_key.rs
=== HallKey::get_key(self) -> r
ensures:
    r == s_hk(self.0)
start:
    proof { lemma_hpow(); lemma_hall_read(self.0, 18, 0); }

=== HallKey::get_lparent(self) -> r
ensures:
    r == s_hl(self.0)
start:
    proof { lemma_hpow(); lemma_hall_read(self.0, 18, 18); }

=== HallKey::get_rparent(self) -> r
ensures:
    r == s_hr(self.0)
start:
    proof { lemma_hpow(); lemma_hall_read(self.0, 18, 36); }

=== HallKey::size(self) -> r
ensures:
    r == s_hs(self.0)
start:
    proof { lemma_hpow(); lemma_hall_read(self.0, 10, 54); }

=== HallKey::make_key_data(key, lparent, rparent, size) -> r
requires:
    key < 0x40000, lparent < 0x40000, rparent < 0x40000, size < 0x400
ensures:
    s_hk(r) == key, s_hl(r) == lparent, s_hr(r) == rparent, s_hs(r) == size
start:
    proof { lemma_hall_pack(key, lparent, rparent, size as u64); }

=== HallKey::new() -> r
ensures:
    r.0 == 0

=== HallKey::from_letter(letter) -> r
requires:
    1 <= letter <= NLETTERS, letter < 0x40000
ensures:
    s_hk(r.0) == letter, s_hl(r.0) == 0, s_hr(r.0) == letter, s_hs(r.0) == 1, r.0 != 0

=== HallKey::is_valid(self) -> r
ensures:
    r == (self.0 != 0)

=== HallKey::is_letter(self) -> r
ensures:
    r == (s_hs(self.0) == 1)

=== HallKey::to_index(self) -> r
requires:
    s_hk(self.0) >= 1
ensures:
    r == s_hk(self.0) - 1

// ---------------------------------------------------------------- degree_range_map.rs
=== is_squarefree_impl(n, base) -> r
requires:
    1 <= n <= 0x1000_0000_0000, 2 <= base, (base - 1) * (base - 1) < n || base == 2
ensures:
    r == (forall|k: nat| k >= base ==> (n as nat) % #[trigger] (k * k) != 0)
decreases:
    n + 2 - base
start:
    proof {
        let (m, b) = (n as nat, base as nat);
        assert(base <= 0x200_0000) by (nonlinear_arith) requires n <= 0x1000_0000_0000, base == 2 || (base - 1) * (base - 1) < n;
        assert(base * base <= 0x400_0000_0000_0000) by (nonlinear_arith) requires base <= 0x200_0000;
        assert(b * b >= 1) by (nonlinear_arith) requires b >= 2;
        if base > 2 { assert(base - 1 < n) by (nonlinear_arith) requires (base - 1) * (base - 1) < n, base > 2; }
        if b * b >= m && m % (b * b) != 0 { lemma_sq_above(m, b); }
        assert forall|k: nat| k >= b && (m % (b * b) != 0) && (forall|j: nat| j >= b + 1 ==> m % #[trigger] (j * j) != 0) implies m % #[trigger] (k * k) != 0 by { if k > b {} else { assert(k == b); } }
    }

=== is_squarefree(n) -> r
requires:
    1 <= n <= 0x1000_0000_0000
ensures:
    r == s_sqfree(n as nat)

=== mobius_impl(n, divisor) -> r
requires:
    2 <= divisor <= n <= 0x1000_0000_0000, s_none_below(n as nat, divisor as nat), s_sqfree(n as nat)
ensures:
    r == s_mobius(n as nat)
decreases:
    n, n - divisor
start:
    proof {
        let (m, d) = (n as nat, divisor as nat);
        lemma_mobius_one();
        if m % d == 0 {
            lemma_mobius_at(m, d);
        } else {
            if d == m { lemma_mod_self_0(m as int); }
            assert forall|k: nat| 2 <= k < d + 1 implies #[trigger] (m % k) != 0 by { if k < d {} else { assert(k == d); } }
        }
        if d == m { lemma_div_by_self(m as int); lemma_mod_self_0(m as int); }
    }

=== mobius(n) -> r
requires:
    1 <= n <= 0x1000_0000_0000
ensures:
    r == s_mobius(n as nat), -1 <= r <= 1
decreases:
    n, n
start:
    proof { lemma_mobius_one(); lemma_mobius_range(n as nat); }

=== hall_set_level_term(width, level, divisor) -> r
requires:
    s_witt_fits(width as nat, level as nat), 1 <= divisor <= level, level % divisor == 0
ensures:
    r == s_witt_term(width as nat, level as nat, divisor as nat)
start:
    proof {
        let (w, n, d) = (width as nat, level as nat, divisor as nat);
        lemma_witt(w, n, d);
        lemma_div_is_ordered_by_denominator(n as int, 1, d as int);
        lemma_ipow_mono(w, n / d, n);
        lemma_mobius_range(d);
        let (x, m) = (ipow(w, n / d) as int, s_mobius(d));
        assert(-x <= m * x <= x) by (nonlinear_arith) requires -1 <= m <= 1, x >= 0;
    }

=== hall_set_level_size_impl(width, level, divisor) -> r
requires:
    s_witt_fits(width as nat, level as nat), 1 <= divisor <= level
ensures:
    r == s_witt_from(width as nat, level as nat, divisor as nat)
decreases:
    level - divisor
start:
    proof {
        let (w, n, d) = (width as nat, level as nat, divisor as nat);
        lemma_witt(w, n, d);
        lemma_witt(w, n, d + 1);
        assert(d == n ==> s_witt_from(w, n, d + 1) == 0);
    }

=== hall_set_level_size(width, depth) -> r
requires:
    s_witt_fits(width as nat, depth as nat), depth >= 1
ensures:
    r == s_level(width as nat, depth as nat)
start:
    proof { lemma_witt(width as nat, depth as nat, 1); }

=== hall_set_size_impl(width, depth, level) -> r
requires:
    s_witt_fits(width as nat, depth as nat), 1 <= level <= depth
ensures:
    r == s_levels(width as nat, level as nat, depth as nat)
decreases:
    depth - level
start:
    proof {
        let (w, n, l) = (width as nat, depth as nat, level as nat);
        lemma_fits_mono(w, l, n);
        lemma_levels(w, l, n);
        lemma_witt(w, n, 1);
        assert(l == n ==> s_levels(w, l + 1, n) == 0);
    }

=== hall_set_size(width, depth) -> r
requires:
    s_witt_fits(width as nat, depth as nat)
ensures:
    r == s_hall_size(width as nat, depth as nat)
start:
    proof { lemma_size_levels(width as nat, depth as nat); }

=== DegreeRangeMap::new(degree) -> r
requires:
    NLETTERS >= 1, degree >= 1 ==> s_witt_fits(NLETTERS as nat, (degree - 1) as nat)
ensures:
    r.wf(), r.0@.len() == degree
vars: i=__v0 v=inner
loop 0 invariant:
    NLETTERS >= 1, degree >= 1 ==> s_witt_fits(NLETTERS as nat, (degree - 1) as nat), $i <= degree, __v0_e == degree,
    $v@.len() == $i,
    forall|j: int| 0 <= j < $v@.len() ==> #[trigger] $v@[j] == s_hall_size(NLETTERS as nat, j as nat)
loop 0 decreases:
    degree - $i
loop 0 body_start:
    proof { lemma_fits_mono(NLETTERS as nat, $i as nat, (degree - 1) as nat); }

=== DegreeRangeMap::grow(requested) -> r
requires:
    old(self).wf(), requested >= old(self).0@.len() ==> s_witt_fits(NLETTERS as nat, requested as nat)
ensures:
    r is Ok, final(self).wf(),
    final(self).0@.len() == (if requested < old(self).0@.len() { old(self).0@.len() as int } else { requested + 1 })
vars: i=__v0
loop 0 invariant:
    self.wf(), requested >= $i ==> s_witt_fits(NLETTERS as nat, requested as nat), __v0_e == requested + 1, self.0@.len() == $i,
    $i >= old(self).0@.len(), $i > old(self).0@.len() ==> $i <= requested + 1
loop 0 decreases:
    requested + 1 - $i
loop 0 body_start:
    proof { lemma_fits_mono(NLETTERS as nat, $i as nat, requested as nat); }

=== DegreeRangeMap::get(deg) -> r
requires:
    self.wf()
ensures:
    deg < self.0@.len() ==> r == Ok::<usize, DegreeRangeMapError>(s_hall_size(NLETTERS as nat, deg as nat) as usize),
    deg >= self.0@.len() ==> r is Err

=== DegreeRangeMap::find_deg(key) -> r
requires:
    self.wf(), self.0@.len() <= 0x1_0000_0000
ensures:
    r is Ok <==> self.0@.len() > 0 && key <= s_hall_size(NLETTERS as nat, (self.0@.len() - 1) as nat),
    r is Ok ==> r->Ok_0 < self.0@.len() && key <= s_hall_size(NLETTERS as nat, r->Ok_0 as nat),
    r is Ok ==> forall|d: nat| d < r->Ok_0 ==> #[trigger] s_hall_size(NLETTERS as nat, d) < key
start:
    proof { lemma_find(NLETTERS as nat, self.0@); }
closure 0 types:
    &usize
closure 0:
    -> (o: bool) ensures o == (*__c0_0 < key)

