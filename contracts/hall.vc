// ---------------------------------------------------------------- hall_set.rs
=== trait HallSet
members:
    spec fn s_hv(&self) -> HallView;
    spec fn s_ok(&self) -> bool;
    /// the set can be read: it is behind no lock, or no holder of its lock has panicked
    spec fn s_avail(&self) -> bool;

=== impl HallSet for HallSetInner
members:
    open spec fn s_hv(&self) -> HallView { HallView { n: NLETTERS as nat, set: self.set@, degs: self.degrees.0@.len() } }
    open spec fn s_ok(&self) -> bool { self.degrees.wf() && s_hall_inv(self.s_hv()) }
    open spec fn s_avail(&self) -> bool { true }

=== impl HallSet for HallSetObject
members:
    open spec fn s_hv(&self) -> HallView { self.0.s_hv() }
    open spec fn s_ok(&self) -> bool { self.0.s_ok() }
    open spec fn s_avail(&self) -> bool { self.0.s_avail() }

=== HallSet::is_letter(key) -> r
requires:
    self.s_ok()
ensures:
    !self.s_avail() ==> r is Err && r->Err_0 is HallSetReadError,
    self.s_avail() ==> r is Ok && r->Ok_0 == (1 <= key <= self.s_hv().n)

=== HallSet::key_details(key) -> r
requires:
    self.s_ok()
ensures:
    !self.s_avail() ==> r is Err && r->Err_0 is HallSetReadError,
    self.s_avail() ==> s_answer(self.s_hv(), key as nat, key as nat, r)

=== HallSet::lparent_details(key) -> r
requires:
    self.s_ok()
ensures:
    !self.s_avail() ==> r is Err && r->Err_0 is HallSetReadError,
    self.s_avail() ==> s_answer(self.s_hv(), key as nat, self.s_hv().set[key as int].0 as nat, r)

=== HallSet::rparent_details(key) -> r
requires:
    self.s_ok()
ensures:
    !self.s_avail() ==> r is Err && r->Err_0 is HallSetReadError,
    self.s_avail() ==> s_answer(self.s_hv(), key as nat, self.s_hv().set[key as int].1 as nat, r)

=== HallSet::degree_range(deg) -> r
requires:
    self.s_ok()
ensures:
    !self.s_avail() ==> r is Err && r->Err_0 is HallSetReadError,
    self.s_avail() && deg + 1 < self.s_hv().degs ==> r is Ok
        && r->Ok_0.0 == s_hall_size(self.s_hv().n, deg as nat) && r->Ok_0.1 == s_hall_size(self.s_hv().n, (deg + 1) as nat),
    self.s_avail() && deg + 1 >= self.s_hv().degs ==> r is Err && r->Err_0 is HallSetTooSmall

=== From for HallSetError::from(e) -> r
ensures:
    r is HallSetTooSmall

=== starting_size_for_width(letters) -> r
ensures:
    r == s_degs0(letters as nat)

=== HallSetInner::new() -> r
requires:
    NLETTERS >= 1
ensures:
    r.s_ok(), r.current_degree == 0, r.s_hv().set == seq![(0u32, 0u32)], r.s_hv().degs == s_degs0(NLETTERS as nat)
start:
    proof { lemma_degs0(NLETTERS as nat); }

=== HallSetInner::get_parents(key) -> r
ensures:
    key < self.set@.len() ==> r is Some && *r->Some_0 == self.set@[key as int],
    key >= self.set@.len() ==> r is None

=== HallSetInner::degree(key) -> r
requires:
    self.s_ok()
ensures:
    r is Some <==> key <= s_hall_size(NLETTERS as nat, (self.degrees.0@.len() - 1) as nat),
    r is Some ==> s_is_deg(NLETTERS as nat, key as nat, r->Some_0 as nat)

=== HallSetInner::curr_degree() -> r
ensures:
    r == self.current_degree

=== HallSetInner::grow_up(new_degree)
requires:
    old(self).s_ok()
ensures:
    final(self).s_ok(), final(self).s_hv() == old(self).s_hv(),
    final(self).current_degree == (if old(self).current_degree < new_degree { new_degree } else { old(self).current_degree })
loop 0 invariant:
    self.s_ok(), self.s_hv() == old(self).s_hv(),
    old(self).current_degree <= self.current_degree, old(self).current_degree < new_degree ==> self.current_degree <= new_degree,
    old(self).current_degree >= new_degree ==> self.current_degree == old(self).current_degree
loop 0 decreases:
    new_degree - self.current_degree

=== Clone for HallSetObject::clone() -> r
ensures:
    r == *self

=== HallSetObject::new(obj) -> r
requires:
    obj.s_ok()
ensures:
    r.s_ok(), r.s_hv() == obj.s_hv(), r.s_avail()

=== HallSet for HallSetInner::degree_range(deg) -> r
start:
    proof {
        let s = self.degrees.0@;
        if deg + 1 < s.len() { assert(s[deg as int] == s_hall_size(NLETTERS as nat, deg as nat)); assert(s[deg + 1] == s_hall_size(NLETTERS as nat, (deg + 1) as nat)); }
    }

=== get_hall_set(pre_grow) -> r
requires:
    NLETTERS >= 1
ensures:
    r == s_bound(NLETTERS), s_entry(NLETTERS, r)
start:
    let mut __vp_lk = vp_cache_lock();
