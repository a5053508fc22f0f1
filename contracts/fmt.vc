// ---------------------------------------------------------------- formatting
=== impl Debug for TensorKey
members:
    open spec fn s_fmt_ok(&self) -> bool { self.wf() }
    open spec fn s_debug(&self) -> Seq<char> { s_bracketed(self.word().reverse()) }

=== Debug for TensorKey::fmt(self, f) -> r
start:
    let ghost __t = f@;
    proof { self.lemma_wf(); lemma_texts(); assert(self.word().reverse() =~= s_back(self.word(), self.size as int)); }
vars: i=__v0
loop 0 invariant:
    self.wf(), $i <= self.size, __v0_e == self.size, self.word().len() == self.size, f.s_plain(), old(f).s_plain(), f.s_sink() == old(f).s_sink(), __t == old(f)@,
    f@ == __t + seq!['('] + s_list(s_back(self.word(), $i as int))
loop 0 decreases:
    self.size - $i
loop 0 body_start:
    proof { lemma_texts(); lemma_back(self.word(), $i as int); }
loop 0 before:
    assert(s_back(self.word(), 0) =~= Seq::<u32>::empty());
    assert(f@ =~= __t + seq!['('] + s_list(s_back(self.word(), 0)));

=== impl Display for TensorKey
members:
    open spec fn s_show_ok(&self) -> bool { self.wf() }
    open spec fn s_display(&self) -> Seq<char> { s_bracketed(self.word().reverse()) }

=== Display for TensorKey::fmt(self, f) -> r

=== impl Debug for HallKey
members:
    open spec fn s_fmt_ok(&self) -> bool { true }
    open spec fn s_debug(&self) -> Seq<char> {
        "HallKey(key="@ + s_dec(s_hk(self.0) as int) + ", lparent="@ + s_dec(s_hl(self.0) as int) + ", rparent="@ + s_dec(s_hr(self.0) as int)
            + ", size="@ + s_dec(s_hs(self.0) as int) + ")"@
    }

=== Debug for HallKey::fmt(self, f) -> r
start:
    proof { lemma_texts(); }

=== impl Display for HallKey
members:
    open spec fn s_show_ok(&self) -> bool { true }
    open spec fn s_display(&self) -> Seq<char> {
        if s_hs(self.0) == 1 { s_dec(s_hk(self.0) as int) }
        else { "["@ + s_dec(s_hl(self.0) as int) + ", "@ + s_dec(s_hr(self.0) as int) + "]"@ }
    }

=== Display for HallKey::fmt(self, f) -> r
start:
    proof { lemma_texts(); reveal_strlit("["); reveal_strlit("]"); assert("["@ =~= seq!['[']); assert("]"@ =~= seq![']']); }


=== impl Display for SimpleDenseVector
members:
    open spec fn s_show_ok(&self) -> bool {
        &&& forall|i: int| 0 <= i < self.s_seq().len() ==> (#[trigger] self.s_seq()[i]).s_show_ok()
        &&& forall|i: nat| i < self.s_seq().len() && (#[trigger] B::s_nth(i)) is Some ==> B::s_nth(i)->0.s_show_ok()
    }
    open spec fn s_display(&self) -> Seq<char> { s_terms::<B, S>(self.s_seq(), 0) }

=== Display for SimpleDenseVector::fmt(self, f) -> r
start:
    let ghost __t = f@;
    proof { lemma_texts(); }
vars: i=__v0 s=__v0_s t=__v0_t
loop 0 invariant:
    f.s_plain() == old(f).s_plain(), f.s_sink() == old(f).s_sink(), __t == old(f)@, self.s_show_ok(),
    $t@ == self.s_seq(), $i <= $t@.len(),
    forall|i: nat| #[trigger] $s.s_rest(i) == B::s_nth(i + $i as nat),
    f@ + s_terms::<B, S>(self.s_seq(), $i as nat) == __t + s_terms::<B, S>(self.s_seq(), 0)
loop 0 ensures:
    s_terms::<B, S>(self.s_seq(), $i as nat) == Seq::<char>::empty()
loop 0 body_start:
    proof { lemma_texts(); }
loop 0 decreases:
    self.s_seq().len() - $i
