// ---------------------------------------------------------------- implementation.rs
=== const_logn(n) -> r
ensures:
    r == s_log2(n as nat),
    r <= 32,
decreases:
    n
start:
    proof { lemma2_to64(); lemma2_to64_rest(); lemma_log2_bound(n as nat, 32);
        assert(n >> 1u32 == n / 2) by (bit_vector); }

=== make_mask(n_bits, shift) -> r
requires:
    1 <= n_bits < 64, shift < 64
ensures:
    r == s_mask(n_bits, shift)
start:
    proof {
        let one: u64 = 1;
        assert(one << n_bits >= 1u64) by (bit_vector) requires n_bits < 64, one == 1u64;
        assert(!(0xffff_ffff_ffff_ffffu64 << n_bits) == sub(1u64 << n_bits, 1u64)) by (bit_vector) requires n_bits < 64;
        assert(0xffff_ffff_ffff_ffffu64 >> sub(64u32, n_bits) == sub(1u64 << n_bits, 1u64)) by (bit_vector) requires 1 <= n_bits < 64;
    }

// ---------------------------------------------------------------- tensor_key.rs
=== TensorKey::bits_per_letter() -> r
requires:
    NLetters >= 1
ensures:
    r == s_bits(NLetters), 1 <= r <= 32
start:
    proof { lemma_layout(NLetters); }

=== TensorKey::size_bits() -> r
requires:
    NLetters >= 1
ensures:
    r == s_size_bits(NLetters), r <= 5
start:
    proof { lemma_layout(NLetters); }

=== TensorKey::letter_mask() -> r
requires:
    NLetters >= 1
ensures:
    r == s_mask(s_bits(NLetters) as u32, 0)

=== TensorKey::max_depth() -> r
requires:
    NLetters >= 1
ensures:
    r == s_depth(NLetters), 2 <= r <= 59
start:
    proof { lemma_layout(NLetters); }

=== TensorKey::new() -> r
requires:
    NLetters >= 1
ensures:
    r.wf(), r.word() == Seq::<u32>::empty()
start:
    proof { lemma_layout(NLetters); lemma_ipow_pos(s_base(NLetters), 0); assert(unpack(s_base(NLetters), 0, 0) =~= Seq::<u32>::empty()); }

=== TensorKey::from_letter(letter) -> r
requires:
    1 <= letter <= NLetters
ensures:
    r.wf(), r.word() == seq![letter]
start:
    proof {
        lemma_layout(NLetters);
        lemma_unpack_pack(s_base(NLetters), seq![letter]);
        lemma_pack1(s_base(NLetters), letter);
    }

=== TensorKey::size(self) -> r
ensures:
    r == self.size

=== TensorKey::data(self) -> r
ensures:
    r == self.data

=== TensorKey::update_size(new_size)
ensures:
    final(self).size == new_size, final(self).data == old(self).data

=== TensorKey::set_letter(letter, new_val)
requires:
    old(self).wf(), letter < old(self).size, 1 <= new_val <= NLetters
ensures:
    final(self).wf(), final(self).size == old(self).size,
    final(self).word() == old(self).word().update(old(self).size - 1 - letter, new_val)
start:
    proof { old(self).lemma_set(letter, new_val); }

=== TensorKey::from_letters(letters) -> r
requires:
    NLetters >= 1, word_ok(NLetters, letters@)
ensures:
    r.wf(), r.word() == letters@
start:
    proof { lemma_layout(NLetters); }
vars: i=__v0 acc=data
loop 0 invariant:
    NLetters >= 1, word_ok(NLetters, letters@), $i <= letters@.len(), __v0_s@ == letters@,
    $acc == pack(s_base(NLetters), letters@.take($i as int))
loop 0 decreases:
    letters@.len() - $i
loop 0 body_start:
    proof { lemma_key_from_step::<NLetters>(letters@, $i as int, $acc); }
loop 0 after:
    proof {
        lemma_layout(NLetters);
        assert(letters@.take($i as int) =~= letters@);
        lemma_unpack_pack(s_base(NLetters), letters@);
    }

=== TensorKey::get_letter_unadjusted(self, letter) -> r
requires:
    self.wf(), letter < self.size
ensures:
    r < NLetters, r + 1 == self.word()[self.size - 1 - letter]
start:
    proof { self.lemma_get(letter); }

=== TensorKey::get_letter(self, letter) -> r
requires:
    self.wf(), letter < self.size
ensures:
    1 <= r <= NLetters, r == self.word()[self.size - 1 - letter]

=== TensorKey::concatenate(other) -> r
requires:
    self.wf(), other.wf(), self.size + other.size <= s_depth(NLetters)
ensures:
    r.wf(), r.word() == self.word() + other.word()
start:
    proof { self.lemma_concat(other); }

=== TensorKey::to_letters() -> r
requires:
    self.wf()
ensures:
    r@.len() == self.size,
    forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.word()[self.size - 1 - i],
    r@ == self.word().reverse(),
start:
    proof { self.lemma_wf(); }
vars: i=__v0 v=result
loop 0 invariant:
    self.wf(), $i <= self.size, __v0_e == self.size, $v@.len() == $i, self.word().len() == self.size,
    forall|i: int| 0 <= i < $i ==> #[trigger] $v@[i] == self.word()[self.size - 1 - i]
loop 0 decreases:
    self.size - $i
loop 0 after:
    assert($v@ =~= self.word().reverse());

=== TensorKey::push_front_raw(letter) -> r
requires:
    old(self).wf(), old(self).size < s_depth(NLetters), letter < NLetters
ensures:
    *final(self) == *final(r),
    r.wf(), r.size == old(self).size + 1,
    r.word() == seq![(letter + 1) as u32] + old(self).word(),
start:
    proof { old(self).lemma_push(letter); }

=== TensorKey::push_front(letter) -> r
requires:
    old(self).wf(), old(self).size < s_depth(NLetters), 1 <= letter <= NLetters
ensures:
    *final(self) == *final(r),
    r.wf(), r.size == old(self).size + 1,
    r.word() == seq![letter] + old(self).word(),

=== AsRef for TensorKey::as_ref() -> r
ensures:
    r == self

=== Clone for TensorKey::clone() -> r
ensures:
    r == *self

=== derive PartialEq for TensorKey
extra:
    impl<const NLetters: u32> vstd::std_specs::cmp::PartialEqSpecImpl for TensorKey<NLetters> {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Self) -> bool { self.size == other.size && self.data == other.data }
    }

=== TensorKeyIterator::new(key) -> r
ensures:
    r.index == 0, r.key == key

=== impl Iterator for TensorKeyIterator
members:
    open spec fn s_inv(&self) -> bool { self.key.wf() && self.index <= self.key.size }

=== Iterator for TensorKeyIterator::next() -> r
ensures:
    *final(self).key == *old(self).key,
    old(self).index == old(self).key.size ==> r is None && final(self).index == old(self).index,
    old(self).index < old(self).key.size ==> final(self).index == old(self).index + 1 && r == Some(old(self).key.word()[old(self).index as int]),
start:
    proof { self.key.lemma_wf(); }
