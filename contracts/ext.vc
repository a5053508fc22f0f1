// ---------------------------------------------------------------- vector/traits/extension.rs
=== VectorKeyExt::add_scalar_multiply(self, key, val) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    s_is_added::<Self>(old(self).s_v(), r.s_v(), key.s_borrow(), val.s_into()), *final(r) == *final(self)
start:
    broadcast use group_sign;

=== VectorKeyExt::sub_scalar_multiply(self, key, val) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    s_is_subbed::<Self>(old(self).s_v(), r.s_v(), key.s_borrow(), val.s_into()), *final(r) == *final(self)
start:
    broadcast use group_sign;

=== VectorKeyExt::add_scalar_divide(self, key, val) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    s_is_added::<Self>(old(self).s_v(), r.s_v(), key.s_borrow(), Self::ScalarType::ONE.s_div(val.s_into())), *final(r) == *final(self)
start:
    broadcast use group_sign;

=== VectorKeyExt::sub_scalar_divide(self, key, val) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    s_is_subbed::<Self>(old(self).s_v(), r.s_v(), key.s_borrow(), Self::ScalarType::ONE.s_div(val.s_into())), *final(r) == *final(self)
start:
    broadcast use group_sign;
