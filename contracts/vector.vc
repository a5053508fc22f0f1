// ---------------------------------------------------------------- vector/traits/vector.rs
=== trait Vector
omit:
    PartialEq
members:
    /// what a vector holds
    type SV;
    spec fn s_v(&self) -> Self::SV;
    spec fn s_key_ok(k: Self::KeyType) -> bool;
    spec fn s_keys_ok(p: Seq<(Self::KeyType, Self::ScalarType)>) -> bool;
    spec fn s_is_new(v: Self::SV) -> bool;
    spec fn s_is_single(v: Self::SV, k: Self::KeyType, s: Self::ScalarType) -> bool;
    spec fn s_is_sum(v: Self::SV, p: Seq<(Self::KeyType, Self::ScalarType)>) -> bool;
    spec fn s_is_clear(v: Self::SV, w: Self::SV) -> bool;
    spec fn s_get(v: Self::SV, k: Self::KeyType) -> Option<Self::ScalarType>;
    spec fn s_is_set(v: Self::SV, w: Self::SV, k: Self::KeyType, s: Self::ScalarType) -> bool;
    spec fn s_is_erased(v: Self::SV, w: Self::SV, k: Self::KeyType) -> bool;
    spec fn s_neg_v(v: Self::SV) -> Self::SV;
    spec fn s_add_v(v: Self::SV, w: Self::SV) -> Self::SV;
    spec fn s_sub_v(v: Self::SV, w: Self::SV) -> Self::SV;
    spec fn s_mul_v(v: Self::SV, s: Self::ScalarType) -> Self::SV;
    spec fn s_div_v(v: Self::SV, q: Self::RationalType) -> Self::SV;

=== Vector::new() -> r
ensures:
    Self::s_is_new(r.s_v())

=== Vector::from_key(key) -> r
requires:
    Self::s_key_ok(key.s_into())
ensures:
    Self::s_is_single(r.s_v(), key.s_into(), Self::ScalarType::ONE)

=== Vector::from_key_scalar(key, scalar) -> r
requires:
    Self::s_key_ok(key.s_into())
ensures:
    Self::s_is_single(r.s_v(), key.s_into(), scalar.s_into())

=== Vector::from_iterator(iterator) -> r
requires:
    Self::s_keys_ok(iterator@)
ensures:
    Self::s_is_sum(r.s_v(), iterator@)

=== Vector::swap(self, other)
ensures:
    final(self).s_v() == old(other).s_v(), final(other).s_v() == old(self).s_v()

=== Vector::to_owned(self) -> r
ensures:
    r.s_v() == self.s_v()

=== Vector::clear(self)
ensures:
    Self::s_is_clear(old(self).s_v(), final(self).s_v())

=== Vector::get(self, key) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    match r { Some(x) => Self::s_get(self.s_v(), key.s_borrow()) == Some(*x), None => Self::s_get(self.s_v(), key.s_borrow()) is None }

=== Vector::get_mut(self, key) -> r
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    match r {
        Some(x) => Self::s_get(old(self).s_v(), key.s_borrow()) == Some(*x) && Self::s_is_set(old(self).s_v(), final(self).s_v(), key.s_borrow(), *final(x)),
        None => Self::s_get(old(self).s_v(), key.s_borrow()) is None && final(self).s_v() == old(self).s_v(),
    }

=== Vector::insert_single(self, key, value)
requires:
    Self::s_key_ok(*key)
ensures:
    Self::s_is_set(old(self).s_v(), final(self).s_v(), *key, value.s_into())

=== Vector::erase(self, key)
requires:
    Self::s_key_ok(key.s_borrow())
ensures:
    Self::s_is_erased(old(self).s_v(), final(self).s_v(), key.s_borrow())

=== Vector::uminus(self) -> r
ensures:
    r.s_v() == Self::s_neg_v(self.s_v())

=== Vector::add(self, other) -> r
ensures:
    r.s_v() == Self::s_add_v(self.s_v(), other.s_borrow().s_v())

=== Vector::sub(self, other) -> r
ensures:
    r.s_v() == Self::s_sub_v(self.s_v(), other.s_borrow().s_v())

=== Vector::scalar_rmultiply(self, scalar) -> r
ensures:
    r.s_v() == Self::s_mul_v(self.s_v(), scalar.s_into())

=== Vector::scalar_lmultiply(self, scalar) -> r
ensures:
    r.s_v() == Self::s_mul_v(self.s_v(), scalar.s_into())

=== Vector::scalar_rdivide(self, rational) -> r
ensures:
    r.s_v() == Self::s_div_v(self.s_v(), rational.s_into())

=== Vector::scalar_ldivide(self, rational) -> r
ensures:
    r.s_v() == Self::s_div_v(self.s_v(), rational.s_into())

=== Vector::uminus_inplace(self) -> r
ensures:
    r.s_v() == Self::s_neg_v(old(self).s_v()), *final(r) == *final(self)

=== Vector::add_inplace(self, other) -> r
ensures:
    r.s_v() == Self::s_add_v(old(self).s_v(), other.s_borrow().s_v()), *final(r) == *final(self)

=== Vector::sub_inplace(self, other) -> r
ensures:
    r.s_v() == Self::s_sub_v(old(self).s_v(), other.s_borrow().s_v()), *final(r) == *final(self)

=== Vector::scalar_lmultiply_inplace(self, scalar) -> r
ensures:
    r.s_v() == Self::s_mul_v(old(self).s_v(), scalar.s_into()), *final(r) == *final(self)

=== Vector::scalar_rmultiply_inplace(self, scalar) -> r
ensures:
    r.s_v() == Self::s_mul_v(old(self).s_v(), scalar.s_into()), *final(r) == *final(self)

=== Vector::scalar_rdivide_inplace(self, rational) -> r
ensures:
    r.s_v() == Self::s_div_v(old(self).s_v(), rational.s_into()), *final(r) == *final(self)

=== Vector::scalar_ldivide_inplace(self, rational) -> r
ensures:
    r.s_v() == Self::s_div_v(old(self).s_v(), rational.s_into()), *final(r) == *final(self)

=== Vector::add_scalar_rmultiply(self, other, scalar) -> r
ensures:
    r.s_v() == Self::s_add_v(old(self).s_v(), Self::s_mul_v(other.s_borrow().s_v(), scalar.s_into())), *final(r) == *final(self)

=== Vector::add_scalar_lmultiply(self, other, scalar) -> r
ensures:
    r.s_v() == Self::s_add_v(old(self).s_v(), Self::s_mul_v(other.s_borrow().s_v(), scalar.s_into())), *final(r) == *final(self)

=== Vector::sub_scalar_rmultiply(self, other, scalar) -> r
ensures:
    r.s_v() == Self::s_sub_v(old(self).s_v(), Self::s_mul_v(other.s_borrow().s_v(), scalar.s_into())), *final(r) == *final(self)

=== Vector::sub_scalar_lmultiply(self, other, scalar) -> r
ensures:
    r.s_v() == Self::s_sub_v(old(self).s_v(), Self::s_mul_v(other.s_borrow().s_v(), scalar.s_into())), *final(r) == *final(self)

=== Vector::add_scalar_rdivide(self, other, rational) -> r
ensures:
    r.s_v() == Self::s_add_v(old(self).s_v(), Self::s_div_v(other.s_borrow().s_v(), rational.s_into())), *final(r) == *final(self)

=== Vector::add_scalar_ldivide(self, other, rational) -> r
ensures:
    r.s_v() == Self::s_add_v(old(self).s_v(), Self::s_div_v(other.s_borrow().s_v(), rational.s_into())), *final(r) == *final(self)

=== Vector::sub_scalar_rdivide(self, other, rational) -> r
ensures:
    r.s_v() == Self::s_sub_v(old(self).s_v(), Self::s_div_v(other.s_borrow().s_v(), rational.s_into())), *final(r) == *final(self)

=== Vector::sub_scalar_ldivide(self, other, rational) -> r
ensures:
    r.s_v() == Self::s_sub_v(old(self).s_v(), Self::s_div_v(other.s_borrow().s_v(), rational.s_into())), *final(r) == *final(self)

=== VectorWithDegree::degree(self) -> r
requires:
    Self::s_degree_ok(self.s_v())
ensures:
    r == Self::s_degree_v(self.s_v())

=== trait VectorWithDegree
members:
    spec fn s_degree_ok(v: Self::SV) -> bool;
    spec fn s_degree_v(v: Self::SV) -> nat;
