// ---------------------------------------------------------------- vector/implementation/deref_impl.rs
=== impl Vector for V
members:
    type SV = <V::Target as Vector<'vec>>::SV;
    open spec fn s_v(&self) -> Self::SV { self.s_deref().s_v() }
    open spec fn s_key_ok(k: Self::KeyType) -> bool { V::Target::s_key_ok(k) }
    open spec fn s_keys_ok(p: Seq<(Self::KeyType, Self::ScalarType)>) -> bool { V::Target::s_keys_ok(p) }
    open spec fn s_is_new(v: Self::SV) -> bool { V::Target::s_is_new(v) }
    open spec fn s_is_single(v: Self::SV, k: Self::KeyType, s: Self::ScalarType) -> bool { V::Target::s_is_single(v, k, s) }
    open spec fn s_is_sum(v: Self::SV, p: Seq<(Self::KeyType, Self::ScalarType)>) -> bool { V::Target::s_is_sum(v, p) }
    open spec fn s_is_clear(v: Self::SV, w: Self::SV) -> bool { V::Target::s_is_clear(v, w) }
    open spec fn s_get(v: Self::SV, k: Self::KeyType) -> Option<Self::ScalarType> { V::Target::s_get(v, k) }
    open spec fn s_is_set(v: Self::SV, w: Self::SV, k: Self::KeyType, s: Self::ScalarType) -> bool { V::Target::s_is_set(v, w, k, s) }
    open spec fn s_is_erased(v: Self::SV, w: Self::SV, k: Self::KeyType) -> bool { V::Target::s_is_erased(v, w, k) }
    open spec fn s_neg_v(v: Self::SV) -> Self::SV { V::Target::s_neg_v(v) }
    open spec fn s_add_v(v: Self::SV, w: Self::SV) -> Self::SV { V::Target::s_add_v(v, w) }
    open spec fn s_sub_v(v: Self::SV, w: Self::SV) -> Self::SV { V::Target::s_sub_v(v, w) }
    open spec fn s_mul_v(v: Self::SV, s: Self::ScalarType) -> Self::SV { V::Target::s_mul_v(v, s) }
    open spec fn s_div_v(v: Self::SV, q: Self::RationalType) -> Self::SV { V::Target::s_div_v(v, q) }

=== Vector for V::new
start:
    broadcast use law_wrap;

=== Vector for V::from_key
start:
    broadcast use law_wrap;

=== Vector for V::from_key_scalar
start:
    broadcast use law_wrap;

=== Vector for V::from_iterator
start:
    broadcast use law_wrap;

=== Vector for V::swap
start:
    broadcast use law_wrap;

=== Vector for V::to_owned
start:
    broadcast use law_wrap;

=== Vector for V::clear
start:
    broadcast use law_wrap;

=== Vector for V::get
start:
    broadcast use law_wrap;

=== Vector for V::get_mut
start:
    broadcast use law_wrap;

=== Vector for V::insert_single
start:
    broadcast use law_wrap;

=== Vector for V::erase
start:
    broadcast use law_wrap;

=== Vector for V::uminus
start:
    broadcast use law_wrap;

=== Vector for V::add
start:
    broadcast use law_wrap;

=== Vector for V::sub
start:
    broadcast use law_wrap;

=== Vector for V::scalar_rmultiply
start:
    broadcast use law_wrap;

=== Vector for V::scalar_lmultiply
start:
    broadcast use law_wrap;

=== Vector for V::scalar_rdivide
start:
    broadcast use law_wrap;

=== Vector for V::scalar_ldivide
start:
    broadcast use law_wrap;

=== Vector for V::uminus_inplace
start:
    broadcast use law_wrap;

=== Vector for V::add_inplace
start:
    broadcast use law_wrap;

=== Vector for V::sub_inplace
start:
    broadcast use law_wrap;

=== Vector for V::scalar_lmultiply_inplace
start:
    broadcast use law_wrap;

=== Vector for V::scalar_rmultiply_inplace
start:
    broadcast use law_wrap;

=== Vector for V::scalar_rdivide_inplace
start:
    broadcast use law_wrap;

=== Vector for V::scalar_ldivide_inplace
start:
    broadcast use law_wrap;

=== Vector for V::add_scalar_rmultiply
start:
    broadcast use law_wrap;

=== Vector for V::add_scalar_lmultiply
start:
    broadcast use law_wrap;

=== Vector for V::sub_scalar_rmultiply
start:
    broadcast use law_wrap;

=== Vector for V::sub_scalar_lmultiply
start:
    broadcast use law_wrap;

=== Vector for V::add_scalar_rdivide
start:
    broadcast use law_wrap;

=== Vector for V::add_scalar_ldivide
start:
    broadcast use law_wrap;

=== Vector for V::sub_scalar_rdivide
start:
    broadcast use law_wrap;

=== Vector for V::sub_scalar_ldivide
start:
    broadcast use law_wrap;

// ---------------------------------------------------------------- free_tensor/implementation/dense.rs
=== trait OrderedBasis/wrap
omit:
    KeyIterator
members:

=== impl Deref for DenseTensor
members:
    open spec fn s_deref(&self) -> SimpleDenseVector<'a, TensorBasis<NLETTERS>, S> { self.0 }

=== impl From for DenseTensor
members:
    open spec fn s_from(t: SimpleDenseVector<'a, TensorBasis<NLETTERS>, S>) -> Self { DenseTensor(t) }

=== impl Into for DenseTensor
members:
    open spec fn s_into(self) -> SimpleDenseVector<'a, TensorBasis<NLETTERS>, S> { self.0 }

=== derive PartialEq for DenseTensor
extra:
    impl<'a, S: CoefficientField, const NLETTERS: DegreeType> vstd::std_specs::cmp::PartialEqSpecImpl for DenseTensor<'a, S, NLETTERS> {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, other: &Self) -> bool { s_veq(self.0, other.0) }
    }

=== impl PartialEq for DenseTensor
members:

=== PartialEq for DenseTensor::eq(self, other) -> r
ensures:
    r == s_veq(self.0, other.0)
