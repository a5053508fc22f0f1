// ---------------------------------------------------------------- coefficients/mod.rs
=== trait FromDegreeType
super:
    Sized
members:
    spec fn s_from_degree(d: DegreeType) -> Self;

=== FromDegreeType::from_degree(deg) -> r
ensures:
    r == Self::s_from_degree(*deg)

=== trait CoefficientField
members:
    spec fn s_neg(self) -> Self;
    spec fn s_inv(q: Self::RationalType) -> Self;
    spec fn s_add(self, o: Self) -> Self;
    spec fn s_sub(self, o: Self) -> Self;
    spec fn s_mul(self, o: Self) -> Self;
    spec fn s_div(self, q: Self::RationalType) -> Self;
    /// a copy of a scalar is that scalar
    proof fn law_clone(a: Self, b: Self)
        requires cloned(a, b)
        ensures a == b;
    /// comparing scalars has a definite result, whichever comes first (what Rust asks of PartialEq)
    proof fn law_eq()
        ensures Self::obeys_eq_spec(), forall|a: Self, b: Self| #[trigger] a.eq_spec(&b) == b.eq_spec(&a);

=== CoefficientField::from_rational(num, denom) -> r
ensures:
    r == num.s_into().s_div(denom.s_into())

=== CoefficientField::uminus(self) -> r
ensures:
    r == self.s_neg()

=== CoefficientField::inv(arg) -> r
ensures:
    r == Self::s_inv(arg.s_borrow())

=== CoefficientField::add(self, other) -> r
ensures:
    r == self.s_add(*other)

=== CoefficientField::sub(self, other) -> r
ensures:
    r == self.s_sub(*other)

=== CoefficientField::mul(self, other) -> r
ensures:
    r == self.s_mul(*other)

=== CoefficientField::div(self, other) -> r
ensures:
    r == self.s_div(*other)

=== CoefficientField::add_inplace(self, other) -> r
ensures:
    *r == old(self).s_add(*other), *final(r) == *final(self)

=== CoefficientField::sub_inplace(self, other) -> r
ensures:
    *r == old(self).s_sub(*other), *final(r) == *final(self)

=== CoefficientField::mul_inplace(self, other) -> r
ensures:
    *r == old(self).s_mul(*other), *final(r) == *final(self)

=== CoefficientField::div_inplace(self, other) -> r
ensures:
    *r == old(self).s_div(*other), *final(r) == *final(self)

=== trait CoefficientField/wrap
