// ---------------------------------------------------------------- coefficients/floating_point_fields.rs
=== impl FromDegreeType for f32
members:
    open spec fn s_from_degree(d: DegreeType) -> Self { F32::s_int(d as int) }

=== impl CoefficientField for f32
members:
    open spec fn s_neg(self) -> Self { F32::i_neg(self) }
    open spec fn s_inv(q: F32) -> Self { F32::i_div(F32::s_int(1), q) }
    open spec fn s_add(self, o: Self) -> Self { F32::i_add(self, o) }
    open spec fn s_sub(self, o: Self) -> Self { F32::i_sub(self, o) }
    open spec fn s_mul(self, o: Self) -> Self { F32::i_mul(self, o) }
    open spec fn s_div(self, q: F32) -> Self { F32::i_div(self, q) }
    proof fn law_clone(a: Self, b: Self) { }
    proof fn law_eq() { broadcast use ax_float; }

=== CoefficientField for f32::uminus(self) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::inv(arg) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::add(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::add_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::sub(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::sub_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::mul(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::mul_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::div(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f32::div_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== FromDegreeType for f32::from_degree(deg) -> r
start:
    broadcast use ax_float;

=== impl FromDegreeType for f64
members:
    open spec fn s_from_degree(d: DegreeType) -> Self { F64::s_int(d as int) }

=== impl CoefficientField for f64
members:
    open spec fn s_neg(self) -> Self { F64::i_neg(self) }
    open spec fn s_inv(q: F64) -> Self { F64::i_div(F64::s_int(1), q) }
    open spec fn s_add(self, o: Self) -> Self { F64::i_add(self, o) }
    open spec fn s_sub(self, o: Self) -> Self { F64::i_sub(self, o) }
    open spec fn s_mul(self, o: Self) -> Self { F64::i_mul(self, o) }
    open spec fn s_div(self, q: F64) -> Self { F64::i_div(self, q) }
    proof fn law_clone(a: Self, b: Self) { }
    proof fn law_eq() { broadcast use ax_float; }

=== CoefficientField for f64::uminus(self) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::inv(arg) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::add(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::add_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::sub(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::sub_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::mul(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::mul_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::div(self, other) -> r
start:
    broadcast use ax_float;

=== CoefficientField for f64::div_inplace(self, other) -> r
start:
    broadcast use ax_float;

=== FromDegreeType for f64::from_degree(deg) -> r
start:
    broadcast use ax_float;
